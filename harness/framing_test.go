package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"testing/synctest"

	"github.com/NodeBoy2/rtspclient"
	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

func init() { drivers["framing"] = driveFraming }

type framMsg struct {
	K string `json:"k"`
	H int    `json:"h"`
	B int    `json:"b"`
	V int    `json:"v"`
}

type framStep struct {
	A string `json:"a"`
	N int    `json:"n"`
}

type framScript struct {
	Msgs  []framMsg  `json:"msgs"`
	Steps []framStep `json:"steps"`
	Seed  int64      `json:"seed"`
	Reads int        `json:"reads"` // how a step's bytes are cut into reads: 0 one piece, 1 random, 2 single bytes
}

var bodyBits = []string{"$", "$\x00\x00\x05", "RTSP/1.0 200 OK\r\n\r\n", "rtsp", "\r\n\r\n", "\r\n", "\x00", "Content-length: 7\r\n", "\xff\xfe"}

func randBody(rng *rand.Rand, n int) []byte {
	b := make([]byte, 0, n+32)
	for len(b) < n {
		if rng.Intn(3) == 0 {
			b = append(b, bodyBits[rng.Intn(len(bodyBits))]...)
		} else {
			k := 1 + rng.Intn(20)
			for i := 0; i < k; i++ {
				b = append(b, byte(rng.Intn(256)))
			}
		}
	}
	return b[:n]
}

// makeMessage writes out an abstract message. The response's header has exactly m.H bytes.
func makeMessage(rng *rand.Rand, m framMsg) []byte {
	if m.K == "f" {
		b := []byte{'$', byte(rng.Intn(256)), 0, 0}
		binary.BigEndian.PutUint16(b[2:], uint16(m.B))
		return append(b, randBody(rng, m.B)...)
	}
	first := []string{"RTSP/1.0 200 OK", "rtsp/1.0 200 OK", "RTSP/1.0 404 Not Found", "RTSP/1.0 401 Unauthorized", "RTSP/1.0 454 Session Not Found"}[m.V%5]
	var lines []string
	if m.B > 0 || m.V%3 == 0 {
		cl := []string{"Content-length: %d", "Content-Length: %d", "content-length:%d", "CONTENT-LENGTH:\t %d", "Content-Length : %d\t", "Content-length: %05d"}[m.V%6]
		lines = append(lines, fmt.Sprintf(cl, m.B))
	}
	if m.V%2 == 1 {
		other := []string{"CSeq: 3", "X-Content-length: 4711", "Content-Base: rtsp://10.0.0.1:554/a b/", "Session: 12;timeout=60", "no colon here", "Date: Thu, 19 Nov 2026 10:00:00 GMT"}[(m.V/2)%6]
		if m.V > 6 {
			lines = append(lines, other)
		} else {
			lines = append([]string{other}, lines...)
		}
	}
	build := func() string {
		return first + "\r\n" + strings.Join(append(append([]string{}, lines...), ""), "\r\n") + "\r\n"
	}
	// fill up to the wanted length; leave out what does not fit
	for len(build()) > m.H && len(lines) > 0 && !(m.B > 0 && len(lines) == 1) {
		for i := range lines {
			if m.B == 0 || !strings.EqualFold(strings.TrimSpace(strings.SplitN(lines[i], ":", 2)[0]), "content-length") {
				lines = append(lines[:i], lines[i+1:]...)
				break
			}
		}
	}
	if len(build()) > m.H {
		first = "RTSP/1.0 200 OK"
	}
	if d := m.H - len(build()); d > 0 {
		if d >= 7 && rng.Intn(2) == 0 {
			pad := "X-P: " + strings.Repeat("p", d-7)
			lines = append(lines, pad)
		} else {
			first += strings.Repeat("x", d) // a longer reason phrase
		}
	}
	s := build()
	if len(s) != m.H {
		panic(fmt.Sprintf("header has %d bytes, wanted %d", len(s), m.H))
	}
	return append([]byte(s), randBody(rng, m.B)...)
}

func driveFraming(raw json.RawMessage, emit func(any)) {
	var sc framScript
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	bubble(emit, func() (any, int) {
		rng := rand.New(rand.NewSource(sc.Seed))
		var want [][]byte
		var stream []byte
		for _, m := range sc.Msgs {
			b := makeMessage(rng, m)
			want = append(want, b)
			stream = append(stream, b...)
		}
		fc := newFconn()
		out := []int{}
		disc := false
		nd := 0
		var kept, copies [][]byte
		conn := tcpnetwork.NewConnection(fc, 10, func(e *tcpnetwork.ConnEvent) {
			switch e.EventType {
			case tcpnetwork.ConnEventData:
				id := -1
				if nd < len(want) && bytes.Equal(want[nd], e.Data) {
					id = nd + 1
				}
				nd++
				kept, copies = append(kept, e.Data), append(copies, append([]byte(nil), e.Data...))
				out = append(out, id)
			case tcpnetwork.ConnEventDisconnected:
				disc = true
			}
		})
		conn.SetStreamProtocol(&rtspclient.RTPStreamProtocol{})
		conn.Run()
		synctest.Wait()
		lines := []any{}
		obs := func() {
			synctest.Wait()
			for i := range kept {
				if !bytes.Equal(kept[i], copies[i]) {
					out = append(out, -2) // a message changed after it was delivered
				}
			}
			lines = append(lines, map[string]any{"a": "obs", "out": out, "disc": disc})
			out, disc = []int{}, false
		}
		pos := 0
		for _, st := range sc.Steps {
			lines = append(lines, map[string]any{"a": "feed", "n": st.N})
			part := stream[pos : pos+st.N]
			pos += st.N
			for len(part) > 0 {
				x := len(part)
				if sc.Reads == 2 {
					x = 1
				} else if sc.Reads == 1 && len(part) > 1 {
					x = 1 + rng.Intn(len(part))
				}
				fc.feed(part[:x])
				part = part[x:]
			}
			obs()
		}
		lines = append(lines, map[string]any{"a": "close"})
		fc.finish(nil)
		obs()
		return map[string]any{"msgs": sc.Msgs, "lines": lines}, 0
	})
}
