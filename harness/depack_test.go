package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func init() {
	drivers["depack"] = driveDepack
}

type depackTrack struct {
	C  string `json:"c"`
	Pt int    `json:"pt"`
}

type depackPkt struct {
	Ch  int                 `json:"ch"`
	Pt  int                 `json:"pt"`
	M   int                 `json:"m"`
	B0  int                 `json:"b0"` // the first byte: version, padding, extension, contributing sources
	P   []json.RawMessage   `json:"p"`
	Cut int                 `json:"cut"`
	Out [][]json.RawMessage `json:"out"`
}

type depackScript struct {
	Tracks []depackTrack `json:"tracks"`
	Units  []int         `json:"units"`
	Pkts   []depackPkt   `json:"pkts"`
	Seed   int64         `json:"seed"`
	Ws     bool          `json:"ws"`    // over a WebSocket
	Merge  bool          `json:"merge"` // several packets in one piece
	Hold   bool          `json:"hold"`  // the handler is slow: it holds up several packets
}

type ropes struct {
	bodies map[int][]byte
	lens   []int
	seed   int64
}

func (r *ropes) body(u int) []byte {
	if b, ok := r.bodies[u]; ok {
		return b
	}
	b := make([]byte, r.lens[u-1])
	rand.New(rand.NewSource(r.seed*1000003 + int64(u))).Read(b)
	r.bodies[u] = b
	return b
}

func (r *ropes) expand(rope []json.RawMessage) []byte {
	var out []byte
	for _, x := range rope {
		if x[0] == '{' {
			var s struct{ U, F, N int }
			if err := json.Unmarshal(x, &s); err != nil {
				panic(err)
			}
			out = append(out, r.body(s.U)[s.F:s.F+s.N]...)
			continue
		}
		var b int
		if err := json.Unmarshal(x, &b); err != nil || b < 0 || b > 255 {
			panic("not a byte: " + string(x))
		}
		out = append(out, byte(b))
	}
	return out
}

// trackSDP describes tracks so that their codecs are named as given.
func trackSDP(rng *rand.Rand, ts []depackTrack) string {
	var b strings.Builder
	b.WriteString("v=0\r\no=- 1 1 IN IP4 10.0.0.5\r\ns=x\r\nt=0 0\r\na=control:*\r\n")
	for i, t := range ts {
		kind := "video"
		if t.Pt < 20 {
			kind = "audio"
		}
		fmt.Fprintf(&b, "m=%s 0 RTP/AVP %d\r\n", kind, t.Pt)
		if t.Pt >= 96 {
			fmt.Fprintf(&b, "a=rtpmap:%d %s/90000\r\n", t.Pt, t.C)
		}
		if rng.Intn(2) == 0 && (strings.EqualFold(t.C, "H264") || strings.EqualFold(t.C, "H265")) {
			fmt.Fprintf(&b, "a=fmtp:%d packetization-mode=1; profile-level-id=42e01f\r\n", t.Pt)
		}
		fmt.Fprintf(&b, "a=control:trackID=%d\r\n", i+1)
	}
	return b.String()
}

type gotUnit struct {
	ch   int
	data []byte
	copy []byte
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%s.. (%d bytes)", hex.EncodeToString(b[:24]), len(b))
	}
	return hex.EncodeToString(b)
}

func driveDepack(raw json.RawMessage, emit func(any)) {
	var sc depackScript
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	bubble(emit, func() (any, int) {
		rng := rand.New(rand.NewSource(sc.Seed))
		fc := newFconn()
		srv := &autoServer{sdp: trackSDP(rng, sc.Tracks), send: fc.feed}
		fc.onWrite = srv.onWrite
		if sc.Ws {
			ws := &wsServer{rng: rng, fc: fc}
			ws.onMessage = srv.onWrite
			srv.send = ws.feed
			fc.onWrite = ws.onWrite
			return playDepack(&sc, rng, ws.feed, func(s *rtspclient.RtspClientSession) error {
				dialWS(fc, nil)
				return s.PlayUseWebsocket("ws://10.0.0.5/ws", "rtsp://10.0.0.5/x")
			}, func() { ws.finish(rng.Intn(2) == 0) })
		}
		return playDepack(&sc, rng, fc.feed, func(s *rtspclient.RtspClientSession) error {
			if err := s.ParsingURL("rtsp://10.0.0.5/x"); err != nil {
				return err
			}
			return s.SetConnection(fc)
		}, func() { fc.finish(nil) })
	})
}

// playDepack starts playback and feeds the packets; every packet must bring exactly its units.
func playDepack(sc *depackScript, rng *rand.Rand, feed func([]byte), play func(*rtspclient.RtspClientSession) error, finish func()) (any, int) {
	var mu sync.Mutex
	var got []gotUnit
	hold := newGate()
	discs := 0
	sess := rtspclient.NewRtspClientSession(func(d *rtspclient.RtspData) {
		mu.Lock()
		got = append(got, gotUnit{d.ChannelNum, d.Data, append([]byte(nil), d.Data...)})
		mu.Unlock()
		hold.pass()
	}, func(e *rtspclient.RtspEvent) {
		if e.EventType == rtspclient.RtspEventDisconnected {
			mu.Lock()
			discs++
			mu.Unlock()
		}
	})
	var perr error
	played := false
	go func() {
		perr = play(sess)
		mu.Lock()
		played = true
		mu.Unlock()
	}()
	synctest.Wait()
	for i := 0; i < 50; i++ {
		mu.Lock()
		p := played
		mu.Unlock()
		if p {
			break
		}
		time.Sleep(100 * time.Millisecond)
		synctest.Wait()
	}
	if !played {
		return map[string]any{"at": -1, "why": "playback does not start"}, 1
	}
	if perr != nil {
		finish()
		time.Sleep(time.Second)
		return map[string]any{"at": -1, "why": "playback does not start: " + perr.Error()}, 0
	}
	rp := &ropes{map[int][]byte{}, sc.Units, sc.Seed}
	seq := rng.Intn(65536)
	all := 0
	type exp struct {
		ch   int
		data []byte
	}
	var want []exp
	check := func(at int, early bool) string {
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		if len(got) > all+len(want) {
			u := got[all+len(want)]
			return fmt.Sprintf("packet %d: unit nobody sent (or too early) on channel %d: %s", at, u.ch, short(u.data))
		}
		for i, w := range want {
			if all+i >= len(got) {
				return fmt.Sprintf("packet %d: unit missing on channel %d: %s", at, w.ch, short(w.data))
			}
			u := got[all+i]
			if u.ch != w.ch {
				return fmt.Sprintf("packet %d: unit on channel %d instead of %d", at, u.ch, w.ch)
			}
			if !bytes.Equal(u.copy, w.data) {
				return fmt.Sprintf("packet %d: unit on channel %d is %s, sent was %s", at, u.ch, short(u.copy), short(w.data))
			}
		}
		all += len(want)
		want = nil
		return ""
	}
	pieces := func(b []byte) {
		for len(b) > 0 {
			x := len(b)
			if rng.Intn(3) == 0 {
				x = 1 + rng.Intn(len(b))
			}
			feed(b[:x])
			b = b[x:]
		}
	}
	why := ""
	npkt, nunit := 0, 0
	holdFor := 0
	var merged []byte
	for i, p := range sc.Pkts {
		h := make([]byte, 12)
		h[0] = byte(p.B0)
		h[1] = byte(p.M<<7 | p.Pt)
		binary.BigEndian.PutUint16(h[2:], uint16(seq))
		seq++
		rng.Read(h[4:12])
		pl := rp.expand(p.P)
		if p.Cut < 12 {
			h = h[:p.Cut]
		}
		f := frame(p.Ch, append(h, pl...))
		for _, o := range p.Out {
			want = append(want, exp{p.Ch, rp.expand(o)})
		}
		npkt++
		nunit += len(p.Out)
		if sc.Hold && holdFor == 0 {
			holdFor = 1 + rng.Intn(6)
			if sc.Merge {
				holdFor += rng.Intn(30)
			}
			hold.set(true)
		}
		if sc.Hold {
			if sc.Merge {
				merged = append(merged, f...)
			} else {
				pieces(f)
			}
			holdFor--
			if holdFor > 0 && i+1 < len(sc.Pkts) {
				continue
			}
			if sc.Merge {
				feed(merged)
				merged = nil
			}
			synctest.Wait()
			hold.set(false)
			holdFor = 0
			if why = check(i, false); why != "" {
				break
			}
			continue
		}
		if rng.Intn(4) == 0 {
			// all but the last byte: nothing yet
			pieces(f[:len(f)-1])
			w := want
			want = nil
			if why = check(i, true); why != "" {
				break
			}
			want = w
			feed(f[len(f)-1:])
		} else {
			pieces(f)
		}
		if why = check(i, false); why != "" {
			break
		}
	}
	hold.set(false)
	// units that were handed over stay as they were
	synctest.Wait()
	mu.Lock()
	for i, u := range got {
		if why == "" && !bytes.Equal(u.data, u.copy) {
			why = fmt.Sprintf("unit %d was changed after it was handed over", i)
		}
	}
	mu.Unlock()
	finish()
	synctest.Wait()
	time.Sleep(10 * time.Second)
	synctest.Wait()
	if why == "" && len(got) != all {
		why = "unit nobody sent after the end"
	}
	return map[string]any{"why": why, "pkts": npkt, "units": nunit}, 0
}
