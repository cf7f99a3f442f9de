package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

func init() { drivers["conn"] = driveConn }

type connStep struct {
	A    string `json:"a"`
	C    int    `json:"c,omitempty"`
	Ids  []int  `json:"ids,omitempty"`
	Copy bool   `json:"copy,omitempty"`
	N    int    `json:"n"`
	Ph   int    `json:"ph"`
	M    string `json:"m,omitempty"`
	B    bool   `json:"b"`
	X    string `json:"x,omitempty"`
	D    int    `json:"d,omitempty"`
	NW   bool   `json:"nw,omitempty"`
}

type connScript struct {
	Cap   int        `json:"cap"`
	Rto   int        `json:"rto"` // ms
	Proto string     `json:"proto"`
	Seed  int64      `json:"seed"`
	Steps []connStep `json:"steps"`
}

type connObs struct {
	A      string   `json:"a"`
	Ev     []string `json:"ev"`
	Ret    []int    `json:"ret"`
	Wr     []int    `json:"wr"`
	Tail   int      `json:"tail"`
	St     int      `json:"st"`
	Closed bool     `json:"closed"`
	Leak   int      `json:"leak"`
}

// protocols of the connection under test. GetContentLength is where a protocol panic is planted.
type testProto struct {
	kind string
	ser  bool
	c    *connCase
}

func (p *testProto) Init() {}
func (p *testProto) GetHeaderLength() int {
	switch p.kind {
	case "len2":
		return 2
	case "term", "tcon":
		return 1
	case "raw":
		if p.c.hasBoom || p.c.sc.Seed%4 < 2 {
			return 3
		}
		return 0
	default:
		return 4
	}
}
func (p *testProto) UnserializeHeader(h []byte) (int, []byte) {
	p.c.protoBoom()
	switch p.kind {
	case "len2":
		return int(binary.BigEndian.Uint16(h)), nil
	case "term", "tcon":
		return 0, []byte("\r\n")
	case "raw": // whatever has arrived
		return -1, nil
	default: // 'L' body length(1) content length(2)
		return int(h[1]), nil
	}
}
func (p *testProto) SerializeHeader(b []byte) []byte {
	p.c.serGate.pass()
	if !p.ser {
		return nil
	}
	h := make([]byte, 6)
	h[0], h[1] = 0xA5, 0x5A
	binary.BigEndian.PutUint32(h[2:], uint32(len(b)))
	return h
}
func (p *testProto) GetContentLength(b []byte) int {
	if p.kind == "cont" {
		return int(binary.BigEndian.Uint16(b[2:4]))
	}
	if p.kind == "tcon" { // 'C' number(4) content length(4, hex) anything CR LF content
		n, _ := strconv.ParseUint(string(b[5:9]), 16, 32)
		return int(n)
	}
	return 0
}

type connCase struct {
	sc      connScript
	rng     *rand.Rand
	conn    *tcpnetwork.Connection
	fc      *fconn
	serGate *gate
	hGate   *gate
	mu      sync.Mutex
	boom    string
	ev      []string
	ret     []int
	pending int
	sent    map[int][]byte // message id -> content
	wOff    int            // parsed part of fc.written
	wBad    bool
	in      [][]byte // messages of the peer
	inNext  int      // next message to be completed
	inOff   int      // bytes of it already fed
	inCuts  int
	disc    bool
	hasBoom bool
	empty   int // id of the empty message, if there is one
}

func (k *connCase) protoBoom() {
	k.mu.Lock()
	b := k.boom == "proto"
	if b {
		k.boom = ""
	}
	k.mu.Unlock()
	if b {
		panic("planted protocol panic")
	}
}

func (k *connCase) handler(e *tcpnetwork.ConnEvent) {
	name := "?"
	k.mu.Lock()
	switch e.EventType {
	case tcpnetwork.ConnEventConnected:
		name = "conn"
	case tcpnetwork.ConnEventDisconnected:
		name = "disc"
		k.disc = true
	case tcpnetwork.ConnEventData:
		for i, m := range k.in {
			if bytes.Equal(m, e.Data) {
				name = fmt.Sprint(i + 1)
				break
			}
		}
	}
	if e.Conn != k.conn {
		name += "!"
	}
	k.ev = append(k.ev, name)
	tooMany(len(k.ev))
	k.mu.Unlock()
	k.hGate.pass()
	if name != "disc" {
		k.mu.Lock()
		b := k.boom == "handler"
		if b {
			k.boom = ""
		}
		k.mu.Unlock()
		if b {
			panic("planted handler panic")
		}
	}
}

// peerMessage makes the i-th message of the peer (unique content).
func (k *connCase) peerMessage(i int) []byte {
	n := k.rng.Intn(12)
	switch k.rng.Intn(12) {
	case 0:
		n = 200 + k.rng.Intn(400)
	case 1:
		if k.sc.Proto == "len2" {
			n = []int{65535, 65534, 65533, 32768, 32767}[k.rng.Intn(5)]
		} else if k.sc.Proto == "cont" {
			n = []int{65535 - 4 - 8, 60000, 32768}[k.rng.Intn(3)]
		} else {
			n = []int{65535 - 1 - 2, 60000}[k.rng.Intn(2)]
		}
	}
	id := []byte(fmt.Sprintf("%04d", i))
	if n < 4 {
		n = 4
	}
	if k.sc.Proto == "raw" && n > 60000 {
		n = 60000
	}
	body := make([]byte, n)
	for j := range body {
		body[j] = byte('a' + k.rng.Intn(26))
	}
	switch k.sc.Proto {
	case "len2":
		copy(body, id)
		return append([]byte{byte(n >> 8), byte(n)}, body...)
	case "raw":
		copy(body, id)
		return append([]byte("raw"), body...)
	case "term":
		copy(body, id)
		if len(body) > 65535-3 {
			body = body[:65535-3]
		}
		// a lone CR or LF inside must not end it
		if n > 8 {
			body[5], body[7] = '\r', '\n'
		}
		return append(append([]byte("T"), body...), "\r\n"...)
	case "tcon":
		bl, cl := k.rng.Intn(30), n-4
		if cl > 65535-60 {
			cl = 65535 - 11 - bl
		}
		return append(append([]byte("C"+string(id)+fmt.Sprintf("%04x", cl)), body[:min(bl, n)]...), append([]byte("\r\n"), body[:cl]...)...)
	default:
		bl := 4 + k.rng.Intn(5)
		cl := n - 4
		m := []byte{'L', byte(bl), byte(cl >> 8), byte(cl)}
		b := make([]byte, bl)
		copy(b, id)
		m = append(m, b...)
		return append(m, body[:cl]...)
	}
}

// parts returns where the header, the body and the content of m end.
func (k *connCase) parts(m []byte) [3]int {
	hl := (&testProto{kind: k.sc.Proto, c: k}).GetHeaderLength()
	if k.sc.Proto == "cont" {
		return [3]int{hl, hl + int(m[1]), len(m)}
	}
	if k.sc.Proto == "tcon" {
		return [3]int{hl, bytes.Index(m, []byte("\r\n")) + 2, len(m)}
	}
	return [3]int{hl, len(m), len(m)}
}

// feed completes n further messages, or (0) feeds a part of the next one so that the given
// number of its parts is complete (if it can be); it returns how many are.
func (k *connCase) feed(n, ph int) int {
	var buf []byte
	ret := 0
	if n == 0 {
		// some bytes of the next message, never all of it
		for len(k.in) <= k.inNext {
			k.in = append(k.in, k.peerMessage(len(k.in)+1))
		}
		m := k.in[k.inNext]
		end := k.parts(m)
		if k.hasBoom || k.sc.Proto == "raw" {
			ph = 0
		}
		for ph > 0 && end[ph-1] == len(m) {
			ph--
		}
		min, max := k.inOff, end[ph]-1
		if ph > 0 && end[ph-1] > min {
			min = end[ph-1]
		}
		if min <= max {
			x := min + k.rng.Intn(max-min+1)
			if k.sc.Seed%3 == 0 && x > min+2 {
				x = min + k.rng.Intn(3)
			}
			buf = append(buf, m[k.inOff:x]...)
			k.inOff = x
		}
		for ret < 2 && k.inOff >= end[ret] {
			ret++
		}
		if k.sc.Proto == "raw" {
			ret = 0
		}
	}
	for i := 0; i < n; i++ {
		for len(k.in) <= k.inNext {
			k.in = append(k.in, k.peerMessage(len(k.in)+1))
		}
		if k.sc.Proto == "raw" {
			// a message is what one read gives
			k.fc.feed(k.in[k.inNext][k.inOff:])
		} else {
			buf = append(buf, k.in[k.inNext][k.inOff:]...)
		}
		k.inNext++
		k.inOff = 0
	}
	// any cut into reads
	for len(buf) > 0 {
		x := len(buf)
		switch k.rng.Intn(4) {
		case 0:
			x = 1 + k.rng.Intn(len(buf))
		case 1:
			x = 1 + k.rng.Intn(3)
			if x > len(buf) {
				x = len(buf)
			}
		}
		if len(buf) > 3000 && x < 1000 {
			x = len(buf) / 2
		}
		k.fc.feed(buf[:x])
		buf = buf[x:]
	}
	return ret
}

func (k *connCase) content(id int) []byte {
	n := 8 + k.rng.Intn(40)
	if k.sc.Seed%2 == 1 && k.empty == 0 && k.rng.Intn(8) == 0 {
		// only one in a script, and only its header tells that it was written
		k.empty = id
		return []byte{}
	}
	switch k.rng.Intn(10) {
	case 0:
		n = 4000 + k.rng.Intn(200)
	case 1:
		n = 65535 + k.rng.Intn(3) - 1
	case 2:
		if k.rng.Intn(4) == 0 {
			n = 200000
		}
	}
	b := make([]byte, n)
	k.rng.Read(b)
	binary.BigEndian.PutUint32(b, uint32(id))
	binary.BigEndian.PutUint32(b[4:], uint32(n))
	return b
}

func (k *connCase) send(st connStep) {
	bufs := make([][]byte, len(st.Ids))
	for i, id := range st.Ids {
		b := k.content(id)
		k.sent[id] = b
		bufs[i] = append([]byte{}, b...)
	}
	var shared []byte
	if st.Copy {
		shared = make([]byte, 200000)
	}
	k.mu.Lock()
	k.pending++
	k.mu.Unlock()
	conn := k.conn
	go func() {
		for _, b := range bufs {
			if st.Copy {
				// the buffer is reused right after Send returns
				x := shared[:copy(shared, b)]
				conn.Send(x, true)
				for j := range x {
					x[j] = 0xEE
				}
			} else {
				conn.Send(b, false)
			}
		}
		k.done(st.C)
	}()
}

func (k *connCase) done(c int) {
	k.mu.Lock()
	k.ret = append(k.ret, c)
	k.pending--
	k.mu.Unlock()
}

func (k *connCase) parseWritten() ([]int, int) {
	wr := []int{}
	if k.wBad {
		return wr, 0
	}
	k.fc.mu.Lock()
	w := k.fc.written
	k.fc.mu.Unlock()
	hl := 0
	if k.sc.Seed%2 == 1 {
		hl = 6
	}
	for {
		rest := w[k.wOff:]
		if len(rest) == 0 {
			return wr, 0
		}
		if hl > 0 && k.empty != 0 && len(rest) >= hl && bytes.Equal(rest[:hl], []byte{0xA5, 0x5A, 0, 0, 0, 0}) {
			wr = append(wr, k.empty)
			k.wOff += hl
			continue
		}
		if len(rest) < hl+8 {
			return wr, -9
		}
		id := int(binary.BigEndian.Uint32(rest[hl:]))
		n := int(binary.BigEndian.Uint32(rest[hl+4:]))
		want, ok := k.sent[id]
		if !ok || len(want) != n {
			k.wBad = true
			return append(wr, -1), 0
		}
		full := want
		if hl > 0 {
			h := []byte{0xA5, 0x5A, 0, 0, 0, 0}
			binary.BigEndian.PutUint32(h[2:], uint32(n))
			full = append(h, want...)
		}
		if len(rest) < len(full) {
			if !bytes.HasPrefix(full, rest) {
				k.wBad = true
				return append(wr, -1), 0
			}
			return wr, id
		}
		if !bytes.HasPrefix(rest, full) {
			k.wBad = true
			return append(wr, -1), 0
		}
		wr = append(wr, id)
		k.wOff += len(full)
	}
}

func (k *connCase) observe() connObs {
	synctest.Wait()
	k.mu.Lock()
	o := connObs{A: "obs", Ev: k.ev, Ret: k.ret}
	k.ev, k.ret = []string{}, []int{}
	disc := k.disc
	k.mu.Unlock()
	sort.Ints(o.Ret)
	o.Wr, o.Tail = k.parseWritten()
	o.St = k.conn.GetStatus()
	o.Closed = k.fc.isClosed()
	if disc {
		o.Leak = libGoroutines()
	}
	return o
}

func driveConn(raw json.RawMessage, emit func(any)) {
	var sc connScript
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	bubble(emit, func() (any, int) {
		k := &connCase{sc: sc, rng: rand.New(rand.NewSource(sc.Seed)), fc: newFconn(), serGate: newGate(), hGate: newGate(),
			sent: map[int][]byte{}, ev: []string{}, ret: []int{}}
		for _, st := range sc.Steps {
			if st.A == "boom" {
				k.hasBoom = true
			}
		}
		k.conn = tcpnetwork.NewConnection(k.fc, sc.Cap, k.handler)
		k.conn.SetStreamProtocol(&testProto{kind: sc.Proto, ser: sc.Seed%2 == 1, c: k})
		if sc.Rto != 0 {
			k.conn.SetReadTimeoutSec(sc.Rto / 1000)
		}
		if k.conn.GetReadTimeoutSec() != sc.Rto/1000 {
			k.ev = append(k.ev, "read timeout not kept")
		}
		lines := []any{}
		ran := false
		do := func(st connStep) {
			if st.A == "feed" {
				st.Ph = k.feed(st.N, st.Ph)
			}
			lines = append(lines, st)
			switch st.A {
			case "run":
				ran = true
				k.conn.Run()
			case "send":
				k.send(st)
			case "close":
				k.mu.Lock()
				k.pending++
				k.mu.Unlock()
				go func() { k.conn.Close(); k.done(st.C) }()
			case "feed":
			case "end":
				k.fc.finish([]error{io.EOF, errors.New("fake: reset")}[k.rng.Intn(2)])
			case "writes":
				k.fc.setWrites(st.M, k.rng.Intn(30))
			case "hold":
				k.hGate.set(st.B)
			case "holdser":
				k.serGate.set(st.B)
			case "holdclose":
				k.fc.setHoldClose(st.B)
			case "boom":
				k.mu.Lock()
				k.boom = st.X
				k.mu.Unlock()
			case "tick":
				time.Sleep(time.Duration(st.D) * time.Millisecond)
			default:
				panic("unknown step " + st.A)
			}
			if !st.NW {
				lines = append(lines, k.observe())
			}
		}
		for _, st := range sc.Steps {
			do(st)
		}
		// standard ending: everything is released and the peer goes away
		lines = append(lines, k.observe())
		do(connStep{A: "holdclose"})
		do(connStep{A: "holdser"})
		do(connStep{A: "hold"})
		if ran {
			do(connStep{A: "end"})
		}
		do(connStep{A: "tick", D: 5000})
		do(connStep{A: "tick", D: 30000})
		k.mu.Lock()
		p := k.pending
		k.mu.Unlock()
		return map[string]any{"cap": sc.Cap, "rto": sc.Rto, "lines": lines}, p
	})
}
