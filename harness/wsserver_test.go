package harness

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"

	"github.com/gorilla/websocket"
)

// wsServer is the server side of a WebSocket on an fconn: it answers the upgrade, hands the payload of
// each binary message of the client to onMessage and sends bytes as messages cut in any way.
type wsServer struct {
	mu        sync.Mutex
	rng       *rand.Rand
	fc        *fconn
	buf       []byte
	open      bool
	refuse    string // answer to the upgrade request instead; "-": none but the end, "~": nothing at all
	msg       []byte
	inMsg     bool
	got       []string // what the client sent besides whole binary messages
	onMessage func([]byte)
	onOpen    func()
	plain     bool // no control frames of our own
	closing   bool
}

func (s *wsServer) accept(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

func (s *wsServer) onWrite(b []byte) {
	s.mu.Lock()
	s.buf = append(s.buf, b...)
	var ms [][]byte
	opened := false
	if !s.open {
		i := bytes.Index(s.buf, []byte("\r\n\r\n"))
		if i < 0 {
			s.mu.Unlock()
			return
		}
		req, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(s.buf[:i+4])))
		if err != nil || !strings.EqualFold(req.Header.Get("Upgrade"), "websocket") {
			panic("no upgrade request: " + string(s.buf))
		}
		s.buf = s.buf[i+4:]
		if s.refuse != "" {
			ans := s.refuse
			s.mu.Unlock()
			if ans == "~" {
				return
			}
			if ans != "-" {
				s.fc.feed([]byte(ans))
			}
			s.fc.finish(nil)
			return
		}
		s.open, opened = true, true
		s.fc.feed([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + s.accept(req.Header.Get("Sec-WebSocket-Key")) + "\r\n\r\n"))
	}
	for {
		fin, op, payload, n := s.parse()
		if n == 0 {
			break
		}
		s.buf = s.buf[n:]
		switch {
		case op == 2 && !s.inMsg, op == 0 && s.inMsg:
			s.msg = append(s.msg, payload...)
			s.inMsg = !fin
			if fin {
				ms = append(ms, s.msg)
				s.msg = nil
			}
		case op == 8:
			s.closing = true
		case op == 10:
		default:
			s.got = append(s.got, "frame with opcode "+string(rune('0'+op)))
			ms = append(ms, nil)
		}
	}
	s.mu.Unlock()
	if opened && s.onOpen != nil {
		s.onOpen()
	}
	for _, m := range ms {
		s.onMessage(m)
	}
}

// parse takes a client frame off the buffer; n is 0 if it is not complete.
func (s *wsServer) parse() (fin bool, op int, payload []byte, n int) {
	b := s.buf
	if len(b) < 2 {
		return
	}
	l, p := int(b[1]&0x7f), 2
	switch l {
	case 126:
		if len(b) < 4 {
			return
		}
		l, p = int(binary.BigEndian.Uint16(b[2:])), 4
	case 127:
		if len(b) < 10 {
			return
		}
		l, p = int(binary.BigEndian.Uint64(b[2:])), 10
	}
	if b[1]&0x80 == 0 {
		s.got = append(s.got, "unmasked frame")
		return b[0]&0x80 != 0, 15, nil, len(b)
	}
	if len(b) < p+4+l {
		return
	}
	payload = make([]byte, l)
	for i := range payload {
		payload[i] = b[p+4+i] ^ b[p+i%4]
	}
	return b[0]&0x80 != 0, int(b[0] & 15), payload, p + 4 + l
}

func wsFrame(fin bool, op int, payload []byte) []byte {
	b := []byte{byte(op), 0}
	if fin {
		b[0] |= 0x80
	}
	switch l := len(payload); {
	case l < 126:
		b[1] = byte(l)
	case l < 65536:
		b[1] = 126
		b = binary.BigEndian.AppendUint16(b, uint16(l))
	default:
		b[1] = 127
		b = binary.BigEndian.AppendUint64(b, uint64(l))
	}
	return append(b, payload...)
}

// message is one binary message, perhaps in several frames, perhaps with control frames around them
func (s *wsServer) message(b []byte) []byte {
	var out []byte
	op := 2
	for {
		x := len(b)
		if x > 1 && s.rng.Intn(6) == 0 {
			x = 1 + s.rng.Intn(x)
		}
		if !s.plain && s.rng.Intn(12) == 0 {
			out = append(out, wsFrame(true, pick(s.rng, 9, 10), []byte(pick(s.rng, "", "ping", "RTSP/1.0 200 OK\r\n\r\n")))...)
		}
		out = append(out, wsFrame(x == len(b), op, b[:x])...)
		b = b[x:]
		op = 0
		if len(b) == 0 {
			return out
		}
	}
}

// feed sends the bytes as messages
func (s *wsServer) feed(b []byte) {
	var out []byte
	mode := s.rng.Intn(5)
	for len(b) > 0 {
		x := len(b)
		switch mode {
		case 0:
			x = 1 + s.rng.Intn(min(len(b), 20))
			if len(b) > 3000 {
				x = 1 + s.rng.Intn(len(b))
			}
		case 1:
			x = 1 + s.rng.Intn(len(b))
		case 2: // in the middle of header and payload of an interleaved frame
			x = min(len(b), 1+s.rng.Intn(6))
			if len(b) > 3000 {
				x = len(b) - s.rng.Intn(6)
			}
		}
		if s.rng.Intn(15) == 0 {
			out = append(out, s.message(nil)...)
		}
		out = append(out, s.message(b[:x])...)
		b = b[x:]
	}
	// the frames in turn are cut into reads
	for len(out) > 0 {
		x := len(out)
		if mode != 3 && len(out) < 100000 {
			x = 1 + s.rng.Intn(len(out))
		}
		s.fc.feed(out[:x])
		out = out[x:]
	}
}

// finish ends the stream, politely or not
func (s *wsServer) finish(polite bool) {
	if polite {
		s.fc.feed(wsFrame(true, 8, pick(s.rng, []byte{0x03, 0xe8}, []byte{}, []byte("\x03\xe9going away"))))
	}
	s.fc.finish(pick(s.rng, io.EOF, errors.New("fake: reset")))
}

// dialWS makes the next WebSocket of the library end at c (or fail)
func dialWS(c net.Conn, err error) {
	websocket.DefaultDialer.Proxy = nil
	websocket.DefaultDialer.NetDial = func(network, addr string) (net.Conn, error) {
		if err != nil {
			return nil, err
		}
		return c, nil
	}
}

func (s *wsServer) isOpen() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.open
}
