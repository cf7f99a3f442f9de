package harness

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
	"sync"
)

// autoServer answers every request on its connection at once: DESCRIBE with a session description,
// SETUP with a session id, anything else with 200.
type autoServer struct {
	mu     sync.Mutex
	buf    []byte
	sdp    string
	reqs   []string
	answer func(method, req string) (string, bool) // overrides
	send   func([]byte)
}

var cseqLine = regexp.MustCompile(`(?im)^CSeq: *(\d+)`)

func (s *autoServer) onWrite(b []byte) {
	s.mu.Lock()
	s.buf = append(s.buf, b...)
	var out []byte
	for {
		i := bytes.Index(s.buf, []byte("\r\n\r\n"))
		if i < 0 {
			break
		}
		req := string(s.buf[:i+4])
		s.buf = s.buf[i+4:]
		s.reqs = append(s.reqs, req)
		out = append(out, s.replyTo(req)...)
	}
	s.mu.Unlock()
	if len(out) > 0 {
		s.send(out)
	}
}

func (s *autoServer) replyTo(req string) string {
	method := strings.SplitN(req, " ", 2)[0]
	if s.answer != nil {
		if r, ok := s.answer(method, req); ok {
			return r
		}
	}
	cseq := ""
	if m := cseqLine.FindStringSubmatch(req); m != nil {
		cseq = m[1]
	}
	switch method {
	case "DESCRIBE":
		return fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: %s\r\nContent-Type: application/sdp\r\nContent-Length: %d\r\n\r\n%s", cseq, len(s.sdp), s.sdp)
	case "SETUP":
		return fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: %s\r\nSession: 12345678;timeout=60\r\nTransport: RTP/AVP/TCP;unicast;interleaved=0-1\r\n\r\n", cseq)
	}
	return fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: %s\r\nSession: 12345678\r\n\r\n", cseq)
}
