package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing/synctest"
	"time"

	rtspclient "github.com/NodeBoy2/rtspclient"
)

func init() { drivers["havoc"] = driveHavoc }

// havoc renders the hostile servers of spec/Havoc.tla.
type havoc struct {
	*sessCase
	rng *rand.Rand
}

var nasty = []string{"", " ", ",", ";", "=", ";=;", "==", "-1", "0", "1", "99999999999999999999", "4294967296", "2147483648", "-", "/", "a/b/c/d", "//", ":", "\"",
	"\"\"", "\x00", "\xff", "a=b", "96", "96 ", " 96", "H264/", "/90000", "*", "%d", "%s%n", "..", "@", "640", "640,", ",480", "640x480", "1e9", "NaN", "0x10", "\t", "é", "ÿ\x80"}

func (h *havoc) token() string {
	switch h.rng.Intn(6) {
	case 0:
		return strings.Repeat(nasty[h.rng.Intn(len(nasty))], 1+h.rng.Intn(6))
	case 1:
		return nasty[h.rng.Intn(len(nasty))] + nasty[h.rng.Intn(len(nasty))]
	case 2:
		return strings.Repeat("z", h.rng.Intn(3000))
	}
	return nasty[h.rng.Intn(len(nasty))]
}

func (h *havoc) mutate(s string) string {
	b := []byte(s)
	for n := 1 + h.rng.Intn(4); n > 0 && len(b) > 0; n-- {
		i := h.rng.Intn(len(b))
		switch h.rng.Intn(6) {
		case 0:
			b[i] ^= 1 << h.rng.Intn(8)
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append(b[:i:i], append([]byte(h.token()), b[i:]...)...)
		case 3:
			j := i + h.rng.Intn(min(40, len(b)-i))
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := i + h.rng.Intn(min(40, len(b)-i))
			b = append(b[:j:j], b[i:]...)
		case 5:
			b[i] = byte(h.rng.Intn(256))
		}
	}
	return string(b)
}

// richSDP is a description with every line the client looks at
func (h *havoc) richSDP() []string {
	v := func() string { return h.token() }
	ls := []string{"v=0", "o=- 1 1 IN IP4 10.0.0.5", "s=x", "i=info", "u=http://x/", "e=a@b", "p=+1", "c=IN IP4 224.2.1.1/127/3", "b=AS:500", "t=2873397496 2873404696",
		"r=7d 1h 0 25h", "z=2882844526 -1h 2898848070 0", "k=clear:abc", "a=control:*", "a=range:npt=0-", "a=tool:" + v(),
		"m=video 0 RTP/AVP 96", "c=IN IP4 0.0.0.0", "b=AS:500", "a=rtpmap:96 H264/90000", "a=fmtp:96 packetization-mode=1;profile-level-id=4D0029; sprop-parameter-sets=Z00AKZpmA8ARPyzUBAQFAAADA+gAAMNQBA==,aO48gA==",
		"a=x-dimensions:1280,720", "a=framerate:25.0", "a=x-framerate:25", "a=control:trackID=1", "a=recvonly",
		"m=audio 0 RTP/AVP 97 0", "a=rtpmap:97 MPEG4-GENERIC/48000/2", "a=fmtp:97 streamtype=5; mode=AAC-hbr;config=1190", "a=control:rtsp://10.0.0.5/x/trackID=2",
		"m=audio 0 RTP/AVP 0", "a=control:trackID=3", "m=video 0 RTP/AVP 98", "a=rtpmap:98 H265/90000", "a=control:trackID=4"}
	return ls
}

func (h *havoc) badDescription() string {
	ls := h.richSDP()
	for n := 1 + h.rng.Intn(3); n > 0; n-- {
		i := h.rng.Intn(len(ls))
		if h.rng.Intn(2) == 0 {
			// an attribute or the media line
			for n := 0; n < 30 && !strings.HasPrefix(ls[i], "a=") && !strings.HasPrefix(ls[i], "m="); n++ {
				i = h.rng.Intn(len(ls))
			}
		}
		switch h.rng.Intn(9) {
		case 0:
			ls = append(ls[:i:i], ls[i+1:]...)
		case 1:
			ls = append(ls[:i:i], append([]string{ls[h.rng.Intn(len(ls))]}, ls[i:]...)...)
		case 2:
			ls[i] = ls[i][:h.rng.Intn(len(ls[i])+1)]
		case 3:
			if x := strings.IndexAny(ls[i], ":="); x >= 0 {
				if y := strings.IndexByte(ls[i], ':'); y > 0 {
					x = y
				}
				ls[i] = ls[i][:x+1] + h.token()
			}
		case 4:
			fs := strings.FieldsFunc(ls[i], func(r rune) bool { return strings.ContainsRune(" /;,:", r) })
			if len(fs) > 0 {
				ls[i] = strings.Replace(ls[i], fs[h.rng.Intn(len(fs))], h.token(), 1)
			}
		case 5:
			ls[i] = h.mutate(ls[i])
		case 6:
			fs := strings.SplitN(ls[i], " ", -1)
			ls[i] = strings.Join(fs[:1+h.rng.Intn(len(fs))], " ")
		case 7:
			ls = ls[:i+1]
		case 8:
			j := h.rng.Intn(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
		}
		if len(ls) == 0 {
			break
		}
	}
	return strings.Join(ls, pick(h.rng, "\r\n", "\r\n", "\n", "\r")) + pick(h.rng, "\r\n", "", "\n\n")
}

func (h *havoc) badChallenge() string {
	good := pick(h.rng, "Digest realm=\"cam\", nonce=\"abc\"", "Basic realm=\"cam\"", "Digest realm=\"a:b c\",nonce=\"==\", opaque=\"x\", algorithm=MD5, qop=\"auth,auth-int\"")
	switch h.rng.Intn(5) {
	case 0:
		return h.mutate(good)
	case 1:
		return good[:h.rng.Intn(len(good)+1)]
	case 2:
		return pick(h.rng, "Digest", "Digest ", "Basic", "Basic ", "NTLM", "Digest realm", "Digest realm=", "Digest realm=\"", "Digest realm=\"a", "Digest ,,,", "Digest =", "Digest realm=\"a\",nonce",
			"Digest realm=\"a\" nonce=\"b\"", "Digest nonce=\"b\"", "digest realm=\"a\",nonce=\"b\"", "Basic Basic Digest", "Digest\trealm=\"x\"", "Digest realm='a',nonce='b'", "Digest realm=\"\\\"\",nonce=\"\"")
	case 3:
		return pick(h.rng, "Digest ", "Basic ", "") + h.token()
	}
	return "Digest realm=" + h.token() + ",nonce=" + h.token()
}

func (h *havoc) hostileReply(g *generation, what string) string {
	cs := fmt.Sprintf("CSeq: %d\r\n", g.lastCseq)
	switch what {
	case "sdp":
		b := h.badDescription()
		return fmt.Sprintf("RTSP/1.0 200 OK\r\n%sContent-Length: %d\r\n\r\n%s", cs, len(b), b)
	case "challenge":
		s := "RTSP/1.0 401 Unauthorized\r\n" + cs
		for n := 1 + h.rng.Intn(3); n > 0; n-- {
			s += "WWW-Authenticate" + pick(h.rng, ": ", ":", " : ") + h.badChallenge() + "\r\n"
		}
		return s + "\r\n"
	case "header":
		s := "RTSP/1.0 " + pick(h.rng, "200 OK", "401 Unauthorized", "404 Not Found") + "\r\n" + cs
		for n := 1 + h.rng.Intn(3); n > 0; n-- {
			s += pick(h.rng, "Content-Length", "Content-length", "Session", "CSeq", "WWW-Authenticate", "Transport", "session", ":", "") + pick(h.rng, ":", ": ", "", " ") + h.token() + "\r\n"
		}
		return s + pick(h.rng, "\r\n", "\r\n", "")
	case "status":
		return pick(h.rng, "RTSP", "rtsp", "RTSP/1.0", "RTSP/2.0", "RTSP/1.0 ", "RTSPRTSP") + pick(h.rng, "", " ", "  ") + h.token() + pick(h.rng, "", " OK", " 200 OK", " 200") +
			pick(h.rng, "\r\n\r\n", "\r\n"+cs+"\r\n", "\n\n", "\r\r\n\n\r\n\r\n")
	}
	panic(what)
}

func (h *havoc) hostileRtp(g *generation) []byte {
	ch := h.rng.Intn(256)
	n := len(g.tracks)
	if n == 0 {
		n = 4 // badDescription
	}
	if h.rng.Intn(5) > 0 {
		ch = 2 * h.rng.Intn(n)
	}
	p := make([]byte, h.rng.Intn(pick(h.rng, 3, 6, 12, 60, 2000)))
	h.rng.Read(p)
	if len(p) > 0 && h.rng.Intn(4) > 0 {
		switch h.codecOf(g, ch).codec {
		case "H265", "HEVC":
			p[0] = byte(pick(h.rng, 48, 49, 50, 51, 63, h.rng.Intn(64)))<<1 | p[0]&0x81
		default:
			p[0] = p[0]&0xe0 | byte(pick(h.rng, 24, 25, 26, 27, 28, 29, 30, 31, 0, h.rng.Intn(32)))
		}
		if len(p) > 3 && h.rng.Intn(2) == 0 {
			binary.BigEndian.PutUint16(p[1+h.rng.Intn(2):], uint16(pick(h.rng, 0, 1, 2, len(p)-3, len(p)-2, len(p), 0xffff, 0x8000)))
		}
	}
	f := h.sessCase.rtp(h.rng.Intn(2) == 0, h.rng.Intn(128), p)
	f[0] = byte(pick(h.rng, 0x80, 0x80, 0x80, h.rng.Intn(256)))
	if h.rng.Intn(6) == 0 {
		f = f[:h.rng.Intn(len(f)+1)]
	}
	return frame(ch, f)
}

func (h *havoc) render(g *generation, what string) []byte {
	ok := func() string {
		// the proper answer to the last request
		m := ""
		if i := strings.IndexByte(g.lastLine, ' '); i > 0 {
			m = g.lastLine[:i]
		}
		x := sessMsg{K: "rep", St: 200}
		if m == "DESCRIBE" {
			x.Nt = 1 + h.rng.Intn(3)
		} else if m == "SETUP" || m == "PLAY" {
			x.Sid = g.n
		}
		return string(h.reply(g, x))
	}
	switch what {
	case "ok":
		return []byte(ok())
	case "mutate":
		return []byte(h.mutate(ok()))
	case "cut":
		s := ok()
		if h.rng.Intn(2) == 0 {
			s = string(h.hostileRtp(g))
		}
		return []byte(s[:h.rng.Intn(len(s))])
	case "bytes":
		b := make([]byte, h.rng.Intn(pick(h.rng, 8, 200, 5000)))
		al := pick(h.rng, "", "$RTSP/1.0 \r\n", "$\x00", "\r\n", "RTSP/1.0 200 OK\r\nContent-Length:")
		for i := range b {
			b[i] = byte(h.rng.Intn(256))
			if al != "" {
				b[i] = al[h.rng.Intn(len(al))]
			}
		}
		return b
	case "frame":
		b := make([]byte, pick(h.rng, 0, 1, h.rng.Intn(40), h.rng.Intn(3000), 65535))
		h.rng.Read(b)
		return frame(h.rng.Intn(256), b)
	case "rtp":
		var b []byte
		for n := 1 + h.rng.Intn(8); n > 0; n-- {
			b = append(b, h.hostileRtp(g)...)
		}
		return b
	case "media":
		if len(g.tracks) == 0 {
			return nil
		}
		return h.unit(g, 2*h.rng.Intn(len(g.tracks)), 1+h.rng.Intn(1000000))
	case "flood":
		// fragments without an end
		if h.rng.Intn(6) > 0 {
			return h.hostileRtp(g)
		}
		ch := 2 * h.rng.Intn(max(1, len(g.tracks)))
		p := make([]byte, 60000)
		p[0], p[1], p[2] = pick(h.rng, byte(0x7c), 98), byte(h.rng.Intn(32)), byte(h.rng.Intn(40))
		var b []byte
		for n := pick(h.rng, 10, 150, 300); n > 0; n-- {
			b = append(b, frame(ch, h.sessCase.rtp(false, 96, p))...)
		}
		return b
	}
	return []byte(h.hostileReply(g, what))
}

func driveHavoc(raw json.RawMessage, emit func(any)) {
	var sc struct {
		Seed  int64 `json:"seed"`
		Ws    bool  `json:"ws"`
		Steps []struct {
			A    string `json:"a"`
			C    int    `json:"c"`
			Op   string `json:"op"`
			Cred bool   `json:"cred"`
			What string `json:"what"`
			N    int    `json:"n"`
			D    int    `json:"d"`
		} `json:"steps"`
	}
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	bubble(emit, func() (any, int) {
		k := newSessCase(sc.Seed)
		k.ws = sc.Ws
		h := &havoc{k, k.rng}
		if h.rng.Intn(8) == 0 {
			// nobody wants the media
			k.sess = rtspclient.NewRtspClientSession(nil, k.onEvent)
		}
		lines := []any{}
		obs := func() {
			o := k.observe()
			rets := []int{}
			for _, r := range o.Rets {
				rets = append(rets, r.C)
			}
			cb := []string{}
			for _, x := range o.H {
				n := strings.Index(x, "disc")
				if n == 0 {
					cb = append(cb, "disc")
				} else if len(cb) == 0 || cb[len(cb)-1] != "data" {
					cb = append(cb, "data")
				}
			}
			lines = append(lines, map[string]any{"a": "obs", "rets": rets, "evs": o.Evs["ok"] + o.Evs["err"], "h": cb, "closed": o.Closed, "leak": o.Leak})
		}
		cur := func() *generation {
			if len(k.gens) == 0 {
				return nil
			}
			return k.gens[len(k.gens)-1]
		}
		end := func(g *generation) {
			g.ended = true
			lines = append(lines, map[string]any{"a": "end"})
			g.fc.finish(io.EOF)
			obs()
		}
		for _, st := range sc.Steps {
			k.mu.Lock()
			active, others, discs := len(k.active), 0, k.discs
			for _, op := range k.active {
				if op != "close" {
					others++
				}
			}
			k.mu.Unlock()
			g := cur()
			switch st.A {
			case "call":
				if st.Op == "play" && (active > 0 || discs < len(k.gens)) || st.Op != "close" && (others > 0 || g == nil && st.Op != "play") {
					continue
				}
				lines = append(lines, map[string]any{"a": "call", "c": st.C, "op": st.Op})
				arg := sessArg{Cred: st.Cred, X: pick(h.rng, "0-1", "2-3", "250-251"), Start: h.rng.Intn(3), Speed: h.rng.Intn(3)}
				k.start(st.C, st.Op, arg)
			case "feed":
				if g == nil || g.ended {
					continue
				}
				lines = append(lines, map[string]any{"a": "feed"})
				for i := 0; i < st.N; i++ {
					if st.What == "ok" && i > 0 {
						break
					}
					if st.What == "ws" && sc.Ws {
						b := make([]byte, h.rng.Intn(20))
						h.rng.Read(b)
						switch h.rng.Intn(5) {
						case 0:
							b = wsFrame(h.rng.Intn(2) == 0, h.rng.Intn(16), b)
						case 1:
							b = wsFrame(true, 2, b)
							b[0] |= byte(h.rng.Intn(8)) << 4
						case 2:
							b = wsFrame(true, pick(h.rng, 8, 9, 10), make([]byte, h.rng.Intn(200)))
						case 3:
							b = append([]byte{0x82, 127, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, byte(h.rng.Intn(256))}, b...)
						}
						g.fc.feed(b)
						continue
					}
					k.mu.Lock()
					b := h.render(g, st.What)
					k.mu.Unlock()
					k.deliver(g, b)
				}
			case "end":
				if g == nil || g.ended {
					continue
				}
				end(g)
				continue
			case "tick":
				lines = append(lines, map[string]any{"a": "tick", "d": st.D})
				time.Sleep(time.Duration(st.D) * time.Millisecond)
			}
			obs()
		}
		if g := cur(); g != nil && !g.ended {
			end(g)
		}
		lines = append(lines, map[string]any{"a": "tick", "d": 30000})
		time.Sleep(30 * time.Second)
		synctest.Wait()
		obs()
		k.mu.Lock()
		defer k.mu.Unlock()
		return map[string]any{"lines": lines}, len(k.active)
	})
}
