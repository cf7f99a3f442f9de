package harness

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	rtspclient "github.com/NodeBoy2/rtspclient"
)

// Drives Play with real TCP connections on the loopback network, in real time (spec/Dial.tla): everything
// expected is waited for, generously, before it is called missing.

func init() { drivers["dial"] = driveDial }

const dialPatience = 15 * time.Second

type dialURL struct {
	Host string
	Port int
	User string
	Path string
	Bad  bool
}
type dialEv struct{ Ok, Err, Disc, Data int }
type dialStep struct {
	A    string
	U    dialURL
	Beh  string
	N    int
	Want struct {
		Res   string
		Ev    dialEv
		Conns int
		Log   []struct {
			To struct {
				Host string
				Port int
			}
		}
	}
}

type dialCase struct {
	rng   *rand.Rand
	net   [2]byte
	ports [3]int
	mu    sync.Mutex
	ev    dialEv
	conns int
	why   string
	conn  net.Conn // of the server the session is connected to
	seq   byte
}

func (k *dialCase) fault(f string, a ...any) {
	k.mu.Lock()
	if k.why == "" {
		k.why = fmt.Sprintf(f, a...)
	}
	k.mu.Unlock()
}

// written is the host in a URL, addr the address to listen on
func (k *dialCase) written(h string) string {
	switch h {
	case "v4a":
		return fmt.Sprintf("127.%d.%d.1", k.net[0], k.net[1])
	case "v4b":
		return fmt.Sprintf("127.%d.%d.2", k.net[0], k.net[1])
	case "v6":
		return "[::1]"
	}
	return "localhost"
}
func (k *dialCase) addr(u dialURL) string {
	h := k.written(u.Host)
	if u.Host == "name" {
		h = "127.0.0.1"
	}
	return h + ":" + strconv.Itoa(k.port(u.Port, 554))
}
func (k *dialCase) port(p, none int) int {
	switch p {
	case 0:
		return none
	case 1, 2:
		return k.ports[p]
	}
	return p
}

const dialUser, dialPass = "op@7", "q:w/e w"

func (k *dialCase) urls(u dialURL) (string, string) {
	host := k.written(u.Host)
	if p := k.port(u.Port, 0); p != 0 {
		host += ":" + strconv.Itoa(p)
	}
	wire := "rtsp://" + host + u.Path
	if u.Bad {
		return pick(k.rng, "rtsp://[::1/x", "rtsp://"+host+"/%zz", ":", "rtsp://h:port/x", "rtsp://a b/\x7f"), ""
	}
	info := map[string]string{"both": "op%407:q%3Aw%2Fe%20w@", "name": "op%407@", "nopass": "op%407:@", "pass": ":q%3Aw@", "empty": "@"}[u.User]
	return "rtsp://" + info + host + u.Path, wire
}

// serve is the server of one Play
func (k *dialCase) serve(c net.Conn, beh, wire string, cred bool) {
	k.mu.Lock()
	k.conns++
	k.conn = c
	bye := k.rng.Intn(3)
	status := pick(k.rng, "404 Not Found", "403 Forbidden", "500 Internal Server Error", "302 Moved", "401 Unauthorized")
	k.mu.Unlock()
	if beh == "bye" && bye == 0 {
		c.Close()
		return
	}
	n, challenged := 0, false
	srv := &autoServer{sdp: "v=0\r\no=- 1 1 IN IP4 0.0.0.0\r\ns=x\r\nt=0 0\r\nm=audio 0 RTP/AVP 0\r\na=control:trackID=1\r\n", send: func(b []byte) { c.Write(b) }}
	srv.answer = func(method, req string) (string, bool) {
		n++
		cseq := ""
		if m := cseqLine.FindStringSubmatch(req); m != nil {
			cseq = m[1]
		}
		url := wire
		if method == "SETUP" {
			url += "/trackID=1"
		}
		if !strings.HasPrefix(req, method+" "+url+" RTSP/1.0\r\n") {
			k.fault("request for another URL: %q instead of %q", strings.SplitN(req, "\r\n", 2)[0], url)
		}
		auth := "\r\nAuthorization: Basic " + base64.StdEncoding.EncodeToString([]byte(dialUser+":"+dialPass)) + "\r\n"
		if has := strings.Contains(req, "\r\nAuthorization:"); has != (challenged && cred) || (has && !strings.Contains(req, auth)) {
			k.fault("wrong authorization in %q", req)
		}
		switch {
		case beh == "deaf":
			return "", true
		case beh == "no" && method == "DESCRIBE":
			return "RTSP/1.0 " + status + "\r\nCSeq: " + cseq + "\r\n\r\n", true
		case beh == "auth" && n == 1:
			challenged = true
			return "RTSP/1.0 401 Unauthorized\r\nCSeq: " + cseq + "\r\nWWW-Authenticate: Basic realm=\"cam\"\r\n\r\n", true
		case beh == "bye" && method != "TEARDOWN":
			if n == bye {
				c.Close()
				return "", true
			}
		}
		return "", false
	}
	buf := make([]byte, 4096)
	for {
		n, err := c.Read(buf)
		if n > 0 {
			srv.onWrite(buf[:n])
		}
		if err != nil {
			c.Close()
			return
		}
	}
}

// full makes a listener whose queue of connections is full, so that further ones are not answered.
func fullListener(addr string) (func(), error) {
	a, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		return nil, err
	}
	dom, sa := syscall.AF_INET, syscall.Sockaddr(nil)
	if v4 := a.IP.To4(); v4 != nil {
		s := &syscall.SockaddrInet4{Port: a.Port}
		copy(s.Addr[:], v4)
		sa = s
	} else {
		dom = syscall.AF_INET6
		s := &syscall.SockaddrInet6{Port: a.Port}
		copy(s.Addr[:], a.IP.To16())
		sa = s
	}
	fd, err := syscall.Socket(dom, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	if err = syscall.Bind(fd, sa); err == nil {
		err = syscall.Listen(fd, 0)
	}
	var cs []net.Conn
	stop := func() {
		for _, c := range cs {
			c.Close()
		}
		syscall.Close(fd)
	}
	for i := 0; i < 40 && err == nil; i++ {
		c, derr := net.DialTimeout("tcp", addr, 300*time.Millisecond)
		if derr != nil {
			if ne, ok := derr.(net.Error); ok && ne.Timeout() {
				return stop, nil
			}
			err = derr
			break
		}
		cs = append(cs, c)
	}
	stop()
	return nil, fmt.Errorf("cannot fill the queue of %s: %v", addr, err)
}

// dialFails: when plenty went wrong the other cases are left out
var dialFails int

func dialSkip(emit func(any), err error) { emit(map[string]any{"why": "", "skipped": err.Error()}) }

func driveDial(raw json.RawMessage, emit func(any)) {
	var sc struct {
		Seed  int64
		Steps []dialStep
	}
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	if dialFails >= 4 {
		dialSkip(emit, fmt.Errorf("enough failed"))
		return
	}
	rng := rand.New(rand.NewSource(sc.Seed))
	k := &dialCase{rng: rng}
	pid := uint32(os.Getpid())*2654435761 + uint32(rng.Intn(1<<20))
	k.net = [2]byte{byte(pid>>24)%200 + 20, byte(pid >> 16)}
	for i := 1; i <= 2; i++ {
		l, err := net.Listen("tcp", k.written("v4a")+":0")
		if err != nil {
			dialSkip(emit, err)
			return
		}
		k.ports[i] = l.Addr().(*net.TCPAddr).Port
		l.Close()
	}
	if k.ports[1] == k.ports[2] {
		k.ports[2]++
	}
	// what this machine cannot do is left out
	for _, st := range sc.Steps {
		if st.A == "play" && st.U.Host == "v6" {
			if l, err := net.Listen("tcp", "[::1]:0"); err != nil {
				dialSkip(emit, err)
				return
			} else {
				l.Close()
			}
		}
		if st.A == "play" && st.U.Host == "name" {
			if as, err := net.LookupHost("localhost"); err != nil || strings.Join(as, " ") != "127.0.0.1" {
				dialSkip(emit, fmt.Errorf("localhost is %v %v", as, err))
				return
			}
		}
	}
	var nextUnit byte
	sess := rtspclient.NewRtspClientSession(func(d *rtspclient.RtspData) {
		k.mu.Lock()
		k.ev.Data++
		nextUnit++
		want := nextUnit
		k.mu.Unlock()
		if d.ChannelNum != 0 || !bytes.Equal(d.Data, []byte{want, 0xaa}) {
			k.fault("unit %d: channel %d, %x", want, d.ChannelNum, d.Data)
		}
	}, func(e *rtspclient.RtspEvent) {
		k.mu.Lock()
		defer k.mu.Unlock()
		switch e.EventType {
		case rtspclient.RtspEventRequestSuccess:
			k.ev.Ok++
		case rtspclient.RtspEventRequestError:
			k.ev.Err++
		case rtspclient.RtspEventDisconnected:
			k.ev.Disc++
		}
	})
	state := func() (dialEv, int, string) {
		k.mu.Lock()
		defer k.mu.Unlock()
		return k.ev, k.conns, k.why
	}
	within := func(ok func() bool) bool {
		for end := time.Now().Add(dialPatience); ; time.Sleep(200 * time.Microsecond) {
			if ok() {
				return true
			}
			if time.Now().After(end) {
				return false
			}
		}
	}
	defer func() {
		k.mu.Lock()
		if k.conn != nil {
			k.conn.Close()
		}
		k.mu.Unlock()
	}()
	for i, st := range sc.Steps {
		fail := func(f string, a ...any) {
			dialFails++
			b, _ := json.Marshal(st)
			emit(map[string]any{"why": fmt.Sprintf("step %d (%s): ", i, b) + fmt.Sprintf(f, a...)})
		}
		res := ""
		switch st.A {
		case "play":
			url, wire := k.urls(st.U)
			stop := func() {}
			switch st.Beh {
			case "none":
			case "lost":
				s, err := fullListener(k.addr(st.U))
				if err != nil {
					dialSkip(emit, err)
					return
				}
				stop = s
			default:
				l, err := net.Listen("tcp", k.addr(st.U))
				if err != nil {
					dialSkip(emit, err)
					return
				}
				stop = func() { l.Close() }
				go func() {
					for {
						c, err := l.Accept()
						if err != nil {
							return
						}
						go k.serve(c, st.Beh, wire, st.U.User == "both")
					}
				}()
			}
			done := make(chan error, 1)
			began := time.Now()
			go func() { done <- sess.Play(url) }()
			select {
			case err := <-done:
				res = "ok"
				if err != nil {
					res = "err"
				}
			case <-time.After(dialPatience):
				stop()
				fail("Play does not return")
				return
			}
			took := time.Since(began)
			time.Sleep(time.Millisecond)
			stop()
			if (st.Beh == "deaf" || st.Beh == "lost") && st.Want.Ev.Disc > 0 && res == "err" && len(st.Want.Log) > 0 && took < 1990*time.Millisecond {
				fail("given up after %v", took)
				return
			}
		case "media":
			k.mu.Lock()
			var out []byte
			for n := 0; n < st.N; n++ {
				k.seq++
				p := append(make([]byte, 12), k.seq, 0xaa)
				p[0], p[1] = 0x80, 0
				out = append(out, '$', 0)
				out = binary.BigEndian.AppendUint16(out, uint16(len(p)))
				out = append(out, p...)
			}
			k.conn.Write(out)
			k.mu.Unlock()
		case "end":
			k.mu.Lock()
			k.conn.Close()
			k.mu.Unlock()
		case "close":
			done := make(chan bool)
			go func() { sess.Close(); close(done) }()
			select {
			case <-done:
			case <-time.After(dialPatience):
				fail("Close does not return")
				return
			}
		}
		if res != st.Want.Res {
			fail("result %q", res)
			return
		}
		reached := within(func() bool { e, n, w := state(); return (e == st.Want.Ev && n == st.Want.Conns) || w != "" })
		time.Sleep(2 * time.Millisecond)
		e, n, w := state()
		if w != "" {
			fail("%s", w)
			return
		}
		if !reached || e != st.Want.Ev || n != st.Want.Conns {
			fail("events %+v, %d connections", e, n)
			return
		}
		// units that were sent while nothing was played are not expected later
		k.mu.Lock()
		nextUnit = k.seq
		k.mu.Unlock()
	}
	// nothing is left when the last connection has ended
	k.mu.Lock()
	if k.conn != nil {
		k.conn.Close()
	}
	k.mu.Unlock()
	if !within(func() bool { return libGoroutines() == 0 }) {
		emit(map[string]any{"why": "goroutines of the library are left"})
		return
	}
	emit(map[string]any{"why": ""})
}
