package harness

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func init() {
	drivers["session"] = func(raw json.RawMessage, emit func(any)) { driveSession(raw, emit, false) }
	drivers["wssession"] = func(raw json.RawMessage, emit func(any)) { driveSession(raw, emit, true) }
}

type sessMsg struct {
	K   string   `json:"k"`
	St  int      `json:"st"`
	Nt  int      `json:"nt"`
	Sid int      `json:"sid"`
	Ch  []string `json:"ch"`
	C   int      `json:"-"`
	Id  int      `json:"id"`
}

type sessStep struct {
	A    string          `json:"a"`
	C    int             `json:"c"`
	Op   string          `json:"op"`
	Arg  json.RawMessage `json:"arg"`
	G    int             `json:"g"`
	Msgs json.RawMessage `json:"msgs"`
	M    string          `json:"m"`
	B    bool            `json:"b"`
	On   string          `json:"on"`
	Cred bool            `json:"cred"`
	D    int             `json:"d"`
	NW   bool            `json:"nw"`
}

type sessArg struct {
	Cred  bool   `json:"cred"`
	Re    bool   `json:"re"` // SetConnection while the connection before is still there
	X     string `json:"x"`
	Start int    `json:"start"`
	Speed int    `json:"speed"`
	Slow  bool   `json:"slow"`
}

type sessReq struct {
	G     int    `json:"g"`
	M     string `json:"m"`
	U     string `json:"u"`
	Cseq  int    `json:"cseq"`
	Sid   int    `json:"sid"`
	Auth  string `json:"auth"`
	X     string `json:"x"`
	Leaks bool   `json:"leaks"`
	Why   string `json:"why,omitempty"`
}

type sessRet struct {
	C int    `json:"c"`
	R string `json:"r"`
}

type sessObs struct {
	A      string         `json:"a"`
	Reqs   []sessReq      `json:"reqs"`
	Rets   []sessRet      `json:"rets"`
	Evs    map[string]int `json:"evs"`
	H      []string       `json:"h"`
	Closed []bool         `json:"closed"`
	Leak   int            `json:"leak"`
}

type track struct {
	codec   string
	pt      int
	control string
	url     string
}

// generation: one connection of the session and the server behind it
type generation struct {
	n          int
	fc         *fconn
	ws         *wsServer
	url        string // as given to Play
	wire       string // expected in requests
	user, pass string
	tracks     []track
	tracksSet  bool
	digests    [][2]string  // realm and nonce of the challenges
	setups     map[int]bool // tracks whose SETUP was sent
	buf        []byte
	lastCseq   int
	lastLine   string
	sentIds    map[int][]byte // media id -> unit
	ended      bool
	truncated  bool // cut packets were sent: unknown units may be their remains
}

type sessCase struct {
	rng      *rand.Rand
	mu       sync.Mutex
	sess     *rtspclient.RtspClientSession
	gens     []*generation
	sids     map[int]string
	reqs     []sessReq
	rets     []sessRet
	ok, err  int
	h        []string
	discs    int
	active   map[int]string
	plays    []int
	dGate    *gate
	xGate    *gate
	nest     *sessStep
	wmode    string
	failAt   int
	manual   string
	media    map[string]int // unit content -> id
	firstSeq int
	hasSeq   bool
	ws       bool // over WebSockets
	wsPlain  bool // the transport stalls or fails at times: no control frames of the server
	badPlay  bool
}

func newSessCase(seed int64) *sessCase {
	k := &sessCase{rng: rand.New(rand.NewSource(seed)), sids: map[int]string{}, active: map[int]string{}, dGate: newGate(),
		xGate: newGate(), wmode: "ok", media: map[string]int{}, manual: "rtsp://man.example:8554/other/track9?z=1"}
	k.sess = rtspclient.NewRtspClientSession(k.onData, k.onEvent)
	return k
}

func pick[T any](rng *rand.Rand, xs ...T) T { return xs[rng.Intn(len(xs))] }

// ------------------------------------------------------------------ callbacks

func (k *sessCase) takeNest(on string) *sessStep {
	if k.nest != nil && k.nest.On == on {
		n := k.nest
		k.nest = nil
		k.active[n.C] = n.Op
		return n
	}
	return nil
}

func (k *sessCase) onData(d *rtspclient.RtspData) {
	k.mu.Lock()
	name := ""
	if id, ok := k.media[string(d.Data)]; ok {
		g := 0
		for _, x := range k.gens {
			if _, has := x.sentIds[id]; has {
				g = x.n
			}
		}
		name = fmt.Sprintf("d%d:%d:%d", g, d.ChannelNum, id)
	} else {
		trunc := false
		for _, x := range k.gens {
			trunc = trunc || x.truncated
		}
		if !trunc {
			name = fmt.Sprintf("d?:%d:%s", d.ChannelNum, hex.EncodeToString(d.Data[:min(len(d.Data), 12)]))
		}
	}
	if d.Session != k.sess {
		name += "!"
	}
	var n *sessStep
	if name != "" {
		k.h = append(k.h, name)
		tooMany(len(k.h))
		n = k.takeNest("data")
	}
	k.mu.Unlock()
	if n != nil {
		k.perform(n.C, n.Op, sessArg{Cred: n.Cred})
	}
	k.dGate.pass()
}

func (k *sessCase) onEvent(e *rtspclient.RtspEvent) {
	k.mu.Lock()
	var n *sessStep
	held := false
	switch e.EventType {
	case rtspclient.RtspEventRequestSuccess:
		k.ok++
		n = k.takeNest("ok")
	case rtspclient.RtspEventRequestError:
		k.err++
		n = k.takeNest("err")
	case rtspclient.RtspEventDisconnected:
		if k.badPlay {
			k.badPlay = false // there was no connection
			k.h = append(k.h, "disc0")
			break
		}
		k.discs++
		s := fmt.Sprintf("disc%d", k.discs)
		if e.Session != k.sess {
			s += "!"
		}
		k.h = append(k.h, s)
		tooMany(len(k.h))
		n = k.takeNest("disc")
		held = true
	default:
		k.h = append(k.h, fmt.Sprintf("event%d", e.EventType))
	}
	k.mu.Unlock()
	if n != nil {
		k.perform(n.C, n.Op, sessArg{Cred: n.Cred})
	}
	if held {
		k.xGate.pass()
	}
}

// ------------------------------------------------------------------ calls

func (k *sessCase) start(c int, op string, arg sessArg) {
	k.mu.Lock()
	k.active[c] = op
	k.mu.Unlock()
	go k.perform(c, op, arg)
}

func (k *sessCase) perform(c int, op string, arg sessArg) {
	res := "ok"
	fail := func(err error) {
		if err != nil {
			res = "err"
		}
	}
	switch op {
	case "play":
		k.mu.Lock()
		g := k.newGen(arg.Cred)
		k.plays = append(k.plays, c)
		k.mu.Unlock()
		fail(k.doPlay(g))
	case "badplay":
		k.mu.Lock()
		k.plays = append(k.plays, c)
		k.mu.Unlock()
		fail(k.doBadPlay(arg.Slow))
	case "close":
		k.sess.Close()
		res = "done"
	case "describe":
		fail(k.sess.SendDescribe())
	case "setup":
		var a, b int
		fmt.Sscanf(arg.X, "%d-%d", &a, &b)
		fail(k.sess.SendTcpSetup(k.manual, a, b))
	case "startplay":
		fail(k.sess.SendPlay(arg.Start, arg.Speed))
	case "pause":
		fail(k.sess.SendPause())
	case "teardown":
		fail(k.sess.SendTeardown())
	case "wait":
		r, err := k.sess.WaitRtspResponse()
		if err != nil || r == nil {
			res = "err"
		} else {
			res = strconv.Itoa(r.Status)
		}
	default:
		panic("unknown operation " + op)
	}
	k.mu.Lock()
	k.rets = append(k.rets, sessRet{c, res})
	delete(k.active, c)
	k.mu.Unlock()
}

func (k *sessCase) doPlay(g *generation) error {
	if k.ws {
		dialWS(g.fc, nil)
		return k.sess.PlayUseWebsocket("ws://ws.example:8080/rtsp", g.url)
	}
	if err := k.sess.ParsingURL(g.url); err != nil {
		return err
	}
	return k.sess.SetConnection(g.fc)
}

// doBadPlay starts playback from a server that cannot be reached.
func (k *sessCase) doBadPlay(slow bool) error {
	k.mu.Lock()
	connected := k.discs < len(k.gens)
	k.badPlay = !connected
	x := k.rng.Intn(6)
	rng := rand.New(rand.NewSource(k.rng.Int63()))
	k.mu.Unlock()
	defer func() {
		k.mu.Lock()
		if k.badPlay {
			k.h = append(k.h, "no disconnect event")
		}
		k.badPlay = false
		k.mu.Unlock()
	}()
	if !k.ws {
		return k.sess.Play(pick(rng, "rtsp://127.0.0.1:1/x", "rtsp://[::1]:1/x", "rtsp://u:p@127.0.0.1:1/y?z=1"))
	}
	fc := newFconn()
	s := &wsServer{rng: rng, fc: fc, refuse: []string{"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok",
		"-", "hello\r\n\r\n", "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: AAAA\r\n\r\n", "-"}[x]}
	fc.onWrite = s.onWrite
	var err error
	if slow {
		s.refuse = "~"
	} else if x == 5 {
		err = errors.New("fake: refused")
	}
	dialWS(fc, err)
	return k.sess.PlayUseWebsocket(pick(rng, "ws://ws.example:8080/rtsp", "ws://10.0.0.9/", "ws://10.0.0.9/"), "rtsp://10.0.0.5/x")
}

// newGen makes the connection and the server of the next Play (k.mu is held).
func (k *sessCase) newGen(cred bool) *generation {
	g := &generation{n: len(k.gens) + 1, fc: newFconn(), sentIds: map[int][]byte{}, setups: map[int]bool{}}
	host := pick(k.rng, "10.0.0.5", "10.0.0.5:554", "cam.example:8554", "[fe80::1]", "[2001:db8::7]:10554", "cam-2.example")
	path := pick(k.rng, "", "/", "/live", "/live/ch1", "/a/b/c.sdp", "/h264?channel=1&subtype=0", "/live/main/av_stream?x=1", "/media.amp?videocodec=h264", "/axis-media/~v$1,2;p=3")
	if k.rng.Intn(8) == 0 {
		path += "/" + strings.Repeat("segment/", pick(k.rng, 60, 64, 128, 520, 1100, 9000)) + "end"
	}
	g.wire = "rtsp://" + host + path
	g.url = g.wire
	users := [][2]string{{"admln", "secret12"}, {"usr%40x", "p%3Aw%2F9"}, {"Op-7", "q;w=e!"}, {"operator1", "longpassword-with-chars"}}
	plain := [][2]string{{"admln", "secret12"}, {"usr@x", "p:w/9"}, {"Op-7", "q;w=e!"}, {"operator1", "longpassword-with-chars"}}
	i := k.rng.Intn(len(users))
	if cred {
		g.user, g.pass = plain[i][0], plain[i][1]
		g.url = "rtsp://" + users[i][0] + ":" + users[i][1] + "@" + host + path
	} else if k.rng.Intn(5) == 0 {
		// only a user name
		g.url = "rtsp://" + users[i][0] + "@" + host + path
		g.user = plain[i][0]
	}
	if k.ws {
		g.ws = &wsServer{rng: rand.New(rand.NewSource(k.rng.Int63())), fc: g.fc, plain: k.wsPlain}
		g.ws.onMessage = func(b []byte) { k.onMessage(g, b) }
		g.ws.onOpen = func() {
			k.mu.Lock()
			m, n := k.wmode, k.failAt
			k.mu.Unlock()
			g.fc.setWrites(m, n)
		}
		g.fc.onWrite = g.ws.onWrite
	} else {
		g.fc.onWrite = func(b []byte) { k.onWrite(g, b) }
		g.fc.setWrites(k.wmode, k.failAt)
	}
	k.gens = append(k.gens, g)
	return g
}

// ------------------------------------------------------------------ requests

// onMessage takes one WebSocket message: exactly one request
func (k *sessCase) onMessage(g *generation, b []byte) {
	if i := bytes.Index(b, []byte("\r\n\r\n")); i >= 0 && i+4 == len(b) {
		k.onWrite(g, b)
		return
	}
	k.mu.Lock()
	k.reqs = append(k.reqs, sessReq{G: g.n, M: "?", U: "?", Cseq: -1, Auth: "-", X: "-", Why: "WebSocket message is no request: " + string(b) + strings.Join(g.ws.got, ", ")})
	k.mu.Unlock()
}

func (k *sessCase) onWrite(g *generation, b []byte) {
	k.mu.Lock()
	defer k.mu.Unlock()
	g.buf = append(g.buf, b...)
	for {
		i := bytes.Index(g.buf, []byte("\r\n\r\n"))
		if i < 0 {
			return
		}
		r := k.parseRequest(g, string(g.buf[:i+2]))
		g.buf = g.buf[i+4:]
		g.lastLine = r.M + " " + r.U
		if r.Cseq >= 0 {
			g.lastCseq = r.Cseq
		}
		if !k.hasSeq {
			k.hasSeq, k.firstSeq = true, r.Cseq
		}
		k.reqs = append(k.reqs, r)
	}
}

var reqLine = regexp.MustCompile(`^(DESCRIBE|SETUP|PLAY|PAUSE|TEARDOWN) (\S+) RTSP/1\.0$`)
var hdrLine = regexp.MustCompile(`^([A-Za-z][A-Za-z0-9-]*): ?(.*)$`)
var interleaved = regexp.MustCompile(`^RTP/AVP/TCP;unicast;interleaved=(\d+)-(\d+)$`)
var nptRange = regexp.MustCompile(`^npt=(\d+)\.0-$`)

func md5hex(s string) string {
	x := md5.Sum([]byte(s))
	return hex.EncodeToString(x[:])
}

func (k *sessCase) parseRequest(g *generation, text string) sessReq {
	r := sessReq{G: g.n, M: "?", U: "?", Cseq: -1, Auth: "-", X: "-"}
	lines := strings.Split(strings.TrimSuffix(text, "\r\n"), "\r\n")
	m := reqLine.FindStringSubmatch(lines[0])
	bad := func(why string) sessReq {
		r.M, r.Why = "?", why+": "+text
		return r
	}
	if m == nil {
		return bad("request line")
	}
	hdr := map[string]string{}
	auth := ""
	for _, l := range lines[1:] {
		h := hdrLine.FindStringSubmatch(l)
		if h == nil || strings.ContainsAny(l, "\r\n") {
			return bad("header line")
		}
		n := strings.ToLower(h[1])
		if _, dup := hdr[n]; dup {
			return bad("repeated header")
		}
		hdr[n] = strings.TrimSpace(h[2])
		if n == "authorization" {
			auth = l
		}
	}
	r.M = m[1]
	url := m[2]
	switch {
	case url == k.manual:
		r.U = "m"
	case url == g.wire && r.M != "SETUP":
		r.U = "u"
	default:
		for i, t := range g.tracks {
			if t.url == url {
				r.U = fmt.Sprintf("t%d", i+1)
				g.setups[i] = true
			}
		}
		if r.U == "?" {
			r.U = "?" + url
		}
	}
	n, err := strconv.Atoi(hdr["cseq"])
	if err != nil || n < 0 {
		return bad("CSeq")
	}
	r.Cseq = n
	if v, has := hdr["session"]; has {
		r.Sid = -1
		for t, s := range k.sids {
			if s == v {
				r.Sid = t
			}
		}
		if r.Sid == -1 {
			r.Why = "session " + v
		}
	}
	switch r.M {
	case "SETUP":
		x := interleaved.FindStringSubmatch(hdr["transport"])
		if x == nil {
			return bad("Transport")
		}
		r.X = x[1] + "-" + x[2]
	case "PLAY":
		st, sp := "0", "1"
		if v, has := hdr["range"]; has {
			x := nptRange.FindStringSubmatch(v)
			if x == nil || x[1] == "0" {
				return bad("Range")
			}
			st = x[1]
		}
		if v, has := hdr["speed"]; has {
			f, err := strconv.ParseFloat(v, 64)
			if err != nil || f == 1 {
				return bad("Speed")
			}
			sp = strconv.FormatFloat(f, 'f', -1, 64)
		}
		r.X = "r" + st + "s" + sp
	}
	if r.M != "PLAY" && (hdr["range"] != "" || hdr["speed"] != "") {
		return bad("Range or Speed")
	}
	if v, has := hdr["authorization"]; has {
		r.Auth = k.checkAuth(g, r.M, url, v)
		if strings.HasPrefix(r.Auth, "?") {
			r.Why = v
		}
	}
	rest := text
	if auth != "" {
		rest = strings.Replace(rest, auth, "", 1)
	}
	for _, x := range k.gens {
		for _, c := range []string{x.user, x.pass} {
			if c != "" && (strings.Contains(rest, c) || strings.Contains(rest, base64.StdEncoding.EncodeToString([]byte(x.user+":"+x.pass)))) {
				r.Leaks = true
			}
		}
		if x.pass != "" && x != g && x.pass != g.pass && strings.Contains(text, base64.StdEncoding.EncodeToString([]byte(x.user+":"+x.pass))) {
			r.Leaks = true
		}
	}
	if strings.Contains(lines[0], "@") || strings.Contains(lines[0], "%40") {
		r.Leaks = true
	}
	return r
}

var digestParam = regexp.MustCompile(`([a-z]+)="([^"]*)"`)

func (k *sessCase) checkAuth(g *generation, method, url, v string) string {
	if s, ok := strings.CutPrefix(v, "Basic "); ok {
		if s == base64.StdEncoding.EncodeToString([]byte(g.user+":"+g.pass)) {
			return "B"
		}
		return "?B"
	}
	s, ok := strings.CutPrefix(v, "Digest ")
	if !ok {
		return "?"
	}
	p := map[string]string{}
	for _, m := range digestParam.FindAllStringSubmatch(s, -1) {
		if _, dup := p[m[1]]; dup {
			return "?D repeated " + m[1]
		}
		p[m[1]] = m[2]
	}
	known := false
	for _, d := range g.digests {
		known = known || d == [2]string{p["realm"], p["nonce"]}
	}
	if p["username"] != g.user || !known {
		return "?D"
	}
	if p["uri"] != url && p["uri"] != g.wire {
		return "?D uri"
	}
	want := md5hex(md5hex(g.user+":"+p["realm"]+":"+g.pass) + ":" + p["nonce"] + ":" + md5hex(method+":"+p["uri"]))
	if p["response"] != want {
		return "?D response"
	}
	return "D"
}

// ------------------------------------------------------------------ what the server sends

func (k *sessCase) sidString(t int) string {
	if s, ok := k.sids[t]; ok {
		return s
	}
	for {
		s := pick(k.rng, fmt.Sprintf("%08X", k.rng.Uint32()), fmt.Sprint(k.rng.Intn(1000000000)), fmt.Sprintf("ab-%d_x.%d+$", k.rng.Intn(1000), k.rng.Intn(100)), fmt.Sprint(k.rng.Intn(10)))
		dup := false
		for _, o := range k.sids {
			dup = dup || o == s
		}
		if !dup {
			k.sids[t] = s
			return s
		}
	}
}

// base is what the server calls the URL (a URL that does not fit into a reply is not repeated there)
func (g *generation) base() string {
	if len(g.wire) > 20000 {
		return "rtsp://10.0.0.5/"
	}
	return g.wire + "/"
}

func (k *sessCase) makeSDP(g *generation, nt int) string {
	codecs := []track{{codec: "H264", pt: 96}, {codec: "H265", pt: 98}, {codec: "HEVC", pt: 100}, {codec: "PCMU", pt: 0}, {codec: "PCMA", pt: 8},
		{codec: "MPEG4-GENERIC", pt: 97}, {codec: "bbw", pt: 102}, {codec: "vnd.onvif.metadata", pt: 107}}
	style := k.rng.Intn(4)
	g.tracks = nil
	nl := pick(k.rng, "\r\n", "\r\n", "\n")
	var b strings.Builder
	ln := func(s string) { b.WriteString(s + nl) }
	ln("v=0")
	ln("o=- " + pick(k.rng, "1109162014219182 1109162014219192", "0 0", "16388127341259276853 16388127341259276853") + " IN IP4 10.0.0.5")
	ln("s=" + pick(k.rng, "Media Presentation", "Session streamed by \"x\"", "-"))
	if k.rng.Intn(2) == 0 {
		ln("c=IN IP4 0.0.0.0")
	}
	bandwidth := func() {
		for _, s := range []string{"b=AS:84", "b=TIAS:64000", "b=RR:0", "b=CT:100", "b=X-YZ:128"} {
			if k.rng.Intn(12) == 0 {
				ln(s)
			}
		}
	}
	bandwidth()
	ln("t=0 0")
	if k.rng.Intn(2) == 0 {
		ln("a=control:" + pick(k.rng, "*", g.base()))
	}
	for i := 0; i < nt; i++ {
		t := codecs[k.rng.Intn(len(codecs))]
		st := style
		if style == 3 {
			st = k.rng.Intn(3)
		}
		switch st {
		case 0:
			t.control = fmt.Sprintf("trackID=%d", i+1)
			t.url = g.wire + "/" + t.control
		case 1:
			t.control = fmt.Sprintf(pick(k.rng, "rtsp", "rtsp", "RTSP")+"://10.9.9.9:5540/x/y/trackID=%d", i+1)
			t.url = t.control
		case 2:
			t.control = fmt.Sprintf(pick(k.rng, "stream%d?a=b", "video/%d", "r%d", "rtspstream%d"), i+1)
			t.url = g.wire + "/" + t.control
		}
		kind := "video"
		if strings.HasPrefix(t.codec, "PCM") || t.codec == "MPEG4-GENERIC" {
			kind = "audio"
		}
		ln(fmt.Sprintf("m=%s %d RTP/AVP %d", kind, pick(k.rng, 0, 49170), t.pt))
		if k.rng.Intn(6) == 0 {
			ln("c=IN IP4 0.0.0.0")
		}
		bandwidth()
		if t.pt >= 96 {
			ln(fmt.Sprintf("a=rtpmap:%d %s/%d", t.pt, t.codec, pick(k.rng, 90000, 8000, 48000)))
		}
		ln("a=control:" + t.control)
		g.tracks = append(g.tracks, t)
	}
	return b.String()
}

// badSDP makes a description that cannot be parsed or has no track.
func (k *sessCase) badSDP() string {
	if k.rng.Intn(3) == 0 {
		// well-formed, but nothing to set up
		d := "v=0\r\no=- 1 1 IN IP4 10.0.0.5\r\ns=x\r\n" + pick(k.rng, "", "i=info\r\n") + pick(k.rng, "", "c=IN IP4 0.0.0.0\r\n") +
			pick(k.rng, "", "b=AS:100\r\n") + "t=0 0\r\n"
		for k.rng.Intn(3) > 0 {
			d += pick(k.rng, "a=control:*\r\n", "a=range:npt=0-\r\n", "a=recvonly\r\n", "a=rtpmap:96 H264/90000\r\n", "a=control:trackID=1\r\n")
		}
		return d
	}
	return pick(k.rng, "", "hello world\r\n", "v=0\r\no=foo\r\ns=x\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\n", "x=1\r\n",
		"v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=x\r\nc=IN IP4 224.2.1.1/127/3/9\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\na=control:t1\r\n",
		"v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=x\r\nt=abc 0\r\nm=video 0 RTP/AVP 96\r\na=control:t1\r\n", "\x00\xff\xfe\r\n")
}

func (k *sessCase) challenge(g *generation, scheme string) string {
	realms := []string{"IP Camera(12345)", "LIVE555 Streaming Media", "a:b c", "Login to 4E,5F", "x", "realm=y, nonce=z", "ÜC", " cam ", "Login to cam ", "  two  blanks"}
	if scheme == "basic" {
		return fmt.Sprintf("%s realm=\"%s\"", pick(k.rng, "Basic", "Basic", "basic", "BASIC"), realms[k.rng.Intn(len(realms))])
	}
	realm := realms[k.rng.Intn(len(realms))]
	if scheme == "other" {
		// nothing the client could answer
		ps := []string{"realm=\"" + realm + "\"", fmt.Sprintf("nonce=\"other%x\"", k.rng.Uint64()), pick(k.rng, "algorithm=SHA-256", "algorithm=\"SHA-256\"", "algorithm=MD5-sess", "algorithm=\"SHA-512-256\"")}
		k.rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		d := "Digest " + strings.Join(ps, ", ")
		return pick(k.rng, d, d, d, "NTLM", "Bearer realm=\"x\"", "Negotiate")
	}
	nonce := pick(k.rng, fmt.Sprintf("%032x", k.rng.Uint64()), "dcd98b7102dd2f0e8b11d0f600bfb0c093==", "a b:c,d", "MTIzNDU2:abc==", "0", " 7f ", "end ")
	ps := []string{"realm=\"" + realm + "\"", "nonce=\"" + nonce + "\""}
	g.digests = append(g.digests, [2]string{realm, nonce})
	if k.rng.Intn(3) == 0 {
		ps = append(ps, pick(k.rng, "stale=\"FALSE\"", "stale=FALSE", "stale=false"))
	}
	if k.rng.Intn(3) == 0 {
		ps = append(ps, pick(k.rng, "algorithm=\"MD5\"", "algorithm=MD5"))
	}
	if k.rng.Intn(4) == 0 {
		ps = append(ps, "opaque=\"5ccc069c, 403e=\"")
	}
	if k.rng.Intn(4) == 0 {
		ps = append(ps, "domain=\"/ rtsp://x:1/\"")
	}
	k.rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	return pick(k.rng, "Digest ", "Digest ", "digest ", "DIGEST ") + strings.Join(ps, pick(k.rng, ", ", ",", " , "))
}

func (k *sessCase) reply(g *generation, m sessMsg) []byte {
	reasons := map[int]string{200: "OK", 201: "Created", 301: "Moved Permanently", 401: "Unauthorized", 403: "Forbidden", 404: "Stream Not Found", 454: "Session Not Found", 500: "Internal Server Error", 551: "Option not supported"}
	body := ""
	hasBody := false
	if m.Nt > 0 {
		body, hasBody = k.makeSDP(g, m.Nt), true
	} else if m.St == 200 && k.rng.Intn(2) == 0 {
		body, hasBody = k.badSDP(), true
	} else if m.St != 200 && k.rng.Intn(3) == 0 {
		body, hasBody = pick(k.rng, "<html>not here</html>", "v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=x\r\nt=0 0\r\nm=video 0 RTP/AVP 96\r\na=control:t1\r\n"), true
	}
	name := func(s string) string {
		switch k.rng.Intn(5) {
		case 0:
			return strings.ToLower(s)
		case 1:
			return strings.ToUpper(s)
		}
		return s
	}
	colon := func() string { return pick(k.rng, ": ", ": ", ":", " : ", ":  ", ":\t") }
	var hs []string
	hs = append(hs, "CSeq"+colon()+strconv.Itoa(g.lastCseq))
	if m.Sid != 0 {
		hs = append(hs, name("Session")+colon()+k.sidString(m.Sid)+pick(k.rng, "", "", ";timeout=60", "; timeout=60", " ; timeout=30", " ", ";timeout=60;x=y"))
	}
	if hasBody {
		hs = append(hs, name(pick(k.rng, "Content-Length", "Content-length"))+colon()+strconv.Itoa(len(body)))
		if k.rng.Intn(2) == 0 {
			hs = append(hs, "Content-Type: application/sdp")
		}
	} else if k.rng.Intn(4) == 0 {
		hs = append(hs, "Content-Length: 0")
	}
	for _, c := range m.Ch {
		hs = append(hs, name("WWW-Authenticate")+pick(k.rng, ": ", ":")+k.challenge(g, c))
	}
	for _, x := range []string{"Server: GStreamer RTSP server", "Date: Thu, 19 Nov 2026 10:00:00 GMT", "X-Session: 4711;timeout=3", "Content-Base: " + g.base(),
		"Transport: RTP/AVP/TCP;unicast;interleaved=0-1;ssrc=1234ABCD", "Public: DESCRIBE, SETUP, TEARDOWN, PLAY", "a line without any separator",
		"RTP-Info: url=rtsp://x:1/t;seq=1;rtptime=2", "Session-Group: 99"} {
		if k.rng.Intn(5) == 0 {
			hs = append(hs, x)
		}
	}
	if k.rng.Intn(3) > 0 {
		// challenges keep their order
		k.rng.Shuffle(len(hs), func(i, j int) {
			if !strings.HasPrefix(strings.ToLower(hs[i]), "www") && !strings.HasPrefix(strings.ToLower(hs[j]), "www") {
				hs[i], hs[j] = hs[j], hs[i]
			}
		})
	}
	reason, ok := reasons[m.St]
	if !ok {
		reason = "Status"
	}
	if k.rng.Intn(8) == 0 {
		reason = pick(k.rng, "", "ok", "200 OK", "Very long: reason, with 401 inside")
	}
	ver := "RTSP/1.0"
	if k.rng.Intn(12) == 0 {
		ver = "rtsp/1.0"
	}
	return []byte(fmt.Sprintf("%s %d %s\r\n%s\r\n\r\n%s", ver, m.St, reason, strings.Join(hs, "\r\n"), body))
}

func (k *sessCase) badReply() []byte {
	return []byte(pick(k.rng, "RTSP\r\n\r\n", "RTSP/1.0\r\n\r\n", "RTSP/1.0 20\r\n\r\n", "RTSP/1.0 200 OK\r\nContent-Length: -5\r\nCSeq: 3\r\n\r\n", "rtsp/1.0 2\r\n\r\n"))
}

func frame(ch int, data []byte) []byte {
	b := []byte{'$', byte(ch), 0, 0}
	binary.BigEndian.PutUint16(b[2:], uint16(len(data)))
	return append(b, data...)
}

func (k *sessCase) rtp(marker bool, pt int, payload []byte) []byte {
	h := make([]byte, 12)
	h[0] = 0x80
	h[1] = byte(pt)
	if marker {
		h[1] |= 0x80
	}
	k.rng.Read(h[2:12])
	return append(h, payload...)
}

func (k *sessCase) codecOf(g *generation, ch int) track {
	if ch/2 < len(g.tracks) {
		return g.tracks[ch/2]
	}
	return track{codec: "PCMU"}
}

// unit makes the media unit id of a channel and its packets
func (k *sessCase) unit(g *generation, ch, id int) []byte {
	t := k.codecOf(g, ch)
	n := 8 + pick(k.rng, 0, 3, 40, 1300)
	// a unit is cut into packets only if no SETUP of its track can come between them
	cut := ch/2 < len(g.tracks) && g.setups[ch/2] && k.rng.Intn(2) == 0
	u := make([]byte, n)
	k.rng.Read(u)
	var out []byte
	junk := func() {
		if k.rng.Intn(3) == 0 {
			out = append(out, k.junk(g)...)
		}
	}
	switch t.codec {
	case "H264":
		u[0] = byte(k.rng.Intn(4)<<5 | (1 + k.rng.Intn(23)))
		binary.BigEndian.PutUint32(u[3:], uint32(id))
		if cut {
			x := 3 + k.rng.Intn(len(u)-4)
			ind := u[0]&0xe0 | 28
			out = append(out, frame(ch, k.rtp(false, t.pt, append([]byte{ind, 0x80 | u[0]&0x1f}, u[1:x]...)))...)
			junk()
			out = append(out, frame(ch, k.rtp(true, t.pt, append([]byte{ind, 0x40 | u[0]&0x1f}, u[x:]...)))...)
		} else {
			out = append(out, frame(ch, k.rtp(true, t.pt, u))...)
		}
	case "H265", "HEVC":
		ty := k.rng.Intn(41)
		u[0], u[1] = byte(ty<<1), byte(1+k.rng.Intn(7))
		binary.BigEndian.PutUint32(u[3:], uint32(id))
		if cut {
			x := 3 + k.rng.Intn(len(u)-4)
			out = append(out, frame(ch, k.rtp(false, t.pt, append([]byte{49 << 1, u[1], byte(0x80 | ty)}, u[2:x]...)))...)
			junk()
			out = append(out, frame(ch, k.rtp(true, t.pt, append([]byte{49 << 1, u[1], byte(0x40 | ty)}, u[x:]...)))...)
		} else {
			out = append(out, frame(ch, k.rtp(true, t.pt, u))...)
		}
	case "bbw":
		binary.BigEndian.PutUint32(u[3:], uint32(id))
		if cut {
			x := 1 + k.rng.Intn(len(u)-1)
			out = append(out, frame(ch, k.rtp(false, t.pt, u[:x]))...)
			junk()
			out = append(out, frame(ch, k.rtp(true, t.pt, u[x:]))...)
		} else {
			out = append(out, frame(ch, k.rtp(true, t.pt, u))...)
		}
	default:
		binary.BigEndian.PutUint32(u[3:], uint32(id))
		out = append(out, frame(ch, k.rtp(k.rng.Intn(2) == 0, t.pt, u))...)
	}
	k.media[string(u)] = id
	g.sentIds[id] = u
	return out
}

// junk makes a frame that is no unit of any track and must not disturb them
func (k *sessCase) junk(g *generation) []byte {
	any := make([]byte, k.rng.Intn(40))
	k.rng.Read(any)
	nt := len(g.tracks)
	anyCh := k.rng.Intn(256)
	if nt > 0 && k.rng.Intn(2) == 0 {
		anyCh = 2 * k.rng.Intn(nt)
	}
	switch k.rng.Intn(6) {
	case 0: // RTCP
		return frame(2*k.rng.Intn(max(nt, 1))+1, any)
	case 1: // unknown channel
		return frame(100+k.rng.Intn(156), k.rtp(true, 96, any))
	case 2: // empty
		return frame(anyCh, nil)
	case 3: // cut in the RTP header
		return frame(anyCh, k.rtp(true, 96, nil)[:1+k.rng.Intn(11)])
	case 4: // no payload
		return frame(anyCh, k.rtp(false, 96, nil))
	default: // cut in the payload header
		if nt == 0 {
			return frame(anyCh, nil)
		}
		i := k.rng.Intn(nt)
		switch g.tracks[i].codec {
		case "H264":
			return frame(2*i, k.rtp(true, 96, pick(k.rng, []byte{28}, []byte{0x7c}, []byte{24}, []byte{24, 0}, []byte{25, 0, 0}, []byte{26, 1}, []byte{27, 0, 0, 0})))
		case "H265", "HEVC":
			return frame(2*i, k.rtp(true, 96, pick(k.rng, []byte{98}, []byte{98, 1}, []byte{96}, []byte{96, 1}, []byte{96, 1, 0})))
		}
		return frame(2*i+1, any)
	}
}

type rawMsg struct {
	K   string          `json:"k"`
	St  int             `json:"st"`
	Nt  int             `json:"nt"`
	Sid int             `json:"sid"`
	Ch  json.RawMessage `json:"ch"`
	Id  int             `json:"id"`
}

func (k *sessCase) feed(g *generation, raw json.RawMessage) {
	var msgs []rawMsg
	if err := json.Unmarshal(raw, &msgs); err != nil {
		panic(err)
	}
	var buf []byte
	k.mu.Lock()
	for _, m := range msgs {
		switch m.K {
		case "rep":
			x := sessMsg{K: m.K, St: m.St, Nt: m.Nt, Sid: m.Sid}
			json.Unmarshal(m.Ch, &x.Ch)
			buf = append(buf, k.reply(g, x)...)
		case "bad":
			buf = append(buf, k.badReply()...)
		case "rtp":
			var ch int
			json.Unmarshal(m.Ch, &ch)
			buf = append(buf, k.unit(g, ch, m.Id)...)
		case "junk":
			buf = append(buf, k.junk(g)...)
		default:
			panic("unknown message " + m.K)
		}
	}
	k.mu.Unlock()
	k.deliver(g, buf)
}

func (k *sessCase) deliver(g *generation, buf []byte) {
	if k.ws {
		g.ws.feed(buf)
		return
	}
	mode := k.rng.Intn(4)
	for len(buf) > 0 {
		x := len(buf)
		if mode == 0 || (mode == 1 && len(buf) < 400) {
			x = 1 + k.rng.Intn(min(len(buf), 200))
		}
		g.fc.feed(buf[:x])
		buf = buf[x:]
	}
}

// ------------------------------------------------------------------ observation

func (k *sessCase) observe() sessObs {
	synctest.Wait()
	k.mu.Lock()
	defer k.mu.Unlock()
	o := sessObs{A: "obs", Reqs: k.reqs, Rets: k.rets, Evs: map[string]int{"ok": k.ok, "err": k.err}, H: k.h, Closed: []bool{}}
	if o.Reqs == nil {
		o.Reqs = []sessReq{}
	}
	if o.Rets == nil {
		o.Rets = []sessRet{}
	}
	if o.H == nil {
		o.H = []string{}
	}
	k.reqs, k.rets, k.h, k.ok, k.err = nil, nil, nil, 0, 0
	for _, g := range k.gens {
		o.Closed = append(o.Closed, g.fc.isClosed())
	}
	if len(k.active) == 0 && k.discs >= len(k.gens) {
		o.Leak = libGoroutines()
	}
	return o
}

func (k *sessCase) others() int {
	n := 0
	for _, op := range k.active {
		if op != "close" {
			n++
		}
	}
	return n
}

// possible tells whether the step can be taken in the real execution (which may have gone another way
// than the specification when the script was generated).
func (k *sessCase) possible(st sessStep) bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	switch st.A {
	case "feed", "end":
		return st.G <= len(k.gens)
	case "call":
		switch st.Op {
		case "play":
			var a sessArg
			json.Unmarshal(st.Arg, &a)
			return len(k.active) == 0 && (k.discs == len(k.gens) || (a.Re && !k.ws))
		case "badplay":
			n := len(k.gens)
			return len(k.active) == 0 && (k.discs == n || (k.discs == n-1 && !k.gens[n-1].ended && !k.gens[n-1].fc.isClosed()))
		case "close":
			return true
		default:
			return k.others() == 0
		}
	}
	return true
}

func driveSession(raw json.RawMessage, emit func(any), ws bool) {
	var sc struct {
		Seed  int64             `json:"seed"`
		Steps []json.RawMessage `json:"steps"`
	}
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	bubble(emit, func() (any, int) {
		k := newSessCase(sc.Seed)
		k.ws = ws
		for _, st := range sc.Steps {
			var x sessStep
			json.Unmarshal(st, &x)
			k.wsPlain = k.wsPlain || x.A == "writes"
		}
		lines := []any{}
		do := func(rawStep json.RawMessage, obs bool) {
			var st sessStep
			if err := json.Unmarshal(rawStep, &st); err != nil {
				panic(err)
			}
			if !k.possible(st) {
				return
			}
			lines = append(lines, rawStep)
			switch st.A {
			case "call":
				var a sessArg
				json.Unmarshal(st.Arg, &a)
				k.start(st.C, st.Op, a)
			case "feed":
				k.feed(k.gens[st.G-1], st.Msgs)
			case "end":
				k.gens[st.G-1].ended = true
				if g := k.gens[st.G-1]; k.ws {
					g.ws.finish(!k.wsPlain && k.rng.Intn(2) == 0)
				} else {
					g.fc.finish(pick(k.rng, io.EOF, errors.New("fake: reset")))
				}
			case "writes":
				k.mu.Lock()
				k.wmode, k.failAt = st.M, k.rng.Intn(300)
				gs := append([]*generation(nil), k.gens...)
				k.mu.Unlock()
				for _, g := range gs {
					if g.ws == nil || g.ws.isOpen() {
						g.fc.setWrites(st.M, k.failAt)
					}
				}
			case "holdd":
				k.dGate.set(st.B)
			case "holdx":
				k.xGate.set(st.B)
			case "nest":
				k.mu.Lock()
				n := st
				k.nest = &n
				if st.Op == "play" {
					// recorded even if it never happens
				}
				k.mu.Unlock()
			case "tick":
				time.Sleep(time.Duration(st.D) * time.Millisecond)
			default:
				panic("unknown step " + st.A)
			}
			if obs && !st.NW {
				lines = append(lines, k.observe())
			}
		}
		js := func(format string, a ...any) json.RawMessage { return json.RawMessage(fmt.Sprintf(format, a...)) }
		for _, st := range sc.Steps {
			do(st, true)
		}
		lines = append(lines, k.observe())
		do(js(`{"a":"writes","m":"ok"}`), true)
		do(js(`{"a":"holdd","b":false}`), true)
		do(js(`{"a":"holdx","b":false}`), true)
		do(js(`{"a":"nest","on":"","c":0,"op":"","cred":false}`), true)
		for i := 0; i < 3; i++ {
			for g := 1; g <= len(k.gens); g++ {
				do(js(`{"a":"end","g":%d}`, g), true)
			}
			do(js(`{"a":"tick","d":2000}`), true)
		}
		do(js(`{"a":"tick","d":30000}`), true)
		k.mu.Lock()
		defer k.mu.Unlock()
		return map[string]any{"cseq": k.firstSeq, "ws": ws, "plays": append([]int{}, k.plays...), "lines": lines}, len(k.active)
	})
}
