package harness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/sdp"
)

func init() { drivers["sdp"] = driveSdp }

type sdpConn struct {
	On  bool   `json:"on"`
	Net string `json:"net"`
	At  string `json:"at"`
	Ip  string `json:"ip"`
	Ttl string `json:"ttl"`
	N   string `json:"n"`
}
type sdpEnc struct {
	On bool   `json:"on"`
	M  string `json:"m"`
	K  string `json:"k"`
}
type sdpRep struct {
	Interval int   `json:"interval"`
	Active   int   `json:"active"`
	Offs     []int `json:"offs"`
}
type sdpTiming struct {
	Start string   `json:"start"`
	End   string   `json:"end"`
	Rep   []sdpRep `json:"rep"`
}
type sdpTz struct {
	Start string
	Off   int
}

func (z *sdpTz) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]any{&z.Start, &z.Off})
}

type sdpMedia struct {
	Type   string      `json:"type"`
	Port   string      `json:"port"`
	Nports string      `json:"nports"`
	Proto  string      `json:"proto"`
	Fmt    string      `json:"fmt"`
	Title  string      `json:"title"`
	Conn   sdpConn     `json:"conn"`
	Bw     [][2]string `json:"bw"`
	Enc    sdpEnc      `json:"enc"`
	Attrs  [][2]string `json:"attrs"`
}
type sdpMsg struct {
	Version string      `json:"version"`
	Origin  []string    `json:"origin"`
	Name    string      `json:"name"`
	Info    string      `json:"info"`
	Uri     string      `json:"uri"`
	Email   string      `json:"email"`
	Phone   string      `json:"phone"`
	Conn    sdpConn     `json:"conn"`
	Bw      [][2]string `json:"bw"`
	Timing  []sdpTiming `json:"timing"`
	Tz      []sdpTz     `json:"tz"`
	Enc     sdpEnc      `json:"enc"`
	Attrs   [][2]string `json:"attrs"`
	Media   []sdpMedia  `json:"media"`
}
type sdpVector struct {
	Kind  string      `json:"kind"`
	Msg   sdpMsg      `json:"msg"`
	Lines [][2]string `json:"lines"`
	Enc   [][2]string `json:"enc"`
	Seed  int64       `json:"seed"`
	What  string      `json:"what"` // "encode" | "decode"
	How   string      `json:"how"`
}

func num(s string) int {
	if s == "" {
		return 0
	}
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return int(n)
}

// ---- what the specification's message is in the package's terms

func ntpTimeBig(s string) time.Time {
	if s == "0" {
		return time.Time{}
	}
	return time.Unix(int64(num(s))-2208988800, 0)
}

func (c sdpConn) real() sdp.ConnectionData {
	if !c.On {
		return sdp.ConnectionData{}
	}
	return sdp.ConnectionData{NetworkType: c.Net, AddressType: c.At, IP: net.ParseIP(c.Ip), TTL: byte(num(c.Ttl)), Addresses: byte(num(c.N))}
}

func attrsReal(q [][2]string) sdp.Attributes {
	if len(q) == 0 {
		return nil
	}
	a := sdp.Attributes{}
	for _, x := range q {
		a[x[0]] = append(a[x[0]], x[1])
	}
	return a
}

func bwReal(q [][2]string) map[sdp.BandwidthType]int {
	if len(q) == 0 {
		return nil
	}
	m := map[sdp.BandwidthType]int{}
	for _, x := range q {
		m[sdp.BandwidthType(x[0])] = num(x[1])
	}
	return m
}

func secs(n int) time.Duration { return time.Duration(n) * time.Second }

func (m *sdpMsg) real() *sdp.Message {
	r := &sdp.Message{Version: num(m.Version), Name: m.Name, Info: m.Info, URI: m.Uri, Email: m.Email, Phone: m.Phone, Connection: m.Conn.real(),
		Attributes: attrsReal(m.Attrs), Bandwidths: bwReal(m.Bw), Encryption: sdp.Encryption{Method: m.Enc.M, Key: m.Enc.K}}
	if len(m.Origin) == 6 {
		r.Origin = sdp.Origin{Username: m.Origin[0], SessionID: num(m.Origin[1]), SessionVersion: num(m.Origin[2]), NetworkType: m.Origin[3],
			AddressType: m.Origin[4], Address: m.Origin[5]}
	}
	for _, t := range m.Timing {
		x := sdp.Timing{Start: ntpTimeBig(t.Start), End: ntpTimeBig(t.End)}
		for _, p := range t.Rep {
			x.Repeat, x.Active = secs(p.Interval), secs(p.Active)
			for _, o := range p.Offs {
				x.Offsets = append(x.Offsets, secs(o))
			}
		}
		r.Timing = append(r.Timing, x)
	}
	for _, z := range m.Tz {
		r.TZAdjustments = append(r.TZAdjustments, sdp.TimeZone{Start: ntpTimeBig(z.Start), Offset: secs(z.Off)})
	}
	for _, d := range m.Media {
		r.Medias = append(r.Medias, sdp.Media{Title: d.Title, Connection: d.Conn.real(), Attributes: attrsReal(d.Attrs), Bandwidths: bwReal(d.Bw),
			Encryption:  sdp.Encryption{Method: d.Enc.M, Key: d.Enc.K},
			Description: sdp.MediaDescription{Type: d.Type, Port: num(d.Port), PortsNumber: num(d.Nports), Protocol: d.Proto, Format: d.Fmt}})
	}
	return r
}

// ---- comparison

func diff(at string, a, b any) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	return fmt.Sprintf("%s is %#v, should be %#v", at, a, b)
}

func first(q ...string) string {
	for _, s := range q {
		if s != "" {
			return s
		}
	}
	return ""
}

func diffConn(at string, a, b sdp.ConnectionData) string {
	if a.NetworkType != b.NetworkType || a.AddressType != b.AddressType || !a.IP.Equal(b.IP) || a.TTL != b.TTL || a.Addresses != b.Addresses {
		return fmt.Sprintf("%s is %#v (%s), should be %#v (%s)", at, a, a.IP, b, b.IP)
	}
	return ""
}

func diffAttrs(at string, a, b sdp.Attributes) string {
	if len(a) == 0 && len(b) == 0 {
		return ""
	}
	return diff(at, map[string][]string(a), map[string][]string(b))
}

func diffBw(at string, a, b map[sdp.BandwidthType]int) string {
	if len(a) == 0 && len(b) == 0 {
		return ""
	}
	return diff(at, a, b)
}

func diffMsg(a, b *sdp.Message) string {
	q := []string{diff("version", a.Version, b.Version), diff("origin", a.Origin, b.Origin), diff("name", a.Name, b.Name), diff("info", a.Info, b.Info),
		diff("uri", a.URI, b.URI), diff("email", a.Email, b.Email), diff("phone", a.Phone, b.Phone), diffConn("connection", a.Connection, b.Connection),
		diffAttrs("attributes", a.Attributes, b.Attributes), diffBw("bandwidths", a.Bandwidths, b.Bandwidths), diff("encryption", a.Encryption, b.Encryption),
		diff("number of time descriptions", len(a.Timing), len(b.Timing)), diff("number of time zones", len(a.TZAdjustments), len(b.TZAdjustments)),
		diff("number of media", len(a.Medias), len(b.Medias))}
	if s := first(q...); s != "" {
		return s
	}
	for i := range a.Timing {
		x, y := a.Timing[i], b.Timing[i]
		if !x.Start.Equal(y.Start) || !x.End.Equal(y.End) || x.Repeat != y.Repeat || x.Active != y.Active || len(x.Offsets) != len(y.Offsets) ||
			(len(x.Offsets) > 0 && !reflect.DeepEqual(x.Offsets, y.Offsets)) {
			return fmt.Sprintf("time description %d is %v, should be %v", i, x, y)
		}
	}
	for i := range a.TZAdjustments {
		x, y := a.TZAdjustments[i], b.TZAdjustments[i]
		if !x.Start.Equal(y.Start) || x.Offset != y.Offset {
			return fmt.Sprintf("time zone %d is %v, should be %v", i, x, y)
		}
	}
	for i := range a.Medias {
		x, y := a.Medias[i], b.Medias[i]
		at := fmt.Sprintf("media %d: ", i)
		if s := first(diff(at+"description", x.Description, y.Description), diff(at+"title", x.Title, y.Title), diffConn(at+"connection", x.Connection, y.Connection),
			diffAttrs(at+"attributes", x.Attributes, y.Attributes), diffBw(at+"bandwidths", x.Bandwidths, y.Bandwidths), diff(at+"encryption", x.Encryption, y.Encryption)); s != "" {
			return s
		}
	}
	return ""
}

// ---- lines

func interval(s string) string {
	mul := 1
	if n := len(s); n > 1 {
		switch s[n-1] {
		case 'd':
			mul, s = 86400, s[:n-1]
		case 'h':
			mul, s = 3600, s[:n-1]
		case 'm':
			mul, s = 60, s[:n-1]
		case 's':
			s = s[:n-1]
		}
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		return "?" + s
	}
	return strconv.Itoa(n * mul)
}

// meaning of a line: the same for every spelling
func normal(l [2]string) string {
	t, v := l[0], l[1]
	f := strings.Split(v, " ")
	switch t {
	case "r":
		for i := range f {
			f[i] = interval(f[i])
		}
		v = strings.Join(f, " ")
	case "z":
		for i := 1; i < len(f); i += 2 {
			f[i] = interval(f[i])
		}
		v = strings.Join(f, " ")
	case "c":
		v = strings.ToUpper(v)
	}
	return t + "=" + v
}

// attributes and bandwidths are sets: sorted within their run (the values of one attribute keep their order,
// which the comparison of the messages sees)
func normalLines(q [][2]string) []string {
	var out []string
	for i := 0; i < len(q); {
		j := i + 1
		if q[i][0] == "a" || q[i][0] == "b" {
			for j < len(q) && q[j][0] == q[i][0] {
				j++
			}
		}
		var run []string
		for _, l := range q[i:j] {
			run = append(run, normal(l))
		}
		sort.Strings(run)
		out = append(out, run...)
		i = j
	}
	return out
}

var exotic = strings.NewReplacer("U~berschrift", "Überschrift", "~J", "日本語", "~A", "Ä", "~O", "Ö", "~u", "ü")

func unescape(q [][2]string) {
	for i := range q {
		q[i][0], q[i][1] = exotic.Replace(q[i][0]), exotic.Replace(q[i][1])
	}
}

func (m *sdpMsg) unescape() {
	for _, s := range []*string{&m.Name, &m.Info, &m.Uri, &m.Email, &m.Phone} {
		*s = exotic.Replace(*s)
	}
	unescape(m.Attrs)
	for i := range m.Media {
		m.Media[i].Title = exotic.Replace(m.Media[i].Title)
		unescape(m.Media[i].Attrs)
	}
}

// render writes out lines with blank lines, surrounding blanks and line endings of any kind
func render(rng *rand.Rand, q [][2]string, plain bool) string {
	nl := pick(rng, "\n", "\r\n", "mix")
	end := func() string {
		if nl == "mix" {
			return pick(rng, "\n", "\r\n")
		}
		return nl
	}
	noisy := !plain && rng.Intn(2) == 0
	var b strings.Builder
	for i, l := range q {
		if noisy && rng.Intn(6) == 0 {
			b.WriteString(pick(rng, "", " ", "\t", "  \t") + end())
		}
		if noisy && rng.Intn(4) == 0 {
			b.WriteString(pick(rng, " ", "\t", "  "))
		}
		b.WriteString(l[0] + "=" + l[1])
		if noisy && rng.Intn(4) == 0 {
			b.WriteString(pick(rng, " ", "\t", "  "))
		}
		if i+1 < len(q) || rng.Intn(3) > 0 {
			b.WriteString(end())
			if noisy && i+1 == len(q) {
				b.WriteString(pick(rng, "", end(), "  "+end()))
			}
		}
	}
	return b.String()
}

func decodeText(text string, reuse sdp.Session) (*sdp.Message, sdp.Session, error) {
	data := []byte(text)
	s, err := sdp.DecodeSession(data, reuse)
	for i := range data {
		data[i] = '#' // the decoder says that it does not keep its input
	}
	if err != nil {
		return nil, s, err
	}
	m := &sdp.Message{}
	d := sdp.NewDecoder(s)
	return m, s, d.Decode(m)
}

var dirty = "v=7\no=stale 7 7 IN IP4 7.7.7.7\ns=stale name that is long enough\ni=stale\nu=stale\ne=stale\np=stale\nc=IN IP4 7.7.7.7/7/7\nb=CT:7\nt=7 7\nr=7d 7h 7\nk=stale:stale\n" +
	"a=stale:stale stale stale\na=stale\nm=stale 7 stale 7\ni=stale\nc=IN IP4 7.7.7.7\nb=AS:7\na=stale\nm=stale 7 stale 7\na=stale\n"

func driveSdp(raw json.RawMessage, emit func(any)) {
	var v sdpVector
	if err := json.Unmarshal(raw, &v); err != nil {
		panic(err)
	}
	unescape(v.Lines)
	unescape(v.Enc)
	v.Msg.unescape()
	rng := rand.New(rand.NewSource(v.Seed))
	reuse := func() sdp.Session {
		if rng.Intn(3) > 0 {
			return nil
		}
		s, err := sdp.DecodeSession([]byte(dirty), nil)
		if err != nil {
			return nil
		}
		return s[:0]
	}
	why := ""
	text := ""
	switch {
	case v.Kind == "bad":
		text = render(rng, v.Lines, false)
		m, _, err := decodeText(text, reuse())
		if err == nil {
			why = fmt.Sprintf("accepted (%s): %v", v.How, m)
		}
	case v.What == "encode":
		want := v.Msg.real()
		s := want.Append(reuse())
		var got [][2]string
		for _, l := range s {
			got = append(got, [2]string{string(rune(l.Type)), string(l.Value)})
		}
		text = string(s.AppendTo(nil))
		if x, y := normalLines(got), normalLines(v.Enc); !reflect.DeepEqual(x, y) {
			why = fmt.Sprintf("encoded as %q, should be %q", x, y)
			break
		}
		// the text says the same as the lines
		var parts [][2]string
		for _, l := range strings.Split(text, "\n") {
			p := strings.SplitN(l, "=", 2)
			if len(p) != 2 {
				why = fmt.Sprintf("line %q in the text", l)
				p = append(p, "")
			}
			parts = append(parts, [2]string{p[0], p[1]})
		}
		if !reflect.DeepEqual(parts, got) {
			why = fmt.Sprintf("text %q of lines %q", text, got)
			break
		}
		text = pick(rng, text, strings.ReplaceAll(text, "\n", "\r\n"), text+"\n", strings.ReplaceAll(text, "\n", "\r\n")+"\r\n")
		m, _, err := decodeText(text, reuse())
		if err != nil {
			why = "not decoded: " + err.Error()
		} else {
			why = diffMsg(m, want)
		}
	default:
		text = render(rng, v.Lines, false)
		if v.Msg.Name == " " {
			text = render(rng, v.Lines, true)
		}
		m, s, err := decodeText(text, reuse())
		if err != nil {
			why = "not decoded: " + err.Error()
		} else if why = diffMsg(m, v.Msg.real()); why == "" {
			// another description decoded with the same lines must not change it
			sdp.DecodeSession([]byte(dirty), s[:0])
			why = diffMsg(m, v.Msg.real())
		}
	}
	if why == "" && v.What == "decode" {
		why = hostileSdp(rng, render(rng, v.Lines, false))
	}
	emit(map[string]any{"why": why, "text": text})
}

// hostileSdp decodes damaged texts and lines; only their survival counts
func hostileSdp(rng *rand.Rand, text string) string {
	b := []byte(text)
	for i := rng.Intn(4); i >= 0 && len(b) > 0; i-- {
		p := rng.Intn(len(b))
		switch rng.Intn(6) {
		case 0:
			b[p] = byte(rng.Intn(256))
		case 1:
			b = append(b[:p], b[min(len(b), p+1+rng.Intn(8)):]...)
		case 2:
			b = append(b[:p:p], append([]byte(pick(rng, " ", ":", "/", "=", "\n", "\r", "-", "99999999999999999999", "d", "h", "\x00", "é", "m=", "t=", "r=", "\nz=", "\nr=0 0 ", "a=:", "k=:")), b[p:]...)...)
		case 3:
			b = b[:p]
		case 4:
			q := rng.Intn(len(b))
			b = append(b[:p:p], b[min(p, q):]...)
		case 5:
			b[p] = " /:=\n0dh-"[rng.Intn(9)]
		}
		if len(b) > 1<<16 {
			b = b[:1<<16]
		}
	}
	decodeText(string(b), nil)
	// lines as they never come from a text
	var s sdp.Session
	for i := rng.Intn(6); i >= 0; i-- {
		s = s.AddRaw([]rune("vosiuepcbtrzkamx\x00")[rng.Intn(17)], pick(rng, "", " ", "  ", "0", "0 ", " 0", "0 0", "0 0 ", "a b c d e f", ":", ":x", "x:", "/", "IN IP4 /", "IN IP4 1/2/3/4", "d", "0 0 d", "-", "1 2 3 4", "1/ 1 1 1", "\x00", "IN IP4 1.1.1.1//"))
	}
	m := &sdp.Message{}
	d := sdp.NewDecoder(s)
	d.Decode(m)
	return ""
}
