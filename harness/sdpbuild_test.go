package harness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/NodeBoy2/rtspclient/sdp"
)

// Builds session descriptions with the Add functions (spec/SdpBuild.tla) and reads them.

func init() { drivers["sdpbuild"] = driveSdpBuild }

type sdpCall struct {
	Op                                         string
	N, User, Id, Ver, Net, At, X, Ttl, T, M, K string
	Start, End, Type, Port, Nports, Proto, Fmt string
	Addr                                       struct{ A, T string }
	Interval, Active                           int
	Offs                                       []int
	Z                                          []sdpTz
	Vs                                         []string
}

func allSecs(q []int) (r []time.Duration) {
	for _, n := range q {
		r = append(r, secs(n))
	}
	return
}

func ntp(s string) uint64 { return uint64(num(s)) }

func (c *sdpCall) apply(rng *rand.Rand, s sdp.Session) sdp.Session {
	switch c.Op {
	case "version":
		return s.AddVersion(num(c.N))
	case "origin":
		return s.AddOrigin(sdp.Origin{Username: c.User, SessionID: num(c.Id), SessionVersion: num(c.Ver), NetworkType: c.Net, AddressType: c.At, Address: c.Addr.A})
	case "name":
		return s.AddSessionName(c.X)
	case "info":
		return s.AddSessionInfo(c.X)
	case "uri":
		return s.AddURI(c.X)
	case "email":
		return s.AddEmail(c.X)
	case "phone":
		return s.AddPhone(c.X)
	case "conn":
		return s.AddConnectionData(sdp.ConnectionData{NetworkType: c.Net, AddressType: c.At, IP: net.ParseIP(c.Addr.A), TTL: byte(num(c.Ttl)), Addresses: byte(num(c.N))})
	case "connip":
		return s.AddConnectionDataIP(net.ParseIP(c.Addr.A))
	case "bw":
		return s.AddBandwidth(sdp.BandwidthType(c.T), num(c.N))
	case "timing":
		return s.AddTiming(ntpTimeBig(c.Start), ntpTimeBig(c.End))
	case "ntp":
		return s.AddTimingNTP(ntp(c.Start), ntp(c.End))
	case "repeat":
		return s.AddRepeatTimes(secs(c.Interval), secs(c.Active), allSecs(c.Offs)...)
	case "compact":
		return s.AddRepeatTimesCompact(secs(c.Interval), secs(c.Active), allSecs(c.Offs)...)
	case "zones":
		var z []sdp.TimeZone
		for _, x := range c.Z {
			z = append(z, sdp.TimeZone{Start: ntpTimeBig(x.Start), Offset: secs(x.Off)})
		}
		return s.AddTimeZones(z...)
	case "key":
		if rng.Intn(2) == 0 {
			return s.AddEncryption(sdp.Encryption{Method: c.M, Key: c.K})
		}
		return s.AddEncryptionKey(c.M, c.K)
	case "method":
		return s.AddEncryptionMethod(c.M)
	case "flag":
		return s.AddFlag(c.K)
	case "attr":
		return s.AddAttribute(c.K, c.Vs...)
	case "media":
		return s.AddMediaDescription(sdp.MediaDescription{Type: c.Type, Port: num(c.Port), PortsNumber: num(c.Nports), Protocol: c.Proto, Format: c.Fmt})
	case "raw":
		r, _ := utf8.DecodeRuneInString(c.T)
		return s.AddRaw(r, c.X)
	case "line":
		r, _ := utf8.DecodeRuneInString(c.T)
		return s.AddLine(sdp.Type(r), c.X)
	}
	panic("unknown call " + c.Op)
}

// built adds a whole message, line by line, each with one of the calls that serve for it
func (m *sdpMsg) built(rng *rand.Rand, s sdp.Session) sdp.Session {
	conn := func(c sdpConn) {
		if !c.On {
			return
		}
		d := c.real()
		if d.TTL == 0 && d.Addresses == 0 && rng.Intn(2) == 0 {
			s = s.AddConnectionDataIP(d.IP)
			return
		}
		if rng.Intn(2) == 0 {
			d.NetworkType, d.AddressType = "", ""
		}
		s = s.AddConnectionData(d)
	}
	bw := func(q [][2]string) {
		for _, x := range q {
			s = s.AddBandwidth(sdp.BandwidthType(x[0]), num(x[1]))
		}
	}
	enc := func(e sdpEnc) {
		if e.On && e.K == "" && rng.Intn(2) == 0 {
			s = s.AddEncryptionMethod(e.M)
		} else if e.On {
			s = s.AddEncryptionKey(e.M, e.K)
		}
	}
	attrs := func(q [][2]string) {
		for _, x := range q {
			if x[1] == "" && rng.Intn(2) == 0 {
				s = s.AddAttribute(x[0])
			} else if x[1] == "" {
				s = s.AddFlag(x[0])
			} else if w := strings.Split(x[1], " "); rng.Intn(2) == 0 {
				s = s.AddAttribute(x[0], w...)
			} else {
				s = s.AddAttribute(x[0], x[1])
			}
		}
	}
	text := func(t sdp.Type, v string, add func(string) sdp.Session) {
		switch {
		case v == "":
		case rng.Intn(4) == 0:
			s = s.AddLine(t, v)
		case rng.Intn(4) == 0:
			s = s.AddRaw(rune(t), v)
		default:
			s = add(v)
		}
	}
	r := m.real()
	s = s.AddVersion(r.Version)
	s = s.AddOrigin(r.Origin)
	text(sdp.TypeSessionName, m.Name, s.AddSessionName)
	text(sdp.TypeSessionInformation, m.Info, s.AddSessionInfo)
	text(sdp.TypeURI, m.Uri, s.AddURI)
	text(sdp.TypeEmail, m.Email, s.AddEmail)
	text(sdp.TypePhone, m.Phone, s.AddPhone)
	conn(m.Conn)
	bw(m.Bw)
	for i, t := range m.Timing {
		if rng.Intn(2) == 0 {
			s = s.AddTimingNTP(ntp(t.Start), ntp(t.End))
		} else {
			s = s.AddTiming(r.Timing[i].Start, r.Timing[i].End)
		}
		for _, p := range t.Rep {
			if rng.Intn(2) == 0 {
				s = s.AddRepeatTimes(secs(p.Interval), secs(p.Active), allSecs(p.Offs)...)
			} else {
				s = s.AddRepeatTimesCompact(secs(p.Interval), secs(p.Active), allSecs(p.Offs)...)
			}
		}
	}
	if len(r.TZAdjustments) > 0 {
		s = s.AddTimeZones(r.TZAdjustments...)
	}
	enc(m.Enc)
	attrs(m.Attrs)
	for i, d := range m.Media {
		s = s.AddMediaDescription(r.Medias[i].Description)
		text(sdp.TypeSessionInformation, d.Title, s.AddSessionInfo)
		conn(d.Conn)
		bw(d.Bw)
		enc(d.Enc)
		attrs(d.Attrs)
	}
	return s
}

func sessionLines(s sdp.Session) (q []string) {
	for _, l := range s {
		q = append(q, string(rune(l.Type))+"="+string(l.Value))
	}
	return
}

// upperConn: hexadecimal digits of an address may have either case
func upperConn(q []string) []string {
	for i := range q {
		if strings.HasPrefix(q[i], "c=") {
			q[i] = "c=" + strings.ToUpper(q[i][2:])
		}
	}
	return q
}

// sameSession compares s with what it should be, in every way it can be looked at
func sameSession(rng *rand.Rand, s sdp.Session, want []string, reuse sdp.Session) string {
	if d := diff("lines", upperConn(sessionLines(s)), upperConn(want)); d != "" {
		return d
	}
	text := strings.Join(sessionLines(s), "\n")
	pre := pick(rng, "", "x", "v=0\n")
	if got := string(s.AppendTo([]byte(pre))); got != pre+text {
		return fmt.Sprintf("text is %q, should be %q", got, pre+text)
	}
	// another session with the same lines is equal, with one that differs it is not
	var twin, other sdp.Session
	for _, l := range s {
		twin = append(twin, sdp.Line{Type: l.Type, Value: append([]byte{}, l.Value...)})
		other = append(other, sdp.Line{Type: l.Type, Value: append([]byte{}, l.Value...)})
	}
	if !s.Equal(twin) || !twin.Equal(s) {
		return "not equal to a session with the same lines"
	}
	if len(s) > 0 {
		i := rng.Intn(len(s))
		switch rng.Intn(4) {
		case 0:
			other[i].Type++
		case 1:
			other[i].Value = append(other[i].Value, 'x')
		case 2:
			other = other[:len(other)-1]
		default:
			other = append(other, sdp.Line{Type: 'a', Value: []byte("x")})
		}
		if s.Equal(other) || other.Equal(s) {
			return fmt.Sprintf("equal to a session with other lines (%q)", sessionLines(other))
		}
	}
	for _, l := range s {
		if v := string(l.Value); v == "" || strings.TrimSpace(v+"x") != strings.TrimSpace(v)+"x" && strings.TrimRight(v, " ") != v {
			return ""
		}
		if v := string(l.Value); strings.TrimSpace("x"+v) != "x"+v {
			return ""
		}
	}
	back, err := sdp.DecodeSession([]byte(text), reuse)
	if err != nil {
		return "its text is not read: " + err.Error()
	}
	if !back.Equal(s) {
		return fmt.Sprintf("its text is read as %q", sessionLines(back))
	}
	return ""
}

// accessors compares what the functions of a decoded message say with its fields
func accessors(rng *rand.Rand, m *sdp.Message, v *sdpMsg) string {
	w := v.real()
	var start, end time.Time
	if len(w.Timing) > 0 {
		start, end = w.Timing[0].Start, w.Timing[0].End
	}
	if !m.Start().Equal(start) || !m.End().Equal(end) {
		return fmt.Sprintf("start and end are %v %v, should be %v %v", m.Start(), m.End(), start, end)
	}
	attr := func(at string, q [][2]string, a sdp.Attributes, flag func(string) bool, value func(string) string) string {
		all := map[string][]string{"x-not-there": nil, "": nil}
		for _, x := range q {
			all[x[0]] = append(all[x[0]], x[1])
		}
		for k, vs := range all {
			first := ""
			if len(vs) > 0 {
				first = vs[0]
			}
			if flag(k) != (len(vs) > 0) || value(k) != first || a.Flag(k) != (len(vs) > 0) || a.Value(k) != first || strings.Join(a.Values(k), "\x00") != strings.Join(vs, "\x00") || len(a.Values(k)) != len(vs) {
				return fmt.Sprintf("%sattribute %q reads %v %q %q, should have values %q", at, k, flag(k), value(k), a.Values(k), vs)
			}
		}
		return ""
	}
	if d := attr("", v.Attrs, m.Attributes, m.Flag, m.Attribute); d != "" {
		return d
	}
	conn := func(c sdp.ConnectionData, x sdpConn) string {
		if c.Blank() == x.On {
			return fmt.Sprintf("connection %v: blank %v", c, c.Blank())
		}
		if !x.On {
			return ""
		}
		want := strings.ToUpper(x.Ip)
		for _, p := range []string{x.Ttl, x.N} {
			if p != "" {
				want += "/" + p
			}
		}
		if got := strings.ToUpper(c.ConnectionAddress()); got != want {
			return fmt.Sprintf("connection address %q, should be %q", got, want)
		}
		if got := strings.ToUpper(c.String()); got != strings.ToUpper(x.Net+" "+x.At+" ")+want {
			return fmt.Sprintf("connection %q", got)
		}
		o := x.real()
		if !c.Equal(o) || !o.Equal(c) {
			return "connection not equal to itself"
		}
		switch rng.Intn(5) {
		case 0:
			o.NetworkType += "x"
		case 1:
			o.AddressType += "x"
		case 2:
			o.IP = net.ParseIP("9.8.7.6")
		case 3:
			o.TTL++
		default:
			o.Addresses++
		}
		if c.Equal(o) || o.Equal(c) {
			return fmt.Sprintf("connections %v and %v equal", c, o)
		}
		return ""
	}
	enc := func(e sdp.Encryption, x sdpEnc) string {
		w := sdp.Encryption{Method: x.M, Key: x.K}
		if e.Blank() == x.On || !e.Equal(w) || e.Equal(sdp.Encryption{Method: x.M + "y", Key: x.K}) || e.Equal(sdp.Encryption{Method: x.M, Key: x.K + "y"}) {
			return fmt.Sprintf("encryption %v compares wrongly", e)
		}
		return ""
	}
	if d := first(conn(m.Connection, v.Conn), enc(m.Encryption, v.Enc)); d != "" {
		return d
	}
	o := w.Origin
	if !m.Origin.Equal(o) {
		return "origin not equal to itself"
	}
	switch rng.Intn(6) {
	case 0:
		o.Username += "x"
	case 1:
		o.SessionID ^= 1
	case 2:
		o.SessionVersion ^= 1
	case 3:
		o.NetworkType += "x"
	case 4:
		o.AddressType += "x"
	default:
		o.Address += "x"
	}
	if m.Origin.Equal(o) || o.Equal(m.Origin) {
		return fmt.Sprintf("origins %v and %v equal", m.Origin, o)
	}
	for i := range v.Media {
		d := &m.Medias[i]
		at := fmt.Sprintf("media %d: ", i)
		if x := first(attr(at, v.Media[i].Attrs, d.Attributes, d.Flag, d.Attribute), conn(d.Connection, v.Media[i].Conn), enc(d.Encryption, v.Media[i].Enc)); x != "" {
			return at + x
		}
	}
	// what is added to a decoded message is there too, after what was there
	k := pick(rng, "x-added", "control")
	was := append([]string{}, m.Attributes.Values(k)...)
	m.AddAttribute(k, "one two")
	m.AddFlag("x-flag")
	if x := m.Attributes.Values(k); len(x) != len(was)+1 || x[len(was)] != "one two" || !m.Flag("x-flag") || m.Attribute("x-flag") != "" {
		return fmt.Sprintf("added attribute: %q", x)
	}
	for i := range m.Medias {
		d := &m.Medias[i]
		was := append([]string{}, d.Attributes.Values(k)...)
		d.AddAttribute(k, "one", "two")
		d.AddFlag("x-flag")
		if x := d.Attributes.Values(k); len(x) != len(was)+1 || x[len(was)] != "one two" || !d.Flag("x-flag") || d.Attribute("x-flag") != "" {
			return fmt.Sprintf("added attribute of media %d: %q", i, x)
		}
	}
	return ""
}

func driveSdpBuild(raw json.RawMessage, emit func(any)) {
	var kind struct {
		Kind string
		Seed int64
	}
	if err := json.Unmarshal(raw, &kind); err != nil {
		panic(err)
	}
	rng := rand.New(rand.NewSource(kind.Seed))
	reuse := func() sdp.Session {
		if rng.Intn(3) > 0 {
			return nil
		}
		s, err := sdp.DecodeSession([]byte(dirty), nil)
		if err != nil {
			return nil
		}
		return s[:0]
	}
	why := ""
	if kind.Kind == "build" {
		var v struct {
			Calls []sdpCall
			Lines [][2]string
		}
		if err := json.Unmarshal(raw, &v); err != nil {
			panic(err)
		}
		unescape(v.Lines)
		s := reuse()
		var want []string
		for i, c := range v.Calls {
			for _, p := range []*string{&c.X, &c.T} {
				*p = exotic.Replace(*p)
			}
			s = c.apply(rng, s)
			want = append(want, v.Lines[i][0]+"="+v.Lines[i][1])
		}
		why = sameSession(rng, s, want, reuse())
	} else {
		var v sdpVector
		if err := json.Unmarshal(raw, &v); err != nil {
			panic(err)
		}
		v.Msg.unescape()
		s := v.Msg.built(rng, reuse())
		var twin sdp.Session
		for _, l := range s {
			twin = append(twin, sdp.Line{Type: l.Type, Value: append([]byte{}, l.Value...)})
		}
		m := &sdp.Message{}
		d := sdp.NewDecoder(s)
		if err := d.Decode(m); err != nil {
			why = fmt.Sprintf("%q not decoded: %v", sessionLines(s), err)
		} else {
			why = first(diffMsg(m, v.Msg.real()), accessors(rng, m, &v.Msg))
			if why == "" && !s.Equal(twin) {
				why = "decoding changed the lines"
			}
		}
	}
	emit(map[string]any{"why": why})
}
