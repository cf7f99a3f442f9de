package harness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/NodeBoy2/rtspclient"
)

func init() { drivers["mediainfo"] = driveMediaInfo }

type miInfo struct {
	Medium string      `json:"medium"`
	Pt     int         `json:"pt"`
	Codec  string      `json:"codec"`
	Rate   int         `json:"rate"`
	Ch     int         `json:"ch"`
	Known  bool        `json:"known"`
	Url    string      `json:"url"`
	W      int         `json:"w"`
	H      int         `json:"h"`
	Fps    int         `json:"fps"`
	Params [][2]string `json:"params"`
}

type miScript struct {
	Seed  int64 `json:"seed"`
	Descs []struct {
		Secs []struct {
			Medium string      `json:"medium"`
			Fmts   []int       `json:"fmts"`
			Attrs  [][2]string `json:"attrs"`
		} `json:"secs"`
		Map []struct {
			Ch   int    `json:"ch"`
			Info miInfo `json:"info"`
		} `json:"map"`
		Decoy bool `json:"decoy"`
	} `json:"descs"`
}

func miDiff(got rtspclient.MediaSubsession, want miInfo) string {
	d := func(what string, g, w any) string {
		if g != w {
			return fmt.Sprintf("%s is %v, the description says %v", what, g, w)
		}
		return ""
	}
	res := []string{d("MediumName", got.MediumName, want.Medium), d("PayloadFormat", got.PayloadFormat, want.Pt), d("TrackURL", got.TrackURL, want.Url),
		d("VideoWidth", got.VideoWidth, want.W), d("VideoHeight", got.VideoHeight, want.H), d("VideoFramerate", got.VideoFramerate, want.Fps)}
	if want.Known {
		res = append(res, d("CodecName", got.CodecName, want.Codec), d("RtpTimestampFrequency", got.RtpTimestampFrequency, want.Rate), d("Channels", got.Channels, want.Ch))
	}
	named := map[string]bool{fmt.Sprint(want.Pt): true}
	for _, p := range want.Params {
		named[p[0]] = true
		v, ok := got.Fmtp[p[0]]
		if !ok {
			res = append(res, "Fmtp lacks "+p[0])
		} else {
			res = append(res, d("Fmtp["+p[0]+"]", v, p[1]))
		}
	}
	for k := range got.Fmtp {
		if !named[k] {
			res = append(res, "Fmtp has "+k+" that the description does not give")
		}
	}
	for _, r := range res {
		if r != "" {
			return r
		}
	}
	return ""
}

func driveMediaInfo(raw json.RawMessage, emit func(any)) {
	var sc miScript
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	bubble(emit, func() (any, int) {
		rng := rand.New(rand.NewSource(sc.Seed))
		var mu sync.Mutex
		discs := 0
		// what a data handler read of the media map stays as it was
		type look struct {
			held, was map[int]rtspclient.MediaSubsession
		}
		var looks []look
		var sess *rtspclient.RtspClientSession
		sess = rtspclient.NewRtspClientSession(func(*rtspclient.RtspData) {
			mu.Lock()
			defer mu.Unlock()
			l := look{held: sess.RtpMediaMap, was: map[int]rtspclient.MediaSubsession{}}
			for ch, m := range l.held {
				l.was[ch] = m
			}
			looks = append(looks, l)
		}, func(e *rtspclient.RtspEvent) {
			if e.EventType == rtspclient.RtspEventDisconnected {
				mu.Lock()
				discs++
				mu.Unlock()
			}
		})
		result := func(di int, why string) any {
			if why != "" {
				why = fmt.Sprintf("description %d: %s", di, why)
			}
			return map[string]any{"why": why}
		}
		for di, desc := range sc.Descs {
			eol := []string{"\r\n", "\r\n", "\n"}[rng.Intn(3)]
			var b strings.Builder
			line := func(f string, a ...any) { b.WriteString(fmt.Sprintf(f, a...) + eol) }
			line("v=0")
			line("o=- " + pick(rng, "1", "1", "16388127341259276853") + " 1 IN IP4 10.0.0.5")
			line("s=x")
			extra := func(q ...string) {
				for _, s := range q {
					if rng.Intn(8) == 0 {
						line("%s", s)
					}
				}
			}
			extra("i=info", "u=http://x/", "e=a@b", "p=+1", "c=IN IP4 224.2.1.1/127", "b=AS:84", "b=RR:0")
			line("t=0 0")
			extra("k=prompt", "a=framerate:8")
			line("a=control:*")
			if desc.Decoy {
				line("a=framerate:7")
				line("a=x-dimensions:11,13")
				line("a=fmtp:%d decoy=1", desc.Secs[0].Fmts[0])
				line("a=rtpmap:%d DECOY/17/5", desc.Secs[0].Fmts[0])
			}
			for _, s := range desc.Secs {
				fs := []string{}
				for _, f := range s.Fmts {
					fs = append(fs, fmt.Sprint(f))
				}
				line("m=%s 0 RTP/AVP %s", s.Medium, strings.Join(fs, " "))
				extra("i=title", "c=IN IP4 0.0.0.0", "b=AS:84", "b=TIAS:64000", "b=RS:0", "k=prompt")
				for _, a := range s.Attrs {
					if a[1] == "" {
						line("a=%s", a[0])
					} else {
						line("a=%s:%s", a[0], a[1])
					}
				}
			}
			fc := newFconn()
			srv := &autoServer{sdp: b.String(), send: fc.feed}
			fc.onWrite = srv.onWrite
			// sometimes the server refuses one of the tracks: what was set up until then is there
			refuse, setups := -1, 0
			if rng.Intn(5) == 0 {
				refuse = rng.Intn(len(desc.Secs) + 1)
			}
			srv.answer = func(method, req string) (string, bool) {
				if setups > 0 && rng.Intn(2) == 0 {
					// media of the first track, and time to handle it
					fc.feed(append([]byte{'$', 0, 0, 14, 0x80, 0x80, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1}, 0x41, 1))
					time.Sleep(time.Millisecond)
				}
				if method == "SETUP" || (method == "PLAY" && refuse == len(desc.Secs)) {
					setups++
					if setups-1 == refuse {
						return fmt.Sprintf("RTSP/1.0 404 Not Found\r\nCSeq: %s\r\n\r\n", cseqLine.FindStringSubmatch(req)[1]), true
					}
				}
				return "", false
			}
			done := make(chan error, 1)
			go func() {
				err := sess.ParsingURL("rtsp://10.0.0.5/x")
				if err == nil {
					err = sess.SetConnection(fc)
				}
				done <- err
			}()
			time.Sleep(20 * time.Second)
			synctest.Wait()
			var perr error
			select {
			case perr = <-done:
			default:
				return result(di, "playback neither starts nor fails"), 1
			}
			if (perr == nil) != (refuse == -1) {
				fc.finish(nil)
				time.Sleep(10 * time.Second)
				return result(di, fmt.Sprintf("playback: %v, refused: %v", perr, refuse)), 0
			}
			why := ""
			n := 0
			for i, m := range desc.Map {
				got, ok := sess.RtpMediaMap[m.Ch]
				if ok {
					n++
				} else if refuse == -1 || i < refuse {
					why = fmt.Sprintf("track %d is not in the media map", i)
					break
				} else {
					continue
				}
				if d := miDiff(got, m.Info); d != "" {
					why = fmt.Sprintf("track %d: %s", i, d)
					break
				}
				if refuse != -1 && i > refuse {
					why = fmt.Sprintf("track %d was not set up but is in the media map", i)
					break
				}
			}
			if why == "" && len(sess.RtpMediaMap) != n {
				why = fmt.Sprintf("the media map has %d tracks, the description %d", len(sess.RtpMediaMap), len(desc.Map))
			}
			fc.finish(nil)
			time.Sleep(10 * time.Second)
			synctest.Wait()
			mu.Lock()
			d := discs
			mu.Unlock()
			for _, l := range looks {
				if why == "" && !reflect.DeepEqual(l.held, l.was) {
					why = "a media map that a data handler looked at was changed"
				}
			}
			looks = nil
			if why == "" && d != di+1 {
				why = fmt.Sprintf("%d disconnect events after %d connections", d, di+1)
			}
			if why != "" {
				return result(di, why), 0
			}
		}
		return result(0, ""), 0
	})
}
