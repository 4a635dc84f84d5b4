// Package h: what the RTSP client asks of a server, and what it makes of the answers.
package h

import (
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/nareix/joy5/format/rtsp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
	"github.com/nareix/joy5/zzvf/lib/dial"
)

type request struct {
	method, uri string
	head        []string
}

// get is the value of a header; there must be at most one.
func (r *request) get(name string) (val string, ok bool) {
	for _, h := range r.head {
		if i := strings.Index(h, ":"); i > 0 && h[:i] == name {
			vf.Assert(!ok, "a header is sent once")
			val, ok = strings.TrimPrefix(h[i+1:], " "), true
		}
	}
	return
}

// server answers every request as it comes.
type server struct {
	lib.FakeConn
	part   string // of a request
	reqs   []request
	answer func(r *request) // appends to s.out
	out    lib.RTSPServer
}

func (s *server) Write(b []byte) (int, error) {
	s.part += string(b)
	if !strings.HasSuffix(s.part, "\r\n\r\n") {
		return len(b), nil
	}
	t := s.part
	s.part = ""
	lines := strings.Split(strings.TrimSuffix(t, "\r\n\r\n"), "\r\n")
	first := strings.Split(lines[0], " ")
	vf.Assert(len(first) == 3 && first[2] == "RTSP/1.0", "request line")
	r := request{first[0], first[1], lines[1:]}
	seq, ok := r.get("CSeq")
	vf.Assert(ok && seq == strconv.Itoa(len(s.reqs)+1), "requests are counted")
	s.reqs = append(s.reqs, r)
	s.out.B = nil
	s.answer(&s.reqs[len(s.reqs)-1])
	s.In.B = append(s.In.B, s.out.B...)
	return len(b), nil
}

func (s *server) respond(status string, head []string, body string) {
	s.out.ResponseTo(strconv.Itoa(len(s.reqs)), status, head, body)
}

func dialTo(s *server, uri, host string) *rtsp.Client {
	s.In.K = 1 << 20
	n := 0
	dial.To(func(network, address string) (net.Conn, error) {
		vf.Assert(network == "tcp" && address == host, "connects to the host of the URL")
		n++
		return s, nil
	})
	c, err := rtsp.DialTimeout(uri, 0)
	vf.Assert(err == nil && n == 1, "dial")
	return c
}

func media(i int, control string) string {
	if i == 0 {
		return "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:" + control + "\r\n"
	}
	return "m=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/48000/2\r\na=fmtp:97 config=1190\r\na=control:" + control + "\r\n"
}

func word(name string, n int) string {
	b := vf.Bytes(name, n)
	for _, c := range b {
		vf.Assume(vf.Or(vf.And(c >= 'a', c <= 'z'), vf.And(c >= '0', c <= '9')))
	}
	return string(b)
}

func audioPacket(seq byte, b []byte) []byte {
	p := lib.RTP{Marker: true, PT: 97, Seq: uint16(seq), TS: 1024 * uint32(seq), SSRC: 7, Payload: append([]byte{0, 16, byte(len(b) >> 5), byte(len(b) << 3)}, b...)}
	return p.Bytes()
}

// one session from the description to the end
//vf:bound URLs with and without port and user, ending in / or not; 1..2 streams with relative or absolute control addresses of two arbitrary characters, set up all or one of them by number, in order or not; a session id of 3 arbitrary letters and digits, with or without a timeout; a base given or not; an audio packet of any 2 bytes; then teardown
//vf:time 60
func VF_Session() {
	user := []string{"", "u@", "u:p@"}[vf.Choose("user", 3)]
	port := []string{"", ":8554"}[vf.Choose("port", 2)]
	host := "cam" + port
	if port == "" {
		host = "cam:554"
	}
	path := []string{"", "/live", "/live/"}[vf.Choose("path", 3)]
	uri := "rtsp://" + host + path
	id := word("id", 3)
	nm := 1 + vf.Choose("streams", 2)
	base := strings.TrimSuffix(uri, "/")
	var dhead []string
	if vf.Choose("base", 2) == 1 {
		base = "rtsp://cam/" + word("base", 1)
		dhead = []string{"Content-Base: " + base + []string{"", "/"}[vf.Choose("slash", 2)]}
	}
	desc := "v=0\r\n"
	var ctl []string
	for i := 0; i < nm; i++ {
		c := word("control", 2)
		if vf.Choose("absolute", 2) == 1 {
			c = "rtsp://other/" + c
			ctl = append(ctl, c)
		} else {
			ctl = append(ctl, base+"/"+c)
		}
		desc += media(1-i, c)
	}
	idx := [][]int{nil, {0}, {1}, {1, 0}}[vf.Choose("setup", 2*nm)]
	all := idx
	if all == nil {
		all = []int{0, 1}[:nm]
	}
	timeout := []string{"", ";timeout=60"}[vf.Choose("timeout", 2)]
	payload := vf.Bytes("payload", 2)
	s := &server{}
	setups := 0
	s.answer = func(r *request) {
		sess, ok := r.get("Session")
		if r.method != "DESCRIBE" && setups > 0 {
			vf.Assert(ok && sess == id, "the session is named")
		} else {
			vf.Assert(!ok, "no session yet")
		}
		switch r.method {
		case "OPTIONS":
			s.respond("200 OK", []string{"Public: DESCRIBE"}, "")
		case "DESCRIBE":
			vf.Assert(r.uri == uri, "describes the URL without user")
			a, _ := r.get("Accept")
			vf.Assert(a == "application/sdp", "accepts descriptions")
			s.respond("200 OK", dhead, desc)
		case "SETUP":
			vf.Assert(setups < len(all), "every stream is set up once")
			i := all[setups]
			setups++
			vf.Assert(r.uri == ctl[i], "control address of the stream")
			t, _ := r.get("Transport")
			vf.Assert(t == "RTP/AVP/TCP;unicast;interleaved="+strconv.Itoa(2*i)+"-"+strconv.Itoa(2*i+1), "channels of the stream")
			s.respond("200 OK", []string{"Session: " + id + timeout, "Transport: " + t}, "")
		case "PLAY":
			vf.Assert(setups == len(all), "plays when all is set up")
			vf.Assert(r.uri == uri, "plays the URL")
			s.respond("200 OK", []string{"Session: " + id}, "")
			s.out.Block(0, audioPacket(0, payload))
		case "TEARDOWN":
			s.respond("200 OK", nil, "")
		default:
			vf.Fail("method")
		}
	}
	c := dialTo(s, "rtsp://"+user+"cam"+port+path, host)
	if vf.Choose("options", 2) == 1 {
		vf.Assert(c.Options() == nil, "options")
	}
	st, err := c.Streams()
	vf.Assert(err == nil && len(st) == nm, "streams")
	if idx != nil {
		vf.Assert(c.Setup(idx) == nil, "setup")
	}
	p, err := c.ReadPacket()
	vf.Assert(err == nil && vf.BytesEq(p.Data, payload), "packet")
	_, err = c.ReadPacket()
	vf.Assert(err != nil, "the end of the connection is an error")
	vf.Assert(c.Teardown() == nil, "teardown")
	last := s.reqs[len(s.reqs)-1]
	vf.Assert(last.method == "TEARDOWN" && last.uri == uri, "teardown of the session")
	c.Close()
	vf.Assert(s.Closed, "closed")
	vf.Cover("done")
}

// a server that refuses something is not taken for one that grants it
//vf:bound DESCRIBE, the first or the second SETUP, or PLAY answered with any status of 3xx, 4xx (but 401) or 5xx, with or without a body
//vf:time 60
func VF_Refusal() {
	n := vf.U8("status")
	vf.Assume(n < 100 && n != 1)
	status := string([]byte{"345"[vf.Choose("class", 3)], '0' + n/10, '0' + n%10})
	body := []string{"", "<html></html>", media(1, "a")}[vf.Choose("body", 3)]
	at := vf.Choose("at", 4)
	packet := vf.Choose("packet first", 2) == 1
	s := &server{}
	setups := 0
	s.answer = func(r *request) {
		refuse := false
		switch r.method {
		case "DESCRIBE":
			refuse = at == 0
			if !refuse {
				s.respond("200 OK", nil, media(0, "a")+media(1, "b"))
			}
		case "SETUP":
			setups++
			refuse = at == setups
			if !refuse {
				s.respond("200 OK", []string{"Session: 1"}, "")
			}
		case "PLAY":
			refuse = at == 3
			if packet {
				s.out.Block(2, audioPacket(0, []byte{1, 2}))
			}
		}
		if refuse {
			s.respond(status+" No", nil, body)
		}
	}
	c := dialTo(s, "rtsp://cam/live", "cam:554")
	if at < 3 {
		var err error
		if at == 0 {
			_, err = c.Streams()
		} else {
			err = c.SetupAll()
		}
		vf.Assert(err != nil, "a refusal is an error")
		vf.Assert(err != lib.EOF, "and not the end of the connection")
		for _, r := range s.reqs {
			vf.Assert(r.method != "PLAY" && (at > 0 || r.method != "SETUP"), "nothing is asked for after a refusal")
		}
		vf.Cover("refused")
		return
	}
	_, err := c.ReadPacket()
	if packet {
		vf.Assert(err == nil, "a packet sent before the answer")
		_, err = c.ReadPacket()
	}
	vf.Assert(err != nil && err != lib.EOF, "a refusal to play is an error")
	vf.Cover("not played")
}

func md5hex(s string) string {
	h := md5.Sum([]byte(s))
	return hex.EncodeToString(h[:])
}

// fields of an Authorization header
func fields(s string) map[string]string {
	m := map[string]string{}
	for _, f := range strings.Split(s, ", ") {
		kv := strings.SplitN(f, "=", 2)
		vf.Assert(len(kv) == 2, "field")
		v := kv[1]
		vf.Assert(len(v) >= 2 && v[0] == '"' && v[len(v)-1] == '"', "quoted")
		m[kv[0]] = v[1 : len(v)-1]
	}
	return m
}

// a server that asks who is there
//vf:bound basic or digest authentication, asked for at the description, at the setup of the second stream, or at every request anew with another nonce; user and password of 1 and 2 arbitrary letters and digits, a realm with spaces, or also a comma, a nonce of 2 arbitrary printable characters (no quotes, no commas); fields in either order; the right or another user, or none
//vf:time 60
func VF_Auth() {
	user, pass := word("user", 1), word("pass", 2)
	digest := vf.Choose("digest", 2) == 1
	realm := []string{"the cam", "cam, back door"}[vf.Choose("realm", 2)]
	nonce := vf.Bytes("nonce", 2)
	for _, c := range nonce {
		vf.Assume(vf.And(c > 32, vf.And(c < 127, vf.And(c != '"', vf.And(c != ',', c != '\\')))))
	}
	when := vf.Choose("when", 3)
	swap := vf.Choose("swap", 2) == 1
	url := []string{"rtsp://" + user + ":" + pass + "@cam/live", "rtsp://cam/live", "rtsp://x@cam/live"}[vf.Choose("who", 3)]
	known := strings.HasPrefix(url, "rtsp://"+user+":")
	s := &server{}
	asked, setups := false, 0
	s.answer = func(r *request) {
		a, ok := r.get("Authorization")
		n := string(nonce)
		if when == 2 {
			// the request before was told this nonce
			n += strconv.Itoa(len(s.reqs) / 2)
		}
		need := when != 1 || asked || r.method == "SETUP" && setups == 1
		if !need {
			vf.Assert(!ok, "credentials are not told to who does not ask")
		}
		good := false
		if ok && !digest {
			good = known && a == "Basic "+base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
			if known {
				vf.Assert(good, "basic credentials")
			}
		}
		if ok && digest && strings.HasPrefix(a, "Digest ") {
			if len(realm) < 10 {
				f := fields(a[7:])
				if f["nonce"] == n && known {
					want := md5hex(md5hex(user+":"+realm+":"+pass) + ":" + n + ":" + md5hex(r.method+":"+r.uri))
					vf.Assert(f["username"] == user && f["realm"] == realm && f["uri"] == r.uri, "fields")
					vf.Assert(f["response"] == want, "response")
					good = true
				}
			} else {
				want := md5hex(md5hex(user+":"+realm+":"+pass) + ":" + n + ":" + md5hex(r.method+":"+r.uri))
				good = known && strings.Contains(a, `realm="cam, back door"`) && strings.HasSuffix(a, `response="`+want+`"`)
			}
		}
		if need && !good {
			asked = true
			h := `WWW-Authenticate: Basic realm="` + realm + `"`
			if digest {
				if when == 2 {
					n = string(nonce) + strconv.Itoa((len(s.reqs)+1)/2)
				}
				h = `WWW-Authenticate: Digest realm="` + realm + `", nonce="` + n + `"`
				if swap {
					h = `WWW-Authenticate: Digest nonce="` + n + `", realm="` + realm + `"`
				}
			}
			s.respond("401 Unauthorized", []string{h}, "")
			return
		}
		switch r.method {
		case "DESCRIBE":
			s.respond("200 OK", nil, media(0, "a")+media(1, "b"))
		case "SETUP":
			setups++
			s.respond("200 OK", []string{"Session: 1"}, "")
		default:
			s.respond("200 OK", nil, "")
		}
	}
	c := dialTo(s, url, "cam:554")
	err := c.SetupAll()
	vf.Assert((err == nil) == known, "set up exactly with the right credentials")
	vf.Assert(err != lib.EOF, "not the end of the connection")
	vf.Assert(len(s.reqs) <= 6, "no endless attempts")
	if known {
		vf.Assert(setups == 2, "both streams")
		vf.Cover("granted")
	} else {
		vf.Cover("refused")
	}
}

// the session is kept alive at the interval asked for
//vf:bubble
//vf:bound an interval of 1..2^31 ms; 4 packets after pauses of up to 2^31 ms each
//vf:time 40
func VF_Keepalive() {
	s := &server{}
	alive := 0
	s.answer = func(r *request) {
		switch r.method {
		case "DESCRIBE":
			s.respond("200 OK", nil, media(1, "b"))
		case "SETUP":
			s.respond("200 OK", []string{"Session: 17"}, "")
		case "OPTIONS":
			alive++
			sess, _ := r.get("Session")
			vf.Assert(sess == "17", "the session that is kept alive is named")
			s.respond("200 OK", []string{"Session: 17"}, "")
		case "PLAY":
			s.respond("200 OK", []string{"Session: 17"}, "")
			for i := 0; i < 5; i++ {
				s.out.Block(0, audioPacket(byte(i), []byte{1, byte(i)}))
			}
		}
	}
	vf.SetClock(1 << 40)
	c := dialTo(s, "rtsp://cam/live", "cam:554")
	every := time.Duration(vf.U32("interval")>>1+1) * time.Millisecond
	c.RtpKeepAliveTimeout = every
	last := time.Duration(0)
	for i := 0; i < 5; i++ {
		if i > 0 {
			d := time.Duration(vf.U32("pause")>>1) * time.Millisecond
			vf.Advance(d)
			last += d
		}
		was := alive
		_, err := c.ReadPacket()
		vf.Assert(err == nil, "packet")
		vf.Assert(last <= every || alive == was+1, "a keep-alive is due")
		vf.Assert(last >= every || alive == was, "no keep-alive is due")
		if alive != was {
			last = 0
		}
	}
	vf.Cover("done")
}
