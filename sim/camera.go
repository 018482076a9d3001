package main

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/simrt"
)

const ms = int64(time.Millisecond)
const sec = int64(time.Second)

// HV is one header line.
type HV struct{ K, V string }

// Req is one request as the camera received it.
type Req struct {
	Idx     int
	Seq     uint64 // when it was complete at the camera
	T       int64
	IssueT  int64  // when the client called Write for it
	IssueSq uint64 // ditto, as event number
	Off     int64
	Verb    string
	URI     string
	CSeq    int
	H       []HV
	Raw     string
	Answers []*Ans
	// Authentication as judged by the camera.
	AuthOK   bool
	AuthNote string
}

// Get returns a header value.
func (r *Req) Get(k string) (string, bool) {
	for _, h := range r.H {
		if strings.EqualFold(h.K, k) {
			return h.V, true
		}
	}
	return "", false
}

// Count counts header lines of a name.
func (r *Req) Count(k string) (n int) {
	for _, h := range r.H {
		if strings.EqualFold(h.K, k) {
			n++
		}
	}
	return
}

// Ans is one answer the camera sent.
type Ans struct {
	Idx    int
	Seq    uint64
	T      int64
	Code   int
	CSeq   string
	Verb   string
	Req    *Req
	Stray  bool
	SessID string // identifier it carried, if any
	Nonce  string // nonce of the challenge it carried, if any
	Basic  bool   // it offered Basic authentication
	Clear  bool   // it might be read as offering that
	End    int64  // stream offset of its end
	At     int64  // when all of it has reached the client
}

// Read is when the client must have read the answer.
func (a *Ans) Read() int64 { return max(a.T+5*sec, a.At+4*sec) }

// Pkt is an interleaved packet the camera sent.
type Pkt struct {
	Ch   byte
	Data []byte
	Seq  uint64
	End  int64
	T    int64
}

// Media is one stream of the session description.
type Media struct {
	Video   bool
	Control string // as written in the SDP
	Refuse  int    // status for SETUP, 0 = accept
	Sprop   string
	PT      int
	// Filled in by SETUP.
	Set        bool
	Ch         byte // first interleaved channel
	ClientPort [2]int
	ServerPort [2]int
}

// Auth is the camera's authentication policy.
type Auth struct {
	Mode       string // "", basic, digest
	User, Pass string
	Realm      string
	Qop        string
	Algorithm  string
	Opaque     string
	Domain     string
	Raw        string // challenge used verbatim (unsupported kinds)
	RotateUses int    // a nonce is good for this many uses (0: any)
	NonceLen   int    // this many more characters in a nonce; -1: characters that need the quotes
	RotateTime int64  // and for this long (0: for ever)
	AskVerb    map[string]bool
	StrictNC   bool
	Layout     int
	Always     bool   // refuse everything
	StaleAll   bool   // every challenge says stale=true
	RefuseN    int    // so many good answers to each request are refused (0: none)
	FreshEach  bool   // every challenge carries a new nonce; old ones stay good
	Scheme     string // how the scheme is written (default: Basic, Digest)
	Also       int    // 1, 2: Basic is offered as well, before or after; 3, 4: a kind that no one supports
}

// CamCfg configures a camera.
type CamCfg struct {
	Auth       Auth
	Medias     []*Media
	SDPEnd     string // line ending
	SDPPrefix  string
	SDPVar     int // bits, each a way to write the description
	SessID     string
	SessParams string
	NoSessIn   map[string]bool // verbs whose answers carry no Session header
	AnsDelay   int64           // largest answer delay
	OOOPct     int
	DupPct     int
	StrayPct   int
	FailPct    map[string]int // verb -> chance of a failure answer
	ReplPct    int            // chance that an answer replaces the session identifier
	HdrStyle   int
	Fold       bool // header lines are folded here and there
	ContPct    int  // chance that 100 Continue comes before an answer
	ErrBody    bool
	BodyStall  int64 // the network may stall for so long between header and body of an answer
	DescribeC  int   // status of DESCRIBE (0 = 200)
	NoAnswer   map[string]bool
	UDP        bool
	Public     string
}

// Camera is a simulated RTSP server.
type Camera struct {
	w     *simrt.World
	Name  string
	Host  string // as written in URLs
	IP    string
	Port  int
	Path  string
	Asked string // how the URL that is opened has it, if not the same
	C     CamCfg
	L     *simrt.Listener
	Conns []*CamConn
	Hook  func(c *CamConn, r *Req) bool // true: request dealt with
	OnReq func(c *CamConn, r *Req)
	// Ready is called when the last stream has been set up (after the answer).
	nonceN  int
	nonces  map[string]*nonceState
	curN    string
	sessN   int
	GiveUps int
	AuthGen int // how often the kind of challenge has changed
	refused map[int]int
	UDPBase int // first server port (0: 6970)

	NonceTag string // tells the nonces of this camera from those of others
}

type nonceState struct {
	born  int64
	uses  int
	nc    uint64
	seen  map[uint64]bool
	stale bool

	cnonce string
	gen    int
}

// CamConn is one connection to a camera.
type CamConn struct {
	Cam       *Camera
	C         *simrt.SrvConn
	Sock      *simrt.Sock
	w         *simrt.World
	buf       []byte
	off       int64 // stream offset of buf[0]
	Reqs      []*Req
	Ans       []*Ans
	Pkts      []*Pkt
	Malformed string
	sent      int64
	lastAt    int64 // in-order answers
	Playing   bool
	SessID    string
	SessHist  []string
	TornDown  bool
	GotClose  bool
	Closed    bool // camera closed or reset the connection
	ClosedT   int64
	OnAns     func(a *Ans)
	Probs     []string // authentication problems seen (C06)
	// Mangle may replace the bytes of an answer or a packet; bad tells that it did.
	Mangle  func(b []byte, a *Ans) (out []byte, bad bool)
	BadSent bool // bytes that are not proper RTSP have been sent
	GoodPkt int  // packets sent before that
}

// NewCamera creates a camera and starts listening.
func NewCamera(w *simrt.World, name, host, ip string, port int, cfg CamCfg) *Camera {
	cam := &Camera{w: w, Name: name, Host: host, IP: ip, Port: port, Path: "/live/" + name, C: cfg, NonceTag: name, nonces: map[string]*nonceState{}}
	cam.L = &simrt.Listener{}
	cam.L.Accept = cam.accept
	if host != ip {
		w.Net.Hosts[host] = ip
	}
	w.Net.Listen(net.JoinHostPort(ip, strconv.Itoa(port)), cam.L)
	return cam
}

// URL is the address of the camera's stream.
func (cam *Camera) URL(userinfo string) string {
	h := cam.Host
	if cam.Port != 554 {
		h += ":" + strconv.Itoa(cam.Port)
	}
	if userinfo != "" {
		userinfo += "@"
	}
	if cam.Asked != "" {
		return "rtsp://" + userinfo + h + cam.Asked
	}
	return "rtsp://" + userinfo + h + cam.Path
}

// ClientIP is the address at which the camera reaches the client.
func (cam *Camera) ClientIP() string { return cam.w.Net.LocalFor(net.ParseIP(cam.IP)) }

// Base is the URL requests must carry.
func (cam *Camera) Base() string {
	return fmt.Sprintf("rtsp://%s:%d%s", cam.Host, cam.Port, cam.Path)
}

func (cam *Camera) accept(sc *simrt.SrvConn) {
	c := &CamConn{Cam: cam, C: sc, Sock: sc.S, w: cam.w}
	cam.Conns = append(cam.Conns, c)
	sc.OnData = c.data
	sc.OnClose = func(error) { c.GotClose = true; cam.w.Ev("camera-saw-close", cam.Name) }
}

// Conn is the latest connection, or nil.
func (cam *Camera) Conn() *CamConn {
	if len(cam.Conns) == 0 {
		return nil
	}
	return cam.Conns[len(cam.Conns)-1]
}

var verbs = map[string]bool{"OPTIONS": true, "DESCRIBE": true, "SETUP": true, "PLAY": true, "PAUSE": true, "TEARDOWN": true, "GET_PARAMETER": true, "SET_PARAMETER": true}

func (c *CamConn) data(b []byte) {
	if c.Malformed != "" {
		return
	}
	c.buf = append(c.buf, b...)
	for c.Malformed == "" {
		i := bytes.Index(c.buf, []byte("\r\n\r\n"))
		if i < 0 {
			if m := badPrefix(c.buf); m != "" {
				c.malformed(m)
			}
			return
		}
		raw := string(c.buf[:i+4])
		r, err := parseReq(raw)
		if err != "" {
			c.malformed(err + ": " + strconv.Quote(clip(raw, 300)))
			return
		}
		r.Idx = len(c.Reqs)
		r.Seq = c.w.Seq()
		r.T = c.w.Now()
		r.Off = c.off
		r.IssueT, r.IssueSq = r.T, r.Seq
		for _, wr := range c.Sock.Writes {
			if wr.Off <= r.Off {
				r.IssueT, r.IssueSq = wr.T, wr.Seq
			}
		}
		c.buf = c.buf[i+4:]
		c.off += int64(i + 4)
		c.Reqs = append(c.Reqs, r)
		if len(c.Reqs) > 5000 {
			c.w.Violate("request-flood", "the camera has been sent %d requests; the last one is %s CSeq %d", len(c.Reqs), r.Verb, r.CSeq)
			return
		}
		c.w.Ev("camera-got", c.Cam.Name, raw)
		if c.Cam.OnReq != nil {
			c.Cam.OnReq(c, r)
		}
		c.handle(r)
	}
}

func (c *CamConn) malformed(m string) {
	c.Malformed = m
	c.w.Ev("camera-malformed", m)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// badPrefix checks that an incomplete request can still become a request.
func badPrefix(b []byte) string {
	if len(b) > 1<<16 {
		return "request longer than 64 KiB"
	}
	line := b
	if i := bytes.IndexByte(b, '\n'); i >= 0 {
		line = b[:i]
	}
	for _, ch := range line {
		if ch >= 0x80 || (ch < 0x20 && ch != '\r' && ch != '\n') {
			return fmt.Sprintf("byte %#x in request line", ch)
		}
	}
	if i := bytes.IndexByte(line, ' '); i > 0 {
		if !verbs[string(line[:i])] {
			return "unknown method " + strconv.Quote(string(line[:i]))
		}
	} else {
		ok := false
		for v := range verbs {
			if strings.HasPrefix(v, string(line)) {
				ok = true
			}
		}
		if !ok {
			return "bytes that start no request: " + strconv.Quote(clip(string(line), 60))
		}
	}
	return ""
}

func parseReq(raw string) (*Req, string) {
	r := &Req{Raw: raw, CSeq: -1}
	lines := strings.Split(raw[:len(raw)-4], "\r\n")
	p := strings.Split(lines[0], " ")
	if len(p) != 3 {
		return nil, "malformed request line"
	}
	r.Verb, r.URI = p[0], p[1]
	if !verbs[r.Verb] {
		return nil, "unknown method"
	}
	if p[2] != "RTSP/1.0" {
		return nil, "wrong protocol version"
	}
	if r.URI != "*" && !strings.HasPrefix(r.URI, "rtsp://") {
		return nil, "URI is not an rtsp URL"
	}
	for i, ch := range []byte(raw) {
		if ch >= 0x80 && i > len(lines[0]) {
			continue // a user name, for instance
		}
		if ch >= 0x7f || (ch < 0x20 && ch != '\r' && ch != '\n' && ch != '\t') {
			return nil, fmt.Sprintf("byte %#x in request", ch)
		}
	}
	for _, l := range lines[1:] {
		i := strings.IndexByte(l, ':')
		if i <= 0 || strings.ContainsAny(l[:i], " \t\r\n") || strings.ContainsAny(l, "\r\n") {
			return nil, "malformed header line " + strconv.Quote(l)
		}
		r.H = append(r.H, HV{l[:i], strings.TrimSpace(l[i+1:])})
	}
	for _, k := range []string{"CSeq", "Session", "Authorization", "Transport", "User-Agent", "Content-Length", "Accept"} {
		if r.Count(k) > 1 {
			return nil, "header " + k + " more than once"
		}
	}
	v, ok := r.Get("CSeq")
	n, err := strconv.Atoi(v)
	if !ok || err != nil || n < 0 {
		return nil, "no valid CSeq"
	}
	r.CSeq = n
	if v, ok := r.Get("Content-Length"); ok && v != "0" {
		return nil, "Content-Length is not 0"
	}
	return r, ""
}

func (c *CamConn) handle(r *Req) {
	if c.Cam.Hook != nil && c.Cam.Hook(c, r) {
		return
	}
	c.Answer(r)
}

func (c *CamConn) status(code int) string {
	switch code {
	case 200:
		return "200 OK"
	case 301:
		return "301 Moved Permanently"
	case 302:
		return "302 Moved Temporarily"
	case 401:
		return "401 Unauthorized"
	case 404:
		return "404 Not Found"
	case 454:
		return "454 Session Not Found"
	case 455:
		return "455 Method Not Valid in This State"
	case 453:
		return "453 Not Enough Bandwidth"
	case 461:
		return "461 Unsupported Transport"
	case 500:
		return "500 Internal Server Error"
	case 503:
		return "503 Service Unavailable"
	}
	return fmt.Sprintf("%d Whatever", code)
}

// Answer deals with a request as an RTSP server does.
func (c *CamConn) Answer(r *Req) {
	cfg := &c.Cam.C
	if cfg.NoAnswer[r.Verb] {
		c.w.Count("fault.request_unanswered")
		return
	}
	d := c.w.D
	code := 200
	var hs []HV
	body := ""
	if !c.checkAuth(r) {
		code = 401
		if a := &cfg.Auth; a.Also != 0 && a.Raw == "" {
			c.w.Count("fault.several_challenges")
			x := HV{"WWW-Authenticate", "Basic realm=\"other\""}
			if a.Also > 2 {
				x.V = simrt.Pick(d, "Digest realm=\"cam\", nonce=\"0a\", algorithm=SHA-256, qop=\"auth\"", "Bearer realm=\"cam\"", "Negotiate")
			}
			if a.Also%2 == 1 {
				hs = append(hs, x, HV{"WWW-Authenticate", c.challenge()})
			} else {
				hs = append(hs, HV{"WWW-Authenticate", c.challenge()}, x)
			}
		} else {
			hs = append(hs, HV{"WWW-Authenticate", c.challenge()})
		}
		c.Cam.GiveUps++
	} else if p := cfg.FailPct[r.Verb]; p > 0 && d.Chance(p, 100) {
		code = simrt.Pick(d, 454, 404, 455, 500, 503, 453, 250, 201, 400, 403, 301, 302, 304, 405, 457, 459, 505, 551)
		c.w.Count("fault.failure_answer")
	} else {
		switch r.Verb {
		case "OPTIONS":
			pub := cfg.Public
			if pub == "" {
				pub = "OPTIONS, DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE"
			}
			hs = append(hs, HV{"Public", pub})
		case "DESCRIBE":
			if cfg.DescribeC != 0 {
				code = cfg.DescribeC
			} else {
				body = c.Cam.SDP()
				hs = append(hs, HV{"Content-Base", strings.TrimSuffix(c.Cam.Base(), "/") + "/"}, HV{"Content-Type", "application/sdp"})
			}
		case "SETUP":
			m := c.Cam.mediaFor(r.URI)
			if m == nil {
				code = 404
			} else if m.Refuse != 0 {
				code = m.Refuse
				c.w.Count("fault.setup_refused")
			} else {
				tr, ok := c.setup(m, r)
				if !ok {
					code = 461
				} else {
					hs = append(hs, HV{"Transport", tr})
				}
			}
		case "PLAY", "PAUSE", "TEARDOWN":
		default:
			code = 455
		}
	}
	if code != 200 && (cfg.ErrBody || (r.Verb == "DESCRIBE" && d.Chance(1, 3))) {
		body = "v=0\r\nm=video 0 RTP/AVP 96\r\na=control:trackID=77\r\n"
		hs = append(hs, HV{"Content-Type", "application/sdp"})
		c.w.Count("fault.failure_answer_with_body")
	}
	if st := cfg.HdrStyle; st&256 != 0 && code == 200 && body == "" && r.Verb != "OPTIONS" && d.Chance(1, 3) {
		// Answers to other requests may have a body as well.
		body = simrt.Pick(d, "x: y\r\n", "packets_received\r\njitter\r\n", "RTSP/1.0 200 OK\r\nCSeq: 3\r\n\r\n", "$\x00\x00\x04abcd")
		hs = append(hs, HV{"Content-Type", "text/parameters"})
	}
	sess := ""
	if (code == 200 || (code != 401 && r.Verb != "SETUP" && cfg.ReplPct > 0 && d.Chance(1, 2))) && (r.Verb == "SETUP" || c.SessID != "" || (cfg.NoSessIn["SETUP"] && r.Verb == "PLAY")) && !cfg.NoSessIn[r.Verb] {
		if c.SessID == "" || (cfg.ReplPct > 0 && r.Verb != "SETUP" && d.Chance(cfg.ReplPct, 100)) {
			c.Cam.sessN++
			if c.SessID != "" {
				c.w.Count("fault.session_replaced")
			}
			c.SessID = cfg.SessID
			if c.SessID == "" {
				c.SessID = "5E55" + c.Cam.Name
			}
			if c.Cam.sessN > 1 {
				c.SessID += fmt.Sprintf("-%d", c.Cam.sessN)
			}
		}
		sess = c.SessID
		hs = append(hs, HV{"Session", sess + cfg.SessParams})
	}
	delay := int64(0)
	if cfg.AnsDelay > 0 {
		delay = int64(d.Intn(8)) * cfg.AnsDelay / 7
	}
	at := c.w.Now() + delay
	if cfg.OOOPct > 0 && d.Chance(cfg.OOOPct, 100) {
		c.w.Count("fault.answer_out_of_order")
	} else {
		if at < c.lastAt {
			at = c.lastAt
		}
		c.lastAt = at
	}
	if cfg.ContPct > 0 && !c.Closed && d.Chance(cfg.ContPct, 100) {
		c.w.Count("camera.provisional_answer")
		b := "RTSP/1.0 " + simrt.Pick(d, "100 Continue", "100 Continue", "110 Trying", "199 Wait") + "\r\nCSeq: " + strconv.Itoa(r.CSeq) + "\r\n\r\n"
		c.w.Ev("camera-sends", c.Cam.Name, b)
		c.raw([]byte(b))
	}
	dup := cfg.DupPct > 0 && code != 401 && d.Chance(cfg.DupPct, 100)
	stray := cfg.StrayPct > 0 && d.Chance(cfg.StrayPct, 100)
	c.w.At(at-c.w.Now(), func() {
		if stray {
			c.SendStray()
		}
		if r.Verb == "PAUSE" && code == 200 {
			c.Playing = false
		}
		c.Send(r, code, strconv.Itoa(r.CSeq), hs, body, sess, false)
		if code == 200 {
			switch r.Verb {
			case "PLAY":
				c.Playing = true
			case "TEARDOWN":
				c.Playing = false
				c.TornDown = true
			}
		}
		if dup {
			c.w.At(int64(d.Intn(5))*100*ms, func() {
				c.w.Count("fault.answer_duplicated")
				c.Send(r, code, strconv.Itoa(r.CSeq), hs, body, sess, true)
			})
		}
	})
}

// SendStray sends an answer that matches no request.
func (c *CamConn) SendStray() {
	d := c.w.D
	c.w.Count("fault.stray_answer")
	cs := simrt.Pick(d, "100000", "0", "-1", "", "2147483647", "abc", "99999999999999999999")
	var hs []HV
	switch d.Intn(3) {
	case 1:
		hs = append(hs, HV{"Public", "OPTIONS"})
	case 2:
		hs = append(hs, HV{"Session", "STRAY"})
	}
	c.Send(nil, simrt.Pick(d, 200, 404, 500), cs, hs, "", "", true)
}

// Send sends one answer now.
func (c *CamConn) Send(r *Req, code int, cseq string, hs []HV, body, sess string, stray bool) {
	var b bytes.Buffer
	nl := "\r\n"
	st := c.Cam.C.HdrStyle
	line := c.status(code)
	if st&128 != 0 {
		// The reason is free text.
		line = line[:4] + simrt.Pick(c.w.D, "", "Fine: all right", "404 OK", "x", line[4:])
	}
	fmt.Fprintf(&b, "RTSP/1.0 %s%s", line, nl)
	ck := []string{"CSeq", "Cseq", "CSEQ", "cseq"}[st&3]
	sp := []string{": ", ":", ":  ", ": "}[(st>>2)&3]
	lines := []string{}
	if cseq != "" {
		lines = append(lines, ck+sp+cseq)
	}
	for _, h := range hs {
		k := h.K
		if st&3 == 3 {
			k = strings.ToLower(k)
		}
		lines = append(lines, k+sp+h.V)
	}
	if st&16 != 0 {
		lines = append(lines, "Date"+sp+"Tue, 15 Nov 1994 08:12:31 GMT", "Server"+sp+"Cam: v1; x=\"y, z\"")
	}
	if st&512 != 0 && c.w.D.Chance(1, 3) {
		// Many headers that say nothing, before those that matter as a rule.
		c.w.Count("camera.many_headers")
		var more []string
		for k := c.w.D.Range(5, 60); k > 0; k-- {
			more = append(more, fmt.Sprintf("X-Vendor-%d%s%x", k, sp, k*k))
		}
		if c.w.D.Chance(1, 3) {
			more = append(more, "X-Vendor-Long"+sp+strings.Repeat("0123456789abcdef", c.w.D.Range(1, 1200)))
		}
		if c.w.D.Chance(1, 2) {
			lines = append(more, lines...)
		} else {
			lines = append(lines, more...)
		}
	}
	if body != "" || st&32 != 0 {
		lines = append(lines, []string{"Content-Length", "Content-length", "CONTENT-LENGTH", "content-length"}[st&3]+sp+strconv.Itoa(len(body)))
	}
	if st&64 != 0 && len(lines) > 1 {
		// CSeq need not come first.
		lines = append(lines[1:], lines[0])
	}
	for _, l := range lines {
		if c.Cam.C.Fold && c.w.D.Chance(1, 3) {
			l = c.fold(l)
		}
		b.WriteString(l + nl)
	}
	b.WriteString(nl + body)
	a := &Ans{Idx: len(c.Ans), Seq: c.w.Seq(), T: c.w.Now(), Code: code, CSeq: cseq, Req: r, Stray: stray, SessID: sess}
	for _, h := range hs {
		if h.K == "WWW-Authenticate" && len(h.V) > 7 && strings.EqualFold(h.V[:7], "Digest ") {
			if p, ok := parseParams(h.V[7:]); ok && c.Cam.nonces[p["nonce"]] != nil {
				a.Nonce = p["nonce"]
			}
		}
		if h.K == "WWW-Authenticate" && len(h.V) > 6 && strings.EqualFold(h.V[:6], "Basic ") {
			a.Basic = true
		}
		a.Clear = a.Clear || h.K == "WWW-Authenticate" && strings.Contains(strings.ToLower(h.V), "basic")
	}
	if r != nil {
		a.Verb = r.Verb
		r.Answers = append(r.Answers, a)
	}
	if c.Closed {
		return
	}
	c.w.Ev("camera-sends", c.Cam.Name, b.String())
	if bs := c.Cam.C.BodyStall; bs > 0 && body != "" && c.Mangle == nil && c.w.D.Chance(1, 2) {
		c.w.Count("fault.body_stall")
		n := b.Len() - len(body) + c.w.D.Intn(2)
		c.raw(b.Bytes()[:n])
		c.C.Stall(bs)
		c.raw(b.Bytes()[n:])
	} else {
		c.mangled(b.Bytes(), a)
	}
	a.End, a.At = c.sent, c.Sock.DownLast()
	c.Ans = append(c.Ans, a)
	if c.OnAns != nil {
		c.OnAns(a)
	}
}

// fold breaks a header line where blanks may be.
func (c *CamConn) fold(l string) string {
	colon := strings.IndexByte(l, ':')
	if strings.EqualFold(l[:colon], "Content-Length") || strings.EqualFold(l[:colon], "CSeq") || strings.EqualFold(l[:colon], "Session") {
		return l
	}
	at, quoted := []int{colon + 1}, false
	for i := colon + 1; i < len(l); i++ {
		switch {
		case l[i] == '\\' && quoted:
			i++
		case l[i] == '"':
			quoted = !quoted
		case l[i] == ',' && !quoted && l[colon+1:] != "":
			at = append(at, i+1)
		}
	}
	i := at[c.w.D.Intn(len(at))]
	if strings.TrimSpace(l[i:]) == "" {
		return l
	}
	c.w.Count("camera.folded_header")
	return l[:i] + "\r\n" + simrt.Pick(c.w.D, " ", "\t", "    ") + strings.TrimLeft(l[i:], " ")
}

func (c *CamConn) mangled(b []byte, a *Ans) {
	if c.Mangle != nil {
		out, bad := c.Mangle(b, a)
		if bad {
			c.Bad(out)
			return
		}
	}
	c.raw(b)
}

// Bad sends bytes that need not be proper RTSP.
func (c *CamConn) Bad(b []byte) {
	if !c.BadSent {
		c.BadSent, c.GoodPkt = true, len(c.Pkts)
	}
	c.w.Ev("camera-sends-bad", c.Cam.Name, len(b), clip(string(b), 400))
	c.raw(b)
}

func (c *CamConn) raw(b []byte) {
	c.sent += int64(len(b))
	c.C.Send(b)
}

// SendPkt sends an interleaved packet.
func (c *CamConn) SendPkt(ch byte, data []byte) *Pkt {
	if c.Closed {
		return nil
	}
	b := make([]byte, 4+len(data))
	b[0], b[1], b[2], b[3] = '$', ch, byte(len(data)>>8), byte(len(data))
	copy(b[4:], data)
	c.w.Ev("camera-packet", c.Cam.Name, ch, len(data))
	c.mangled(b, nil)
	p := &Pkt{Ch: ch, Data: append([]byte(nil), data...), Seq: c.w.Seq(), End: c.sent, T: c.w.Now()}
	c.Pkts = append(c.Pkts, p)
	return p
}

// Close ends the connection in order.
func (c *CamConn) Close() {
	if !c.Closed {
		c.Closed, c.ClosedT = true, c.w.Now()
		c.w.Count("fault.camera_closed")
		c.C.Close()
	}
}

// Reset ends the connection abruptly.
func (c *CamConn) Reset() {
	if !c.Closed {
		c.Closed, c.ClosedT = true, c.w.Now()
		c.w.Count("fault.connection_reset")
		c.C.Reset(os.NewSyscallError("read", syscall.ECONNRESET))
	}
}

// SDP renders the session description.
func (cam *Camera) SDP() string {
	nl := cam.C.SDPEnd
	if nl == "" {
		nl = "\r\n"
	}
	v := cam.C.SDPVar
	has := func(bit int) bool { return v&(1<<bit) != 0 }
	l := []string{"v=0", "o=- 1 1 IN IP4 " + cam.IP, "s=Session", "c=IN IP4 0.0.0.0", "t=0 0", "a=control:*", "a=range:npt=0-"}
	if has(0) {
		// The least a description may have.
		l = []string{"v=0", "o=- 1 1 IN IP4 " + cam.IP, "s=", "t=0 0"}
	}
	if has(1) {
		l = append(l, "a=tool:LIVE555 Streaming Media v2014.01.13", "a=type:broadcast", "a=x-qt-text-nam:a=control:track9", "a=recvonly")
	}
	if cam.C.SDPPrefix != "" {
		l = append(l, cam.C.SDPPrefix)
	}
	meta := func(n int) {
		l = append(l, "m=application 0 RTP/AVP 107", fmt.Sprintf("a=control:meta%d", n), "a=rtpmap:107 vnd.onvif.metadata/90000", "a=recvonly")
	}
	for i, m := range cam.C.Medias {
		if has(2) {
			meta(i)
		}
		if !m.Video {
			l = append(l, fmt.Sprintf("m=audio 0 RTP/AVP %d", 97+i), fmt.Sprintf("a=rtpmap:%d MPEG4-GENERIC/16000/1", 97+i),
				"a=control:"+m.Control)
			continue
		}
		pt := m.PT
		if pt == 0 {
			pt = 96
		}
		port := "0"
		if has(3) {
			port = "49170"
		}
		if has(4) {
			port += "/2"
		}
		l = append(l, fmt.Sprintf("m=video %s RTP/AVP %d", port, pt))
		if has(5) {
			l = append(l, "i=The front door: a=control:none")
		}
		l = append(l, "b=AS:5000")
		control := "a=control:" + m.Control
		if has(11) {
			control += simrt.Pick(cam.w.D, " ", " 1", " high quality", " RTSP/1.0")
		}
		if has(6) {
			l = append(l, control)
		}
		l = append(l, fmt.Sprintf("a=rtpmap:%d H264/90000", pt))
		if m.Sprop != "" {
			if has(7) {
				l = append(l, fmt.Sprintf("a=fmtp:%d sprop-parameter-sets=%s;packetization-mode=1;profile-level-id=420029", pt, m.Sprop))
			} else {
				l = append(l, fmt.Sprintf("a=fmtp:%d packetization-mode=1; profile-level-id=420029; sprop-parameter-sets=%s", pt, m.Sprop))
			}
		}
		if has(8) {
			l = append(l, "a=framerate:25.0", "a=x-dimensions:1920,1080", "a=framesize:96 1920-1080", "a=Media_header:MEDIAINFO=494D4B48;", "a=sendonly")
		}
		if !has(6) {
			l = append(l, control)
		}
		l = append(l, "a=recvonly")
	}
	if has(2) || has(9) {
		meta(99)
	}
	if has(10) {
		return strings.Join(l, nl) // no end of line at the end
	}
	return strings.Join(l, nl) + nl
}

// ControlURI is where the stream is controlled.
func (cam *Camera) ControlURI(m *Media) string {
	if strings.HasPrefix(m.Control, "rtsp://") {
		return m.Control
	}
	return strings.TrimSuffix(cam.Base(), "/") + "/" + m.Control
}

func (cam *Camera) mediaFor(uri string) *Media {
	for _, m := range cam.C.Medias {
		if cam.ControlURI(m) == uri {
			return m
		}
	}
	return nil
}

// Videos lists the playable streams in description order.
func (cam *Camera) Videos() (v []*Media) {
	for _, m := range cam.C.Medias {
		if m.Video {
			v = append(v, m)
		}
	}
	return
}

func parsePair(s string) (a, b int, ok bool) {
	p := strings.Split(s, "-")
	if len(p) != 2 {
		return
	}
	a, e1 := strconv.Atoi(p[0])
	b, e2 := strconv.Atoi(p[1])
	return a, b, e1 == nil && e2 == nil && a >= 0 && b >= 0
}

// transportParam returns a parameter of a Transport header.
func transportParam(t, k string) (string, bool) {
	for _, f := range strings.Split(t, ";") {
		if strings.HasPrefix(f, k+"=") {
			return f[len(k)+1:], true
		}
	}
	return "", false
}

func (c *CamConn) setup(m *Media, r *Req) (string, bool) {
	t, ok := c.setup1(m, r)
	if ok {
		switch d := c.w.D; d.Weighted(8, 1, 1, 1, 1) {
		case 1:
			t += simrt.Pick(d, ";", ";append", ";layers=1", ";ttl=16", ";mode=play", ";x-flag", ";x-a=b=c")
		case 2:
			i := strings.IndexByte(t, ';')
			t = t[:i] + ";destination" + t[i:] // its address may be left out
		case 3:
			t = strings.Replace(t, ";unicast", ";UNICAST", 1)
		case 4:
			i := strings.IndexByte(t, ';')
			t = t[:i] + simrt.Pick(d, ";append", ";layers=2", ";x-flag;x-b=") + t[i:]
		}
	}
	return t, ok
}

func (c *CamConn) setup1(m *Media, r *Req) (string, bool) {
	t, _ := r.Get("Transport")
	d := c.w.D
	idx := 0
	for i, x := range c.Cam.C.Medias {
		if x == m {
			idx = i
		}
	}
	if strings.HasPrefix(t, "RTP/AVP/TCP") {
		v, ok := transportParam(t, "interleaved")
		a, b, ok2 := parsePair(v)
		if !ok || !ok2 || a > 255 || b > 255 {
			return "", false
		}
		m.Set, m.Ch = true, byte(a)
		switch d.Intn(4) {
		case 1:
			return fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d;ssrc=1A2B3C4D;mode=\"PLAY\"", a, b), true
		case 2:
			return fmt.Sprintf("RTP/AVP/TCP;interleaved=%d-%d", a, b), true
		case 3:
			return fmt.Sprintf("RTP/AVP/TCP;unicast;source=%s;interleaved=%d-%d", c.Cam.IP, a, b), true
		}
		return fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", a, b), true
	}
	if !c.Cam.C.UDP || !strings.HasPrefix(t, "RTP/AVP") {
		return "", false
	}
	v, ok := transportParam(t, "client_port")
	a, b, ok2 := parsePair(v)
	if !ok || !ok2 || a == 0 || a > 65535 || b > 65535 {
		return "", false
	}
	m.Set = true
	m.ClientPort = [2]int{a, b}
	base := c.Cam.UDPBase
	if base == 0 {
		base = 6970
	}
	m.ServerPort = [2]int{base + 2*idx, base + 1 + 2*idx}
	s := fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d;server_port=%d-%d", a, b, m.ServerPort[0], m.ServerPort[1])
	switch d.Intn(8) {
	case 4:
		s = fmt.Sprintf("RTP/AVP;unicast;server_port=%d-%d", m.ServerPort[0], m.ServerPort[1])
	case 5:
		s = fmt.Sprintf("RTP/AVP;unicast;client_port=%d;server_port=%d", a, m.ServerPort[0])
	case 6:
		// What the camera takes the ports to be is not what matters.
		s = fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d;server_port=%d-%d", a+2000, b+2000, m.ServerPort[0], m.ServerPort[1])
		c.w.Count("fault.client_port_misreported")
	case 1:
		s = fmt.Sprintf("RTP/AVP/UDP;unicast;client_port=%d-%d;server_port=%d-%d;ssrc=00C0FFEE;mode=\"PLAY\"", a, b, m.ServerPort[0], m.ServerPort[1])
	case 2:
		s = fmt.Sprintf("RTP/AVP;unicast;destination=%s;source=%s;client_port=%d-%d;server_port=%d-%d", c.Cam.ClientIP(), c.Cam.IP, a, b, m.ServerPort[0], m.ServerPort[1])
	}
	return s, true
}

// ---- authentication -------------------------------------------------------

func (cam *Camera) newNonce() string {
	cam.nonceN++
	n := fmt.Sprintf("n%03dx%s==", cam.nonceN, cam.NonceTag)
	switch a := &cam.C.Auth; {
	case a.NonceLen > 0:
		n = fmt.Sprintf("%s%0*d", n[:len(n)-2], a.NonceLen, cam.nonceN)
	case a.NonceLen < 0:
		n = fmt.Sprintf("20251120T03:2%d, realm=%s; qop=x %s", cam.nonceN%10, n, cam.NonceTag)
	}
	cam.nonces[n] = &nonceState{gen: cam.AuthGen, born: cam.w.Now(), seen: map[uint64]bool{}}
	cam.curN = n
	return n
}

func (cam *Camera) nonceGood(n string) bool {
	st := cam.nonces[n]
	if st == nil || st.stale {
		return false
	}
	a := &cam.C.Auth
	if (a.RotateUses > 0 && st.uses >= a.RotateUses) || (a.RotateTime > 0 && cam.w.Now()-st.born >= a.RotateTime) {
		st.stale = true
		cam.w.Count("fault.nonce_expired")
		return false
	}
	return true
}

func (c *CamConn) challenge() string {
	cam := c.Cam
	a := &cam.C.Auth
	c.w.Count("fault.challenge")
	if a.Raw != "" {
		return a.Raw
	}
	scheme := func(s string) string {
		switch a.Scheme {
		case "lower":
			return strings.ToLower(s)
		case "upper":
			return strings.ToUpper(s)
		}
		return s
	}
	if a.Mode == "basic" {
		return fmt.Sprintf("%s realm=\"%s\"", scheme("Basic"), a.Realm)
	}
	n := cam.curN
	stale := n != ""
	if n == "" || a.FreshEach || !cam.nonceGood(n) {
		n = cam.newNonce()
	}
	p := []string{fmt.Sprintf("realm=\"%s\"", a.Realm), fmt.Sprintf("nonce=\"%s\"", n)}
	if a.Qop != "" {
		p = append(p, fmt.Sprintf("qop=\"%s\"", a.Qop))
	}
	if a.Algorithm != "" {
		p = append(p, "algorithm="+a.Algorithm)
	}
	if a.Opaque != "" {
		p = append(p, fmt.Sprintf("opaque=\"%s\"", quoteStr(a.Opaque)))
	}
	if a.Domain != "" {
		p = append(p, fmt.Sprintf("domain=\"%s\"", quoteStr(a.Domain)))
	}
	if a.StaleAll || (stale && a.Layout&4 != 0) {
		p = append(p, "stale="+simrt.Pick(c.w.D, "TRUE", "true", "\"true\"", "True"))
	} else if a.Layout&8 != 0 {
		p = append(p, "stale="+simrt.Pick(c.w.D, "FALSE", "false", "\"false\""))
	}
	if a.Layout&1 != 0 {
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
	}
	sep := ", "
	if a.Layout&2 != 0 {
		sep = ","
	}
	return scheme("Digest") + " " + strings.Join(p, sep)
}

// quoteStr escapes what cannot be in a quoted string as is.
func quoteStr(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "\"", "\\\"")
}

func md5s(s string) string { h := md5.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

// parseParams splits a list of name=value or name="value" parameters.
func parseParams(s string) (map[string]string, bool) {
	m := map[string]string{}
	for {
		s = strings.TrimLeft(s, " ,\t")
		if s == "" {
			return m, true
		}
		i := strings.IndexByte(s, '=')
		if i <= 0 {
			return nil, false
		}
		k := strings.ToLower(strings.TrimSpace(s[:i]))
		s = s[i+1:]
		v := ""
		if strings.HasPrefix(s, "\"") {
			j := 1
			for ; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
				if j < len(s) {
					v += s[j : j+1]
				}
			}
			if j >= len(s) {
				return nil, false
			}
			s = s[j+1:]
			if s = strings.TrimLeft(s, " \t"); s != "" && s[0] != ',' {
				return nil, false
			}
		} else if j := strings.IndexByte(s, ','); j >= 0 {
			v, s = strings.TrimSpace(s[:j]), s[j:]
		} else {
			v, s = strings.TrimSpace(s), ""
		}
		if _, dup := m[k]; dup {
			return nil, false
		}
		m[k] = v
	}
}

// checkAuth decides whether a request is allowed. A wrong answer to a good
// nonce (as opposed to a missing or expired one) is noted as a problem.
func (c *CamConn) checkAuth(r *Req) bool {
	cam := c.Cam
	a := &cam.C.Auth
	if a.Mode == "" && a.Raw == "" {
		r.AuthOK = true
		return true
	}
	if a.AskVerb != nil && !a.AskVerb[r.Verb] {
		// What it carries is looked at, but not asked for.
		if _, has := r.Get("Authorization"); has && a.Raw == "" && !a.Always {
			c.verifyAuth(r)
		}
		r.AuthOK = true
		return true
	}
	if !c.verifyAuth(r) {
		return false
	}
	if a.RefuseN > 0 {
		if cam.refused == nil {
			cam.refused = map[int]int{}
		}
		if cam.refused[r.CSeq]++; cam.refused[r.CSeq] <= a.RefuseN {
			r.AuthOK, r.AuthNote = false, "refused"
			return false
		}
	}
	return true
}

func (c *CamConn) verifyAuth(r *Req) bool {
	cam := c.Cam
	a := &cam.C.Auth
	v, ok := r.Get("Authorization")
	if !ok {
		r.AuthNote = "none"
		return false
	}
	if a.Always || a.Raw != "" {
		r.AuthNote = "refused"
		return false
	}
	prob := func(f string, x ...any) bool {
		r.AuthNote = fmt.Sprintf(f, x...)
		c.Probs = append(c.Probs, fmt.Sprintf("%s CSeq %d: %s: Authorization: %s", r.Verb, r.CSeq, r.AuthNote, v))
		return false
	}
	basic := strings.HasPrefix(v, "Basic ")
	if cam.AuthGen > 0 && basic != (a.Mode == "basic") && !(basic && (a.Also == 1 || a.Also == 2)) {
		r.AuthNote = "stale"
		return false
	}
	if a.Mode == "basic" || basic && (a.Also == 1 || a.Also == 2) {
		want := "Basic " + base64.StdEncoding.EncodeToString([]byte(a.User+":"+a.Pass))
		if v != want {
			return prob("wrong Basic credentials")
		}
		r.AuthOK = true
		return true
	}
	if !strings.HasPrefix(v, "Digest ") {
		return prob("not a Digest answer")
	}
	p, ok := parseParams(v[7:])
	if !ok {
		return prob("malformed Digest answer")
	}
	if st := cam.nonces[p["nonce"]]; st != nil && st.gen != cam.AuthGen {
		r.AuthNote = "stale"
		return false
	}
	if p["username"] != a.User {
		return prob("wrong user name %q", p["username"])
	}
	if p["realm"] != a.Realm {
		return prob("wrong realm %q", p["realm"])
	}
	st := cam.nonces[p["nonce"]]
	if st == nil {
		return prob("nonce %q was never given", p["nonce"])
	}
	if a.Opaque != "" && p["opaque"] != a.Opaque {
		return prob("opaque not returned")
	}
	alg := strings.ToLower(a.Algorithm)
	if pa, has := p["algorithm"]; has {
		if (alg == "" && strings.ToLower(pa) != "md5") || (alg != "" && strings.ToLower(pa) != alg) {
			return prob("wrong algorithm %q", pa)
		}
	} else if alg == "md5-sess" {
		return prob("algorithm missing")
	}
	if p["uri"] != r.URI {
		return prob("uri %q is not the request's URI %q", p["uri"], r.URI)
	}
	ha1 := md5s(a.User + ":" + a.Realm + ":" + a.Pass)
	ha2 := md5s(r.Verb + ":" + p["uri"])
	want := ""
	var nc uint64
	if a.Qop == "" {
		want = md5s(ha1 + ":" + p["nonce"] + ":" + ha2)
	} else {
		okq := false
		for _, q := range strings.Split(a.Qop, ",") {
			if strings.TrimSpace(q) == p["qop"] {
				okq = true
			}
		}
		if !okq {
			return prob("qop %q was not offered", p["qop"])
		}
		if p["cnonce"] == "" || len(p["nc"]) != 8 {
			return prob("cnonce or nc missing")
		}
		var err error
		nc, err = strconv.ParseUint(p["nc"], 16, 64)
		if err != nil || nc == 0 {
			return prob("malformed nc %q", p["nc"])
		}
		if alg == "md5-sess" {
			// The session key is made with the first cnonce used with the nonce.
			if st.cnonce == "" {
				st.cnonce = p["cnonce"]
			}
			ha1 = md5s(ha1 + ":" + p["nonce"] + ":" + st.cnonce)
		}
		if p["qop"] == "auth-int" {
			ha2 = md5s(r.Verb + ":" + p["uri"] + ":" + md5s(""))
		}
		want = md5s(ha1 + ":" + p["nonce"] + ":" + p["nc"] + ":" + p["cnonce"] + ":" + p["qop"] + ":" + ha2)
	}
	if p["response"] != want {
		return prob("response does not verify")
	}
	if a.Qop != "" {
		if st.seen[nc] {
			return prob("nc %d used again", nc)
		}
		if a.StrictNC && nc != st.nc+1 {
			return prob("nc %d is not the count of uses of the nonce, %d", nc, st.nc+1)
		}
		st.seen[nc] = true
		if nc > st.nc {
			st.nc = nc
		}
	}
	if !cam.nonceGood(p["nonce"]) {
		r.AuthNote = "stale"
		return false
	}
	st.uses++
	r.AuthOK = true
	return true
}
