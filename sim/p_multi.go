package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C18", Title: "Sessions in one program are independent", Quick: 30000, Thorough: 1500000, Run: runC18,
		Rule: "A run counts as non-trivial if at least two sessions exchanged requests and one received packets.", Real: realRTSP, Stub: stubRTSP})
}

// msess is one of several sessions.
type msess struct {
	i         int
	role      string // "" is a good one
	cam       *Camera
	app       *App
	proto     int
	cr        cred
	path      *UDPPath
	ready     uint64
	startAt   int64
	teardown  bool
	started   bool
	lastPktAt int64
}

// shareListener lets several cameras be reached at one address; the path in
// the first request tells them apart.
func shareListener(w *simrt.World, cams []*Camera) {
	l := cams[0].L
	for _, c := range cams {
		c.L = l
	}
	l.Accept = func(sc *simrt.SrvConn) {
		var buf []byte
		gone := false
		sc.OnClose = func(error) { gone = true }
		sc.OnData = func(b []byte) {
			buf = append(buf, b...)
			i := bytes.Index(buf, []byte("\r\n"))
			if i < 0 {
				return
			}
			for _, cam := range cams {
				if bytes.Contains(buf[:i], []byte(cam.Path)) {
					cam.accept(sc)
					if !gone {
						cam.Conn().data(buf)
					}
					return
				}
			}
		}
	}
	w.Net.Listen(net.JoinHostPort(cams[0].IP, strconv.Itoa(cams[0].Port)), l)
}

func runC18(r *Run) {
	cfg := r.Sched(50*ms, false)
	cfg.Limit = 4000 * sec
	w := r.World(cfg)
	d := r.D
	n := 2 + d.Weighted(3, 1)
	good := d.Intn(n)
	shared := d.Chance(1, 3)
	// Cameras of one installation look alike: same user name, same realm,
	// nonces that come in the same order.
	alike := d.Chance(1, 3)
	var realm string
	var ss []*msess
	var cams []*Camera
	quiet := false
	for i := 0; i < n; i++ {
		s := &msess{i: i, proto: rtsp.ProtoTCP}
		if i != good {
			s.role = []string{"", "hostile", "neglected", "mute", "dies", "slow", "refused", "unreachable", "stuck"}[d.Weighted(6, 2, 3, 2, 3, 3, 2, 2, 2)]
		}
		cc := CamCfg{FailPct: map[string]int{}}
		if d.Chance(1, 3) {
			s.proto, cc.UDP = rtsp.ProtoUnicast, true
		}
		if d.Chance(1, 3) || s.role == "refused" {
			s.cr = cred{fmt.Sprintf("user%d", i), fmt.Sprintf("secret%d", i), fmt.Sprintf("user%d:secret%d", i, i)}
			if alike {
				s.cr.user = "admin"
				s.cr.info = fmt.Sprintf("admin:secret%d", i)
			}
			drawAuth(d, &cc.Auth, s.cr.user, s.cr.pass)
			cc.Auth.StrictNC = true
			if alike {
				if realm == "" {
					realm = cc.Auth.Realm + "all"
				}
				cc.Auth.Realm = realm
			}
			cc.Auth.Always = s.role == "refused"
		}
		o := camOpts{prompt: true, maxDelay: 200 * ms, maxVideo: 3, audio: true, refuse: true, shortIO: true, ansDelay: s.role == "slow", stalls: s.role == "slow" && !shared}
		host, ip := fmt.Sprintf("camera%d.test", i), fmt.Sprintf("10.1.1.%d", i+1)
		if (s.role == "unreachable" || s.role == "stuck") && shared {
			s.role = "dies"
		}
		if shared {
			host, ip, o.port, o.fixedIP = "camera.test", "10.1.1.1", 554, true
		}
		s.cam = r.drawCamera(fmt.Sprintf("cam%d", i), host, ip, cc, o)
		s.cam.C.SessID = fmt.Sprintf("%dsess%d", 7-i, i)
		if alike {
			s.cam.NonceTag = "cam"
		}
		s.cam.UDPBase = 6970 + 100*i
		s.app = NewApp(w, fmt.Sprintf("app%d", i))
		s.path = &UDPPath{Delay: 50 * ms}
		s.startAt = int64(d.Intn(8)) * simrt.Pick(d, 0, 10*ms, 400*ms)
		s.teardown = d.Chance(1, 3)
		cams = append(cams, s.cam)
		ss = append(ss, s)
		r.Desc += fmt.Sprintf("session %d: proto %d auth %q role %q; ", i, s.proto, cc.Auth.Mode, s.role)
	}
	if shared {
		r.Desc += "one address"
		shareListener(w, cams)
	}
	pair := simrt.Pick(d, 0, 2, 20, 60)
	for _, s := range ss {
		s := s
		nPkt := d.Range(1, 25)
		budget := 40000
		gap := simrt.Pick(d, 0, 20*ms, 500*ms, 2*sec)
		var chans []byte
		for k := range s.cam.Videos() {
			chans = append(chans, byte(2*k), byte(2*k+1))
		}
		bad := func(c *CamConn) {
			if d.Chance(1, 2) {
				c.Reset()
			} else {
				c.Close()
			}
		}
		switch s.role {
		case "hostile":
			s.cam.OnReq = func(c *CamConn, q *Req) {
				if c.Mangle == nil {
					c.Mangle = func(b []byte, a *Ans) ([]byte, bool) {
						if !d.Chance(30, 100) {
							return nil, false
						}
						w.Count("fault.hostile_bytes")
						if a == nil || d.Chance(1, 4) {
							return append(garbage(d), b...), true
						}
						return badAnswer(d, s.cam, b, a), true
					}
				}
			}
		case "neglected":
			s.app.Neglect = true
			w.Count("fault.neglected_session")
			nPkt += pair
		case "mute":
			at := d.Intn(8)
			s.cam.Hook = func(c *CamConn, q *Req) bool {
				if q.Idx >= at {
					w.Count("fault.no_answer")
				}
				return q.Idx >= at
			}
		case "stuck": // reads no more
			s.cam.L.Window = simrt.Pick(d, 10, 150, 400)
		case "unreachable":
			s.cam.L.Silent = d.Chance(2, 3)
			s.cam.L.Refuse = !s.cam.L.Silent
		}
		dieAt := d.Intn(9)
		req := s.cam.OnReq
		s.cam.OnReq = func(c *CamConn, q *Req) {
			if req != nil {
				req(c, q)
			}
			if q.Verb == "PLAY" && !s.started {
				s.started = true
				if s.proto == rtsp.ProtoTCP {
					pump(r, c, chans, nPkt, &budget, gap, func() bool { return quiet })
				} else {
					udpPump(r, c, s.path, nPkt, &budget, gap, func() bool { return quiet || c.Closed })
				}
			}
			if s.role == "stuck" && q.Idx == dieAt {
				w.Count("fault.camera_stops_reading")
				c.C.HoldReads(true)
			}
			if s.role == "dies" && q.Idx == dieAt {
				w.At(int64(d.Intn(4))*200*ms, func() { bad(c) })
			}
		}
		s.app.OnStage = func(st int) {
			if st == rtsp.StageReady && s.ready == 0 {
				s.ready = w.Seq()
			}
		}
		ncmd := d.Intn(6)
		w.At(s.startAt, func() {
			w.Spawn(s.app.Name, false, func() {
				if s.app.Open(s.cam.URL(s.cr.info), s.proto) != nil {
					return
				}
				if s.app.Neglect {
					// Commands all the same, as far as they go.
					for _, v := range []string{"PLAY", "OPTIONS", "PAUSE", "PLAY"} {
						s.app.Sleep(int64(d.Intn(20)) * 100 * ms)
						if s.app.Cmd(v) != nil {
							return
						}
					}
					return
				}
				if s.app.WaitStage(rtsp.StageReady, 1, 300*sec) != nil {
					return
				}
				if s.app.Cmd("PLAY") != nil {
					return
				}
				for k := ncmd; k > 0; k-- {
					s.app.Sleep(int64(d.Intn(8)) * 300 * ms)
					if s.app.Cmd(simrt.Pick(d, "OPTIONS", "PAUSE", "PLAY")) != nil {
						return
					}
				}
				if s.teardown {
					s.app.Sleep(60 * sec)
					s.app.Cmd("TEARDOWN")
				}
			})
		})
	}
	w.RunFor(40 * sec)
	quiet = true
	total := func() (k int) {
		for _, s := range ss {
			k += len(s.app.Got)
		}
		return
	}
	w.RunFor(60 * sec)
	for i, before := 0, -1; i < 10 && before != total() && !w.Stopped(); i++ {
		before = total()
		w.RunFor(20 * sec)
	}
	if w.Stopped() {
		return
	}
	talked := 0
	for _, s := range ss {
		if c := s.cam.Conn(); c != nil && len(c.Reqs) > 1 {
			talked++
		}
	}
	for _, s := range ss {
		if s.role == "" {
			r.judgeIndependent(s, ss)
			if w.Stopped() {
				return
			}
			if talked > 1 && len(s.app.Got) > 0 {
				r.NonTriv = true
			}
		}
	}
}

// judgeIndependent judges a session that nothing was done to.
func (r *Run) judgeIndependent(s *msess, ss []*msess) {
	w := r.W
	app := s.app
	tag := fmt.Sprintf("session %d (%s)", s.i, r.Desc)
	if app.OpenC == nil || !app.OpenC.Done {
		r.Violate("open-hangs", "%s: Open has not returned", tag)
		return
	}
	if app.OpenC.Err != nil {
		r.Violate("open-fails", "%s: Open: %v", tag, app.OpenC.Err)
		return
	}
	c := s.cam.Conn()
	if c == nil || len(s.cam.Conns) != 1 {
		r.Violate("connections", "%s: %d connections were made", tag, len(s.cam.Conns))
		return
	}
	if c.Malformed != "" {
		r.Violate("malformed", "%s: %s", tag, c.Malformed)
		return
	}
	if app.HasStage(rtsp.StageReady) != 1 || app.Stages[0].Stage != rtsp.StageReady {
		r.Violate("stages", "%s: stages are %s", tag, app.stageList())
		return
	}
	if t := app.Stages[0].T - app.OpenC.T0; t > 10*sec {
		r.Violate("slow", "%s: it took %s to become Ready", tag, fmtDur(t))
		return
	}
	r.W.Max("max.ready_ns", app.Stages[0].T-app.OpenC.T0)
	for _, cmd := range app.Cmds {
		r.W.Max("max.command_ns", cmd.T1-cmd.T0)
		if !cmd.Done || cmd.T1-cmd.T0 > 1500*ms {
			r.Violate("slow", "%s: %s took %s to return", tag, cmd.Verb, fmtDur(cmd.T1-cmd.T0))
			return
		}
		if cmd.Err != nil {
			r.Violate("command-fails", "%s: %s failed: %v", tag, cmd.Verb, cmd.Err)
			return
		}
	}
	if !checkWhole(r, c, s.app, s.proto == rtsp.ProtoTCP) || !checkStages(r, c, app, true) || !checkSession(r, c, app, s.proto != rtsp.ProtoTCP) {
		return
	}
	if w.Stopped() {
		return
	}
	checkContained(r, c, s.cr)
	if w.Stopped() {
		return
	}
	// Nothing of the other sessions.
	for _, q := range c.Reqs {
		for _, o := range ss {
			if o == s {
				continue
			}
			if o.cr.info != "" {
				for _, x := range []string{o.cr.user, o.cr.pass, base64.StdEncoding.EncodeToString([]byte(o.cr.info))} {
					if x != s.cr.user && strings.Contains(q.Raw, x) {
						r.Violate("credentials-crossed", "%s: %s carries credentials of session %d: %q", tag, q.Verb, o.i, clip(q.Raw, 300))
						return
					}
				}
			}
			if strings.Contains(q.Raw, o.cam.C.SessID) {
				r.Violate("identifier-crossed", "%s: %s carries the session identifier of session %d: %q", tag, q.Verb, o.i, clip(q.Raw, 300))
				return
			}
		}
	}
	// Alone, requests are numbered without gaps.
	nums := map[int]bool{}
	var list []int
	for _, q := range c.Reqs {
		if !nums[q.CSeq] {
			nums[q.CSeq] = true
			list = append(list, q.CSeq)
		}
	}
	sort.Ints(list)
	for i := 1; i < len(list); i++ {
		if list[i] != list[i-1]+1 {
			r.Violate("numbers-crossed", "%s: CSeq %d follows %d", tag, list[i], list[i-1])
			return
		}
	}
	if s.cr.info != "" {
		checkAuthed(r, s.cam, c, app, false)
		if w.Stopped() {
			return
		}
	}
	if s.proto == rtsp.ProtoTCP {
		if !checkPackets(r, app, c.Pkts, len(c.Pkts)) {
			return
		}
		for i := range app.Got {
			r.W.Max("max.packet_ns", app.Got[i].T-c.Pkts[i].T)
			if t := app.Got[i].T - c.Pkts[i].T; t > 2*sec {
				r.Violate("slow", "%s: packet %d took %s to be delivered", tag, i, fmtDur(t))
				return
			}
		}
	} else {
		if !checkUDP(r, app, s.path, s.ready, 1<<62) {
			return
		}
		// Its keep-alives do not depend on what the others do.
		end := w.Now()
		for _, cmd := range app.Cmds {
			if cmd.Verb == "TEARDOWN" {
				end = cmd.T0
			}
		}
		last := app.Stages[0].T
		for _, q := range firstSends(c) {
			if _, has := q.Get("Session"); q.Verb == "OPTIONS" && has && q.IssueT <= end {
				r.W.Max("max.keepalive_gap_ns", q.IssueT-last)
				if q.IssueT-last > 10*sec+400*ms {
					r.Violate("keepalive-gap", "%s: no keep-alive was sent between %s and %s", tag, fmtDur(last), fmtDur(q.IssueT))
					return
				}
				last = q.IssueT
			}
		}
		r.Ok(end-last <= 10*sec+400*ms, "keepalive-gap", "%s: no keep-alive was sent between %s and %s", tag, fmtDur(last), fmtDur(end))
	}
}
