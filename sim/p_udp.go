package main

import (
	"fmt"
	"net"
	"syscall"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C11", Title: "UDP sessions are kept alive, at a bounded rate", Quick: 12000, Thorough: 600000, Run: runC11,
		Rule: "A run counts as non-trivial if at least 10 keep-alives were sent, or for TCP if the session lasted 60 s.", Real: realRTSP, Stub: stubRTSP})
	register(&Prop{ID: "C12", Title: "UDP packets that arrive are delivered", Quick: 40000, Thorough: 2000000, Run: runC12,
		Rule: "A run counts as non-trivial if at least 5 datagrams were delivered.", Real: realRTSP, Stub: stubRTSP})
}

// Arrival is a datagram that reached the client host.
type Arrival struct {
	Port  int
	Data  []byte
	T     int64
	Seq   uint64
	Bound bool // a socket was there to take it
}

// UDPPath is the network between a camera's UDP ports and the client.
type UDPPath struct {
	Delay   int64
	Loss    int // in 100
	Dup     int
	Raw     bool // datagrams are sent as they are
	Nat     int  // 1: they come from another address, 2: from any port, 3: both
	Arrived []*Arrival
}

// SendUDP sends a datagram to a stream's data (0) or control (1) port.
func (c *CamConn) SendUDP(p *UDPPath, m *Media, k int, b []byte) {
	w, d := c.w, c.w.D
	n := 1
	if p.Loss > 0 && d.Chance(p.Loss, 100) {
		w.Count("fault.datagram_lost")
		n = 0
	} else if p.Dup > 0 && d.Chance(p.Dup, 100) {
		w.Count("fault.datagram_duplicated")
		n = 2
	}
	if len(b) > 0 && !p.Raw {
		b[0] = byte(m.ClientPort[k])
	}
	w.Ev("camera-datagram", c.Cam.Name, m.ClientPort[k], len(b))
	from := &net.UDPAddr{IP: net.ParseIP(c.Cam.IP), Port: m.ServerPort[k]}
	if p.Nat&1 != 0 {
		from.IP = net.ParseIP(simrt.Pick(d, "10.1.1.99", "10.1.1.98"))
		if net.ParseIP(c.Cam.IP).To4() == nil {
			from.IP = net.ParseIP("fd00::1:99")
		}
		w.Count("net.datagram_from_elsewhere")
	}
	if p.Nat&2 != 0 {
		from.Port = d.Range(1024, 65535)
	}
	to := &net.UDPAddr{IP: net.ParseIP(c.Cam.ClientIP()), Port: m.ClientPort[k]}
	for ; n > 0; n-- {
		dl := int64(0)
		if p.Delay > 0 {
			dl = int64(d.Intn(16)) * p.Delay / 15
		}
		w.At(dl, func() {
			bound := w.Net.UDPBound(to)
			if s := w.Net.UDPArrive(from, to, b); s == nil && bound {
				return // the kernel's buffer was full: lost
			}
			p.Arrived = append(p.Arrived, &Arrival{Port: to.Port, Data: b, T: w.Now(), Seq: w.Seq(), Bound: bound})
		})
	}
}

// drawLull tells for how long, if at all, nothing is to happen.
func drawLull(d *simrt.Decider) int64 {
	if d.Chance(1, 150) {
		return int64(d.Range(3600, 6500)) * sec
	}
	return 0
}

// udpPump sends datagrams to the streams that have been set up.
func udpPump(r *Run, c *CamConn, p *UDPPath, n int, budget *int, gap int64, until func() bool) {
	d := r.D
	left := n
	var step func()
	step = func() {
		if left <= 0 || until() {
			return
		}
		var ms []*Media
		for _, m := range c.Cam.C.Medias {
			if m.Set && m.ClientPort[0] != 0 {
				ms = append(ms, m)
			}
		}
		if len(ms) > 0 {
			for k := 1 + d.Weighted(6, 2, 1)*2; k > 0 && left > 0; k-- {
				left--
				sz := 0
				switch d.Weighted(5, 3, 2, 1, 1) {
				case 0:
					sz = d.Range(1, 1500)
				case 1:
					sz = simrt.Pick(d, 0, 1, 12, 1472, 1473, 2048, 4096, 8192, 65507)
				case 2:
					sz = d.Range(1500, 9000)
				case 3:
					sz = d.Range(9000, 65507)
				case 4:
					sz = 65507 - d.Intn(4)
				}
				if sz > *budget {
					sz = *budget
				}
				*budget -= sz
				c.SendUDP(p, ms[d.Intn(len(ms))], d.Weighted(3, 1), drawPayload(d, sz))
				r.W.Count("work.datagrams")
			}
		}
		next := int64(d.Intn(8)) * gap / 7
		if len(ms) == 0 {
			next += 100 * 1000 * 1000
		}
		r.W.At(next, step)
	}
	r.W.At(int64(d.Intn(4))*gap/3, step)
}

// checkUDP compares deliveries with arrivals. From event number from on every
// arrival counts; what arrived before may or may not have been delivered.
// Arrivals from time to on need not be delivered, but those that are
// have to be the first ones.
func checkUDP(r *Run, app *App, p *UDPPath, from uint64, to int64) bool {
	type cand struct {
		port int
		chs  []int
		must bool
		why  string
	}
	var cands []*cand
	got := map[int][]*Got{}
	for i := range app.Got {
		g := &app.Got[i]
		got[int(g.Ch)] = append(got[int(g.Ch)], g)
	}
	var chans []int
	for ch := 0; ch < 256; ch++ {
		if len(got[ch]) > 0 {
			chans = append(chans, ch)
		}
	}
	var ports []int
	arr := map[int][]*Arrival{}
	for _, a := range p.Arrived {
		if arr[a.Port] == nil {
			ports = append(ports, a.Port)
		}
		arr[a.Port] = append(arr[a.Port], a)
	}
	same := func(g *Got, a *Arrival) bool { return len(g.B) == len(a.Data) && g.Sum == hashBytes(a.Data) }
	for _, port := range ports {
		as := arr[port]
		// The channel of a port is the one on which a datagram of the port
		// came; payloads of runs are distinct enough to tell.
		fits := func(gs []*Got) (bool, string) {
			// Before Ready: any of them. Then: all of them. At the end: a prefix.
			n1, n2 := 0, 0
			for n1 < len(as) && as[n1].Seq <= from {
				n1++
			}
			for n2 = n1; n2 < len(as) && as[n2].T < to; n2++ {
			}
			best, why := -1, ""
			for k, a := 0, 0; ; {
				// gs[:k] matched as[:a].
				n := 0
				for k+n < len(gs) && n1+n < len(as) && same(gs[k+n], as[n1+n]) {
					n++
				}
				if k+n == len(gs) && n1+n >= n2 {
					return true, ""
				}
				if n > best {
					best = n
					if n1+n < len(as) {
						what := "nothing more"
						if k+n < len(gs) {
							what = fmt.Sprintf("%d bytes", len(gs[k+n].B))
						}
						x := as[n1+n]
						why = fmt.Sprintf("the datagram of %d bytes that arrived at port %d at %s was not delivered in its turn (delivered instead: %s)", len(x.Data), port, fmtDur(x.T), what)
					} else {
						why = fmt.Sprintf("%d packets were delivered that did not arrive at port %d in this order", len(gs)-k-n, port)
					}
				}
				// Take one more of those before Ready.
				for a < n1 && (k >= len(gs) || !same(gs[k], as[a])) {
					a++
				}
				if a >= n1 {
					return false, why
				}
				a++
				k++
			}
		}
		c := &cand{port: port}
		for _, a := range as {
			c.must = c.must || (a.Seq > from && a.T < to)
		}
		for _, ch := range chans {
			ok, msg := fits(got[ch])
			if ok && ch&1 != port&1 {
				ok, msg = false, fmt.Sprintf("datagrams of port %d were delivered on channel %d", port, ch)
			}
			if ok {
				c.chs = append(c.chs, ch)
			} else if c.why == "" || ch&1 == port&1 && len(c.why) < len(msg) {
				c.why = msg
			}
		}
		if len(c.chs) == 0 && c.must {
			if c.why == "" {
				_, c.why = fits(nil)
			}
			r.Violate("datagram", "%s", c.why)
			return false
		}
		cands = append(cands, c)
	}
	used := map[int]bool{}
	var assign func(i int) bool
	assign = func(i int) bool {
		if i == len(cands) {
			return len(used) == len(chans)
		}
		for _, ch := range cands[i].chs {
			if !used[ch] {
				used[ch] = true
				if assign(i + 1) {
					return true
				}
				delete(used, ch)
			}
		}
		return !cands[i].must && assign(i+1)
	}
	if !assign(0) {
		s := ""
		for _, c := range cands {
			s += fmt.Sprintf(" port %d fits channels %v %s;", c.port, c.chs, c.why)
		}
		r.Violate("datagram", "the packets delivered on channels %v cannot be those that arrived:%s", chans, s)
		return false
	}
	total := 0
	for _, ch := range chans {
		total += len(got[ch])
	}
	if a := app.Altered(); a != "" {
		r.Violate("packet-altered", "%s", a)
		return false
	}
	if total >= 5 {
		r.NonTriv = true
	}
	return true
}

// drawUsed draws how many pairs of ports earlier sessions of the program have
// used: now and then so many that the numbers of ports come to their end.
func drawUsed(d *simrt.Decider, one int) int {
	if !d.Chance(1, one) {
		return 0
	}
	return simrt.Pick(d, 7000-d.Intn(10), 7768-d.Intn(10), d.Intn(16000))
}

func runC12(r *Run) {
	cfg := r.Sched(300*ms, r.D.Chance(1, 4))
	cfg.Limit = 3600 * sec
	lull := drawLull(r.D)
	cfg.Limit += lull
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{UDP: true}
	info := ""
	if d.Chance(1, 5) {
		drawAuth(d, &cc.Auth, "u", "p")
		info = "u:p"
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 300 * ms, maxVideo: 4, refuse: true, audio: true, shortIO: true, ansDelay: true})
	app := NewApp(w, "app")
	switch d.Weighted(3, 2, 1, 2) {
	case 1:
		app.SlowPct, app.SlowMax = 20, 500*ms
	case 2:
		app.SlowPct, app.SlowMax = 5, 20*sec
	case 3:
		app.StallAt, app.StallFor = d.Range(1, 12), simrt.Pick(d, 5*sec, 40*sec, 100*sec, 700*sec)
	}
	app.Used = drawUsed(d, 150)
	w.Net.UDPBuf = simrt.Pick(d, 4<<20, 212992)
	p := &UDPPath{Delay: simrt.Pick(d, 0, 5*ms, 100*ms), Loss: simrt.Pick(d, 0, 0, 10), Dup: simrt.Pick(d, 0, 0, 10), Nat: d.Weighted(6, 1, 1, 1)}
	n := d.Range(3, 60)
	budget := simrt.Pick(d, 20000, 100000, 300000)
	gap := simrt.Pick(d, 0, 2*ms, 100*ms, 8*sec)
	end := d.Weighted(3, 3, 2)
	if lull > 0 {
		end = 0
	}
	early := d.Chance(1, 4)
	errs := d.Chance(1, 6)
	r.Desc = fmt.Sprintf("%d datagrams delay %s loss %d dup %d ending %d early %v", n, fmtDur(p.Delay), p.Loss, p.Dup, end, early)
	done, started := false, false
	start := func() {
		if c := cam.Conn(); !started && c != nil {
			started = true
			udpPump(r, c, p, n, &budget, gap, func() bool { return done })
		}
	}
	cam.OnReq = func(c *CamConn, q *Req) {
		if q.Verb == "PLAY" || (early && q.Verb == "SETUP") {
			start()
		}
	}
	var ready uint64
	var stop int64
	app.OnStage = func(st int) {
		if st == rtsp.StageReady && ready == 0 {
			ready = w.Seq()
			if errs {
				var round func()
				left := simrt.Pick(d, 1, 1, 12, 40)
				round = func() {
					if left--; left > 0 {
						w.At(int64(1+d.Intn(10))*50*ms, round)
					}
					for _, s := range w.Net.UDPs {
						if !s.Closed() && d.Chance(1, 2) {
							w.Count("fault.udp_read_error")
							s.InjectErr(syscall.Errno(syscall.EINTR))
						}
					}
				}
				w.At(int64(d.Intn(20))*500*ms, round)
			}
		}
	}
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(info), rtsp.ProtoUnicast) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 300*sec) != nil {
			return
		}
		if app.Cmd("PLAY") != nil {
			return
		}
		for k := d.Intn(5); k > 0; k-- {
			app.Sleep(int64(d.Intn(8)) * 500 * ms)
			app.Cmd(simrt.Pick(d, "OPTIONS", "PAUSE", "PLAY"))
		}
		if end == 1 {
			app.Sleep(int64(d.Intn(10)) * sec)
			stop = w.Now() + 1
			app.Cmd("TEARDOWN")
		}
	})
	w.RunFor([]int64{30 * sec, 60 * sec, 400 * sec}[d.Weighted(6, 3, 1)])
	c := cam.Conn()
	if w.Stopped() || c == nil || ready == 0 {
		return
	}
	if lull > 0 {
		// Nothing happens for hours, and then media comes again.
		w.Count("work.lull")
		w.RunFor(lull)
		budget = 20000
		udpPump(r, c, p, 20, &budget, gap, func() bool { return done })
		w.RunFor(60 * sec)
		if w.Stopped() {
			return
		}
	}
	done = true
	if end == 2 {
		stop = w.Now() + 1
		c.Close()
	}
	for i, before := 0, -1; i < 60 && before != len(app.Got) && !w.Stopped(); i++ {
		before = len(app.Got)
		w.RunFor(40*sec + app.StallFor)
	}
	if w.Stopped() {
		return
	}
	if stop == 0 {
		stop = 1 << 62
	} else if stop -= 10 * sec; app.SlowPct > 0 || app.StallFor > 0 {
		stop = 0 // what has not been consumed is lost when the session ends
	}
	checkUDP(r, app, p, ready, stop)
}

func runC11(r *Run) {
	maxSlow := simrt.Pick(r.D, 0, 20*ms, 100*ms)
	cfg := r.Sched(maxSlow, false)
	cfg.Limit = 40000 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{UDP: true, FailPct: map[string]int{}}
	info := ""
	if d.Chance(1, 3) {
		drawAuth(d, &cc.Auth, "u", "p")
		cc.Auth.RotateTime = simrt.Pick(d, 0, 60*sec, 300*sec)
		info = "u:p"
	}
	tcp := d.Chance(1, 6)
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 1 * sec, stalls: true, maxVideo: 3, shortIO: true, ansDelay: true})
	cam.C.ReplPct = simrt.Pick(d, 0, 0, 5)
	verbs := []string{"PLAY", "PAUSE", "OPTIONS", "PLAY"}
	if d.Chance(1, 4) {
		// The camera refuses some of what it is told.
		cam.C.FailPct["PLAY"], cam.C.FailPct["PAUSE"] = 40, 40
		if d.Chance(1, 2) {
			cam.C.FailPct["TEARDOWN"] = 100
			verbs = append(verbs, "TEARDOWN")
		}
	}
	silent := d.Chance(1, 6) // keep-alives are not answered at all
	fails := d.Chance(1, 6)
	cam.Hook = func(c *CamConn, q *Req) bool {
		if _, has := q.Get("Session"); q.Verb == "OPTIONS" && has {
			if silent && d.Chance(1, 2) {
				w.Count("fault.request_unanswered")
				return true
			}
			if fails {
				cam.C.FailPct["OPTIONS"] = 30
			}
		}
		return false
	}
	app := NewApp(w, "app")
	proto := rtsp.ProtoUnicast
	if tcp {
		proto = rtsp.ProtoTCP
	}
	long := []int64{60 * sec, 200 * sec, 900 * sec, 7200 * sec}[d.Weighted(40, 16, 4, 1)]
	jumps := d.Chance(1, 4)
	busy := d.Weighted(2, 2, 1)
	media := d.Chance(1, 2)
	r.Desc = fmt.Sprintf("%s tcp %v auth %q silent %v fails %v jumps %v media %v", fmtDur(long), tcp, cc.Auth.Mode, silent, fails, jumps, media)
	if jumps {
		var jump func()
		jump = func() {
			w.Count("fault.wall_clock_jump")
			w.JumpWall(simrt.Pick(d, int64(-3600), 3600, -1, 1, -86400, 30) * sec)
			w.At(int64(1+d.Intn(60))*sec, jump)
		}
		w.At(int64(1+d.Intn(10))*sec, jump)
	}
	done := false
	var readyT, stopT int64
	app.OnStage = func(st int) {
		if st == rtsp.StageReady && readyT == 0 {
			readyT = w.Now()
			if media {
				budget := 300000
				if tcp {
					pump(r, cam.Conn(), []byte{0, 1}, 200, &budget, 3*sec, func() bool { return done })
				} else {
					udpPump(r, cam.Conn(), &UDPPath{Delay: 100 * ms}, 200, &budget, 3*sec, func() bool { return done })
				}
			}
		}
	}
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(info), proto) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 300*sec) != nil {
			return
		}
		end := w.Now() + long
		for w.Now() < end {
			switch busy {
			case 0:
				app.Sleep(end - w.Now())
			case 1:
				app.Sleep(int64(1+d.Intn(40)) * sec)
			case 2:
				app.Sleep(int64(1+d.Intn(30)) * 100 * ms)
			}
			if w.Now() >= end {
				break
			}
			if app.Cmd(simrt.Pick(d, verbs...)) != nil {
				break
			}
			if len(app.Cmds) > 60 {
				busy = 0
			}
		}
		stopT = w.Now()
		done = true
		cam.C.FailPct["TEARDOWN"] = 0
		app.Cmd("TEARDOWN")
	})
	for i := 0; i < 400 && !done && !w.Stopped(); i++ {
		w.RunFor(100 * sec)
	}
	w.RunFor(100 * sec) // what is under way arrives
	c := cam.Conn()
	if w.Stopped() || c == nil || c.Malformed != "" || readyT == 0 || !done {
		return
	}
	for _, cmd := range app.Cmds {
		if cmd.Err != nil && cmd.T1 < stopT {
			return // the session has ended early; others judge that
		}
	}
	var ka []*Req
	for _, q := range firstSends(c) {
		_, has := q.Get("Session")
		if q.Verb != "OPTIONS" || q.IssueT > stopT {
			continue
		}
		if tcp {
			if q.Idx > 0 && !cmdIssued(app, "OPTIONS", q) {
				r.Violate("keepalive-tcp", "an OPTIONS was sent over a TCP session at %s", fmtDur(q.IssueT))
				return
			}
			continue
		}
		if has {
			ka = append(ka, q)
		}
	}
	if tcp {
		r.NonTriv = stopT-readyT >= 50*sec
		return
	}
	r.NonTriv = len(ka) >= 10
	slack := 8 * maxSlow
	last := readyT
	for i, q := range ka {
		if i > 0 && q.IssueT-ka[i-1].IssueT < 2*sec-slack {
			r.Violate("keepalive-rate", "keep-alives were sent at %s and %s", fmtDur(ka[i-1].IssueT), fmtDur(q.IssueT))
			return
		}
		if q.IssueT > last && q.IssueT-last > 10*sec+slack {
			r.Violate("keepalive-gap", "no keep-alive was sent between %s and %s", fmtDur(last), fmtDur(q.IssueT))
			return
		}
		if q.IssueT > last {
			last = q.IssueT
		}
		v, _ := q.Get("Session")
		ok := false
		for _, a := range c.Ans {
			ok = ok || (a.SessID == v && a.Seq < q.Seq)
		}
		if !ok {
			r.Violate("keepalive-session", "a keep-alive carries session %q, which the camera has not given", v)
			return
		}
	}
	r.Ok(stopT-last <= 10*sec+slack, "keepalive-gap", "no keep-alive was sent between %s and %s", fmtDur(last), fmtDur(stopT))
}
