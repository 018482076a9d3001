package main

import (
	"fmt"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/hls"
	"github.com/aboukirev/ouro/net/rtp"
	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C21", Title: "Nothing grows in sessions that last", Quick: 6000, Thorough: 400000, Run: runC21,
		Rule: "A run counts as non-trivial if the same work was done at least 30 times over.", Real: realRTSP + "; net/rtp, net/h264, net/hls", Stub: stubRTSP})
}

// hold is what is held at one time.
type hold struct {
	bytes        int64
	tasks, socks int
	names        string
}

// grown compares what was held after each round of the same work.
func (r *Run) grown(hs []hold, what string) bool {
	n := len(hs)
	if n < 12 {
		return false
	}
	early := hs[2]
	for _, h := range hs[2 : n/3] {
		early.bytes = max(early.bytes, h.bytes)
		early.tasks = max(early.tasks, h.tasks)
		early.socks = max(early.socks, h.socks)
	}
	late := hs[n-1]
	for _, h := range hs[n-n/4:] {
		late.bytes = min(late.bytes, h.bytes)
		late.tasks = min(late.tasks, h.tasks)
		late.socks = min(late.socks, h.socks)
	}
	r.W.Max("max.bytes_held", late.bytes)
	if late.tasks > early.tasks {
		r.Violate("tasks-grow", "%s has %d background tasks after %d rounds and had at most %d in the first %d: %s", what, late.tasks, n, early.tasks, n/3, hs[n-1].names)
		return true
	}
	if late.socks > early.socks {
		r.Violate("sockets-grow", "%s has %d sockets after %d rounds and had at most %d in the first %d", what, late.socks, n, early.socks, n/3)
		return true
	}
	if late.bytes > early.bytes+800 {
		r.Violate("memory-grows", "%s holds %d bytes after %d rounds and held at most %d in the first %d", what, late.bytes, n, early.bytes, n/3)
		return true
	}
	return false
}

// held measures.
func (r *Run) held(roots ...any) (h hold) {
	h.bytes = simrt.DeepSize(append(roots, simrt.Globals()...)...)
	h.tasks, h.names = r.W.LiveLib()
	h.socks = r.W.Net.OpenTCP() + r.W.Net.OpenUDP()
	return
}

func runC21(r *Run) {
	switch r.D.Weighted(6, 2, 1) {
	case 0:
		growSession(r)
	case 1:
		growReopen(r)
	case 2:
		growMedia(r)
	}
}

func growCamera(r *Run, proto int) (cam *Camera, info string) {
	d := r.D
	cc := CamCfg{UDP: proto == rtsp.ProtoUnicast, FailPct: map[string]int{}}
	if d.Chance(1, 2) {
		cr := creds[d.Intn(len(creds))]
		info = cr.info
		drawAuth(d, &cc.Auth, cr.user, cr.pass)
		switch d.Intn(3) {
		case 1:
			cc.Auth.RotateUses = d.Range(4, 9)
		case 2:
			cc.Auth.RotateTime = simrt.Pick(d, 5*sec, 30*sec)
		}
	}
	cam = r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 100 * ms, maxVideo: 2, shortIO: true})
	cam.C.StrayPct = simrt.Pick(d, 0, 0, 30)
	cam.C.DupPct = simrt.Pick(d, 0, 0, 30)
	cam.C.ReplPct = simrt.Pick(d, 0, 0, 20)
	if d.Chance(1, 3) {
		for _, v := range []string{"PLAY", "PAUSE"} {
			cam.C.FailPct[v] = 50
		}
	}
	return
}

// growSession does the same work again and again in one session.
func growSession(r *Run) {
	cfg := r.Sched(20*ms, false)
	cfg.Limit = 100000 * sec
	w := r.World(cfg)
	d := r.D
	proto := rtsp.ProtoTCP
	if d.Chance(1, 2) {
		proto = rtsp.ProtoUnicast
	}
	cam, info := growCamera(r, proto)
	rounds := d.Range(30, 60)
	work := make([]string, d.Range(1, 6))
	for i := range work {
		work[i] = simrt.Pick(d, "PLAY", "PAUSE", "OPTIONS", "DESCRIBE", "")
	}
	npkt := simrt.Pick(d, 0, 3, 25)
	size := simrt.Pick(d, 1, 300, 1400, 5000)
	idle := simrt.Pick(d, 0, 3*sec, 20*sec)
	r.Desc = fmt.Sprintf("one session, proto %d, %d rounds of %q, %d packets of up to %d bytes, idle %s", proto, rounds, work, npkt, size, fmtDur(idle))
	app := NewApp(w, "app")
	path := &UDPPath{}
	var hs []hold
	done := false
	w.Spawn("app", false, func() {
		defer func() { done = true }()
		if app.Open(cam.URL(info), proto) != nil || app.WaitStage(rtsp.StageReady, 1, 60*sec) != nil {
			return
		}
		c := cam.Conn()
		for i := 0; i < rounds && !c.Closed && !c.GotClose; i++ {
			for _, v := range work {
				if v == "" {
					app.Sleep(2500 * ms)
				} else if app.Cmd(v) != nil {
					return
				}
			}
			for k := 0; k < npkt && !c.Closed; k++ {
				b := make([]byte, 1+k*(size-1)/max(npkt-1, 1))
				if proto == rtsp.ProtoTCP {
					c.SendPkt(byte(k&1), b)
				} else if m := cam.Videos()[0]; m.Set {
					path.Arrived = path.Arrived[:0]
					c.SendUDP(path, m, k&1, b)
				}
			}
			app.Sleep(idle)
			app.Sleep(5 * sec) // what is under way arrives
			app.Got, app.Cmds = app.Got[:0], app.Cmds[:0]
			hs = append(hs, r.held(app.S))
		}
	})
	for i := 0; i < 200 && !done && !w.Stopped(); i++ {
		w.RunFor(100 * sec)
	}
	if w.Stopped() {
		return
	}
	r.NonTriv = len(hs) >= 30
	w.Counts["work.rounds"] += int64(len(hs))
	r.grown(hs, "the session")
}

// growReopen opens one session again and again.
func growReopen(r *Run) {
	cfg := r.Sched(20*ms, false)
	cfg.Limit = 100000 * sec
	w := r.World(cfg)
	d := r.D
	proto := rtsp.ProtoTCP
	if d.Chance(1, 2) {
		proto = rtsp.ProtoUnicast
	}
	cam, info := growCamera(r, proto)
	rounds := d.Range(30, 40)
	end := d.Intn(3)
	fresh := d.Chance(1, 3) // a new session every time
	bad := d.Chance(1, 2)   // an attempt fails every time
	r.Desc = fmt.Sprintf("opened %d times, proto %d, end %d, fresh %v, failing attempts %v", rounds, proto, end, fresh, bad)
	app := NewApp(w, "app")
	app.Init()
	var hs []hold
	done := false
	w.Spawn("app", false, func() {
		defer func() { done = true }()
		for i := 0; i < rounds; i++ {
			app.Stages, app.Cmds, app.Got = nil, nil, nil
			if fresh && i > 0 {
				app.Init()
			}
			if bad {
				cam.L.Refuse = true
				app.Reopen(cam.URL(info), proto)
				cam.L.Refuse = false
			}
			if app.Reopen(cam.URL(info), proto) != nil || app.WaitStage(rtsp.StageReady, 1, 60*sec) != nil {
				return
			}
			c := cam.Conn()
			app.Cmd("PLAY")
			app.Sleep(3 * sec)
			switch end {
			case 0:
				app.Cmd("TEARDOWN")
			case 1:
				c.Close()
			case 2:
				c.Reset()
			}
			app.Sleep(10 * sec)
			hs = append(hs, r.held(app.S))
		}
	})
	for i := 0; i < 200 && !done && !w.Stopped(); i++ {
		w.RunFor(100 * sec)
	}
	if w.Stopped() {
		return
	}
	r.NonTriv = len(hs) >= 30
	w.Counts["work.rounds"] += int64(len(hs))
	r.grown(hs, "a program that opens sessions")
}

// growMedia pushes packets into a sink and segments into a playlist.
func growMedia(r *Run) {
	cfg := r.Sched(20*ms, false)
	cfg.Limit = 100000 * sec
	w := r.World(cfg)
	d := r.D
	s := drawStream(d, "s", d.Range(2, 12), d.Chance(1, 3), d.Chance(1, 2))
	loss := simrt.Pick(d, 0, 10, 40)
	rounds := d.Range(40, 80)
	ring := d.Range(1, 20)
	r.Desc = fmt.Sprintf("%d packets pushed %d times, %d%% lost; ring of %d", len(s.pkts), rounds, loss, ring)
	sink := h264.NewNALSink()
	pl, err := hls.NewPlaylist("http://server.test/live", "/var/media/stream.ts", ring, 5)
	if err != nil {
		r.Violate("no-playlist", "NewPlaylist failed: %v", err)
		return
	}
	var hs []hold
	done := false
	w.Spawn("app", false, func() {
		defer func() { done = true }()
		for i := 0; i < rounds; i++ {
			for _, p := range s.pkts {
				if loss > 0 && d.Chance(loss, 100) {
					w.Count("fault.rtp_lost")
					continue
				}
				raw := append([]byte(nil), p.raw...)
				if d.Chance(1, 20) {
					w.Count("fault.rtp_truncated")
					raw = raw[:d.Intn(len(raw))]
				}
				if q, err := rtp.Unpack(raw); err == nil {
					sink.Push(q.PL, q.TS)
				}
				w.Sleep(ms, "packet")
			}
			for k := 0; k < ring+1; k++ {
				pl.AddSegment(5, 1000)
				_ = pl.String()
			}
			// A whole unit to end with.
			sink.Push([]byte{0x65, 1, 2, 3}, uint32(i))
			sink.Push([]byte{0x7c, 0x85, 1, 2, 3}, uint32(i))
			sink.Push([]byte{0x7c, 0x45, 1, 2, 3}, uint32(i))
			sink.Push([]byte{0x65, 1, 2, 3}, uint32(i))
			w.Sleep(ms, "round")
			hs = append(hs, r.held(sink, pl))
		}
	})
	for i := 0; i < 50 && !done && !w.Stopped(); i++ {
		w.RunFor(10 * sec)
	}
	if w.Stopped() {
		return
	}
	r.NonTriv = len(hs) >= 30
	w.Counts["work.rounds"] += int64(len(hs))
	r.grown(hs, "the media path")
}
