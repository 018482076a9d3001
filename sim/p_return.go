package main

import (
	"fmt"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C20", Title: "Commands always return", Quick: 100000, Thorough: 5000000, Run: runC20,
		Rule: "A run counts as non-trivial if at least 4 commands were issued while the camera or the application did not read.", Real: realRTSP, Stub: stubRTSP})
}

func runC20(r *Run) {
	cfg := r.Sched(50*ms, false)
	cfg.Limit = 4000 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{FailPct: map[string]int{}}
	info := ""
	if d.Chance(1, 3) {
		cr := creds[d.Intn(len(creds))]
		info = cr.info
		drawAuth(d, &cc.Auth, cr.user, cr.pass)
		if d.Chance(1, 2) {
			cc.Auth.RotateUses = d.Range(4, 12)
		}
	}
	proto := rtsp.ProtoTCP
	if d.Chance(1, 3) {
		proto, cc.UDP = rtsp.ProtoUnicast, true
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 200 * ms, stalls: true, maxVideo: 3, shortIO: true, ansDelay: true})
	cam.L.Window = simrt.Pick(d, 0, 1, 100, 300, 700, 4000)
	// What goes wrong, after how many requests, and for how long.
	const (
		deaf   = 1 << iota // the camera reads no more
		mute               // it answers no more
		flood              // it sends packets without end
		noData             // the application receives no packets
		noStg              // or no stages
	)
	bad := 0
	for _, f := range []int{deaf, mute, flood, noData, noStg} {
		if d.Chance(1, 3) {
			bad |= f
		}
	}
	if bad == 0 {
		bad = simrt.Pick(d, deaf, noStg, flood|noData)
	}
	from := d.Intn(8)
	span := simrt.Pick(d, 3*sec, 20*sec, 1000*sec)
	tasks := 1 + d.Intn(5)
	per := d.Range(1, 8)
	app := NewApp(w, "app")
	app.Neglect = true // receiving is done here
	r.Desc = fmt.Sprintf("trouble %05b after request %d for %s, %d tasks of %d commands, window %d, proto %d, auth %q", bad, from, fmtDur(span), tasks, per, cam.L.Window, proto, cc.Auth.Mode)
	trouble := false
	var gate simrt.WaitQ
	pass := func(f int) {
		for trouble && bad&f != 0 {
			w.Count("fault.application_not_receiving")
			gate.Wait(w, "not receiving")
		}
	}
	end := false
	start := func(c *CamConn) {
		trouble = true
		if bad&deaf != 0 {
			w.Count("fault.camera_stops_reading")
			c.C.HoldReads(true)
		}
		if bad&mute != 0 {
			w.Count("fault.camera_mute")
			cam.C.NoAnswer = map[string]bool{}
			for v := range verbs {
				cam.C.NoAnswer[v] = true
			}
		}
		if bad&flood != 0 && proto == rtsp.ProtoTCP {
			budget := 100000
			pump(r, c, []byte{0, 1}, 60, &budget, 300*ms, func() bool { return end })
		}
		w.At(span, func() {
			trouble = false
			cam.C.NoAnswer = nil
			if !c.Closed && bad&deaf != 0 {
				c.C.HoldReads(false)
			}
			gate.Wake(w)
		})
	}
	begun := false
	cam.Hook = func(c *CamConn, q *Req) bool {
		if !begun && q.Idx >= from {
			begun = true
			w.At(0, func() { start(c) })
		}
		return false
	}
	left := tasks
	in := 0 // commands issued in times of trouble
	body := func() {
		for i := 0; i < per; i++ {
			if trouble {
				in++
			}
			app.Cmd(simrt.Pick(d, "PLAY", "PAUSE", "OPTIONS", "DESCRIBE", "TEARDOWN"))
			app.Sleep(int64(d.Intn(6)) * simrt.Pick(d, 0, 100*ms, 2*sec))
		}
		left--
	}
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(info), proto) != nil {
			left = 0
			return
		}
		s, ch := app.S.State, app.S.Data
		w.Spawn("app-stages", false, func() {
			for {
				pass(noStg)
				app.gotStage(simrt.Recv(s))
			}
		})
		w.Spawn("app-data", false, func() {
			for {
				pass(noData)
				app.gotPkt(simrt.Recv(ch))
			}
		})
		app.Wait(func() bool { return trouble || app.HasStage(rtsp.StageReady) > 0 }, 30*sec)
		for t := 1; t < tasks; t++ {
			w.Spawn(fmt.Sprintf("app%d", t), false, body)
		}
		body()
	})
	// Writers queue up: each may need its own 2 s, and one is the library.
	limit := int64(tasks+2)*2*sec + 2*sec
	for i := 0; i < 120 && left > 0 && !w.Stopped(); i++ {
		w.RunFor(5 * sec)
		for _, cmd := range app.Cmds {
			if t := cmd.T1; !cmd.Done && w.Now()-cmd.T0 > limit || cmd.Done && t-cmd.T0 > limit {
				if !cmd.Done {
					t = w.Now()
				}
				r.Violate("command-hangs", "%s, issued at %s, has taken %s; %d tasks issue commands", cmd.Verb, fmtDur(cmd.T0), fmtDur(t-cmd.T0), tasks)
				return
			}
		}
	}
	end = true
	if w.Stopped() {
		return
	}
	r.NonTriv = in >= 4
	w.Counts["work.commands"] += int64(len(app.Cmds))
	if o := app.OpenC; o != nil && (!o.Done || o.T1-o.T0 > 20*sec) {
		r.Violate("open-hangs", "Open has taken over 20 s")
		return
	}
	r.Ok(left == 0, "command-hangs", "%d of %d tasks have not got through their commands", left, tasks)
	for _, cmd := range app.Cmds {
		w.Max("max.command_ms", (cmd.T1-cmd.T0)/ms)
	}
}
