package main

import (
	"fmt"
	"sort"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C08", Title: "Concurrent commands do not interfere", Quick: 80000, Thorough: 3000000, Run: runC08,
		Rule: "A run counts as non-trivial if commands of at least two tasks overlapped in time.", Real: realRTSP, Stub: stubRTSP})
}

func runC08(r *Run) {
	cfg := r.Sched(simrt.Pick(r.D, 0, 50*ms, 300*ms), false)
	cfg.Limit = 2000 * sec
	if cfg.PreemptPct == 0 && r.D.Chance(2, 3) {
		cfg.PreemptPct, cfg.PreemptSpan = simrt.Pick(r.D, 30, 80), simrt.Pick(r.D, 20, 60)
	}
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{FailPct: map[string]int{}}
	info := ""
	if d.Chance(1, 2) {
		cr := creds[d.Intn(3)]
		info = cr.info
		drawAuth(d, &cc.Auth, cr.user, cr.pass)
		if d.Chance(2, 3) {
			cc.Auth.RotateUses = d.Range(4, 12)
		}
		if d.Chance(1, 3) {
			cc.Auth.AskVerb = map[string]bool{"PLAY": true, "PAUSE": true, "TEARDOWN": true}
		}
	}
	for _, v := range []string{"PLAY", "PAUSE", "OPTIONS"} {
		if d.Chance(1, 4) {
			cc.FailPct[v] = 30
		}
	}
	proto := rtsp.ProtoTCP
	if d.Chance(1, 3) {
		proto, cc.UDP = rtsp.ProtoUnicast, true
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 200 * ms, maxVideo: 2, shortIO: true, ansDelay: true})
	cam.C.AnsDelay = simrt.Pick(d, 0, 0, 50*ms, 400*ms)
	if d.Chance(1, 3) {
		cam.C.ReplPct = 20
	}
	app := NewApp(w, "app")
	app.StageLag = simrt.Pick(d, 0, 0, 100*ms)
	tasks := d.Range(2, 4)
	finish := d.Chance(1, 2)
	media := proto == rtsp.ProtoTCP && d.Chance(1, 3)
	end := false
	left := tasks
	r.Desc = fmt.Sprintf("%d tasks auth %q uses %d proto %d window %v", tasks, cc.Auth.Mode, cc.Auth.RotateUses, proto, cam.L.ShortWr)
	body := func() {
		n := d.Range(1, 4)
		for i := 0; i < n; i++ {
			before := len(app.Stages)
			app.Cmd(simrt.Pick(d, "PLAY", "PAUSE", "OPTIONS", "PLAY"))
			switch d.Intn(4) {
			case 0:
				app.Wait(func() bool { return len(app.Stages) > before }, 5*sec)
			case 1:
				app.Sleep(int64(d.Intn(6)) * 400 * ms)
			}
		}
		left--
	}
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(info), proto) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 120*sec) != nil {
			return
		}
		c := cam.Conn()
		if media {
			budget := 20000
			pump(r, c, []byte{0, 1}, 15, &budget, 500*ms, func() bool { return end })
		}
		for t := 1; t < tasks; t++ {
			w.Spawn(fmt.Sprintf("app%d", t), false, body)
		}
		body()
		for i := 0; i < 120 && left > 0; i++ {
			app.Sleep(sec)
		}
		app.Sleep(20 * sec)
		if finish {
			app.Cmd("TEARDOWN")
		}
		end = true
	})
	w.RunFor(100 * sec)
	for i := 0; i < 10 && !end && !w.Stopped(); i++ {
		w.RunFor(30 * sec)
	}
	w.RunFor(60 * sec)
	if w.Stopped() {
		return
	}
	c := cam.Conn()
	if c == nil || app.HasStage(rtsp.StageReady) == 0 {
		return // C01 and C06 judge the opening
	}
	if !checkWhole(r, c, app, false) {
		return
	}
	checkConcurrent(r, c, app)
}

// checkConcurrent judges the commands several tasks issued on one session.
func checkConcurrent(r *Run, c *CamConn, app *App) {
	for i, a := range app.Cmds {
		for _, b := range app.Cmds[i+1:] {
			if b.Seq0 < a.Seq1 {
				r.NonTriv = true
			}
		}
	}
	times, chal := map[int]int{}, map[int]int{}
	ended := false
	for _, q := range c.Reqs {
		times[q.CSeq]++
		for _, a := range q.Answers {
			if a.Code == 401 {
				chal[q.CSeq]++
			}
		}
	}
	var nums []int
	for n := range times {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	for _, n := range nums {
		if times[n] > 1+chal[n] {
			r.Violate("cseq-reused", "CSeq %d was sent %d times, challenged %d times", n, times[n], chal[n])
			return
		}
	}
	for _, n := range chal {
		ended = ended || n > 4 // so often challenged, a session may give up (C06)
	}
	for _, s := range app.Stages {
		ended = ended || s.Stage == rtsp.StageDone
	}
	for _, cmd := range app.Cmds {
		if !cmd.Done {
			r.Violate("command-hangs", "%s issued at %s has not returned", cmd.Verb, fmtDur(cmd.T0))
			return
		}
		if cmd.Err != nil && !ended {
			r.Violate("command-fails", "%s failed with %v on a healthy connection", cmd.Verb, cmd.Err)
			return
		}
	}
	need, got := map[string]int{}, map[string]int{}
	for _, cmd := range app.Cmds {
		if cmd.Err == nil {
			need[cmd.Verb]++
		}
	}
	for _, q := range firstSends(c) {
		got[q.Verb]++
	}
	for _, v := range []string{"PLAY", "PAUSE", "OPTIONS", "TEARDOWN"} {
		if got[v] < need[v] || (v != "OPTIONS" && got[v] > need[v]) {
			r.Violate("command-lost", "%d %s commands were issued, %d arrived at the camera", need[v], v, got[v])
			return
		}
	}
	// Every challenge was answered by a repetition.
	if c.Cam.C.Auth.Mode != "" {
		fine := map[int]bool{}
		for _, q := range c.Reqs {
			fine[q.CSeq] = fine[q.CSeq] || q.AuthOK || len(q.Answers) == 0
			for _, a := range q.Answers {
				// Still being repeated when the run ended.
				fine[q.CSeq] = fine[q.CSeq] || a.T > r.W.Now()-10*sec
			}
		}
		for _, n := range nums {
			if !fine[n] && !ended {
				r.Violate("request-lost", "the request with CSeq %d was challenged and never came through", n)
				return
			}
		}
	}
	if a := app.Altered(); a != "" {
		r.Violate("packet-altered", "%s", a)
		return
	}
	checkStages(r, c, app, true)
}
