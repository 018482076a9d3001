package main

import (
	"flag"
	"fmt"
	"log"
	"os"

	"github.com/aboukirev/ouro/cmd/ouro"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C17", Title: "The command-line client runs its session to the end", Quick: 60000, Thorough: 3000000, Run: runC17,
		Rule: "A run counts as non-trivial if the program got as far as PLAY.",
		Real: "cmd/ouro, net/rtsp, net/sdp, net/h264, net/rtp, net/rtcp: the current source of /repo, instrumented",
		Stub: "simulated: scheduler, clock, timers, network, name resolution, camera"})
}

func runC17(r *Run) {
	cfg := r.Sched(100*ms, false)
	cfg.Limit = 20000 * sec
	w := r.World(cfg)
	d := r.D
	mode := d.Weighted(10, 6, 4, 3) // conforming camera, hostile camera, connection lost, requests refused or not answered
	cc := CamCfg{}
	info := ""
	if d.Chance(1, 4) {
		drawAuth(d, &cc.Auth, "u", "p")
		info = "u:p"
	}
	if d.Chance(1, 6) {
		cc.StrayPct = 10
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 500 * ms, stalls: true, maxVideo: 3, audio: true, refuse: true, shortIO: true, ansDelay: true})
	var chans []byte
	for i := range cam.C.Medias {
		chans = append(chans, byte(2*i), byte(2*i+1))
	}
	if d.Chance(1, 4) {
		chans = append(chans, 254, 255)
	}
	s := drawStreamE(d, "s", d.Range(1, 20), true, d.Chance(1, 2))
	badPct := simrt.Pick(d, 0, 10, 50)
	gap := simrt.Pick(d, 5*ms, 200*ms, 2*sec)
	early := d.Chance(1, 6)
	closeAfter := d.Intn(4) // after TEARDOWN: 0 the camera closes
	nPkt := d.Range(0, 120)
	if gap > 1*sec {
		nPkt = d.Range(0, 40)
	}
	r.Desc = fmt.Sprintf("mode %d, %d packets, %d%% bad", mode, nPkt, badPct)
	for k := d.Intn(3); k > 0 && d.Chance(1, 4); k-- {
		w.At(int64(d.Intn(30))*sec, func() {
			w.Count("fault.wall_clock_jump")
			w.JumpWall(simrt.Pick(d, -3600*sec, 3600*sec, -10*sec, 10*sec))
		})
	}
	// media keeps coming until the session is torn down.
	started := false
	start := func(c *CamConn) {
		if started {
			return
		}
		started = true
		k := 0
		var step func()
		step = func() {
			for n := 1 + d.Weighted(6, 2, 1)*3; n > 0 && nPkt > 0; n-- {
				nPkt--
				p := s.pkts[k%len(s.pkts)]
				k++
				if d.Chance(1, 8) {
					p = drawRTCP(d, s.ssrc)
				}
				ch := chans[0] // RTP
				if p.kind == "RTCP" {
					ch = chans[1]
				}
				if d.Chance(badPct, 100) {
					w.Count("fault.undecodable_packet")
					p = forge(d, s, p)
					if d.Chance(1, 3) {
						ch = chans[d.Intn(len(chans))]
					}
				}
				c.SendPkt(ch, p.raw)
			}
			if nPkt > 0 && !c.Closed && !c.TornDown {
				w.At(int64(d.Intn(8))*gap/7, step)
			}
		}
		w.At(int64(d.Intn(4))*gap/3, step)
	}
	end := func(c *CamConn) {
		if c.Closed {
			return
		}
		if d.Chance(1, 2) {
			c.Reset()
		} else {
			c.Close()
		}
	}
	lostAt, lost := -1, int64(-1)
	if mode == 2 {
		if d.Chance(1, 2) {
			lostAt = d.Intn(8)
		} else {
			t := int64(d.Intn(200)) * 100 * ms
			w.At(t, func() {
				if c := cam.Conn(); c != nil {
					end(c)
					lost = w.Now()
				} else {
					lostAt = d.Intn(6)
				}
			})
		}
	}
	cam.Hook = func(c *CamConn, q *Req) bool {
		if q.Verb == "PLAY" || (early && q.Verb == "SETUP") {
			start(c)
		}
		if mode == 2 && q.Idx == lostAt {
			end(c)
			lost = w.Now()
			return true
		}
		if q.Verb == "TEARDOWN" && closeAfter == 0 && mode == 0 {
			w.At(cam.C.AnsDelay+int64(d.Intn(4))*100*ms, func() {
				if len(c.Ans) > 0 && c.Ans[len(c.Ans)-1].Verb == "TEARDOWN" {
					c.Close()
				}
			})
		}
		return false
	}
	if mode == 3 {
		switch v := simrt.Pick(d, "OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN"); d.Intn(3) {
		case 0:
			cam.C.NoAnswer = map[string]bool{v: true}
			w.Count("fault.request_never_answered")
		case 1:
			if v == "OPTIONS" || v == "SETUP" {
				v = "PLAY"
			}
			cam.C.FailPct = map[string]int{v: 100}
		case 2:
			for _, m := range cam.C.Medias {
				m.Video = false
			}
			w.Count("fault.no_video")
		}
	}
	if mode == 1 {
		pct := simrt.Pick(d, 5, 20, 60)
		cam.OnReq = func(c *CamConn, q *Req) {
			if c.Mangle == nil {
				c.Mangle = func(b []byte, a *Ans) ([]byte, bool) {
					if !d.Chance(pct, 100) {
						return nil, false
					}
					w.Count("fault.hostile_bytes")
					switch {
					case d.Chance(1, 4):
						return append(garbage(d), b...), true
					case a != nil:
						return badAnswer(d, cam, b, a), true
					}
					return flipBytes(d, b), true
				}
			}
		}
	}
	os.Args = []string{"ouro", cam.URL(info)}
	flag.CommandLine = flag.NewFlagSet("ouro", flag.ContinueOnError)
	log.SetFlags(0)
	w.Main("ouro", ouroapp.Main)
	limit := 1500 * sec
	w.RunFor(limit)
	if w.Fail != nil {
		return
	}
	c := cam.Conn()
	if c == nil {
		return
	}
	got := ""
	var first, last [3]*Req
	if mode != 1 {
		for _, q := range firstSends(c) {
			for i, v := range []string{"PLAY", "PAUSE", "TEARDOWN"} {
				if q.Verb == v {
					got += v + " "
					if first[i] == nil {
						first[i] = q
					}
					last[i] = q
					r.NonTriv = true
				}
			}
		}
	} else {
		r.NonTriv = c.BadSent
	}
	switch mode {
	case 0:
		if got != "PLAY PAUSE TEARDOWN " {
			r.Violate("sequence", "the camera got %q instead of PLAY PAUSE TEARDOWN (program exited: %v, code %d)", got, w.Exited, w.ExitCode)
			return
		}
		for i := 0; i < 2; i++ {
			// From the answer to one command to the next command.
			t := int64(-1)
			for _, a := range c.Ans {
				if a.Code == 200 && !a.Stray && a.Verb == last[i].Verb {
					t = a.T
				}
			}
			if t < 0 || first[i+1].T-t < 1*sec {
				r.Violate("too-soon", "%s came %s after %s was answered", first[i+1].Verb, fmtDur(first[i+1].T-t), last[i].Verb)
				return
			}
			if first[i+1].T-t > 300*sec {
				r.Violate("too-late", "%s came %s after %s was answered", first[i+1].Verb, fmtDur(first[i+1].T-t), last[i].Verb)
				return
			}
		}
		r.Ok(w.Exited, "no-exit", "the program has not exited %s after it was started; it sent %q", fmtDur(limit), got)
	case 3:
		r.Ok(w.Exited, "no-exit", "the program has not exited although the camera refused or did not answer; it sent %q", got)
	case 2:
		if lost >= 0 && !w.Exited {
			r.Violate("no-exit", "the program has not exited although the connection was lost at %s", fmtDur(lost))
		}
	}
}
