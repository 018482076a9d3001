package main

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"strings"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C06", Title: "Right credentials always get through", Quick: 100000, Thorough: 5000000, Run: runC06,
		Rule: "A run counts as non-trivial if the camera challenged and then accepted at least 3 requests.", Real: realRTSP, Stub: stubRTSP})
	register(&Prop{ID: "C07", Title: "Credentials are contained and refusals bounded", Quick: 150000, Thorough: 6000000, Run: runC07,
		Rule: "A run counts as non-trivial if the camera refused at least one request.", Real: realRTSP, Stub: stubRTSP})
}

type cred struct{ user, pass, info string }

var creds = []cred{
	{"u", "p", "u:p"},
	{"admin", "s3cret-Pw", "admin:s3cret-Pw"},
	{"us er", "p@ss:w/d%", "us%20er:p%40ss%3Aw%2Fd%25"},
	{"a.b@c", "?#[]!$&'()*+,;=", "a.b%40c:%3F%23%5B%5D!$&'()*+,;="},
	{"root", "", "root:"},
	{"root", "", "root"},
	{"admin", "p\"q\\r", "admin:p%22q%5Cr"},
	{"w\"x\\y", "p", "w%22x%5Cy:p"},
	{"x=y,z", "pä$s", "x=y,z:p%C3%A4$s"},
	{"Admin", ":", "Admin::"},
}

// drawCred draws a user name and a password out of all that can be typed.
func drawCred(d *simrt.Decider) (c cred) {
	word := func(max int, not string) (s string) {
		for n := d.Range(1, max); n > 0; n-- {
			r := rune(d.Range(' ', '~'))
			if d.Chance(1, 6) {
				r = simrt.Pick(d, 'é', 'ß', 'ø', 'ÿ', '€', '中', '?', '>', '~')
			}
			if !strings.ContainsRune(not, r) {
				s += string(r)
			}
		}
		return
	}
	c.user, c.pass = "u"+word(20, ":"), word(simrt.Pick(d, 8, 60), "")
	esc := func(s string) (o string) {
		for i := 0; i < len(s); i++ {
			if c := s[i]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
				o += string(rune(c))
			} else {
				o += fmt.Sprintf("%%%02X", c)
			}
		}
		return
	}
	c.info = esc(c.user) + ":" + esc(c.pass)
	return
}

// setNonceLife draws how long the camera's nonces live.
func setNonceLife(d *simrt.Decider, a *Auth) {
	switch d.Weighted(3, 3, 2, 1) {
	case 1:
		a.RotateUses = d.Range(3, 9)
	case 2:
		a.RotateTime = simrt.Pick(d, 4*sec, 7*sec, 20*sec, 90*sec)
	case 3:
		a.RotateUses, a.RotateTime = d.Range(3, 9), 10*sec
	}
	a.FreshEach = d.Chance(1, 4)
}

func runC06(r *Run) {
	cfg := r.Sched(100*ms, false)
	cfg.Limit = 2000 * sec
	// A storm of commands from several tasks, most of them challenged.
	storm := r.D.Chance(1, 8)
	if storm {
		cfg.PreemptPct, cfg.PreemptSpan = simrt.Pick(r.D, 50, 100), simrt.Pick(r.D, 20, 80)
	}
	w := r.World(cfg)
	d := r.D
	cr := creds[d.Intn(len(creds))]
	if d.Chance(1, 4) {
		cr = drawCred(d)
	}
	cc := CamCfg{}
	drawAuth(d, &cc.Auth, cr.user, cr.pass)
	setNonceLife(d, &cc.Auth)
	if storm {
		cc.Auth.Mode, cc.Auth.RotateUses, cc.Auth.RotateTime, cc.Auth.FreshEach = "digest", 0, 0, false
		if cc.Auth.Qop == "" {
			cc.Auth.Qop = "auth"
		}
		cc.Auth.AskVerb = map[string]bool{"PLAY": true, "PAUSE": true, "TEARDOWN": true}
	}
	switch d.Weighted(5, 1, 1, 1) {
	case 1:
		cc.Auth.AskVerb = map[string]bool{"DESCRIBE": true, "SETUP": true, "PLAY": true, "PAUSE": true, "TEARDOWN": true}
	case 2:
		cc.Auth.AskVerb = map[string]bool{"PLAY": true, "PAUSE": true, "TEARDOWN": true}
	case 3:
		if !storm {
			cc.Auth.AskVerb = map[string]bool{"SETUP": true}
		}
	}
	proto := rtsp.ProtoTCP
	if d.Chance(1, 3) {
		proto, cc.UDP = rtsp.ProtoUnicast, true
	}
	tasks := 1
	if d.Chance(1, 4) {
		tasks = 2
	}
	if storm {
		tasks = d.Range(2, 4)
	}
	cc.Auth.StrictNC = true
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 200 * ms, maxVideo: 3, shortIO: true, absCtl: true})
	cam.C.AnsDelay = simrt.Pick(d, 0, 0, 50*ms, 400*ms)
	// The challenge may change its kind in the middle of the session.
	if !storm && d.Chance(1, 6) {
		w.At(int64(d.Intn(40))*sec/2, func() {
			a := &cam.C.Auth
			old := *a
			drawAuth(d, a, cr.user, cr.pass)
			a.RotateUses, a.RotateTime, a.AskVerb, a.StrictNC, a.FreshEach = old.RotateUses, old.RotateTime, old.AskVerb, old.StrictNC, old.FreshEach
			for _, st := range cam.nonces {
				st.stale = true
			}
			cam.curN = ""
			cam.AuthGen++
			w.Count("fault.challenge_kind_changed")
		})
	}
	app := NewApp(w, "app")
	app.StageLag = simrt.Pick(d, 0, 0, 200*ms)
	app.Drained = func() bool {
		if cam.C.Auth.RotateUses == 0 || cam.C.Auth.RotateUses > 20 {
			return true
		}
		// With more under way than a few nonces are good for, some
		// requests would be challenged more often than any client takes.
		open := map[int]bool{}
		c := cam.Conn()
		if c.Sock.SentBytes != c.off+int64(len(c.buf)) {
			return false
		}
		for _, q := range c.Reqs {
			open[q.CSeq] = len(q.Answers) == 0 || q.Answers[0].Code == 401
		}
		for _, o := range open {
			if o {
				return false
			}
		}
		return true
	}
	r.Desc = fmt.Sprintf("auth %s qop %q alg %q, user %q, uses %d, time %s, proto %d, %d tasks", cc.Auth.Mode, cc.Auth.Qop, cc.Auth.Algorithm, cr.user,
		cc.Auth.RotateUses, fmtDur(cc.Auth.RotateTime), proto, tasks)
	long := false
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(cr.info), proto) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 120*sec) != nil {
			return
		}
		left := tasks
		for t := 0; t < tasks; t++ {
			gap := simrt.Pick(d, 0, 500*ms, 7*sec, 30*sec)
			body := func() {
				n := d.Range(1, 6)
				if storm {
					drawCommands(d, app, d.Range(2, 12), simrt.Pick(d, 0, 100*ms), 10, "PLAY", "PAUSE", "PLAY")
					left--
					return
				}
				if gap <= 500*ms && d.Chance(1, 3) {
					n = d.Range(10, 40)
					if cam.C.Auth.RotateUses > 0 {
						// No request is challenged more than a handful of times.
						cam.C.Auth.RotateUses = max(cam.C.Auth.RotateUses, 42)
					}
				}
				if a := &cam.C.Auth; gap == 0 && t == 0 && a.Qop != "" && a.RotateUses == 0 && a.RotateTime == 0 && !a.FreshEach && d.Chance(1, 8) {
					// One nonce is used hundreds of times.
					w.Count("work.nonce_used_long")
					long = true
					drawCommands(d, app, d.Range(245, 300), 0, 100, "PLAY", "PAUSE")
				}
				drawCommands(d, app, n, gap, 80, "PLAY", "PAUSE", "OPTIONS", "PLAY")
				left--
			}
			if t == tasks-1 {
				body()
			} else {
				w.Spawn("app2", false, body)
			}
		}
		for i := 0; i < 300 && left > 0; i++ {
			app.Sleep(sec)
		}
		if left > 0 {
			return
		}
		app.Sleep(int64(d.Intn(10)) * sec)
		app.Cmd("TEARDOWN")
	})
	w.RunFor(600 * sec)
	if long {
		w.RunFor(900 * sec)
	}
	if w.Stopped() {
		return
	}
	c := cam.Conn()
	if c == nil {
		r.Violate("no-connection", "no connection was made")
		return
	}
	checkAuthed(r, cam, c, app, true)
}

// checkAuthed judges the authentication of a whole connection whose user has
// the right credentials.
func checkAuthed(r *Run, cam *Camera, c *CamConn, app *App, lib bool) {
	w := r.W
	if c.Malformed != "" {
		return
	}
	if len(c.Probs) > 0 {
		r.Violate("auth-wrong", "%s", c.Probs[0])
		return
	}
	var chals []*Ans
	for _, a := range c.Ans {
		if a.Code == 401 {
			chals = append(chals, a)
		}
	}
	ord := map[string]int{}
	for i, a := range chals {
		ord[a.Nonce] = i // the last time, if challenged with again
	}
	first := map[int]*Req{}
	okReq := map[int]bool{}
	accepted := 0
	last := map[int]*Req{}
	for _, q := range c.Reqs {
		f := first[q.CSeq]
		if f == nil {
			first[q.CSeq] = q
		}
		last[q.CSeq] = q
		if q.AuthOK {
			okReq[q.CSeq] = true
			accepted++
		}
		v, has := q.Get("Authorization")
		// The latest challenge the client has certainly taken in when this
		// request was put together.
		var known *Ans
		for _, a := range chals {
			if a.Seq < q.IssueSq && (q.IssueT >= a.Read() || (f != nil && a.Req.CSeq == q.CSeq)) {
				known = a
			}
		}
		if known == nil {
			continue
		}
		if !has {
			r.Violate("auth-missing", "%s with CSeq %d, issued %s after a challenge had been sent, carries no Authorization", q.Verb, q.CSeq, fmtDur(q.IssueT-known.T))
			return
		}
		if known.Basic && strings.HasPrefix(v, "Basic ") {
			continue
		}
		if strings.HasPrefix(v, "Digest ") != (known.Nonce != "") {
			// The kind changed later on.
			newer := false
			for _, a := range chals {
				newer = newer || (a.Seq > known.Seq && a.Seq < q.IssueSq)
			}
			if !newer {
				r.Violate("auth-outdated", "%s with CSeq %d does not answer the latest challenge: %s", q.Verb, q.CSeq, v)
				return
			}
			continue
		}
		if p, ok := parseParams(strings.TrimPrefix(v, "Digest ")); known.Nonce != "" && ok {
			if o, given := ord[p["nonce"]]; !given || chals[o].Seq < known.Seq {
				r.Violate("auth-outdated", "%s with CSeq %d, issued %s after the challenge with nonce %s, uses nonce %s", q.Verb, q.CSeq, fmtDur(q.IssueT-known.T), known.Nonce, p["nonce"])
				return
			}
		}
	}
	if lib {
		r.NonTriv = len(chals) > 0 && accepted >= 3
	}
	// Every request got through, but for those challenged after the end.
	end := uint64(1 << 63)
	for _, a := range c.Ans {
		if a.Verb == "TEARDOWN" && a.Code == 200 {
			end = min(end, a.Seq)
		}
	}
	for _, q := range firstSends(c) {
		if !okReq[q.CSeq] {
			l := last[q.CSeq]
			if len(l.Answers) == 0 {
				continue // still unanswered
			}
			if l.Answers[0].Seq > end || w.Now()-l.Answers[0].T < 10*sec {
				continue // challenged at the end
			}
			r.Violate("auth-lost", "%s with CSeq %d was never repeated with an acceptable answer (last judged %q)", q.Verb, q.CSeq, l.AuthNote)
			return
		}
	}
	if app.HasStage(rtsp.StageReady) == 0 {
		r.Violate("auth-stuck", "Ready has not been reached after %s; stages %q, camera got %q", fmtDur(w.Now()), app.stageList(), verbList(c.Reqs))
		return
	}
	for _, cmd := range app.Cmds {
		if cmd.Err != nil {
			r.Violate("auth-ended", "%s failed with %v", cmd.Verb, cmd.Err)
			return
		}
	}
	need, got := map[string]int{}, map[string]int{}
	for _, cmd := range app.Cmds {
		if cmd.Err == nil && cmd.Done && cmd.Verb != "OPTIONS" && cmd.Verb != "DESCRIBE" {
			need[cmd.Verb]++
		}
	}
	for _, q := range firstSends(c) {
		got[q.Verb]++
	}
	for _, v := range []string{"PLAY", "PAUSE", "TEARDOWN"} {
		if got[v] < need[v] {
			r.Violate("auth-lost", "%d %s commands were issued, %d arrived", need[v], v, got[v])
			return
		}
	}
	checkStages(r, c, app, true)
}

func runC07(r *Run) {
	cfg := r.Sched(300*ms, false)
	cfg.Limit = 2000 * sec
	w := r.World(cfg)
	d := r.D
	cc := CamCfg{FailPct: map[string]int{}}
	cr := cred{}
	info := ""
	kind := d.Weighted(3, 2, 3, 2, 1)
	drawAuth(d, &cc.Auth, "other", "unknown")
	setNonceLife(d, &cc.Auth)
	if kind != 1 {
		cr = simrt.Pick(d, cred{"operator", "Tr0ub4dor", "operator:Tr0ub4dor"}, cred{"opera tor", "p@ss:w/rd%", "opera%20tor:p%40ss%3Aw%2Frd%25"},
			cred{"operator", "", "operator"}, cred{"operator", "", "operator:"})
		info = cr.info
	}
	switch kind {
	case 2: // a kind of challenge that is not supported, or nonsense
		cc.Auth.Raw = simrt.Pick(d,
			"Digest realm=\"r\", nonce=\"abc\", algorithm=SHA-256, qop=\"auth\"",
			"Negotiate", "NTLM TlRMTVNTUAACAAAA", "Bearer realm=\"r\"", " ", "Digest", "Digest ", "Basic", "Basic ",
			"Digest nonce=\"x\"", "Digest realm=r nonce=x", "Digest realm=\"r", "Digest realm=\"r\\\", nonce=\"x\"", "digest realm=\"r\", nonce=\"x\"",
			"Digest ,,,=,\"=\"", "Digest realm=\"r\", nonce=\"n\", qop=\"\"", "Digest realm=\"r\", nonce=\"n\", qop=\"token\"", "Digest qop=,", "Digest =x,nonce=n",
			"Digest realm=\"r\", nonce=\"n\", algorithm=MD5-sess", "Basic realm=\"r\"", "Digest realm=\"r\", nonce=\"n\"", "Basic realm=\"a\", Digest realm=\"r\", nonce=\"n\"")
	case 3: // right credentials, refused all the same
		cc.Auth.User, cc.Auth.Pass = cr.user, cr.pass
		cc.Auth.Always = true
	case 4: // the right password for a while, then no longer
		cc.Auth.User, cc.Auth.Pass = cr.user, cr.pass
	}
	cc.Auth.RefuseN = simrt.Pick(d, 0, 0, 1, 2, 3, 6)
	switch d.Weighted(4, 1, 2, 1) {
	case 1:
		cc.Auth.AskVerb = map[string]bool{"DESCRIBE": true, "SETUP": true, "PLAY": true, "PAUSE": true, "TEARDOWN": true}
	case 2:
		cc.Auth.AskVerb = map[string]bool{"PLAY": true, "PAUSE": true, "TEARDOWN": true}
	case 3:
		cc.Auth.AskVerb = map[string]bool{simrt.Pick(d, "SETUP", "DESCRIBE", "OPTIONS", "TEARDOWN"): true}
	}
	cc.Auth.StaleAll = d.Chance(1, 4)
	proto := rtsp.ProtoTCP
	if d.Chance(1, 3) {
		proto, cc.UDP = rtsp.ProtoUnicast, true
	}
	if d.Chance(1, 4) {
		cc.FailPct["PLAY"] = 30
	}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 1 * sec, stalls: true, maxVideo: 3, shortIO: true, ansDelay: true})
	if kind == 4 {
		w.At(int64(d.Intn(40))*sec/2, func() {
			cam.C.Auth.Pass = "changed"
			w.Count("fault.password_changed")
		})
	}
	sends := map[int]int{}
	cam.OnReq = func(c *CamConn, q *Req) {
		if sends[q.CSeq]++; sends[q.CSeq] > 8 {
			r.Violate("auth-loop", "%s with CSeq %d was sent more than 8 times", q.Verb, q.CSeq)
		}
	}
	app := NewApp(w, "app")
	r.Desc = fmt.Sprintf("kind %d auth %s raw %q always %v fresh %v refuse %d proto %d", kind, cc.Auth.Mode, cc.Auth.Raw, cc.Auth.Always, cc.Auth.FreshEach, cc.Auth.RefuseN, proto)
	cmds := 0
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(info), proto) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 120*sec) != nil {
			app.Cmd("PLAY")
			app.Sleep(sec)
			app.Cmd("TEARDOWN")
			return
		}
		for i, n := 0, d.Range(1, 6); i < n; i++ {
			v := simrt.Pick(d, "PLAY", "PAUSE", "OPTIONS", "PLAY")
			if i == n-1 {
				v = "TEARDOWN"
			}
			app.Cmd(v)
			cmds++
			app.Sleep(int64(d.Intn(8)) * sec)
		}
	})
	w.RunFor(400 * sec)
	c := cam.Conn()
	if w.Stopped() || c == nil {
		return
	}
	n400 := len(c.Reqs)
	w.RunFor(100 * sec)
	if w.Stopped() || c.Malformed != "" {
		return
	}
	checkContained(r, c, cr)
	if w.Fail != nil {
		return
	}
	seenC := uint64(1 << 63)
	for _, a := range c.Ans {
		if a.Code == 401 {
			seenC = min(seenC, a.Seq)
			r.NonTriv = true
		}
	}
	// Nor may a refused request come back under other numbers.
	other := 0
	for _, q := range firstSends(c) {
		if q.Verb != "OPTIONS" || proto == rtsp.ProtoTCP {
			other++
		}
	}
	limit := 2 + len(cam.Videos()) + len(app.Cmds)
	if other > limit {
		r.Violate("auth-loop", "%d different requests were sent; opening and %d commands make at most %d", other, len(app.Cmds), limit)
		return
	}
	if proto == rtsp.ProtoTCP && len(c.Reqs) > n400 {
		r.Violate("auth-loop", "%d requests were sent between 400 s and 500 s although the last command was long before", len(c.Reqs)-n400)
		return
	}
	// No stage for a refused request.
	if len(app.Stages) > 0 && app.Stages[0].Stage != rtsp.StageReady {
		r.Violate("stage-wrong", "the first stage told is %q", app.stageList())
		return
	}
	setup := false
	for _, a := range c.Ans {
		if a.Verb == "SETUP" && a.Code == 200 {
			setup = true
		}
	}
	if len(app.Stages) > 0 && !setup {
		r.Violate("stage-wrong", "told %q although no SETUP was accepted", app.stageList())
		return
	}
	if len(app.Stages) > 0 {
		checkStages(r, c, app, false)
	}
}

// checkContained checks that credentials appear only where they belong.
func checkContained(r *Run, c *CamConn, cr cred) {
	chalSeq, basicSeq := uint64(1<<63), uint64(1<<63)
	for _, a := range c.Ans {
		if a.Code == 401 {
			chalSeq = min(chalSeq, a.Seq)
			if a.Clear {
				basicSeq = min(basicSeq, a.Seq)
			}
		}
	}
	for _, q := range c.Reqs {
		v, has := q.Get("Authorization")
		if has && cr.info == "" {
			r.Violate("auth-invented", "%s carries Authorization %q although the URL has no credentials", q.Verb, v)
			return
		}
		if has && q.IssueSq < chalSeq {
			r.Violate("auth-early", "%s carries Authorization before the camera has challenged", q.Verb)
			return
		}
		if has && q.IssueSq < basicSeq && strings.HasPrefix(strings.ToLower(v), "basic") {
			r.Violate("password-in-clear", "%s carries the password in the clear although the camera has not asked for that", q.Verb)
			return
		}
		if cr.info == "" {
			continue
		}
		rest := q.Raw
		if has {
			rest = strings.Replace(rest, v, "", 1)
		}
		if has && len(cr.pass) > 5 && strings.Contains(v, cr.pass) {
			r.Violate("password-in-clear", "%s carries the password as it is: %q", q.Verb, v)
			return
		}
		b64 := base64.StdEncoding.EncodeToString([]byte(cr.user + ":" + cr.pass))
		for _, s := range []string{cr.pass, url.PathEscape(cr.pass), url.QueryEscape(cr.pass), cr.info, b64} {
			if s == "" {
				continue // no password, or no user either
			}
			if strings.Contains(rest, s) {
				r.Violate("password-leaked", "%s carries the password outside Authorization: %q", q.Verb, clip(rest, 300))
				return
			}
		}
	}
}
