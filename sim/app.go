package main

import (
	"errors"
	"fmt"

	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

// StageEv is a stage the application was told.
type StageEv struct {
	Stage int
	T     int64
	Seq   uint64
}

// Got is a packet the application received.
type Got struct {
	Ch  byte
	B   []byte // the slice as delivered
	Sum uint64 // its content when delivered
	T   int64
	Seq uint64
}

// Cmd is one command the application issued.
type Cmd struct {
	Verb       string
	T0, T1     int64
	Seq0, Seq1 uint64
	Err        error
	Done       bool
}

// App is an application using one session.
type App struct {
	w      *simrt.World
	Name   string
	S      *rtsp.Session
	Stages []StageEv
	Got    []Got
	Cmds   []*Cmd
	OpenC  *Cmd
	wq     simrt.WaitQ
	Opened bool
	// How the application consumes.
	SlowPct   int         // chance in 100 of a pause before receiving a packet
	SlowMax   int64       // longest pause
	StageLag  int64       // longest pause before receiving a stage
	Neglect   bool        // receives nothing at all
	Used      int         // pairs of ports that sessions before this one have used
	Drained   func() bool // commands are issued two at a time at most: tells that all have been answered
	StallAt   int         // before receiving this packet (counted from 1) it pauses
	StallFor  int64       // for so long
	OnPkt     func(g *Got)
	OnStage   func(st int)
	NoData    bool
	readers   int
	SingleTsk bool
}

// NewApp makes an application.
func NewApp(w *simrt.World, name string) *App { return &App{w: w, Name: name} }

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h ^ uint64(len(b))<<40
}

// Cmd issues one command and records it.
func (a *App) Cmd(verb string) error {
	c := &Cmd{Verb: verb, T0: a.w.Now(), Seq0: a.w.Seq()}
	a.Cmds = append(a.Cmds, c)
	a.w.Ev("app-calls", a.Name, verb)
	switch verb {
	case "OPTIONS":
		c.Err = a.S.Options()
	case "DESCRIBE":
		c.Err = a.S.Describe()
	case "PLAY":
		c.Err = a.S.Play()
	case "PAUSE":
		c.Err = a.S.Pause()
	case "TEARDOWN":
		c.Err = a.S.Teardown()
	default:
		panic("verb")
	}
	c.Done = true
	c.T1, c.Seq1 = a.w.Now(), a.w.Seq()
	a.w.Ev("app-returned", a.Name, verb, simrt.ErrKind(c.Err))
	return c.Err
}

// Open opens the session and starts the receiving tasks.
func (a *App) Open(url string, proto int) error {
	w := a.w
	a.S = rtsp.NewSession()
	if !a.Neglect {
		w.Spawn(a.Name+"-stages", false, a.stageReader)
	}
	c := &Cmd{Verb: "OPEN", T0: w.Now(), Seq0: w.Seq()}
	a.OpenC = c
	if a.Used > 0 {
		w.Count("work.many_streams_before")
		for i := 0; i < a.Used; i++ {
			rtsp.NewTransport(rtsp.ProtoUnicast, 0)
		}
	}
	w.Ev("app-opens", a.Name, url)
	c.Err = a.S.Open(url, proto)
	c.Done = true
	c.T1, c.Seq1 = w.Now(), w.Seq()
	w.Ev("app-opened", a.Name, simrt.ErrKind(c.Err))
	if c.Err == nil {
		a.Opened = true
		if !a.Neglect && !a.NoData {
			w.Spawn(a.Name+"-data", false, a.dataReader)
		}
	}
	a.wq.Wake(w)
	return c.Err
}

func (a *App) stageReader() {
	for {
		if a.StageLag > 0 {
			a.w.Sleep(int64(a.w.D.Intn(8))*a.StageLag/7, "stage lag")
		}
		st := simrt.Recv(a.S.State)
		a.gotStage(st)
	}
}

func (a *App) gotStage(st int) {
	a.w.Ev("stage", a.Name, st)
	a.Stages = append(a.Stages, StageEv{st, a.w.Now(), a.w.Seq()})
	a.wq.Wake(a.w)
	if a.OnStage != nil {
		a.OnStage(st)
	}
}

func (a *App) gotPkt(p rtsp.RawPacket) {
	a.w.Ev("packet", a.Name, p.Channel, len(p.Payload))
	a.Got = append(a.Got, Got{p.Channel, p.Payload, hashBytes(p.Payload), a.w.Now(), a.w.Seq()})
	if a.OnPkt != nil {
		a.OnPkt(&a.Got[len(a.Got)-1])
	}
}

func (a *App) dataReader() {
	for {
		if a.SlowPct > 0 && a.w.D.Chance(a.SlowPct, 100) {
			a.w.Count("fault.slow_consumer")
			a.w.Sleep(1+int64(a.w.D.Intn(16))*a.SlowMax/15, "slow consumer")
		}
		if a.StallFor > 0 && len(a.Got)+1 == a.StallAt {
			a.w.Count("fault.consumer_stall")
			a.w.Sleep(a.StallFor, "stalled consumer")
		}
		p := simrt.Recv(a.S.Data)
		a.gotPkt(p)
	}
}

// HasStage counts how often a stage was told.
func (a *App) HasStage(st int) (n int) {
	for _, s := range a.Stages {
		if s.Stage == st {
			n++
		}
	}
	return
}

var errGaveUp = errors.New("gave up waiting")

// WaitStage waits until the n-th notification of a stage, for at most d ns.
func (a *App) WaitStage(st, n int, d int64) error {
	return a.Wait(func() bool { return a.HasStage(st) >= n }, d)
}

// Wait waits for a condition on what the application received.
func (a *App) Wait(cond func() bool, d int64) error {
	w := a.w
	end := w.Now() + d
	w.At(d, func() { a.wq.Wake(w) })
	for !cond() {
		if w.Now() >= end {
			return errGaveUp
		}
		a.wq.Wait(w, "app waiting")
	}
	return nil
}

// Sleep pauses the calling application task.
func (a *App) Sleep(d int64) { a.w.Sleep(d, "app sleep") }

// stageName names a stage.
func stageName(s int) string {
	switch s {
	case rtsp.StageInit:
		return "Init"
	case rtsp.StageReady:
		return "Ready"
	case rtsp.StagePlay:
		return "Playing"
	case rtsp.StagePause:
		return "Pausing"
	case rtsp.StageDone:
		return "Done"
	}
	return fmt.Sprint(s)
}

func (a *App) stageList() string {
	s := ""
	for i, e := range a.Stages {
		if i > 0 {
			s += " "
		}
		s += stageName(e.Stage)
	}
	return s
}

// Altered returns a description of a delivered packet whose bytes changed after delivery.
func (a *App) Altered() string {
	for i := range a.Got {
		g := &a.Got[i]
		if hashBytes(g.B) != g.Sum {
			return fmt.Sprintf("packet %d (channel %d, %d bytes) was altered after delivery", i, g.Ch, len(g.B))
		}
	}
	return ""
}
