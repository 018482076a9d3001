package main

import (
	"bytes"
	"fmt"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"github.com/aboukirev/ouro/net/rtsp"

	"verif/simrt"
)

const (
	realMedia = "net/h264, net/rtp, net/rtcp and, where packets go through a session, net/rtsp, net/sdp: the current source of /repo, instrumented"
	stubMedia = "simulated: scheduler, clock, network paths (and camera where packets go through a session), encoder and packetiser, consumer tasks"
)

func init() {
	register(&Prop{ID: "C13", Title: "Undisturbed RTP streams yield exactly the NAL units sent", Quick: 300000, Thorough: 20000000, Run: runC13,
		Rule: "A run counts as non-trivial if at least five NAL units were to be delivered.", Real: realMedia, Stub: stubMedia})
	register(&Prop{ID: "C14", Title: "Lost packets never fabricate NAL units", Quick: 300000, Thorough: 20000000, Run: runC14,
		Rule: "A run counts as non-trivial if at least one packet was lost, repeated or overtaken and at least one fragmented unit was sent.", Real: realMedia, Stub: stubMedia})
	register(&Prop{ID: "C15", Title: "Media packets decode exactly or are rejected, never crash", Quick: 250000, Thorough: 20000000, Run: runC15,
		Rule: "A run counts as non-trivial if at least one packet was truncated, corrupted or forged.", Real: realMedia, Stub: stubMedia})
}

// nal is one NAL unit as encoded.
type nal struct {
	hdr  byte
	rbsp []byte
	ebsp []byte
	ts   uint32
	don  int // -1: not carried
}

// mpkt is one packet of a stream.
type mpkt struct {
	raw    []byte
	hdr    rtpHdr
	pl     []byte
	kind   string
	units  []*nal // completed by this packet
	fu     *fuUnit
	frag   int // index of the fragment in fu
	last   bool
	rtcp   *srInfo
	forged string
}

type fuUnit struct {
	n    *nal
	pkts []*mpkt
}

type rtpHdr struct {
	m    bool
	pt   byte
	sn   uint16
	ts   uint32
	ssrc uint32
	csrc []uint32
	x    bool
	xh   uint16
	xd   []byte
	pad  int
}

type srInfo struct {
	c     byte
	pt    byte
	ln    uint16
	p     bool
	ssrc  uint32
	ntp   uint64
	rtpts uint32
	pc    uint32
	oc    uint32
}

func put16(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }
func put32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

// encodeEBSP inserts emulation prevention bytes as H.264 7.4.1 says.
func encodeEBSP(rbsp []byte) []byte {
	out := make([]byte, 0, len(rbsp)+8)
	z := 0
	for _, b := range rbsp {
		if z >= 2 && b <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, b)
		if b == 0 {
			z++
		} else {
			z = 0
		}
	}
	if n := len(rbsp); n > 0 && rbsp[n-1] == 0 {
		out = append(out, 3)
	}
	return out
}

// decodeEBSP removes the third byte of every 00 00 03.
func decodeEBSP(e []byte) []byte {
	out := make([]byte, 0, len(e))
	z := 0
	for _, b := range e {
		if z >= 2 && b == 3 {
			z = 0
			continue
		}
		out = append(out, b)
		if b == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// drawNAL draws a unit; bodies are rich in zeros and start-code look-alikes.
func drawNAL(d *simrt.Decider, ts uint32, small bool) *nal {
	n := &nal{ts: ts, don: -1}
	n.hdr = byte(d.Intn(4))<<5 | byte(1+d.Intn(23))
	sz := 0
	switch d.Weighted(2, 6, 4, 1) {
	case 0:
		sz = d.Intn(3)
	case 1:
		sz = d.Range(1, 24)
	case 2:
		sz = d.Range(1, 200)
	case 3:
		sz = d.Range(200, 3000)
		if small {
			sz = d.Range(20, 60)
		}
	}
	b := make([]byte, sz)
	f := NewF(d)
	f.Fill(b)
	switch d.Weighted(3, 2, 2) {
	case 0:
		for i := range b {
			b[i] &= 3
		}
	case 1:
		for i := range b {
			if b[i] < 180 {
				b[i] &= 3
				if b[i] > 0 {
					b[i] &= b[i] >> 1
				}
			}
		}
	}
	if sz > 0 {
		if b[sz-1] == 0 {
			b[sz-1] = 0x80
		}
		if d.Chance(1, 8) {
			for k := d.Range(1, 3); k > 0; k-- {
				b = append(b, 0, 0) // cabac_zero_words
			}
		}
	}
	n.rbsp = b
	n.ebsp = encodeEBSP(b)
	return n
}

// mstream is one stream of media.
type mstream struct {
	name   string
	pkts   []*mpkt
	ssrc   uint32
	sn     uint16
	ts     uint32
	pt     byte
	bySN   map[uint16]*mpkt
	units  int
	rich   bool // CSRC, extension, padding
	frames bool // several units share a timestamp
}

// drawStream packetises nu units.
func drawStream(d *simrt.Decider, name string, nu int, rich bool, onlyFU bool) *mstream {
	return drawStreamG(d, name, nu, rich, onlyFU, false, false)
}

// drawStreamE has packets without payload in it.
func drawStreamE(d *simrt.Decider, name string, nu int, rich bool, onlyFU bool) *mstream {
	return drawStreamG(d, name, nu, rich, onlyFU, false, true)
}

// drawStreamG may put units of over 32 KB into one packet.
func drawStreamG(d *simrt.Decider, name string, nu int, rich bool, onlyFU, giants, empties bool) *mstream {
	s := &mstream{name: name, ssrc: d.U32(), pt: byte(96 + d.Intn(32)), bySN: map[uint16]*mpkt{}, rich: rich, units: nu}
	s.sn = uint16(d.Intn(65536))
	if d.Chance(1, 3) {
		s.sn = 0 - uint16(1+d.Intn(20))
	}
	s.ts = d.U32()
	if d.Chance(1, 3) {
		s.ts = 0 - uint32(d.Intn(20000))
	}
	don := uint16(d.Intn(65536))
	if d.Chance(1, 3) {
		don = 0 - uint16(1+d.Intn(10))
	}
	w := [7]int{4, 3, 2, 2, 2, 4, 2}
	annexb := 2
	switch d.Intn(4) {
	case 0:
		annexb = 0
	case 1:
		for i := range w {
			w[i] = d.Intn(4)
		}
		w[d.Intn(7)] += 4
	}
	if onlyFU {
		w[5] += 12
		w[6] += 4
	}
	small := d.Chance(1, 2)
	for nu > 0 {
		if d.Chance(2, 3) {
			s.ts += uint32(d.Intn(4)) * 1500
		}
		take := func(max int) (us []*nal) {
			if max > 1 && d.Chance(1, 12) {
				max = 50
			}
			giant := giants && d.Chance(1, 40)
			k := d.Range(1, max)
			if k > nu {
				k = nu
			}
			if giant {
				k = 1
			}
			nu -= k
			crowd := giants && max > 1 && !giant && d.Chance(1, 60)
			if crowd {
				// As many as hardly anyone sends in one packet.
				k = d.Range(60, 250)
			}
			for ; k > 0; k-- {
				us = append(us, drawNAL(d, s.ts, small || crowd))
			}
			if giant {
				u := us[0]
				u.rbsp = make([]byte, d.Range(32700, 60000))
				NewF(d).Fill(u.rbsp)
				for i := range u.rbsp {
					if i%3 == 2 {
						u.rbsp[i] |= 1
					}
				}
				u.rbsp[len(u.rbsp)-1] |= 1
				u.ebsp = encodeEBSP(u.rbsp)
			}
			return
		}
		switch kind := d.Weighted(w[0], w[1], w[2], w[3], w[4], w[5], w[6], annexb); kind {
		case 0:
			us := take(1)
			s.add(d, &mpkt{kind: "single", pl: append([]byte{us[0].hdr}, us[0].ebsp...), units: us}, s.ts)
		case 1, 2:
			us := take(5)
			b := []byte{24 | byte(d.Intn(4))<<5}
			if kind == 2 {
				b[0]++
				b = put16(b, don)
				for _, u := range us {
					u.don = int(don)
					don++
				}
			}
			for _, u := range us {
				b = put16(b, uint16(1+len(u.ebsp)))
				b = append(b, u.hdr)
				b = append(b, u.ebsp...)
			}
			s.add(d, &mpkt{kind: []string{"STAP-A", "STAP-B"}[kind-1], pl: b, units: us}, s.ts)
		case 3, 4:
			us := take(5)
			b := []byte{26 | byte(d.Intn(4))<<5}
			if kind == 4 {
				b[0]++
			}
			b = put16(b, don)
			for i, u := range us {
				off := uint32(0)
				if i > 0 {
					off = uint32(d.Intn(8)) * 1500
					if d.Chance(1, 4) {
						off = uint32(d.Intn(1 << 16))
					}
					if kind == 4 && d.Chance(1, 3) {
						off = uint32(d.Intn(1 << 24))
					}
				}
				dond := i
				if d.Chance(1, 4) {
					dond = d.Intn(256)
				}
				u.ts = s.ts + off
				u.don = int(don + uint16(dond))
				b = put16(b, uint16(1+len(u.ebsp)))
				b = append(b, byte(dond))
				if kind == 4 {
					b = append(b, byte(off>>16))
				}
				b = put16(b, uint16(off))
				b = append(b, u.hdr)
				b = append(b, u.ebsp...)
			}
			don += uint16(len(us))
			s.add(d, &mpkt{kind: []string{"MTAP16", "MTAP24"}[kind-3], pl: b, units: us}, s.ts)
		case 5, 6:
			u := take(1)[0]
			k := d.Range(2, 8)
			if d.Chance(1, 15) {
				k = d.Range(9, 90)
				if !small && d.Chance(1, 3) {
					u.rbsp = make([]byte, d.Range(3000, 150000))
					NewF(d).Fill(u.rbsp)
					u.rbsp[len(u.rbsp)-1] |= 1
					u.ebsp = encodeEBSP(u.rbsp)
					k = len(u.ebsp)/1400 + 2
				}
			}
			if d.Chance(1, 600) {
				k = d.Range(91, 2500)
			}
			cuts := []int{}
			for i := 0; i < k-1; i++ {
				cuts = append(cuts, d.Intn(len(u.ebsp)+1))
			}
			for i := range cuts { // sort
				for j := i; j > 0 && cuts[j-1] > cuts[j]; j-- {
					cuts[j-1], cuts[j] = cuts[j], cuts[j-1]
				}
			}
			cuts = append(append([]int{0}, cuts...), len(u.ebsp))
			fu := &fuUnit{n: u}
			if kind == 6 {
				u.don = int(don)
				don++
			}
			for i := 0; i < k; i++ {
				ind, fh := u.hdr&0x60|28, u.hdr&0x1F
				if i == 0 {
					fh |= 0x80
				}
				if i == k-1 {
					fh |= 0x40
				}
				b := []byte{ind, fh}
				nm := "FU-A"
				if kind == 6 && i == 0 {
					b[0]++
					b = put16(b, uint16(u.don))
					nm = "FU-B"
				}
				b = append(b, u.ebsp[cuts[i]:cuts[i+1]]...)
				p := &mpkt{kind: nm, pl: b, fu: fu, frag: i, last: i == k-1}
				if p.last {
					p.units = []*nal{u}
				}
				fu.pkts = append(fu.pkts, p)
				s.add(d, p, s.ts)
			}
		case 7:
			us := take(5)
			var b []byte
			for _, u := range us {
				if len(b) > 0 && d.Chance(1, 4) {
					b = append(b, make([]byte, d.Range(1, 4))...) // trailing_zero_8bits
				}
				if d.Chance(1, 2) {
					b = append(b, 0)
				}
				b = append(b, 0, 0, 1, u.hdr)
				b = append(b, u.ebsp...)
			}
			if d.Chance(1, 6) {
				b = append(b, make([]byte, d.Range(1, 4))...)
			}
			s.add(d, &mpkt{kind: "Annex B", pl: b, units: us}, s.ts)
		}
		if empties && d.Chance(1, 12) {
			s.add(d, &mpkt{kind: "empty"}, s.ts)
		}
	}
	return s
}

// drawHdr draws the optional parts of an RTP header.
func (s *mstream) drawHdr(d *simrt.Decider, h *rtpHdr) {
	h.m = d.Chance(1, 2)
	if !s.rich {
		return
	}
	for k := d.Weighted(4, 1, 1, 1) * d.Intn(6); k > 0 && len(h.csrc) < 15; k-- {
		h.csrc = append(h.csrc, d.U32())
	}
	if d.Chance(1, 3) {
		h.x, h.xh = true, uint16(d.Intn(65536))
		h.xd = make([]byte, 4*d.Intn(6))
		NewF(d).Fill(h.xd)
	}
	if d.Chance(1, 3) {
		h.pad = 1 + d.Intn(20)
		if d.Chance(1, 4) {
			h.pad = 255 - d.Intn(3)
		}
	}
}

func (h *rtpHdr) pack(pl []byte) []byte {
	b := []byte{0x80 | byte(len(h.csrc)), h.pt & 0x7F}
	if h.m {
		b[1] |= 0x80
	}
	b = put16(b, h.sn)
	b = put32(b, h.ts)
	b = put32(b, h.ssrc)
	for _, c := range h.csrc {
		b = put32(b, c)
	}
	if h.x {
		b[0] |= 0x10
		b = put16(b, h.xh)
		b = put16(b, uint16(len(h.xd)/4))
		b = append(b, h.xd...)
	}
	b = append(b, pl...)
	if h.pad > 0 {
		b[0] |= 0x20
		p := make([]byte, h.pad)
		for i := range p {
			p[i] = byte(i * 7)
		}
		p[h.pad-1] = byte(h.pad)
		b = append(b, p...)
	}
	return b
}

func (s *mstream) add(d *simrt.Decider, p *mpkt, ts uint32) {
	p.hdr = rtpHdr{pt: s.pt, sn: s.sn, ts: ts, ssrc: s.ssrc}
	s.drawHdr(d, &p.hdr)
	s.sn++
	p.raw = p.hdr.pack(p.pl)
	s.bySN[p.hdr.sn] = p
	s.pkts = append(s.pkts, p)
}

// mlink carries packets of one stream to a consumer without a session.
type mlink struct {
	w *simrt.World
	q []*mpkt
	// at is when each queued packet has arrived, in arrival order.
	wq   simrt.WaitQ
	done bool
}

func (l *mlink) arrive(p *mpkt) { l.q = append(l.q, p); l.wq.Wake(l.w) }

// next waits for the next packet; nil when there are no more.
func (l *mlink) next() *mpkt {
	for len(l.q) == 0 {
		if l.done {
			return nil
		}
		l.wq.Wait(l.w, "no packet")
	}
	p := l.q[0]
	l.q = l.q[1:]
	return p
}

// kept is a unit the consumer keeps.
type kept struct {
	u   h264.NALUnit
	sum uint64
}

// consumer decodes one stream.
type consumer struct {
	r     *Run
	s     *mstream
	sink  *h264.NALSink
	twin  *h264.NALSink // gets only what the sink has not rejected (C15)
	keep  []kept
	n     int
	reuse bool // payloads are handed over in one buffer
	buf   []byte
	depth []*mpkt // packets consumed so far, in order (nil: unknown)
	ref   fuRef
}

func newConsumer(r *Run, s *mstream) *consumer {
	return &consumer{r: r, s: s, sink: h264.NewNALSink()}
}

// push gives a payload to the sink and returns the units it has then.
func (c *consumer) push(pl []byte, ts uint32) ([]h264.NALUnit, error) {
	if c.reuse {
		c.buf = append(c.buf[:0], pl...)
		pl = c.buf
	}
	err := c.sink.Push(pl, ts)
	c.n++
	if c.reuse {
		for i := range c.buf {
			c.buf[i] = 0xA5
		}
	}
	var us []h264.NALUnit
	for i := 0; i < len(c.sink.Units); i++ {
		u := c.sink.Units[i]
		us = append(us, u)
		c.keep = append(c.keep, kept{u, hashBytes(u.Data)})
	}
	c.r.W.Ev("pushed", c.s.name, len(pl), ts, len(us), err != nil)
	return us, err
}

// altered tells whether a kept unit has changed.
func (c *consumer) altered() string {
	for i, k := range c.keep {
		if hashBytes(k.u.Data) != k.sum {
			return fmt.Sprintf("stream %s: unit %d (header %#x, %d bytes) had its bytes changed after it was delivered", c.s.name, i, k.u.Header, len(k.u.Data))
		}
	}
	return ""
}

func describeUnits(us []h264.NALUnit) string {
	s := ""
	for i, u := range us {
		if i == 6 {
			return s + " ..."
		}
		s += fmt.Sprintf(" [header %#x don %d ts %d %d bytes %x]", u.Header, u.Don, u.TS, len(u.Data), clipB(u.Data, 40))
	}
	if s == "" {
		return " none"
	}
	return s
}

func describeNALs(us []*nal) string {
	s := ""
	for i, u := range us {
		if i == 6 {
			return s + " ..."
		}
		s += fmt.Sprintf(" [header %#x don %d ts %d %d bytes %x]", u.hdr, u.don, u.ts, len(u.rbsp), clipB(u.rbsp, 40))
	}
	if s == "" {
		return " none"
	}
	return s
}

func clipB(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func unitIs(u *h264.NALUnit, n *nal) bool {
	return u.Header == n.hdr && u.TS == n.ts && bytes.Equal(u.Data, n.rbsp) && (n.don < 0 || int(u.Don) == n.don)
}

func unitsAre(us []h264.NALUnit, ns []*nal) bool {
	if len(us) != len(ns) {
		return false
	}
	for i := range us {
		if !unitIs(&us[i], ns[i]) {
			return false
		}
	}
	return true
}

// unpack decodes an RTP packet known to be valid.
func (c *consumer) unpack(raw []byte) *rtp.Packet {
	p, err := rtp.Unpack(raw)
	if err != nil {
		return nil
	}
	return p
}

// take13 checks one packet of an undisturbed stream.
func (c *consumer) take13(p *mpkt) {
	pl, ts := p.pl, p.hdr.ts
	if q := c.unpack(append([]byte(nil), p.raw...)); q != nil && bytes.Equal(q.PL, pl) && q.TS == ts {
		pl = q.PL // otherwise it is C15's business
	}
	us, err := c.push(pl, ts)
	if err != nil {
		c.r.Violate("valid-rejected", "stream %s: packet %d (%s, payload %x) was rejected: %v", c.s.name, c.n-1, p.kind, clipB(pl, 200), err)
		return
	}
	if !unitsAre(us, p.units) {
		c.r.Violate("units-differ", "stream %s: after packet %d (%s, fragment %d, payload %x) the units are%s; sent were%s", c.s.name, c.n-1, p.kind, p.frag, clipB(pl, 200), describeUnits(us), describeNALs(p.units))
	}
}

// viaSession runs a session and hands every packet received to take; the
// camera sends with send once playing.
func (r *Run) viaSession(proto int, send func(c *CamConn), take func(g *Got), until func() bool) {
	w, d := r.W, r.D
	cc := CamCfg{UDP: proto == rtsp.ProtoUnicast}
	cam := r.drawCamera("cam", "camera.test", "10.1.1.1", cc, camOpts{maxDelay: 50 * ms, maxVideo: 1, shortIO: d.Chance(1, 2)})
	app := NewApp(w, "app")
	if d.Chance(1, 3) {
		app.SlowPct, app.SlowMax = 20, 20*ms
	}
	app.OnPkt = take
	started := false
	cam.OnReq = func(c *CamConn, q *Req) {
		if q.Verb == "PLAY" && !started {
			started = true
			w.At(0, func() { send(c) })
		}
	}
	w.Spawn("app", false, func() {
		if app.Open(cam.URL(""), proto) != nil {
			return
		}
		if app.WaitStage(rtsp.StageReady, 1, 300*sec) != nil {
			return
		}
		app.Cmd("PLAY")
	})
	for i := 0; i < 60 && !w.Stopped(); i++ {
		w.RunFor(5 * sec)
		if until() {
			break
		}
	}
	if !w.Stopped() {
		w.RunFor(5 * sec)
	}
}

// runWhile runs the world while tasks are running.
func (r *Run) runWhile(n *int) {
	for i := 0; i < 6000 && *n > 0 && !r.W.Stopped(); i++ {
		r.W.RunFor(100 * ms)
	}
}

func runC13(r *Run) {
	cfg := r.Sched(50*ms, false)
	cfg.Limit = 3600 * sec
	w := r.World(cfg)
	d := r.D
	mode := d.Weighted(9, 1)
	ns := 1
	if mode == 0 {
		ns = 1 + d.Weighted(4, 3, 1)
	}
	var cs []*consumer
	total := 0
	for i := 0; i < ns; i++ {
		nu := d.Range(1, 24)
		if d.Chance(1, 20) {
			nu = d.Range(25, 120)
		}
		total += nu
		c := newConsumer(r, drawStreamG(d, fmt.Sprintf("s%d", i), nu, d.Chance(1, 4), false, true, false))
		c.reuse = d.Chance(1, 4)
		cs = append(cs, c)
	}
	gap := simrt.Pick(d, 0, 1*ms, 20*ms)
	r.Desc = fmt.Sprintf("mode %d, %d streams, %d units", mode, ns, total)
	if mode == 1 {
		c := cs[0]
		got := 0
		sent := false
		r.viaSession(rtsp.ProtoTCP, func(cc *CamConn) {
			ch := cc.Cam.Videos()[0].Ch
			k := 0
			var step func()
			step = func() {
				for n := 1 + d.Intn(5); n > 0 && k < len(c.s.pkts) && !cc.Closed; n-- {
					cc.SendPkt(ch, c.s.pkts[k].raw)
					k++
				}
				if k < len(c.s.pkts) {
					w.At(int64(d.Intn(8))*gap/7, step)
				} else {
					sent = true
				}
			}
			step()
		}, func(g *Got) {
			if got >= len(c.s.pkts) || !bytes.Equal(g.B, c.s.pkts[got].raw) {
				w.Stop() // C02's business
				return
			}
			got++
			c.take13(&mpkt{raw: g.B, hdr: c.s.pkts[got-1].hdr, pl: c.s.pkts[got-1].pl, kind: c.s.pkts[got-1].kind, units: c.s.pkts[got-1].units, frag: c.s.pkts[got-1].frag})
		}, func() bool { return sent })
		r.NonTriv = total >= 5 && got > 0
	} else {
		running := 0
		for _, c := range cs {
			c := c
			l := &mlink{w: w}
			k := 0
			last := int64(0)
			delay := simrt.Pick(d, 0, 0, 30*ms)
			var step func()
			step = func() {
				for n := 1 + d.Intn(4); n > 0 && k < len(c.s.pkts); n-- {
					p := c.s.pkts[k]
					k++
					at := w.Now() + int64(d.Intn(8))*delay/7
					if at < last {
						at = last
					}
					last = at
					w.At(at-w.Now(), func() { l.arrive(p) })
				}
				if k < len(c.s.pkts) {
					w.At(int64(d.Intn(8))*gap/7, step)
				} else {
					w.At(last-w.Now()+1, func() { l.done = true; l.wq.Wake(w) })
				}
			}
			w.At(int64(d.Intn(4))*gap/3, step)
			slow := d.Chance(1, 4)
			running++
			w.Spawn("consumer-"+c.s.name, false, func() {
				defer func() { running-- }()
				for p := l.next(); p != nil; p = l.next() {
					c.take13(p)
					if slow && d.Chance(1, 10) {
						w.Count("fault.slow_consumer")
						w.Sleep(int64(1+d.Intn(40))*ms, "slow consumer")
					}
				}
			})
		}
		r.runWhile(&running)
		if !w.Stopped() {
			for _, c := range cs {
				if c.n < len(c.s.pkts) {
					r.Violate("consumer-stuck", "stream %s: %d of %d packets were taken", c.s.name, c.n, len(c.s.pkts))
					return
				}
			}
		}
		r.NonTriv = total >= 5
	}
	if w.Stopped() {
		return
	}
	w.Counts["work.nal_units"] += int64(total)
	for _, c := range cs {
		w.Counts["work.packets"] += int64(c.n)
		if a := c.altered(); a != "" {
			r.Violate("unit-altered", "%s", a)
			return
		}
	}
}

// fuRef follows the fragments received.
type fuRef struct {
	open  bool // a first fragment has been received
	mixed bool // fragments of another timestamp or type have come since
	taint bool // the state is unknown until the next first fragment
	b     bool // the first was FU-B
	don   uint16
	ts    uint32
	typ   byte
	nris  []byte
	data  []byte
	n     int
}

// fuParts takes a fragmentation unit apart.
func fuParts(pl []byte) (fh byte, nri byte, don int, data []byte, ok bool) {
	if len(pl) < 2 {
		return
	}
	switch pl[0] & 31 {
	case 28:
		return pl[1], pl[0] & 0x60, -1, pl[2:], true
	case 29:
		if len(pl) < 4 {
			return
		}
		return pl[1], pl[0] & 0x60, int(pl[2])<<8 | int(pl[3]), pl[4:], true
	}
	return
}

// fragment accounts for a received fragment; end tells that a unit may come out now.
func (f *fuRef) fragment(pl []byte, ts uint32) (end bool) {
	fh, nri, don, data, ok := fuParts(pl)
	if !ok {
		return false
	}
	if fh&0x80 != 0 {
		*f = fuRef{open: true, ts: ts, typ: fh & 31}
		if don >= 0 {
			f.b, f.don = true, uint16(don)
		}
	} else if f.open && (f.ts != ts || f.typ != fh&31) {
		f.mixed = true
	}
	f.data = append(f.data, data...)
	f.nris = append(f.nris, nri)
	f.n++
	return fh&0x40 != 0
}

// judge judges the units that came out with a fragment.
func (f *fuRef) judge(us []h264.NALUnit, end bool) string {
	if f.taint {
		return ""
	}
	if len(us) == 0 {
		return ""
	}
	if !end {
		return "a unit came out with a fragment that is not the last of a unit"
	}
	if len(us) > 1 {
		return "several units came out with one fragment"
	}
	if !f.open {
		return "a unit came out although no first fragment had come for it"
	}
	if f.mixed {
		return "a unit was made of fragments of different units"
	}
	u := us[0]
	if u.TS != f.ts || u.Header&31 != f.typ || u.Header&0x80 != 0 {
		return fmt.Sprintf("the unit does not have the timestamp %d or the type %d of its fragments", f.ts, f.typ)
	}
	if bytes.IndexByte(f.nris, u.Header&0x60) < 0 {
		return "the unit's importance is not that of its fragments"
	}
	if f.b && u.Don != f.don {
		return fmt.Sprintf("the unit's decoding order number is not its first fragment's, %d", f.don)
	}
	if want := decodeEBSP(f.data); !bytes.Equal(u.Data, want) {
		return fmt.Sprintf("the unit is not what the fragments received since the first give, %d bytes %x", len(want), clipB(want, 100))
	}
	return ""
}

// take14 checks one packet of a disturbed stream.
func (c *consumer) take14(p *mpkt, pl []byte, ts uint32) {
	us, err := c.push(pl, ts)
	c.depth = append(c.depth, p)
	ctx := func() string {
		h := ""
		from := len(c.depth) - 12
		if from < 0 {
			from = 0
		}
		for _, q := range c.depth[from:] {
			h += fmt.Sprintf(" %s/%d#%d", q.kind, q.frag, q.hdr.sn)
		}
		return fmt.Sprintf("stream %s, packet %d (%s, SN %d, fragment %d, payload %x), last received:%s; units:%s", c.s.name, c.n-1, p.kind, p.hdr.sn, p.frag, clipB(pl, 100), h, describeUnits(us))
	}
	if p.fu == nil {
		if err != nil || !unitsAre(us, p.units) {
			c.r.Violate("units-differ", "a complete packet does not give its units:%s; %s", describeNALs(p.units), ctx())
		}
		return
	}
	end := c.ref.fragment(pl, ts)
	if m := c.ref.judge(us, end); m != "" {
		c.r.Violate("unit-fabricated", "%s; %s", m, ctx())
		return
	}
	if p.last && len(us) == 0 {
		// Did all its packets arrive together and in order?
		k := len(p.fu.pkts)
		if len(c.depth) >= k {
			all := true
			for i, q := range p.fu.pkts {
				if c.depth[len(c.depth)-k+i] != q {
					all = false
				}
			}
			if all {
				c.r.Violate("unit-missing", "a unit whose packets all arrived together and in order did not come out; %s", ctx())
				return
			}
		}
	}
	if p.last && len(us) == 1 && c.ref.n == len(p.fu.pkts) {
		k := len(p.fu.pkts)
		all := len(c.depth) >= k
		for i := 0; all && i < k; i++ {
			all = c.depth[len(c.depth)-k+i] == p.fu.pkts[i]
		}
		if all && !unitIs(&us[0], p.fu.n) {
			c.r.Violate("units-differ", "a unit whose packets all arrived together and in order differs from the one sent:%s; %s", describeNALs(p.units), ctx())
			return
		}
	}
	if end {
		c.ref = fuRef{}
	}
}

func runC14(r *Run) {
	cfg := r.Sched(50*ms, false)
	cfg.Limit = 3600 * sec
	w := r.World(cfg)
	d := r.D
	mode := d.Weighted(9, 1)
	ns := 1
	if mode == 0 {
		ns = 1 + d.Weighted(5, 2)
	}
	loss := simrt.Pick(d, 0, 3, 10, 30)
	dup := simrt.Pick(d, 0, 0, 5, 20)
	reord := simrt.Pick(d, 0, 0, 5, 20)
	if loss+dup+reord == 0 {
		loss = 10
	}
	var cs []*consumer
	fus := 0
	for i := 0; i < ns; i++ {
		s := drawStream(d, fmt.Sprintf("s%d", i), d.Range(2, 24), false, d.Chance(2, 3))
		for _, p := range s.pkts {
			if p.last {
				fus++
			}
		}
		cs = append(cs, newConsumer(r, s))
	}
	gap := simrt.Pick(d, 0, 1*ms, 20*ms)
	r.Desc = fmt.Sprintf("mode %d, %d streams, loss %d%% dup %d%% reorder %d%%", mode, ns, loss, dup, reord)
	faults := 0
	burst := d.Chance(1, 3)
	// fate decides what becomes of the next packet: copies, extra delay.
	inBurst := 0
	fate := func() (n int, late bool) {
		if inBurst > 0 {
			inBurst--
			w.Count("fault.packet_lost")
			faults++
			return 0, false
		}
		if loss > 0 && d.Chance(loss, 100) {
			if burst {
				inBurst = d.Intn(6)
			}
			w.Count("fault.packet_lost")
			faults++
			return 0, false
		}
		n = 1
		if dup > 0 && d.Chance(dup, 100) {
			w.Count("fault.packet_duplicated")
			faults++
			n = 2
		}
		if reord > 0 && d.Chance(reord, 100) {
			w.Count("fault.packet_delayed")
			faults++
			late = true
		}
		return n, late
	}
	if mode == 1 {
		c := cs[0]
		sent := false
		r.viaSession(rtsp.ProtoUnicast, func(cc *CamConn) {
			m := cc.Cam.Videos()[0]
			path := &UDPPath{Raw: true}
			k := 0
			var step func()
			step = func() {
				for n := 1 + d.Intn(5); n > 0 && k < len(c.s.pkts) && !cc.Closed; n-- {
					p := c.s.pkts[k]
					k++
					cp, late := fate()
					for ; cp > 0; cp-- {
						dl := int64(0)
						if late {
							dl = int64(d.Intn(8)) * (gap + 1)
						}
						w.At(dl, func() { cc.SendUDP(path, m, 0, append([]byte(nil), p.raw...)) })
					}
				}
				if k < len(c.s.pkts) {
					w.At(int64(d.Intn(8))*gap/7, step)
				} else {
					sent = true
				}
			}
			step()
		}, func(g *Got) {
			q, err := rtp.Unpack(g.B)
			if err != nil {
				w.Stop() // C15's business
				return
			}
			p := c.s.bySN[q.SN]
			if p == nil || !bytes.Equal(p.raw, g.B) {
				w.Stop() // C12's business
				return
			}
			c.take14(p, q.PL, q.TS)
		}, func() bool { return sent })
	} else {
		running := 0
		for _, c := range cs {
			c := c
			l := &mlink{w: w}
			k := 0
			last := int64(0)
			var step func()
			step = func() {
				for n := 1 + d.Intn(4); n > 0 && k < len(c.s.pkts); n-- {
					p := c.s.pkts[k]
					k++
					cp, late := fate()
					for ; cp > 0; cp-- {
						dl := int64(0)
						if late || (cp > 1 && d.Chance(1, 2)) {
							dl = int64(d.Intn(12)) * (gap + 1)
						}
						if w.Now()+dl > last {
							last = w.Now() + dl
						}
						w.At(dl, func() { l.arrive(p) })
					}
				}
				if k < len(c.s.pkts) {
					w.At(int64(d.Intn(8))*gap/7, step)
				} else {
					w.At(last-w.Now()+1, func() { l.done = true; l.wq.Wake(w) })
				}
			}
			w.At(0, step)
			running++
			w.Spawn("consumer-"+c.s.name, false, func() {
				defer func() { running-- }()
				for p := l.next(); p != nil; p = l.next() {
					pl, ts := p.pl, p.hdr.ts
					if q := c.unpack(append([]byte(nil), p.raw...)); q != nil && bytes.Equal(q.PL, pl) && q.TS == ts {
						pl = q.PL
					}
					c.take14(p, pl, ts)
				}
			})
		}
		r.runWhile(&running)
	}
	if w.Stopped() {
		return
	}
	for _, c := range cs {
		w.Counts["work.packets"] += int64(c.n)
		if a := c.altered(); a != "" {
			r.Violate("unit-altered", "%s", a)
			return
		}
	}
	r.NonTriv = faults > 0 && fus > 0
}

// take15 checks one packet of a stream with bad packets in it.
func (c *consumer) take15(p *mpkt) {
	r := c.r
	if p.rtcp != nil || p.kind == "RTCP" {
		c.takeRTCP(p)
		return
	}
	raw := append([]byte(nil), p.raw...)
	q, err := rtp.Unpack(raw)
	c.r.W.Ev("unpacked", c.s.name, len(raw), p.forged, err != nil)
	ref, refOK := refRTP(raw)
	if err != nil {
		r.W.Count("probe.rtp_rejected")
		r.Ok(p.forged != "", "valid-rejected", "stream %s: a proper RTP packet was rejected: %v; %x", c.s.name, err, clipB(raw, 80))
		return
	}
	if q == nil {
		r.Violate("no-packet", "decoding gave neither a packet nor an error; %x", clipB(raw, 80))
		return
	}
	if len(raw) > 0 && raw[0]>>6 != 2 {
		r.Violate("version", "stream %s (%s): a packet of version %d was decoded; packet %x", c.s.name, p.forged, raw[0]>>6, clipB(raw, 80))
		return
	}
	if refOK {
		if m := diffRTP(q, ref, raw); m != "" {
			r.Violate("rtp-differs", "stream %s (%s): %s; packet %x", c.s.name, p.forged, m, clipB(raw, 120))
			return
		}
	} else if m := loose(q); m != "" {
		r.Violate("rtp-differs", "stream %s (%s): a packet that is cut short or contradicts itself was decoded, and %s; packet %x", c.s.name, p.forged, m, clipB(raw, 120))
		return
	} else if !inside(q.PL, raw) || !inside(q.XD, raw) || len(q.CSRC)*4+12 > len(raw) {
		r.Violate("rtp-beyond", "stream %s (%s): decoding goes beyond the bytes received: %d sources, %d bytes of extension, %d of payload; packet %x", c.s.name, p.forged, len(q.CSRC), len(q.XD), len(q.PL), clipB(raw, 120))
		return
	}
	pl := q.PL
	if p.kind == "empty" && p.forged == "" {
		return // nothing but padding
	}
	us, err := c.push(pl, q.TS)
	if err != nil {
		r.W.Count("probe.payload_rejected")
		if p.forged == "" {
			r.Violate("valid-rejected", "stream %s: a proper payload (%s) was rejected: %v; %x", c.s.name, p.kind, err, clipB(pl, 200))
		}
		return
	}
	// The twin has seen nothing of what was rejected.
	terr := c.twin.Push(append([]byte(nil), pl...), q.TS)
	tu := c.twin.Units
	same := terr == nil && len(tu) == len(us)
	for i := 0; same && i < len(us); i++ {
		same = us[i].Header == tu[i].Header && us[i].TS == tu[i].TS && us[i].Don == tu[i].Don && bytes.Equal(us[i].Data, tu[i].Data)
	}
	if !same {
		r.Violate("rejected-matters", "stream %s: units (%s, payload %x) are%s; without the rejected packets before it they would be%s (error %v)", c.s.name, p.kind, clipB(pl, 100), describeUnits(us), describeUnits(tu), terr)
		return
	}
	if p.forged == "" && p.fu == nil {
		if !unitsAre(us, p.units) {
			r.Violate("units-differ", "stream %s: units (%s, payload %x) are%s; sent were%s", c.s.name, p.kind, clipB(pl, 200), describeUnits(us), describeNALs(p.units))
		}
		return
	}
	if p.forged == "" {
		end := c.ref.fragment(pl, q.TS)
		if m := c.ref.judge(us, end); m != "" {
			r.Violate("units-differ", "stream %s (%s, fragment %d, payload %x): %s; units:%s", c.s.name, p.kind, p.frag, clipB(pl, 100), m, describeUnits(us))
			return
		}
		if p.last && c.ref.n == len(p.fu.pkts) && !c.ref.taint && c.ref.open && !c.ref.mixed && bytes.Equal(decodeEBSP(c.ref.data), p.fu.n.rbsp) && len(us) == 0 {
			r.Violate("unit-missing", "stream %s: all %d fragments of a unit have come (rejected packets aside) but it did not come out", c.s.name, c.ref.n)
			return
		}
		if end {
			c.ref = fuRef{}
		}
		return
	}
	// A bad packet was accepted: what it gives lies within its bytes.
	r.W.Count("probe.bad_payload_accepted")
	c.forgedUnits(p, pl, q.TS, us)
}

// forgedUnits judges what an accepted bad payload gives.
func (c *consumer) forgedUnits(p *mpkt, pl []byte, ts uint32, us []h264.NALUnit) {
	if len(pl) == 0 {
		c.r.Ok(len(us) == 0, "unit-invented", "stream %s: %d units came out of an empty payload", c.s.name, len(us))
		return
	}
	typ := pl[0] & 31
	start := bytes.HasPrefix(pl, []byte{0, 0, 1}) || bytes.HasPrefix(pl, []byte{0, 0, 0, 1})
	bad := func(f string, a ...any) {
		c.r.Violate("unit-invented", "stream %s (%s, payload %x): %s; units:%s", c.s.name, p.forged, clipB(pl, 200), fmt.Sprintf(f, a...), describeUnits(us))
	}
	if _, _, _, _, ok := fuParts(pl); ok {
		fh := pl[1]
		end := c.ref.fragment(pl, ts)
		if m := c.ref.judge(us, end); m != "" && fh&0xC0 != 0xC0 {
			bad("%s", m)
			return
		}
		if end {
			c.ref = fuRef{}
		}
		return
	}
	if typ == 28 || typ == 29 {
		// Too short for a fragment yet accepted: what it did to the fragments is not known.
		c.ref.taint = true
		return
	}
	if start {
		// Whether fragments within a byte stream count is nowhere said.
		for i := 3; i < len(pl); i++ {
			if t := pl[i] & 31; pl[i-1] == 1 && pl[i-2] == 0 && pl[i-3] == 0 && (t == 28 || t == 29) {
				c.ref.taint = true
				return
			}
		}
	}
	n := 0
	for _, u := range us {
		n += len(u.Data)
		if !subsequence(u.Data, pl) {
			bad("the unit with header %#x is not made of the bytes of the packet", u.Header)
			return
		}
	}
	if n > len(pl) {
		bad("the units have %d bytes, the packet %d", n, len(pl))
		return
	}
	if !start && typ >= 1 && typ <= 23 {
		want := &nal{hdr: pl[0], rbsp: decodeEBSP(pl[1:]), ts: ts, don: -1}
		if !unitsAre(us, []*nal{want}) {
			bad("a single unit packet does not give its unit:%s", describeNALs([]*nal{want}))
		}
		return
	}
	if want, ok := refAggregate(pl, ts); ok && !start && !unitsAre(us, want) {
		bad("an aggregate does not give its units:%s", describeNALs(want))
	}
}

// refAggregate takes a well-formed aggregation packet apart.
func refAggregate(pl []byte, ts uint32) (us []*nal, ok bool) {
	typ := pl[0] & 31
	b := pl[1:]
	don, extra := -1, 0
	switch typ {
	case 24:
	case 25, 26, 27:
		if len(b) < 2 {
			return nil, false
		}
		don = int(b[0])<<8 | int(b[1])
		b = b[2:]
		if typ > 25 {
			extra = 3 + int(typ-26)
		}
	default:
		return nil, false
	}
	for len(b) > 0 {
		if len(b) < 2+extra {
			return nil, false
		}
		sz := int(b[0])<<8 | int(b[1])
		n := &nal{ts: ts, don: -1}
		if typ == 25 {
			n.don = (don + len(us)) & 0xFFFF
		}
		if typ > 25 {
			n.don = (don + int(b[2])) & 0xFFFF
			off := uint32(0)
			for _, x := range b[3 : 2+extra] {
				off = off<<8 | uint32(x)
			}
			n.ts += off
		}
		b = b[2+extra:]
		if sz < 1 || sz > len(b) {
			return nil, false
		}
		n.hdr, n.rbsp = b[0], decodeEBSP(b[1:sz])
		us = append(us, n)
		b = b[sz:]
	}
	return us, true
}

// subsequence tells whether a can be had from b by leaving bytes out.
func subsequence(a, b []byte) bool {
	i := 0
	for _, x := range b {
		if i < len(a) && a[i] == x {
			i++
		}
	}
	return i == len(a)
}

// inside tells whether a piece is found in a packet.
func inside(p, raw []byte) bool { return len(p) <= len(raw) && bytes.Contains(raw, p) }

// refRTP decodes a packet per RFC 3550.
func refRTP(b []byte) (h *rtpParts, ok bool) {
	if len(b) < 12 || b[0]>>6 != 2 {
		return nil, false
	}
	h = &rtpParts{}
	off := 12
	for i := 0; i < int(b[0]&15); i++ {
		if len(b) < off+4 {
			return nil, false
		}
		h.csrc = append(h.csrc, u32(b[off:]))
		off += 4
	}
	if b[0]&0x10 != 0 {
		if len(b) < off+4 {
			return nil, false
		}
		h.xh, h.xl = uint16(b[off])<<8|uint16(b[off+1]), uint16(b[off+2])<<8|uint16(b[off+3])
		off += 4
		if len(b) < off+4*int(h.xl) {
			return nil, false
		}
		h.xd = b[off : off+4*int(h.xl)]
		off += 4 * int(h.xl)
	}
	end := len(b)
	if b[0]&0x20 != 0 {
		p := int(b[end-1])
		if p == 0 || p > end-off {
			return nil, false
		}
		end -= p
	}
	h.pl = b[off:end]
	return h, true
}

type rtpParts struct {
	csrc   []uint32
	xh, xl uint16
	xd, pl []byte
}

func u32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// loose tells in what the parts of a decoded packet contradict each other.
func loose(q *rtp.Packet) string {
	switch {
	case len(q.CSRC) != int(q.CC()):
		return fmt.Sprintf("it has %d contributing sources although %d are announced", len(q.CSRC), q.CC())
	case q.X() && len(q.XD) != 4*int(q.XL):
		return fmt.Sprintf("its extension has %d bytes although its length is %d words", len(q.XD), q.XL)
	}
	return ""
}

func diffRTP(q *rtp.Packet, h *rtpParts, b []byte) string {
	switch {
	case q.VPXCC != b[0] || q.MPT != b[1]:
		return "the first two bytes differ"
	case q.P() != (b[0]&0x20 != 0) || q.X() != (b[0]&0x10 != 0) || int(q.CC()) != int(b[0]&15):
		return "the padding, extension or source count bits differ"
	case q.M() != (b[1]&0x80 != 0) || q.PT() != b[1]&0x7F:
		return "the marker or the payload type differ"
	case q.SN != uint16(b[2])<<8|uint16(b[3]):
		return fmt.Sprintf("the sequence number is %d", q.SN)
	case q.TS != u32(b[4:]):
		return fmt.Sprintf("the timestamp is %d", q.TS)
	case q.SSRC != u32(b[8:]):
		return fmt.Sprintf("the source is %#x", q.SSRC)
	case len(q.CSRC) != len(h.csrc):
		return fmt.Sprintf("there are %d contributing sources", len(q.CSRC))
	case q.XH != h.xh || q.XL != h.xl || !bytes.Equal(q.XD, h.xd):
		return fmt.Sprintf("the extension is %#x, length %d, %x", q.XH, q.XL, clipB(q.XD, 40))
	case !bytes.Equal(q.PL, h.pl):
		return fmt.Sprintf("the payload is %d bytes %x instead of %d bytes", len(q.PL), clipB(q.PL, 60), len(h.pl))
	}
	for i := range h.csrc {
		if q.CSRC[i] != h.csrc[i] {
			return fmt.Sprintf("contributing source %d is %#x", i, q.CSRC[i])
		}
	}
	return ""
}

// takeRTCP checks an RTCP packet.
func (c *consumer) takeRTCP(p *mpkt) {
	r := c.r
	raw := append([]byte(nil), p.raw...)
	q, err := rtcp.Unpack(raw)
	c.r.W.Ev("unpacked-rtcp", c.s.name, len(raw), p.forged, err != nil)
	if err != nil {
		r.W.Count("probe.rtcp_rejected")
		r.Ok(p.forged != "", "valid-rejected", "a proper RTCP packet was rejected: %v; %x", err, clipB(raw, 80))
		return
	}
	if q == nil {
		r.Violate("no-packet", "decoding gave neither a packet nor an error; %x", clipB(raw, 80))
		return
	}
	if len(raw) < 4 {
		r.Violate("rtcp-beyond", "an RTCP packet of %d bytes was decoded", len(raw))
		return
	}
	bad := ""
	switch {
	case raw[0]>>6 != 2:
		bad = fmt.Sprintf("a packet of version %d was decoded", raw[0]>>6)
	case q.VPC != raw[0] || q.PT != raw[1] || q.LN != uint16(raw[2])<<8|uint16(raw[3]):
		bad = fmt.Sprintf("the header is %#x %d %d", q.VPC, q.PT, q.LN)
	case q.P() != (raw[0]&0x20 != 0) || q.C() != raw[0]&31:
		bad = "the padding bit or the count differ"
	}
	if s := q.DSR; bad == "" && s != nil {
		if len(raw) < 28 {
			r.Violate("rtcp-beyond", "sender information was decoded from %d bytes", len(raw))
			return
		}
		if s.SSRC != u32(raw[4:]) || s.NTPTS != uint64(u32(raw[8:]))<<32|uint64(u32(raw[12:])) || s.RTPTS != u32(raw[16:]) || s.PC != u32(raw[20:]) || s.OC != u32(raw[24:]) {
			bad = fmt.Sprintf("the sender information is %+v", *s)
		}
	}
	if bad == "" && p.forged == "" && p.rtcp != nil && q.DSR == nil {
		bad = "there is no sender information"
	}
	r.Ok(bad == "", "rtcp-differs", "stream %s (%s): %s; packet %x", c.s.name, p.forged, bad, clipB(raw, 120))
}

// drawRTCP draws a proper RTCP packet.
func drawRTCP(d *simrt.Decider, ssrc uint32) *mpkt {
	p := &mpkt{kind: "RTCP"}
	if d.Chance(2, 3) {
		s := &srInfo{c: byte(d.Weighted(4, 2, 1)), pt: 200, ssrc: ssrc, ntp: uint64(d.U32())<<32 | uint64(d.U32()), rtpts: d.U32(), pc: d.U32(), oc: d.U32()}
		if d.Chance(1, 8) {
			s.c = 31
		}
		b := []byte{0x80 | s.c, 200}
		b = put16(b, uint16(6+6*int(s.c)))
		b = put32(b, s.ssrc)
		b = put32(b, uint32(s.ntp>>32))
		b = put32(b, uint32(s.ntp))
		b = put32(b, s.rtpts)
		b = put32(b, s.pc)
		b = put32(b, s.oc)
		rb := make([]byte, 24*int(s.c))
		NewF(d).Fill(rb)
		p.raw, p.rtcp = append(b, rb...), s
	} else {
		n := d.Intn(8)
		b := []byte{0x80 | byte(d.Intn(2)), byte(201 + d.Intn(4))}
		b = put16(b, uint16(n))
		rb := make([]byte, 4*n)
		NewF(d).Fill(rb)
		p.raw = append(b, rb...)
	}
	if d.Chance(1, 3) {
		// Compound: another packet follows.
		p.raw = append(p.raw, 0x81, 202, 0, 2, 1, 2, 3, 4, 1, 3, 'a', 'b')
	}
	return p
}

// forge makes a bad packet, mostly out of a good one.
func forge(d *simrt.Decider, s *mstream, src *mpkt) *mpkt {
	p := &mpkt{kind: src.kind, hdr: src.hdr}
	b := append([]byte(nil), src.raw...)
	plain := rtpHdr{pt: s.pt, sn: uint16(d.Intn(65536)), ts: src.hdr.ts, ssrc: s.ssrc}
	if src.kind == "RTCP" {
		switch d.Intn(3) {
		case 0:
			p.forged, b = "truncated", b[:d.Intn(len(b)+1)]
		case 1:
			p.forged, b = "flipped", flipBytes(d, b)
		case 2:
			p.forged = "count"
			b[0] = b[0]&0xE0 | byte(d.Intn(32))
		}
		p.raw = b
		return p
	}
	switch d.Weighted(4, 3, 2, 2, 5, 3, 2, 2, 2, 1) {
	case 9:
		p.forged = "extension length"
		h := plain
		h.x, h.xd = true, make([]byte, 4*d.Intn(3))
		b = h.pack(src.pl)
		b[14], b[15] = simrt.Pick(d, byte(0x40), byte(0x80), byte(0xC0), byte(0xFF), byte(1), byte(d.Intn(256))), simrt.Pick(d, byte(0), byte(1), byte(len(h.xd)/4), byte(255))
	case 0:
		p.forged, b = "truncated", b[:d.Intn(len(b)+1)]
	case 1:
		p.forged, b = "flipped", flipBytes(d, b)
	case 2:
		p.forged = "header bits"
		if len(b) > 0 {
			b[0] = byte(d.Intn(256))
			if d.Chance(3, 4) {
				b[0] = b[0]&0x3F | 0x80
			}
		}
	case 3:
		p.forged = "padding"
		b[0] |= 0x20
		b[len(b)-1] = simrt.Pick(d, byte(0), byte(255), byte(len(src.pl)), byte(len(src.pl)+1), byte(len(b)), byte(d.Intn(256)))
	case 4:
		p.forged = "lengths"
		typ := byte(24 + d.Intn(4))
		pl := []byte{typ}
		if typ > 24 {
			pl = put16(pl, uint16(d.Intn(65536)))
		}
		for k := d.Range(1, 4); k > 0; k-- {
			n := d.Intn(12)
			sz := n
			if d.Chance(1, 2) {
				sz = simrt.Pick(d, 0, n+1, 65535, n+d.Intn(20), 1)
			}
			pl = put16(pl, uint16(sz))
			if typ > 25 {
				pl = append(pl, make([]byte, int(typ)-23)...)
			}
			f := make([]byte, n)
			NewF(d).Fill(f)
			pl = append(pl, f...)
		}
		if d.Chance(1, 2) {
			pl = pl[:d.Intn(len(pl)+1)]
		}
		b = plain.pack(pl)
	case 5:
		p.forged = "payload cut"
		pl := append([]byte(nil), src.pl...)
		pl = pl[:d.Intn(len(pl)+1)]
		if d.Chance(1, 2) && len(pl) > 6 {
			pl = pl[:d.Intn(6)]
		}
		b = plain.pack(pl)
	case 6:
		p.forged = "odd type"
		pl := []byte{byte(d.Intn(4))<<5 | simrt.Pick(d, byte(0), byte(30), byte(31), byte(28), byte(29))}
		if d.Chance(1, 3) {
			pl[0] |= 0x80
		}
		f := make([]byte, d.Intn(6))
		NewF(d).Fill(f)
		b = plain.pack(append(pl, f...))
	case 7:
		p.forged = "byte stream"
		var pl []byte
		for k := d.Range(1, 4); k > 0; k-- {
			pl = append(pl, make([]byte, d.Intn(2))...)
			pl = append(pl, 0, 0, 1)
			f := make([]byte, d.Intn(8))
			NewF(d).Fill(f)
			if len(f) > 0 {
				f[0] = simrt.Pick(d, byte(24), byte(25), byte(26), byte(27), byte(28), byte(29), byte(5), byte(0))
			}
			if len(f) > 1 && d.Chance(1, 2) {
				f[1] = simrt.Pick(d, byte(0x85), byte(0x45), byte(5), byte(0))
			}
			pl = append(pl, f...)
		}
		b = plain.pack(pl)
	case 8:
		p.forged = "noise"
		b = make([]byte, d.Intn(40))
		NewF(d).Fill(b)
		if len(b) > 0 && d.Chance(2, 3) {
			b[0] = b[0]&0x3F | 0x80
		}
	}
	p.raw = b
	return p
}

func runC15(r *Run) {
	cfg := r.Sched(50*ms, false)
	cfg.Limit = 3600 * sec
	w := r.World(cfg)
	d := r.D
	mode := d.Weighted(10, 1, 1)
	s := drawStreamE(d, "s", d.Range(2, 20), true, d.Chance(1, 2))
	c := newConsumer(r, s)
	c.twin = h264.NewNALSink()
	c.ref = fuRef{}
	// The stream with RTCP and bad packets among it; some replace the packet they are made of.
	var all []*mpkt
	pct := simrt.Pick(d, 5, 20, 50)
	bad := 0
	for _, p := range s.pkts {
		if d.Chance(1, 6) {
			all = append(all, drawRTCP(d, s.ssrc))
		}
		for d.Chance(pct, 100) {
			src := p
			if d.Chance(1, 4) {
				src = drawRTCP(d, s.ssrc)
			}
			f := forge(d, s, src)
			bad++
			w.Count("fault.packet_" + map[string]string{"truncated": "truncated", "flipped": "corrupted", "payload cut": "truncated"}[f.forged] + map[bool]string{true: "", false: "forged"}[f.forged == "truncated" || f.forged == "flipped" || f.forged == "payload cut"])
			all = append(all, f)
			if len(all) > 200 {
				break
			}
		}
		if d.Chance(pct, 400) {
			w.Count("fault.packet_lost")
			continue
		}
		all = append(all, p)
	}
	gap := simrt.Pick(d, 0, 1*ms, 20*ms)
	r.Desc = fmt.Sprintf("mode %d, %d packets, %d bad", mode, len(all), bad)
	r.NonTriv = bad > 0
	if mode == 0 {
		l := &mlink{w: w}
		k := 0
		var step func()
		step = func() {
			for n := 1 + d.Intn(4); n > 0 && k < len(all); n-- {
				l.arrive(all[k])
				k++
			}
			if k < len(all) {
				w.At(int64(d.Intn(8))*gap/7, step)
			} else {
				l.done = true
			}
		}
		w.At(0, step)
		n := 0
		running := 1
		w.Spawn("consumer", false, func() {
			defer func() { running-- }()
			for p := l.next(); p != nil; p = l.next() {
				c.take15(p)
				n++
			}
		})
		r.runWhile(&running)
	} else {
		sent := false
		k := 0
		got := 0
		proto := []int{0, rtsp.ProtoTCP, rtsp.ProtoUnicast}[mode]
		path := &UDPPath{Raw: true}
		r.viaSession(proto, func(cc *CamConn) {
			m := cc.Cam.Videos()[0]
			var step func()
			step = func() {
				for n := 1 + d.Intn(4); n > 0 && k < len(all) && !cc.Closed; n-- {
					p := all[k]
					k++
					if mode == 1 {
						ch := m.Ch
						if p.kind == "RTCP" {
							ch++
						}
						cc.SendPkt(ch, p.raw)
					} else {
						cc.SendUDP(path, m, 0, append([]byte(nil), p.raw...))
					}
				}
				if k < len(all) {
					w.At(int64(d.Intn(8))*gap/7, step)
				} else {
					sent = true
				}
			}
			step()
		}, func(g *Got) {
			if got >= len(all) || !bytes.Equal(g.B, all[got].raw) {
				w.Stop() // C02's and C12's business
				return
			}
			got++
			c.take15(all[got-1])
		}, func() bool { return sent })
	}
	if w.Stopped() {
		return
	}
	w.Counts["work.packets"] += int64(len(all))
}
