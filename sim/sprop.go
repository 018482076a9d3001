package main

import (
	"encoding/base64"
	"strings"

	"verif/simrt"
)

// bitw writes bit strings as parameter sets are made of.
type bitw struct {
	b []byte
	n uint
}

func (w *bitw) u(bits uint, v uint64) {
	for ; bits > 0; bits-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>(bits-1)&1 != 0 {
			w.b[w.n/8] |= 0x80 >> (w.n % 8)
		}
		w.n++
	}
}

func (w *bitw) ue(v uint64) {
	v++
	n := uint(0)
	for v>>n > 1 {
		n++
	}
	w.u(n, 0)
	w.u(n+1, v)
}

func (w *bitw) se(v int64) {
	if v > 0 {
		w.ue(uint64(2*v - 1))
	} else {
		w.ue(uint64(-2 * v))
	}
}

func (w *bitw) trailing() []byte {
	w.u(1, 1)
	for w.n%8 != 0 {
		w.u(1, 0)
	}
	return w.b
}

// scalingLists writes the lists of a parameter set.
func (w *bitw) scalingLists(d *simrt.Decider, n int) {
	for i := 0; i < n; i++ {
		if !d.Chance(1, 3) {
			w.u(1, 0)
			continue
		}
		w.u(1, 1)
		size := 16
		if i >= 6 {
			size = 64
		}
		switch d.Intn(3) {
		case 0: // use the default
			w.se(-8)
		case 1: // flat from here on
			w.se(int64(d.Intn(20)))
			for j := 1; j < size; j++ {
				w.se(0)
			}
		case 2: // an early end
			w.se(4)
			w.se(-12)
		}
	}
}

// drawSPS draws a sequence parameter set as an encoder may send.
func drawSPS(d *simrt.Decider, id uint64) []byte {
	w := &bitw{}
	w.u(8, 0x67)
	prof := simrt.Pick(d, uint64(66), 77, 88, 100, 110, 122, 244)
	w.u(8, prof)
	w.u(8, uint64(d.Intn(4))<<6)
	w.u(8, simrt.Pick(d, uint64(10), 31, 41, 51))
	w.ue(id)
	if prof >= 100 {
		cf := uint64(1)
		if prof != 100 {
			cf = uint64(d.Intn(4))
		}
		w.ue(cf)
		n := 8
		if cf == 3 {
			w.u(1, 0)
			n = 12
		}
		w.ue(0)
		w.ue(0)
		w.u(1, 0)
		if d.Chance(1, 3) {
			w.u(1, 1)
			w.scalingLists(d, n)
		} else {
			w.u(1, 0)
		}
	}
	w.ue(uint64(d.Intn(13)))
	switch poc := d.Intn(3); poc {
	case 0:
		w.ue(0)
		w.ue(uint64(d.Intn(13)))
	case 1:
		w.ue(1)
		w.u(1, 0)
		w.se(-3)
		w.se(2)
		n := d.Intn(4)
		w.ue(uint64(n))
		for ; n > 0; n-- {
			w.se(int64(d.Intn(9)) - 4)
		}
	case 2:
		w.ue(2)
	}
	w.ue(uint64(d.Intn(17)))
	w.u(1, 0)
	w.ue(uint64(d.Intn(240)))
	w.ue(uint64(d.Intn(135)))
	if d.Chance(2, 3) {
		w.u(1, 1)
	} else { // interlaced
		w.u(1, 0)
		w.u(1, uint64(d.Intn(2)))
	}
	w.u(1, 1)
	if d.Chance(1, 3) {
		w.u(1, 1)
		for i := 0; i < 4; i++ {
			w.ue(uint64(d.Intn(8)))
		}
	} else {
		w.u(1, 0)
	}
	w.u(1, 0)
	return escapeEmu(w.trailing())
}

// drawPPS draws a picture parameter set.
func drawPPS(d *simrt.Decider, id, sps uint64) []byte {
	w := &bitw{}
	w.u(8, 0x68)
	w.ue(id)
	w.ue(sps)
	w.u(1, uint64(d.Intn(2)))
	w.u(1, 0)
	if d.Chance(1, 3) {
		drawGroups(d, w, 1+uint64(d.Intn(7)), uint64(d.Intn(7)), uint64(d.Intn(60)))
	} else {
		w.ue(0)
	}
	w.ue(uint64(d.Intn(3)))
	w.ue(0)
	w.u(1, uint64(d.Intn(2)))
	w.u(2, uint64(d.Intn(3)))
	w.se(int64(d.Intn(52)) - 26)
	w.se(0)
	w.se(int64(d.Intn(25)) - 12)
	w.u(3, uint64(d.Intn(8)))
	if d.Chance(1, 3) { // the optional part
		t8 := uint64(d.Intn(2))
		w.u(1, t8)
		if d.Chance(1, 3) {
			w.u(1, 1)
			w.scalingLists(d, 6+2*int(t8))
		} else {
			w.u(1, 0)
		}
		w.se(int64(d.Intn(5)) - 2)
	}
	b := escapeEmu(w.trailing())
	if d.Chance(1, 8) {
		b = append(b, 0)
	}
	return b
}

// drawGroups writes slice groups; n and size need not be possible.
func drawGroups(d *simrt.Decider, w *bitw, n, typ, size uint64) {
	w.ue(n)
	w.ue(typ)
	k := n
	if k > 300 {
		k = 300
	}
	switch typ {
	case 0:
		for i := uint64(0); i <= k; i++ {
			w.ue(uint64(d.Intn(30)))
		}
	case 2:
		for i := uint64(0); i < k; i++ {
			w.ue(uint64(d.Intn(30)))
			w.ue(uint64(d.Intn(30)))
		}
	case 3, 4, 5:
		w.u(1, uint64(d.Intn(2)))
		w.ue(uint64(d.Intn(30)))
	case 6:
		w.ue(size)
		bits := uint(0)
		for 1<<bits < n+1 && bits < 8 {
			bits++
		}
		if size > 300 {
			size = 300
		}
		for i := uint64(0); i <= size; i++ {
			w.u(bits, uint64(d.Intn(int(k)+1)))
		}
	}
}

// escapeEmu adds emulation prevention bytes.
func escapeEmu(b []byte) []byte {
	var o []byte
	z := 0
	for _, x := range b {
		if z >= 2 && x <= 3 {
			o = append(o, 3)
			z = 0
		}
		o = append(o, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return o
}

// drawSprop draws a sprop-parameter-sets value a camera may well send: proper
// sets, and now and then sets beyond what anybody can parse.
func drawSprop(d *simrt.Decider) string {
	var l []string
	for k := d.Intn(3); k >= 0; k-- {
		id := uint64(d.Intn(3))
		l = append(l, base64.StdEncoding.EncodeToString(drawSPS(d, id)), base64.StdEncoding.EncodeToString(drawPPS(d, uint64(d.Intn(4)), id)))
	}
	switch d.Weighted(6, 1, 1, 1, 1) {
	case 1: // a set cut short
		s := drawSPS(d, 0)
		l = append(l, base64.StdEncoding.EncodeToString(s[:1+d.Intn(len(s))]))
	case 2: // not base64
		l = append([]string{"%%%"}, l...)
	case 3: // no padding
		l[len(l)-1] = strings.TrimRight(l[len(l)-1], "=")
	case 4: // units that are no parameter sets
		l = append(l, base64.StdEncoding.EncodeToString([]byte{0x06, 5, 1, 0, 0x80}))
	}
	return strings.Join(l, ",")
}

// impossibleSet draws parameter sets with values no standard allows.
func impossibleSet(d *simrt.Decider) []byte {
	w := &bitw{}
	big := func() uint64 {
		return simrt.Pick(d, uint64(8), 9, 31, 255, 1000, 65535, 1<<24, 1<<28, 1<<31-1, 1<<32-2)
	}
	if d.Chance(3, 5) {
		w.u(8, 0x68)
		w.ue(simrt.Pick(d, uint64(0), 1, 300))
		w.ue(0)
		w.u(2, 0)
		n := uint64(1 + d.Intn(7))
		size := uint64(d.Intn(40))
		switch d.Intn(5) {
		case 0, 1:
			n = big()
		case 2:
			n = 8 // one group too many
		default:
			size = big()
		}
		drawGroups(d, w, n, simrt.Pick(d, uint64(0), 2, 6, 6, uint64(d.Intn(9))), size)
		for k := d.Intn(30); k > 0; k-- {
			w.ue(uint64(d.Intn(4)))
		}
		return w.trailing()
	}
	w.u(8, 0x67)
	w.u(8, simrt.Pick(d, uint64(66), 100, 244))
	w.u(16, 41)
	w.ue(0)
	for k := 2 + d.Intn(30); k > 0; k-- {
		if d.Chance(1, 6) {
			w.ue(big())
		} else {
			w.ue(uint64(d.Intn(3)))
		}
	}
	return w.trailing()
}
