package main

import (
	"fmt"
	"math"
	"net/url"
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/net/hls"

	"verif/simrt"
)

func init() {
	register(&Prop{ID: "C16", Title: "The playlist is always the latest window of segments", Quick: 250000, Thorough: 15000000, Run: runC16,
		Rule: "A run counts as non-trivial if the ring went round at least once.",
		Real: "net/hls: the current source of /repo, instrumented", Stub: "simulated: scheduler, clock, recorder and viewer tasks"})
}

var plURIs = []struct{ uri, name, want string }{
	{"http://server.test/live", "/var/media/stream.ts", "http://server.test/live/stream.ts"},
	{"http://server.test/live/", "stream.ts", "http://server.test/live/stream.ts"},
	{"http://server.test:8080", "/a/b.c/cam1.mp4", "http://server.test:8080/cam1.mp4"},
	{"https://u@server.test/a/b?t=1", "x.ts", "https://u@server.test/a/b/x.ts?t=1"},
	{"/media", "/tmp/x.ts", "/media/x.ts"},
	// Names that a URI cannot hold as they are.
	{"http://server.test/live", "/var/media/front door #2.ts", "http://server.test/live/front%20door%20%232.ts"},
	{"http://server.test/live%20tv/", "50%25.ts", "http://server.test/live%20tv/50%2525.ts"},
	{"http://server.test/live?k=a%20b", "porte d'entr\u00e9e?.ts", "http://server.test/live/porte%20d'entr%C3%A9e%3F.ts?k=a%20b"},
}

// sameURI tells whether two URIs mean the same, whatever is escaped in them without need.
func sameURI(a, b string) bool {
	if strings.ContainsAny(a, " \t") {
		return false
	}
	x, err := url.Parse(a)
	y, err2 := url.Parse(b)
	return err == nil && err2 == nil && x.Scheme == y.Scheme && x.User.String() == y.User.String() && x.Host == y.Host &&
		x.Path == y.Path && x.RawQuery == y.RawQuery && x.Fragment == y.Fragment
}

type seg struct {
	dur float64
	n   int64
	pos int64
	uri string
}

// parsePlaylist reads a media playlist.
func parsePlaylist(s string) (segs []seg, bad string) {
	if !strings.HasPrefix(s, "#EXTM3U\n") {
		return nil, "it does not begin with #EXTM3U"
	}
	cur := seg{dur: -1, pos: -1, n: -1}
	for _, l := range strings.Split(s, "\n") {
		switch {
		case strings.HasPrefix(l, "#EXTINF:"):
			v := l[8:]
			if i := strings.IndexByte(v, ','); i >= 0 {
				v = v[:i]
			}
			f, err := strconv.ParseFloat(v, 64)
			if err != nil || cur.dur >= 0 || strings.Trim(v, "0123456789.") != "" {
				return nil, fmt.Sprintf("line %q is out of place", l)
			}
			cur.dur = f
		case strings.HasPrefix(l, "#EXT-X-BYTERANGE:"):
			a, b, ok := strings.Cut(l[17:], "@")
			n, e1 := strconv.ParseInt(a, 10, 64)
			p, e2 := strconv.ParseInt(b, 10, 64)
			if !ok || e1 != nil || e2 != nil || cur.pos >= 0 {
				return nil, fmt.Sprintf("line %q is out of place", l)
			}
			cur.n, cur.pos = n, p
		case strings.HasPrefix(l, "#") || strings.TrimSpace(l) == "":
		default:
			if cur.dur < 0 || cur.pos < 0 {
				return nil, fmt.Sprintf("URI %q lacks duration or byte range", l)
			}
			cur.uri = strings.TrimSpace(l)
			segs = append(segs, cur)
			cur = seg{dur: -1, pos: -1, n: -1}
		}
	}
	if cur.dur >= 0 || cur.pos >= 0 {
		return nil, "the last segment lacks its URI"
	}
	return segs, ""
}

func runC16(r *Run) {
	cfg := r.Sched(50*ms, false)
	if r.D.Chance(1, 2) {
		cfg.PreemptPct, cfg.PreemptSpan = 60, 25
	}
	cfg.Limit = 24 * 3600 * sec
	w := r.World(cfg)
	d := r.D
	np := 1 + d.Weighted(4, 1)
	running := 0
	wrapped := false
	for pi := 0; pi < np; pi++ {
		name := fmt.Sprintf("list%d", pi)
		u := plURIs[d.Intn(len(plURIs))]
		ring := simrt.Pick(d, 1, 2, 3, 5, 5, 8, 20)
		if d.Chance(1, 20) {
			ring = d.Range(21, 300)
		}
		total := d.Range(1, 4*ring+3)
		if total > 400 {
			total = 400
		}
		wrapped = wrapped || total > ring
		r.Desc += fmt.Sprintf("ring %d, %d segments; ", ring, total)
		pl, err := hls.NewPlaylist(u.uri, u.name, ring, 5)
		if err != nil || pl == nil {
			r.Violate("no-playlist", "NewPlaylist(%q, %q, %d) failed: %v", u.uri, u.name, ring, err)
			return
		}
		var segs []seg // as added
		begun, ended := 0, 0
		done := false
		gap := simrt.Pick(d, 0, 1*ms, 5*sec)
		big := d.Chance(1, 4)
		running++
		w.Spawn(name+"-recorder", false, func() {
			defer func() { running-- }()
			pos := int64(0)
			for i := 0; i < total; i++ {
				w.Sleep(int64(d.Intn(8))*gap/7, "recording")
				s := seg{pos: pos, uri: u.want}
				switch d.Intn(5) {
				case 4:
					s.dur = float64(d.Range(1, 1080000)) / 90000
				case 0:
					s.dur = float64(d.Range(1, 12))
				case 1:
					s.dur = float64(d.Range(1, 12000)) / 1000
				case 2:
					s.dur = float64(d.Range(1, 12000000)) / 1000000
				case 3:
					s.dur = simrt.Pick(d, 5.005, 5.005, 5.005, 1.0/90000, 3.0/90000, 1000000, 12345678.9)
				}
				s.n = int64(d.Range(0, 5000000))
				if big {
					s.n = int64(d.U32()) * int64(1+d.Intn(1000))
				}
				pos += s.n
				segs = append(segs, s)
				begun++
				w.Ev("add", name, i, s.n)
				pl.AddSegment(s.dur, s.n)
				ended++
				w.Ev("added", name, i)
			}
			done = true
		})
		lastSeen := 0 // the newest state any completed fetch has shown
		check := func(who string, txt string, lo, hi int) int {
			got, bad := parsePlaylist(txt)
			if bad != "" {
				r.Violate("playlist-malformed", "%s of %s: %s; %q", who, name, bad, txt)
				return -1
			}
			why := ""
			for n := lo; n <= hi; n++ { // the earliest that fits
				from := n - ring
				if from < 0 {
					from = 0
				}
				want := segs[from:n]
				m := ""
				if len(got) != len(want) {
					m = fmt.Sprintf("%d segments instead of %d", len(got), len(want))
				}
				for i := 0; m == "" && i < len(want); i++ {
					g, x := got[i], want[i]
					switch {
					case math.Abs(g.dur-x.dur) > 1e-9*math.Max(1, x.dur):
						m = fmt.Sprintf("entry %d has duration %v instead of %v", i, g.dur, x.dur)
					case g.n != x.n || g.pos != x.pos:
						m = fmt.Sprintf("entry %d has bytes %d@%d instead of %d@%d", i, g.n, g.pos, x.n, x.pos)
					case !sameURI(g.uri, x.uri):
						m = fmt.Sprintf("entry %d has URI %q instead of %q", i, g.uri, x.uri)
					}
				}
				if m == "" {
					return n
				}
				if n == hi {
					why = fmt.Sprintf("for %d segments: %s", n, m)
				}
			}
			r.Violate("playlist-wrong", "%s of %s (ring %d) while %d to %d segments had been added shows none of those states (%s): %q", who, name, ring, lo, hi, why, txt)
			return -1
		}
		fetch := func(who string) bool {
			lo, seen := ended, lastSeen
			w.Ev("fetch", name, who)
			txt := pl.String()
			hi := begun
			w.Ev("fetched", name, who, len(txt))
			w.Count("work.fetches")
			if seen > lo {
				lo = seen // another fetch had shown it before this one began
			}
			n := check("a fetch by "+who, txt, lo, hi)
			if n < 0 {
				return false
			}
			if n > lastSeen {
				lastSeen = n
			}
			return true
		}
		nv := d.Range(1, 4)
		for v := 0; v < nv; v++ {
			who := fmt.Sprintf("viewer%d", v)
			vgap := simrt.Pick(d, 0, gap/2, gap, 3*gap)
			left := d.Range(1, 40)
			running++
			w.Spawn(name+"-"+who, false, func() {
				defer func() { running-- }()
				for ; left > 0; left-- {
					if !fetch(who) {
						return
					}
					w.Sleep(int64(d.Intn(8))*vgap/7, "watching")
				}
				for !done {
					w.Sleep(1*ms+gap, "watching")
				}
				fetch(who)
				fetch(who)
			})
		}
	}
	for i := 0; i < 100000 && running > 0 && !w.Stopped(); i++ {
		w.RunFor(1 * sec)
	}
	if w.Stopped() {
		return
	}
	if running > 0 {
		r.Violate("stuck", "adding to or fetching a playlist does not end")
		return
	}
	r.NonTriv = wrapped
}
