// sim searches simulated runs of ouro for violations of one property.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/simrt"
)

// Replay is a violation that can be run again.
type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Detail   string   `json:"detail"`
	Seed     int64    `json:"verif_seed"`
	Index    int      `json:"run_index"`
	RunSeed  uint64   `json:"run_seed"`
	BySeed   bool     `json:"by_seed,omitempty"` // replay from the seed, not from the choices
	Choices  []uint32 `json:"choices"`
	Original int      `json:"choices_before_minimising"`
	Tries    int      `json:"minimising_runs"`
	Desc     string   `json:"scenario"`
	Trace    []string `json:"trace"`
}

type workerOut struct {
	Runs    int
	Capped  bool
	NonTriv int
	SimNs   int64
	Steps   int64
	Counts  map[string]int64
	Fail    *Replay
	Samples []string
	Check   map[int]uint64 // run index -> trace hash, for the determinism check
}

// stdout is the check's own output; what the code under test prints goes nowhere.
var stdout = os.Stdout

func printf(f string, a ...any) { fmt.Fprintf(stdout, f, a...) }

// oneLine makes text printable on one line.
func oneLine(s string) string {
	return strings.NewReplacer("\r", "\\r", "\n", "\\n").Replace(s)
}

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func main() {
	mode := flag.String("mode", "check", "check, worker, replay or one")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "VERIF_SEED")
	worker := flag.Int("worker", 0, "")
	workers := flag.Int("workers", 0, "")
	out := flag.String("out", "", "")
	file := flag.String("file", "", "replay file")
	verif := flag.String("verif", "/verif", "")
	runs := flag.Int("runs", 0, "override the number of runs")
	index := flag.Int("index", 0, "run index (mode one)")
	only := flag.Bool("only", false, "worker: run only -index")
	wall := flag.Int("wall", 0, "seconds after which no new run is begun")
	keep := flag.Bool("trace", false, "print the trace (mode one, replay)")
	flag.Parse()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	p := props[*prop]
	if p == nil && *mode != "replay" && *mode != "list" {
		fatal(2, "unknown property %q", *prop)
	}
	switch *mode {
	case "list":
		for id := range props {
			printf("%s\n", id)
		}
	case "worker":
		runWorker(p, *seed, *worker, *workers, *runs, *wall, *out, *only, *index)
	case "one":
		res := runOnce(p, simrt.NewDecider(runSeed(*seed, p.ID, *index)), *keep)
		if *keep {
			printf("%s\n", oneLines(res.Trace))
		}
		printf("hash %x sched %x simulated %s choices %d tasks %d desc %s\n", res.Hash, res.Sched, fmtDur(res.SimNs), len(res.Choices), res.Tasks, res.Desc)
		if res.Fail != nil {
			printf("FAIL %s: %s\n", res.Fail.Class, res.Fail.Detail)
			os.Exit(1)
		}
	case "replay":
		os.Exit(replayFile(*file, *keep))
	case "check":
		os.Exit(check(p, *tier, *seed, *verif, *runs))
	}
}

func replayFile(file string, print bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(2, "%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal(2, "%v", err)
	}
	p := props[rp.Property]
	if p == nil {
		fatal(2, "unknown property %q", rp.Property)
	}
	d := simrt.ReplayDecider(rp.Choices)
	if rp.BySeed {
		d = simrt.NewDecider(rp.RunSeed)
	}
	res := runOnce(p, d, true)
	if print {
		printf("%s\n", oneLines(res.Trace))
	}
	if res.Fail == nil {
		printf("replay: no violation\n")
		return 0
	}
	printf("replay: %s: %s\n", res.Fail.Class, res.Fail.Detail)
	if res.Fail.Class != rp.Class {
		printf("replay: class differs from recorded %s\n", rp.Class)
		return 3
	}
	return 1
}

func runWorker(p *Prop, seed int64, id, n, runs, wall int, out string, only bool, index int) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(1500 << 20)
	st, err := os.OpenFile(out+".status", os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fatal(2, "%v", err)
	}
	hf, err := os.Create(out + ".hashes")
	if err != nil {
		fatal(2, "%v", err)
	}
	var hbuf []byte
	wo := &workerOut{Counts: map[string]int64{}, Check: map[int]uint64{}}
	start := time.Now()
	exec1 := func(idx int) *Result {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(idx)+1)
		st.WriteAt(b[:], 0)
		return runOnce(p, simrt.NewDecider(runSeed(seed, p.ID, idx)), false)
	}
	fail := func(idx int, res *Result) {
		wo.Fail = &Replay{Property: p.ID, Class: res.Fail.Class, Detail: res.Fail.Detail, Seed: seed, Index: idx,
			RunSeed: runSeed(seed, p.ID, idx), Choices: res.Choices, Desc: res.Desc}
	}
	if only {
		if res := exec1(index); res.Fail != nil {
			fail(index, res)
		}
	} else {
		// Some runs of the next worker are repeated here: same seed, other
		// process, other history; the traces must be the same.
		for k := 0; k < 4; k++ {
			idx := (id+1)%n + k*n
			if idx < runs {
				wo.Check[idx] = exec1(idx).Hash
			}
		}
		for idx := id; idx < runs; idx += n {
			if wall > 0 && time.Since(start) > time.Duration(wall)*time.Second {
				wo.Capped = true
				break
			}
			res := exec1(idx)
			if idx/n < 4 {
				wo.Check[-1-idx] = res.Hash
			}
			wo.Runs++
			wo.SimNs += res.SimNs
			for k, v := range res.Counts {
				if strings.HasPrefix(k, "max.") {
					if v > wo.Counts[k] {
						wo.Counts[k] = v
					}
					continue
				}
				wo.Counts[k] += v
				if v > 0 && (strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "probe.")) {
					wo.Counts["runs-with:"+k]++
				}
			}
			if res.NonTriv {
				wo.NonTriv++
				hbuf = binary.LittleEndian.AppendUint64(hbuf, res.Hash)
				hbuf = binary.LittleEndian.AppendUint64(hbuf, res.Sched)
			}
			if len(wo.Samples) < 1 && res.NonTriv && res.Fail == nil && idx >= n {
				r2 := runOnce(p, simrt.NewDecider(runSeed(seed, p.ID, idx)), true)
				tr := r2.Trace
				if len(tr) > 60 {
					tr = append(append([]string{}, tr[:40]...), append([]string{fmt.Sprintf("... %d more events ...", len(tr)-60)}, tr[len(tr)-20:]...)...)
				}
				wo.Samples = append(wo.Samples, fmt.Sprintf("run %d (%s): ", idx, r2.Desc)+strings.Join(tr, " | "))
			}
			if res.Fail != nil {
				fail(idx, res)
				break
			}
		}
	}
	hf.Write(hbuf)
	hf.Close()
	b, _ := json.Marshal(wo)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fatal(2, "%v", err)
	}
}

func oneLines(t []string) string {
	var b strings.Builder
	for _, l := range t {
		b.WriteString(oneLine(l) + "\n")
	}
	return b.String()
}

type workerProc struct {
	id   int
	cmd  *exec.Cmd
	out  string
	done chan error
	err  error
	errb *strings.Builder
	idx  int64
	at   time.Time
}

func startWorker(p *Prop, seed int64, id, n, runs, wall int, dir string, extra ...string) *workerProc {
	out := filepath.Join(dir, fmt.Sprintf("w%d.json", id))
	args := []string{"-mode=worker", "-prop=" + p.ID, fmt.Sprintf("-seed=%d", seed), fmt.Sprintf("-worker=%d", id), fmt.Sprintf("-workers=%d", n),
		fmt.Sprintf("-runs=%d", runs), fmt.Sprintf("-wall=%d", wall), "-out=" + out}
	args = append(args, extra...)
	exe, _ := os.Executable()
	c := exec.Command(exe, args...)
	var eb strings.Builder
	c.Stderr = &limitedWriter{b: &eb, n: 64 << 10}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w := &workerProc{id: id, cmd: c, out: out, done: make(chan error, 1), errb: &eb, at: time.Now()}
	if err := c.Start(); err != nil {
		fatal(2, "%v", err)
	}
	go func() { w.done <- c.Wait() }()
	return w
}

type limitedWriter struct {
	b *strings.Builder
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func (w *workerProc) status() int64 {
	b, err := os.ReadFile(w.out + ".status")
	if err != nil || len(b) < 8 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b)) - 1
}

const hangLimit = 90 * time.Second

// wait waits for a worker; it kills one that makes no progress.
func (w *workerProc) poll() (ended bool) {
	select {
	case w.err = <-w.done:
		return true
	default:
	}
	if s := w.status(); s != w.idx {
		w.idx, w.at = s, time.Now()
	} else if time.Since(w.at) > hangLimit {
		w.cmd.Process.Kill()
		w.err = <-w.done
		w.err = fmt.Errorf("hung in run %d", s)
		return true
	}
	return false
}

func check(p *Prop, tier string, seed int64, verif string, override int) int {
	t0 := time.Now()
	runs, wall := p.Quick, 60
	if tier == "thorough" {
		runs, wall = p.Thorough, 780
	}
	if override > 0 {
		runs = override
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if runs < n {
		n = 1
	}
	dir, err := os.MkdirTemp("", "ouro-sim-")
	if err != nil {
		fatal(2, "%v", err)
	}
	defer os.RemoveAll(dir)
	printf("%s: %d runs, VERIF_SEED=%d, %d workers\n", p.ID, runs, seed, n)
	var ws []*workerProc
	for i := 0; i < n; i++ {
		ws = append(ws, startWorker(p, seed, i, n, runs, wall, dir))
	}
	tot := &workerOut{Counts: map[string]int64{}}
	var fails []*Replay
	var broken string
	checks := map[int][]uint64{}
	live := n
	ended := make([]bool, n)
	var failAt time.Time
	for live > 0 {
		time.Sleep(10 * time.Millisecond)
		for i, w := range ws {
			if ended[i] || !w.poll() {
				continue
			}
			ended[i] = true
			live--
			b, rerr := os.ReadFile(w.out)
			if w.err != nil || rerr != nil {
				if len(fails) > 0 {
					continue
				}
				// The process died: run that seed alone to see whether the code does it.
				idx := w.status()
				msg := w.err
				rp := confirmDeath(p, seed, int(idx), dir)
				if rp == nil {
					broken = fmt.Sprintf("worker %d ended with %v at run %d and did not do so again\n%s", i, msg, idx, clip(w.errb.String(), 3000))
					continue
				}
				fails = append(fails, rp)
				failAt = time.Now()
				continue
			}
			var wo workerOut
			if err := json.Unmarshal(b, &wo); err != nil {
				broken = err.Error()
				continue
			}
			tot.Runs += wo.Runs
			tot.NonTriv += wo.NonTriv
			tot.SimNs += wo.SimNs
			tot.Capped = tot.Capped || wo.Capped
			for k, v := range wo.Counts {
				if strings.HasPrefix(k, "max.") {
					if v > tot.Counts[k] {
						tot.Counts[k] = v
					}
				} else {
					tot.Counts[k] += v
				}
			}
			tot.Samples = append(tot.Samples, wo.Samples...)
			for k, v := range wo.Check {
				if k < 0 {
					k = -1 - k
				}
				checks[k] = append(checks[k], v)
			}
			if wo.Fail != nil {
				fails = append(fails, wo.Fail)
				failAt = time.Now()
			}
		}
		if len(fails) > 0 && time.Since(failAt) > 300*time.Millisecond {
			for i, w := range ws {
				if !ended[i] {
					w.cmd.Process.Kill()
				}
			}
		}
	}
	if broken != "" && len(fails) == 0 {
		fmt.Fprintln(os.Stderr, "check error:", broken)
		return 2
	}
	compared, mismatch := 0, 0
	for _, hs := range checks {
		if len(hs) == 2 {
			compared++
			if hs[0] != hs[1] {
				mismatch++
			}
		}
	}
	if mismatch > 0 {
		fmt.Fprintf(os.Stderr, "warning: %d of %d repeated runs had different traces\n", mismatch, compared)
	}
	search := time.Since(t0)
	distinct, scheds := countHashes(dir, n)
	ev := map[string]any{
		"evaluations":                   tot.Runs,
		"distinct_nontrivial":           distinct,
		"rule":                          p.Rule + " Distinct: different hash over the whole event trace (tasks started, bytes sent and read, faults, stages, packets, with simulated times).",
		"distinct_interleavings":        scheds,
		"nontrivial_runs":               tot.NonTriv,
		"samples":                       samples(tot.Samples),
		"runs_per_hour":                 int(float64(tot.Runs) / search.Seconds() * 3600),
		"simulated_seconds":             float64(tot.SimNs) / 1e9,
		"faults_injected":               pick(tot.Counts, "fault.", false),
		"runs_with_fault":               pick(tot.Counts, "runs-with:fault.", false),
		"scheduling":                    pick(tot.Counts, "sched.", false),
		"probes":                        pick(tot.Counts, "probe.", false),
		"maxima":                        pick(tot.Counts, "max.", false),
		"workload":                      pick(tot.Counts, "work.", false),
		"determinism_pairs_compared":    compared,
		"determinism_mismatches":        mismatch,
		"stopped_early_by_wall_limit":   tot.Capped,
		"workers":                       n,
		"components_running_real_code":  p.Real,
		"components_replaced_by_a_stub": p.Stub,
	}
	code := 0
	nviol := 0
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].Index < fails[j].Index })
		rp := fails[0]
		if rp.Class == "HARNESS" {
			fmt.Fprintf(os.Stderr, "check error: %s\n", rp.Detail)
			return 2
		}
		if !rp.BySeed {
			minimise(p, rp, 20*time.Second)
		}
		rdir := filepath.Join(verif, "evidence", "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, rp.Index))
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatal(2, "%v", err)
		}
		if !confirm(path, rp) {
			fmt.Fprintf(os.Stderr, "check error: %s in run %d did not replay in a fresh process\n%s\n", rp.Class, rp.Index, rp.Detail)
			return 2
		}
		nviol = 1
		code = 1
		printf("run %d: %s: %s\n", rp.Index, rp.Class, rp.Detail)
		printf("scenario: %s\nminimised from %d to %d choices\n", rp.Desc, rp.Original, len(rp.Choices))
		tr := rp.Trace
		if len(tr) > 120 {
			tr = append(append([]string{}, tr[:40]...), append([]string{"..."}, tr[len(tr)-80:]...)...)
		}
		for _, l := range tr {
			printf("  %s\n", oneLine(clip(l, 300)))
		}
		printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	e := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": ev,
		"assumptions": []string{
			"the instrumented copy behaves as the original: tasks switch only at statements, channel, lock, map and network operations",
			"the simulated TCP, UDP, clock and timers behave as Linux and the Go runtime do",
			"a batch of sampled runs is evidence, not proof"},
		"wall_s": time.Since(t0).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(2, "%v", err)
	}
	if code == 0 {
		printf("%s: held in %d runs (%d distinct, %d interleavings, %.0f simulated s) in %.1f s\n", p.ID, tot.Runs, distinct, scheds,
			float64(tot.SimNs)/1e9, time.Since(t0).Seconds())
	}
	return code
}

func samples(s []string) []string {
	if len(s) > 2 {
		s = s[:2]
	}
	for i := range s {
		s[i] = clip(s[i], 6000)
	}
	return s
}

func pick(m map[string]int64, prefix string, _ bool) map[string]int64 {
	o := map[string]int64{}
	for k, v := range m {
		if strings.HasPrefix(k, prefix) {
			o[k[len(prefix):]] = v
		}
	}
	return o
}

func countHashes(dir string, n int) (distinct, scheds int) {
	h := map[uint64]struct{}{}
	s := map[uint64]struct{}{}
	for i := 0; i < n; i++ {
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.json.hashes", i)))
		for len(b) >= 16 {
			h[binary.LittleEndian.Uint64(b)] = struct{}{}
			s[binary.LittleEndian.Uint64(b[8:])] = struct{}{}
			b = b[16:]
		}
	}
	return len(h), len(s)
}

// confirmDeath reruns one seed alone; it must kill the process again.
func confirmDeath(p *Prop, seed int64, idx int, dir string) *Replay {
	if idx < 0 {
		return nil
	}
	w := startWorker(p, seed, 1000, 1, 0, 0, dir, "-only", fmt.Sprintf("-index=%d", idx))
	for !w.poll() {
		time.Sleep(10 * time.Millisecond)
	}
	if w.err == nil || strings.HasPrefix(w.err.Error(), "hung") {
		return nil
	}
	msg := w.errb.String()
	line := ""
	for _, l := range strings.Split(msg, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			line += l + "; "
		}
		if strings.HasPrefix(l, "panic: ") {
			return nil // a panic that was not caught is the harness's own
		}
	}
	if line == "" {
		return nil
	}
	return &Replay{Property: p.ID, Class: "fatal", Detail: "the process dies: " + line + "\n" + clip(msg, 3000), Seed: seed, Index: idx,
		RunSeed: runSeed(seed, p.ID, idx), BySeed: true}
}

func confirm(path string, rp *Replay) bool {
	exe, _ := os.Executable()
	for i := 0; i < 3; i++ {
		c := exec.Command(exe, "-mode=replay", "-file="+path)
		c.Stdout, c.Stderr = nil, nil
		err := c.Run()
		if ee, ok := err.(*exec.ExitError); ok {
			if ee.ExitCode() == 1 || (rp.Class == "fatal" && ee.ExitCode() != 0) {
				return true
			}
		}
	}
	return false
}

// minimise shrinks the choice list while the violation class stays the same.
func minimise(p *Prop, rp *Replay, budget time.Duration) {
	end := time.Now().Add(budget)
	rp.Original = len(rp.Choices)
	cur := append([]uint32(nil), rp.Choices...)
	tries := 0
	// Values beyond the last one are 0 anyway.
	trim := func(c []uint32) []uint32 {
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		return c
	}
	try := func(c []uint32) bool {
		tries++
		res := runOnce(p, simrt.ReplayDecider(c), false)
		return res.Fail != nil && res.Fail.Class == rp.Class
	}
	left := func() bool { return time.Now().Before(end) }
	if try(cur) {
		for round := 0; round < 4 && left(); round++ {
			before := fmt.Sprint(len(cur), sum(cur))
			// Delete chunks.
			for size := len(cur) / 2; size >= 1 && left(); size /= 2 {
				for at := 0; at+size <= len(cur) && left(); {
					c := append(append([]uint32(nil), cur[:at]...), cur[at+size:]...)
					if try(c) {
						cur = c
					} else {
						at += size
					}
				}
			}
			// Zero chunks.
			for size := len(cur) / 2; size >= 1 && left(); size /= 2 {
				for at := 0; at+size <= len(cur) && left(); at += size {
					if sum(cur[at:at+size]) == 0 {
						continue
					}
					c := append([]uint32(nil), cur...)
					for i := at; i < at+size; i++ {
						c[i] = 0
					}
					if try(c) {
						cur = c
					}
				}
			}
			// Lower single values.
			for i := 0; i < len(cur) && left(); i++ {
				for cur[i] > 0 && left() {
					c := append([]uint32(nil), cur...)
					c[i] = cur[i] / 2
					if !try(c) {
						c[i] = cur[i] - 1
						if cur[i] > 64 || !try(c) {
							break
						}
					}
					cur = c
				}
			}
			cur = trim(cur)
			if fmt.Sprint(len(cur), sum(cur)) == before {
				break
			}
		}
	}
	res := runOnce(p, simrt.ReplayDecider(cur), true)
	if res.Fail != nil && res.Fail.Class == rp.Class {
		rp.Choices, rp.Detail, rp.Trace, rp.Desc = cur, res.Fail.Detail, res.Trace, res.Desc
	} else {
		res = runOnce(p, simrt.ReplayDecider(rp.Choices), true)
		rp.Trace = res.Trace
	}
	if len(rp.Trace) > 3000 {
		rp.Trace = rp.Trace[len(rp.Trace)-3000:]
	}
	rp.Tries = tries
}

func sum(c []uint32) (s uint64) {
	for _, x := range c {
		s += uint64(x)
	}
	return
}

var _ = strconv.Itoa
