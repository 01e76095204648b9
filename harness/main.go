package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The run is split over a fixed number of processes, so that a case is a pure function of the
// code and the seed: shard k runs the cases k, k+nShards, … one after another.
const nShards = 8

// A case that burns this much CPU, or holds this much memory, has run away. Ordinary cases take
// milliseconds (the limit cases of C16 and C19 about a second) and a few hundred megabytes.
const (
	defaultCaseCPU = 40 * time.Second
	maxHeap        = 2 << 30
)

type shardResult struct {
	Cases      int               `json:"cases"`
	Fixed      int               `json:"fixed"`
	Labels     map[string]int64  `json:"labels"`
	Nontrivial []uint64          `json:"nontrivial"`
	Samples    []json.RawMessage `json:"samples"`
	Violation  *violation        `json:"violation,omitempty"`
	Harness    string            `json:"harness,omitempty"`
	MaxCaseMS  float64           `json:"max_case_ms"`
}

type violation struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Seed     int64             `json:"seed"`
	Index    int               `json:"index"`
	Fixed    string            `json:"fixed,omitempty"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"message"`
	Choices  []uint64          `json:"choices"`
	Input    map[string]string `json:"input"`
	History  bool              `json:"needs_history,omitempty"` // depends on the cases before it
	FromSeed bool              `json:"from_seed,omitempty"`     // choices are drawn from the case's seed
	ShrunkOf int               `json:"choices_before_shrinking"`
}

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Int64("seed", 1, "seed")
	fShard  = flag.Int("shard", -1, "internal: run one shard")
	fN      = flag.Int("n", 0, "override the number of cases")
	fUpTo   = flag.Int("upto", -1, "internal: last case index of the shard")
	fDir    = flag.String("dir", "", "internal: scratch directory of the run")
	fReplay = flag.String("replay", "", "replay file")
	fOut    = flag.String("root", "/verif", "where evidence/ and replays/ are written")
	fStats  = flag.Bool("stats", false, "print label statistics")
)

func main() {
	flag.Parse()
	switch {
	case *fReplay != "":
		os.Exit(doReplay(*fReplay))
	case *fShard >= 0:
		os.Exit(runShard())
	}
	if *fProp == "" {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	os.Exit(runParent())
}

func caseSeed(p *Prop, seed int64, i int) uint64 { return hash64(seed, p.ID, i) }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process with a "hang" or "memory" violation when one case runs away.
type watchdog struct {
	mu    sync.Mutex
	cur   *T
	idx   int
	fixed string
	start atomic.Int64 // CPU time at the start of the case, -1: idle
	onHit func(kind, msg string)

	shrinking atomic.Bool // the violation is written already: a runaway case only ends the shrinking
}

// idleTicks is how long a case may go on without using the CPU (one minute).
const idleTicks = 1200

func (w *watchdog) run(limit time.Duration) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	ticks, last, lastCPU := 0, int64(-1), time.Duration(0)
	for {
		time.Sleep(50 * time.Millisecond)
		s := w.start.Load()
		if s < 0 {
			continue
		}
		if s != last {
			ticks, last, lastCPU = 0, s, cpuTime()
		}
		if ticks++; ticks >= idleTicks {
			if cpuTime()-lastCPU < time.Second {
				w.onHit("deadlock", "the case neither finished nor used the CPU for a minute")
			}
			ticks, lastCPU = 0, cpuTime()
		}
		if used := cpuTime() - time.Duration(s); used > limit {
			w.onHit("hang", fmt.Sprintf("the case used more than %v of CPU time without finishing", limit))
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > maxHeap {
			runtime.GC()
			metrics.Read(sample)
			if sample[0].Value.Uint64() > maxHeap && w.start.Load() == s {
				w.onHit("memory", fmt.Sprintf("the case holds more than %d MB", maxHeap>>20))
			}
		}
	}
}

func caseLimit(p *Prop) time.Duration {
	if p.PerCaseCPU > 0 {
		return p.PerCaseCPU
	}
	return defaultCaseCPU
}

func runShard() int {
	p := props[*fProp]
	n := *fN
	res := &shardResult{Labels: map[string]int64{}}
	write := func() {
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(filepath.Join(*fDir, fmt.Sprintf("shard-%d.json", *fShard)), b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(4)
		}
	}
	posf, err := os.Create(filepath.Join(*fDir, fmt.Sprintf("shard-%d.pos", *fShard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 4
	}
	mark := func(i int) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(int64(i)))
		posf.WriteAt(b[:], 0)
	}
	w := &watchdog{}
	w.start.Store(-1)
	w.onHit = func(kind, msg string) {
		if w.shrinking.Load() {
			os.Exit(3)
		}
		w.mu.Lock()
		t := w.cur
		res.Violation = &violation{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: w.idx, Fixed: w.fixed, Kind: kind, Msg: msg,
			Choices: append([]uint64(nil), t.choices...), Input: t.render()}
		write()
		os.Exit(3)
	}
	go w.run(caseLimit(p))
	defer func() {
		if r := recover(); r != nil {
			res.Harness = fmt.Sprintf("%v\n%s", r, debug.Stack())
			write()
			fmt.Fprintln(os.Stderr, "harness:", res.Harness)
			os.Exit(4)
		}
	}()
	nts := map[uint64]struct{}{}
	one := func(t *T, idx int, fixed string, f func(*T)) *failure {
		w.mu.Lock()
		w.cur, w.idx, w.fixed = t, idx, fixed
		w.mu.Unlock()
		c0 := cpuTime()
		w.start.Store(int64(c0))
		fail := runCase(t, f)
		w.start.Store(-1)
		if ms := float64((cpuTime() - c0).Microseconds()) / 1000; ms > res.MaxCaseMS {
			res.MaxCaseMS = ms
		}
		return fail
	}
	// plain cases first (spread over the shards)
	for k, fx := range p.Fixed {
		if k%nShards != *fShard {
			continue
		}
		mark(-2 - k)
		t := newT(0)
		t.replaying = true
		t.Tier = *fTier
		t.Index = -1
		t.labels = res.Labels
		res.Fixed++
		if fail := one(t, -1, fx.Name, fx.Run); fail != nil {
			res.Violation = &violation{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: -1, Fixed: fx.Name, Kind: fail.Kind, Msg: fail.Msg, Input: t.render()}
			write()
			return 3
		}
	}
	for i := *fShard; i < n; i += nShards {
		if *fUpTo >= 0 && i > *fUpTo {
			break
		}
		mark(i)
		t := newT(caseSeed(p, *fSeed, i))
		t.Tier = *fTier
		t.Index = i
		t.labels = res.Labels
		fail := one(t, i, "", p.Run)
		res.Cases++
		for _, h := range t.nt {
			nts[h] = struct{}{}
		}
		if fail != nil {
			res.Violation = newViolation(p, t, fail, i)
			if !p.Race { // what depends on timing cannot be shrunk
				write()
				w.shrinking.Store(true)
				shrinkFailure(p, t, fail, res.Violation, w)
			}
			break
		}
		if len(t.nt) > 0 && len(res.Samples) < 3 && len(t.notes) > 0 {
			b, _ := json.Marshal(t.render())
			if len(b) < 2500 {
				res.Samples = append(res.Samples, b)
			}
		}
	}
	for h := range nts {
		res.Nontrivial = append(res.Nontrivial, h)
	}
	write()
	if res.Violation != nil {
		return 3
	}
	return 0
}

func newViolation(p *Prop, t *T, fail *failure, idx int) *violation {
	return &violation{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: idx, Kind: fail.Kind, Msg: fail.Msg,
		Choices: t.choices, Input: t.render(), ShrunkOf: len(t.choices)}
}

func shrinkFailure(p *Prop, t *T, fail *failure, v *violation, w *watchdog) {
	again := func(c []uint64) (*T, *failure) {
		r := &T{replay: c, replaying: true, Tier: *fTier, Index: v.Index, quiet: true}
		w.start.Store(int64(cpuTime()))
		f := runCase(r, p.Run)
		w.start.Store(-1)
		return r, f
	}
	if _, f := again(t.choices); f == nil || f.Kind != fail.Kind {
		v.History = true
		return
	}
	until := cpuTime() + 30*time.Second
	best := shrink(t.choices, 3000, func(c []uint64) bool {
		if cpuTime() > until {
			return false
		}
		_, f := again(c)
		return f != nil && f.Kind == fail.Kind
	})
	r, f := again(best)
	if f == nil {
		v.History = true
		return
	}
	v.Choices, v.Kind, v.Msg, v.Input = r.choices, f.Kind, f.Msg, r.render()
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	p := props[v.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown property", v.Property)
		return 2
	}
	f := p.Run
	if v.Fixed != "" {
		f = nil
		for _, fx := range p.Fixed {
			if fx.Name == v.Fixed {
				f = fx.Run
			}
		}
		if f == nil {
			fmt.Fprintln(os.Stderr, "harness: unknown case", v.Fixed)
			return 2
		}
	}
	if v.History {
		*fProp, *fTier, *fSeed, *fShard, *fUpTo, *fN = v.Property, v.Tier, v.Seed, v.Index%nShards, v.Index, v.Index+1
		dir, err := os.MkdirTemp("", "xdverif-replay-")
		if err != nil {
			return 2
		}
		defer os.RemoveAll(dir)
		*fDir = dir
		code := runShard()
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("shard-%d.json", *fShard)))
		if code == 3 {
			fmt.Printf("%s\n", b)
			fmt.Println("replay: the violation shows again (with the cases before it)")
			return 1
		}
		fmt.Println("replay: no violation")
		return 0
	}
	w := &watchdog{}
	t := &T{replay: v.Choices, replaying: true, Tier: v.Tier, Index: v.Index}
	if v.FromSeed {
		t = newT(caseSeed(p, v.Seed, v.Index))
		t.Tier, t.Index = v.Tier, v.Index
	}
	w.cur = t
	w.onHit = func(kind, msg string) {
		fmt.Printf("replay: %s: %s\n", kind, msg)
		os.Exit(1)
	}
	w.start.Store(int64(cpuTime()))
	go w.run(caseLimit(p))
	fail := runCase(t, f)
	w.start.Store(-1)
	for k, s := range t.render() {
		fmt.Printf("  %s: %s\n", k, s)
	}
	if fail != nil {
		fmt.Printf("replay: %s: %s\n", fail.Kind, fail.Msg)
		return 1
	}
	fmt.Println("replay: no violation")
	return 0
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func runParent() int {
	start := time.Now()
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown property", *fProp)
		return 2
	}
	n := p.Quick
	if *fTier == "thorough" {
		n = p.Thorough
	}
	if *fN > 0 {
		n = *fN
	}
	dir, err := os.MkdirTemp("", "xdverif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	type outcome struct {
		res  shardResult
		code int
		sig  syscall.Signal
		err  string
		ok   bool
	}
	outs := make([]outcome, nShards)
	var wg sync.WaitGroup
	for k := 0; k < nShards; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(self, "-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10),
				"-n", strconv.Itoa(n), "-shard", strconv.Itoa(k), "-dir", dir)
			procs := 2
			if p.Race {
				procs = 4
			}
			cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 history_size=3")
			var stderr bytes.Buffer
			cmd.Stderr = &limitWriter{b: &stderr, n: 1 << 20}
			err := cmd.Run()
			o := &outs[k]
			o.err = stderr.String()
			if err != nil {
				o.code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					ws := ee.Sys().(syscall.WaitStatus)
					if ws.Signaled() {
						o.sig = ws.Signal()
					} else {
						o.code = ws.ExitStatus()
					}
				}
			}
			b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("shard-%d.json", k)))
			if rerr == nil && json.Unmarshal(b, &o.res) == nil {
				o.ok = true
			}
		}()
	}
	wg.Wait()

	ev := evidence{Property: p.ID, Tier: *fTier, Seed: *fSeed, Level: "exploration", Assumptions: p.Assume}
	labels := map[string]int64{}
	nts := map[uint64]struct{}{}
	var samples []json.RawMessage
	cases, fixed, maxMS := 0, 0, 0.0
	var vs []*violation
	harness := ""
	for k := range outs {
		o := &outs[k]
		cases += o.res.Cases
		fixed += o.res.Fixed
		maxMS = max(maxMS, o.res.MaxCaseMS)
		for l, c := range o.res.Labels {
			labels[l] += c
		}
		for _, h := range o.res.Nontrivial {
			nts[h] = struct{}{}
		}
		if len(o.res.Samples) > 0 && len(samples) < 6 {
			samples = append(samples, o.res.Samples[0])
		}
		switch {
		case o.ok && o.code == 0:
		case o.ok && o.code == 3 && o.res.Violation != nil:
			v := o.res.Violation
			if v.Kind == "hang" || v.Kind == "memory" {
				if len(vs) > 0 {
					continue // one violation is enough, and confirming costs as long as the case
				}
				if !confirm(self, dir, v) {
					harness = fmt.Sprintf("shard %d: %s in case %d did not show again", k, v.Kind, v.Index)
					continue
				}
			}
			vs = append(vs, v)
		case o.code == 66 && strings.Contains(o.err, "DATA RACE"):
			vs = append(vs, &violation{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: readPos(dir, k), Kind: "race", Msg: clip(o.err, 20000), History: true})
		case o.code == 2 && (strings.Contains(o.err, "fatal error:") || strings.Contains(o.err, "panic:") || strings.Contains(o.err, "SIG")) && !strings.Contains(o.err, "out of memory"):
			// the runtime ended the process: find the case and make sure it does so again
			v := crashViolation(self, dir, p, k, n, o.err)
			if v == nil {
				harness = fmt.Sprintf("shard %d crashed and did not crash again:\n%s", k, clip(o.err, 4000))
				continue
			}
			vs = append(vs, v)
		default:
			harness = fmt.Sprintf("shard %d ended with code %d signal %v\n%s", k, o.code, o.sig, clip(o.err, 6000))
		}
	}
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Index < vs[j].Index })

	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev.Coverage = map[string]any{
		"evaluations":         cases + fixed,
		"plain_cases":         fixed,
		"distinct_nontrivial": len(nts),
		"rule":                "cases are drawn from the seed by the property's generator (plus the plain regression cases); non-trivial: " + p.Rule,
		"samples":             samples,
		"classes":             labels,
		"slowest_case_cpu_ms": maxMS,
	}
	ev.Violations = len(vs)
	// known findings: replayed one by one, reported, never a violation
	known := []string{}
	for _, kf := range p.Known {
		if msg, still := kf.Check(); still {
			known = append(known, kf.ID+": "+msg)
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", p.ID, kf.ID, msg)
		}
	}
	if len(p.Known) > 0 {
		ev.Coverage["known_findings_seen"] = known
	}
	ev.WallS = float64(time.Since(start).Milliseconds()) / 1000
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(*fOut, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(*fOut, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	if *fStats {
		keys := []string{}
		for l := range labels {
			keys = append(keys, l)
		}
		sort.Strings(keys)
		for _, l := range keys {
			fmt.Printf("  %-40s %8d  %5.1f%%\n", l, labels[l], 100*float64(labels[l])/float64(max(1, cases)))
		}
	}
	if len(vs) > 0 {
		v := vs[0]
		os.MkdirAll(filepath.Join(*fOut, "replays"), 0o755)
		file := filepath.Join(*fOut, "replays", fmt.Sprintf("%s-%s-%d.json", p.ID, *fTier, *fSeed))
		b, _ := json.MarshalIndent(v, "", " ")
		if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			return 2
		}
		fmt.Printf("%s: %s\n", v.Kind, clip(v.Msg, 4000))
		keys := []string{}
		for k := range v.Input {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("  %s: %s\n", k, clip(v.Input[k], 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	if harness != "" {
		fmt.Fprintln(os.Stderr, "harness:", harness)
		return 2
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %d plain cases, %.1f s\n", p.ID, cases, len(nts), fixed, ev.WallS)
	return 0
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if room := l.n - l.b.Len(); room > 0 {
		l.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}

func readPos(dir string, k int) int {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("shard-%d.pos", k)))
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(int64(binary.LittleEndian.Uint64(b)))
}

// replayProcess runs the case in a fresh process and returns its exit code and stderr.
func replayProcess(self, dir string, v *violation) (int, string) {
	file := filepath.Join(dir, "try.json")
	b, _ := json.Marshal(v)
	if os.WriteFile(file, b, 0o644) != nil {
		return -1, ""
	}
	cmd := exec.Command(self, "-replay", file)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	var stderr bytes.Buffer
	cmd.Stderr = &limitWriter{b: &stderr, n: 1 << 20}
	err := cmd.Run()
	if err == nil {
		return 0, stderr.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), stderr.String()
	}
	return -1, stderr.String()
}

func confirm(self, dir string, v *violation) bool {
	code, _ := replayProcess(self, dir, v)
	return code == 1
}

func crashViolation(self, dir string, p *Prop, k, n int, stderr string) *violation {
	idx := readPos(dir, k)
	v := &violation{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: idx, Kind: "crash", Msg: clip(stderr, 6000)}
	crashes := func(c []uint64) bool {
		w := *v
		w.Choices = c
		code, e := replayProcess(self, dir, &w)
		return code == 2 && strings.Contains(e, "fatal error:") || code == 2 && strings.Contains(e, "panic:")
	}
	if idx <= -2 {
		v.Fixed = p.Fixed[-2-idx].Name
		v.Index = -1
		if crashes(nil) {
			return v
		}
		return nil
	}
	// a crash kills the process before the choices are known, so replay from the case's seed,
	// alone if that suffices
	v.FromSeed = true
	if crashes(nil) {
		return v
	}
	v.FromSeed, v.History = false, true
	cmd := exec.Command(self, "-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10),
		"-n", strconv.Itoa(n), "-shard", strconv.Itoa(k), "-upto", strconv.Itoa(idx), "-dir", dir)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	var se bytes.Buffer
	cmd.Stderr = &limitWriter{b: &se, n: 1 << 20}
	err := cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 && readPos(dir, k) == idx {
		return v
	}
	return nil
}
