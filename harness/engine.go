package main

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"time"
)

// T is one generated case: a source of recorded choices plus the bookkeeping of the run.
// Every random decision of a generator goes through draw, so a case is replayed exactly from
// its choice sequence and shrunk by editing that sequence (missing choices read as zero, and
// zero is always the simplest alternative).
type T struct {
	rng       uint64
	choices   []uint64
	replay    []uint64
	replaying bool
	pos       int

	Tier   string
	Index  int // case number, -1 for replays
	labels map[string]int64
	notes  []note
	quiet  bool // shrinking: do not count labels
	nt     []uint64
}

type note struct{ k, v string }

// failure is the panic value of Failf.
type failure struct{ Kind, Msg string }

// harnessError is the panic value for defects of the harness itself (never a violation).
type harnessError struct{ msg string }

func bug(format string, args ...any) { panic(harnessError{fmt.Sprintf(format, args...)}) }

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	x := h.Sum64()
	// finalise: fnv alone is weak in the high bits
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func hashStr(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h = (h ^ uint64(p[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return h
}

func newT(seed uint64) *T { return &T{rng: seed} }

func (t *T) next() uint64 {
	t.rng += 0x9e3779b97f4a7c15
	z := t.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// draw returns a value in [0,n).
func (t *T) draw(n uint64) uint64 {
	if n == 0 {
		bug("draw(0)")
	}
	var v uint64
	if t.replaying {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
		}
		t.pos++
		if v >= n {
			v %= n
		}
	} else {
		v = t.next() % n
	}
	t.choices = append(t.choices, v)
	return v
}

// N returns a value in [0,n).
func (t *T) N(n int) int { return int(t.draw(uint64(n))) }

// Int returns a value in [lo,hi].
func (t *T) Int(lo, hi int) int { return lo + int(t.draw(uint64(hi-lo+1))) }

// Chance is true in pct percent of the draws; it shrinks to false.
func (t *T) Chance(pct int) bool { return int(t.draw(100)) >= 100-pct }

func (t *T) Bool() bool { return t.draw(2) == 1 }

// U64 returns an arbitrary 64-bit value.
func (t *T) U64() uint64 { return t.draw(1<<32)<<32 | t.draw(1<<32) }

// W picks an alternative with the given weights; it shrinks to the first.
func (t *T) W(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := t.N(sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func pick[E any](t *T, xs []E) E { return xs[t.N(len(xs))] }

// Label counts a class of cases for the evidence file.
func (t *T) Label(s string) {
	if !t.quiet && t.labels != nil {
		t.labels[s]++
	}
}

// Nontrivial records that the case is non-trivial by the property's rule; key identifies it.
func (t *T) Nontrivial(key ...string) { t.nt = append(t.nt, hashStr(key...)) }

// Note records part of the case for samples and replay files.
func (t *T) Note(k, v string) { t.notes = append(t.notes, note{k, v}) }

func (t *T) Notef(k, format string, args ...any) { t.Note(k, fmt.Sprintf(format, args...)) }

// Failf reports a violation of the property.
func (t *T) Failf(kind, format string, args ...any) {
	panic(failure{kind, fmt.Sprintf(format, args...)})
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return fmt.Sprintf("%s…(%d bytes in all)", s[:n], len(s))
}

func (t *T) render() map[string]string {
	m := map[string]string{}
	for _, n := range t.notes {
		k := n.k
		for i := 2; ; i++ {
			if _, ok := m[k]; !ok {
				break
			}
			k = fmt.Sprintf("%s#%d", n.k, i)
		}
		m[k] = clip(fmt.Sprintf("%q", n.v), 3000)
	}
	return m
}

// runCase runs f and returns the failure, if any. Harness errors are re-panicked.
func runCase(t *T, f func(*T)) (fail *failure) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case failure:
				fail = &e
			case harnessError:
				panic(r)
			default:
				st := string(debug.Stack())
				fail = &failure{"panic", fmt.Sprintf("%v\n%s", r, trimStack(st))}
			}
		}
	}()
	f(t)
	return nil
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// shrink minimises choices while eval reports a failure of the same kind.
func shrink(choices []uint64, budget int, eval func([]uint64) bool) []uint64 {
	best := append([]uint64(nil), choices...)
	try := func(c []uint64) bool {
		if budget <= 0 {
			return false
		}
		budget--
		if eval(c) {
			best = append([]uint64(nil), c...)
			return true
		}
		return false
	}
	for pass := 0; pass < 6 && budget > 0; pass++ {
		before := append([]uint64(nil), best...)
		// cut the tail
		for n := len(best) / 2; n > 0; n /= 2 {
			for len(best) >= n && try(best[:len(best)-n]) {
			}
		}
		// delete chunks
		for _, n := range []int{64, 32, 16, 8, 4, 3, 2, 1} {
			for i := len(best) - n; i >= 0; {
				if i+n > len(best) {
					i = len(best) - n
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+n:]...)
				if !try(c) {
					i -= max(1, n/2)
				} else {
					i -= n
				}
				if budget <= 0 {
					break
				}
			}
		}
		// zero chunks
		for _, n := range []int{8, 4, 2, 1} {
			for i := len(best) - n; i >= 0; i-- {
				if i+n > len(best) {
					continue
				}
				zero := true
				for _, v := range best[i : i+n] {
					zero = zero && v == 0
				}
				if zero {
					continue
				}
				c := append([]uint64(nil), best...)
				for j := i; j < i+n; j++ {
					c[j] = 0
				}
				try(c)
				if budget <= 0 {
					break
				}
			}
		}
		// minimise values
		for i := 0; i < len(best) && budget > 0; i++ {
			lo, hi := uint64(0), best[i]
			for lo < hi && i < len(best) {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				c[i] = mid
				if try(c) {
					hi = mid
				} else {
					lo = mid + 1
				}
				if budget <= 0 {
					break
				}
			}
		}
		if equalU64(before, best) {
			break
		}
	}
	return best
}

func equalU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Prop is one property's check.
type Prop struct {
	ID       string
	Quick    int // generated cases, quick tier
	Thorough int
	Rule     string
	Assume   []string
	Run      func(t *T)
	// Fixed are plain (not generated) cases: shrunk past failures and boundary inputs.
	Fixed []Fixed
	// Known are known findings: they return a description when the finding still shows.
	Known []KnownFinding
	Race  bool // run from the race-detector binary
	// PerCaseCPU overrides the runaway limit
	PerCaseCPU time.Duration
}

type Fixed struct {
	Name string
	Run  func(t *T)
}

type KnownFinding struct {
	ID    string
	Check func() (string, bool)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if props[p.ID] != nil {
		bug("duplicate property %s", p.ID)
	}
	props[p.ID] = p
}
