// Package harness is a property-based testing harness for soju.
//
// Every property owns one or more targets. A target generates cases (plain
// JSON-able data) from a seed and executes them against the real code; the
// executor returns an error when the oracle is contradicted. Failing cases are
// shrunk on the data level and written out as replay files.
package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"
)

// ---------------------------------------------------------------- generator

// G is the source of randomness used by generators.
type G struct {
	r *rand.Rand
}

func NewG(seed uint64) *G {
	return &G{rand.New(rand.NewPCG(seed, seed^0x9e3779b97f4a7c15))}
}

// N returns an int in [0,n).
func (g *G) N(n int) int {
	if n <= 1 {
		return 0
	}
	return g.r.IntN(n)
}

// R returns an int in [lo,hi].
func (g *G) R(lo, hi int) int { return lo + g.N(hi-lo+1) }

func (g *G) U64() uint64 { return g.r.Uint64() }

// P is true with probability pct/100.
func (g *G) P(pct int) bool { return g.N(100) < pct }

func (g *G) Bool() bool { return g.N(2) == 1 }

func Pick[T any](g *G, l []T) T { return l[g.N(len(l))] }

// W picks an index according to weights.
func (g *G) W(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	n := g.N(sum)
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return len(weights) - 1
}

// Str draws a string of length [lo,hi] over the given alphabet.
func (g *G) Str(alphabet string, lo, hi int) string {
	rs := []rune(alphabet)
	n := g.R(lo, hi)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(rs[g.N(len(rs))])
	}
	return sb.String()
}

// Size draws a length skewed towards small values.
func (g *G) Size(lo, hi int) int {
	a, b := g.R(lo, hi), g.R(lo, hi)
	if g.P(70) && b < a {
		return b
	}
	return a
}

func Subset[T any](g *G, l []T, pct int) []T {
	out := []T{}
	for _, x := range l {
		if g.P(pct) {
			out = append(out, x)
		}
	}
	return out
}

// ---------------------------------------------------------------- recorder

// R collects what a single execution covered.
type R struct {
	T          *testing.T
	nontrivial bool
	counters   map[string]int
	Trace      []string
	tracing    bool
}

// NonTrivial marks the case as having exercised the property.
func (r *R) NonTrivial() { r.nontrivial = true }

func (r *R) Count(label string) {
	if r.counters == nil {
		r.counters = map[string]int{}
	}
	r.counters[label]++
}

func (r *R) Tracef(format string, v ...any) {
	if r.tracing {
		r.Trace = append(r.Trace, fmt.Sprintf(format, v...))
	}
}

// ---------------------------------------------------------------- registry

type target struct {
	name   string
	weight int
	gen    func(g *G) any
	run    func(r *R, c any) error
	decode func(b []byte) (any, error)
	// execute outside of the generic recover
}

type property struct {
	id      string
	rule    string
	assume  []string
	quick   int // number of cases
	thor    int
	targets []*target
}

var properties = map[string]*property{}

func prop(id, rule string, quick, thorough int, assumptions ...string) *property {
	p := &property{id: id, rule: rule, quick: quick, thor: thorough, assume: assumptions}
	if properties[id] != nil {
		panic("duplicate property " + id)
	}
	properties[id] = p
	return p
}

// errInvalid marks a case as outside of the input domain.
type errInvalid struct{}

func (errInvalid) Error() string { return "invalid case" }

func add[C any](p *property, name string, weight int, gen func(g *G) C, run func(r *R, c C) error) {
	p.targets = append(p.targets, &target{
		name:   name,
		weight: weight,
		gen:    func(g *G) any { return gen(g) },
		run: func(r *R, c any) error {
			return run(r, c.(C))
		},
		decode: func(b []byte) (any, error) {
			var c C
			if err := json.Unmarshal(b, &c); err != nil {
				return nil, err
			}
			return c, nil
		},
	})
}

func (p *property) target(name string) *target {
	for _, t := range p.targets {
		if t.name == name {
			return t
		}
	}
	return nil
}

// violation builds an oracle failure. The class identifies the kind of
// failure: shrinking only accepts failures of the same class.
type violation struct {
	class string
	msg   string
}

func (v *violation) Error() string { return v.class + ": " + v.msg }

func vio(class, format string, args ...any) error {
	return &violation{class, fmt.Sprintf(format, args...)}
}

// hErr is an error of the harness itself (never a violation).
type hErr struct{ msg string }

func (e *hErr) Error() string { return "harness error: " + e.msg }

func harnessErr(format string, args ...any) error { return &hErr{fmt.Sprintf(format, args...)} }

// exec runs a case, translating panics raised by the code under test in the
// calling goroutine to violations.
func (tg *target) exec(r *R, c any) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if he, ok := e.(*hErr); ok {
				err = he
				return
			}
			if ve, ok := e.(*violation); ok {
				err = ve
				return
			}
			st := string(debug.Stack())
			if strings.Contains(fmt.Sprint(e), "deadlock: main bubble goroutine has exited") {
				// leaked goroutines: judged by the executor itself
				err = nil
				return
			}
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if firstFrameIsSoju(st) {
				err = vio("panic", "%v\n%s", e, trimStack(st))
			} else {
				err = harnessErr("panic: %v\n%s", e, st)
			}
		}
	}()
	err = tg.run(r, c)
	var ve *violation
	if err != nil && errors.As(err, &ve) && error(ve) != err {
		err = &violation{ve.class, err.Error()} // wrapped
	}
	return err
}

// firstFrameIsSoju reports whether the panic originates below a soju frame
// that is reached before any harness frame.
func firstFrameIsSoju(st string) bool {
	for _, line := range strings.Split(st, "\n") {
		if strings.HasPrefix(line, "codeberg.org/emersion/soju") {
			return true
		}
		if strings.HasPrefix(line, "verif/harness") {
			return false
		}
	}
	return false
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func caseSeed(seed uint64, id string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	return h.Sum64()
}

func hashJSON(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%016x", h.Sum64())
}

// pickTarget is deterministic in the case index.
func (p *property) pick(g *G) *target {
	ws := make([]int, len(p.targets))
	for i, t := range p.targets {
		ws[i] = t.weight
	}
	return p.targets[g.W(ws...)]
}

// ---------------------------------------------------------------- shrinking

func violationClass(err error) string {
	if v, ok := err.(*violation); ok {
		return v.class
	}
	return ""
}

// shrink reduces a failing case while it keeps failing with the same class.
func shrink(t *testing.T, tg *target, c any, err error, budget time.Duration, maxRuns int) (any, error, int) {
	class := violationClass(err)
	deadline := time.Now().Add(budget)
	runs := 0
	best, bestErr := c, err

	try := func(cand any) bool {
		if runs >= maxRuns || time.Now().After(deadline) {
			return false
		}
		b, e := json.Marshal(cand)
		if e != nil {
			return false
		}
		dec, e := tg.decode(b)
		if e != nil {
			return false
		}
		runs++
		e2 := tg.exec(&R{T: t}, dec)
		if e2 != nil && violationClass(e2) == class && class != "" {
			best, bestErr = dec, e2
			return true
		}
		return false
	}

	for {
		if runs >= maxRuns || time.Now().After(deadline) {
			break
		}
		b, e := json.Marshal(best)
		if e != nil {
			break
		}
		var doc any
		if json.Unmarshal(b, &doc) != nil {
			break
		}
		if !shrinkPass(doc, try, func() bool { return runs >= maxRuns || time.Now().After(deadline) }) {
			break
		}
	}
	return best, bestErr, runs
}

type slot struct {
	get func() any
	set func(any)
}

func collectSlots(root any, s slot, out *[]slot) {
	*out = append(*out, s)
	switch v := root.(type) {
	case []any:
		for i := range v {
			i := i
			collectSlots(v[i], slot{func() any { return v[i] }, func(x any) { v[i] = x }}, out)
		}
	case map[string]any:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			collectSlots(v[k], slot{func() any { return v[k] }, func(x any) { v[k] = x }}, out)
		}
	}
}

func deepCopy(v any) any {
	switch v := v.(type) {
	case []any:
		o := make([]any, len(v))
		for i := range v {
			o[i] = deepCopy(v[i])
		}
		return o
	case map[string]any:
		o := map[string]any{}
		for k := range v {
			o[k] = deepCopy(v[k])
		}
		return o
	}
	return v
}

func shrinkPass(doc any, try func(any) bool, over func() bool) bool {
	root := doc
	progress := false
	attempt := func(s slot, val any) bool {
		old := s.get()
		if reflect.DeepEqual(old, val) {
			return false
		}
		s.set(val)
		if try(deepCopy(root)) {
			progress = true
			return true
		}
		s.set(old)
		return false
	}
	// 1. delete chunks from arrays (largest arrays first)
	var slots []slot
	collectSlots(root, slot{func() any { return root }, func(x any) { root = x }}, &slots)
	for _, s := range slots {
		arr, ok := s.get().([]any)
		if !ok {
			continue
		}
		for size := (len(arr) + 1) / 2; size >= 1; size /= 2 {
			for i := len(arr) - size; i >= 0; i -= size {
				if over() {
					return progress
				}
				if i+size > len(arr) {
					continue
				}
				na := make([]any, 0, len(arr)-size)
				na = append(na, arr[:i]...)
				na = append(na, arr[i+size:]...)
				if attempt(s, na) {
					arr = na
				}
			}
		}
	}
	// 2. simplify scalars
	slots = nil
	collectSlots(root, slot{func() any { return root }, func(x any) { root = x }}, &slots)
	for _, s := range slots {
		if over() {
			return progress
		}
		switch v := s.get().(type) {
		case float64:
			if v != 0 {
				if !attempt(s, float64(0)) && v > 1 {
					if !attempt(s, float64(1)) && v > 3 {
						attempt(s, float64(int64(v)/2))
					}
				}
			}
		case bool:
			if v {
				attempt(s, false)
			}
		case string:
			if len(v) > 0 {
				if !attempt(s, "") && !attempt(s, "a") {
					rs := []rune(v)
					for len(rs) > 1 && attempt(s, string(rs[:len(rs)/2])) {
						rs = rs[:len(rs)/2]
					}
					for i := len(rs) - 1; i >= 0 && len(rs) > 1 && len(rs) < 40; i-- {
						nr := append(append([]rune{}, rs[:i]...), rs[i+1:]...)
						if attempt(s, string(nr)) {
							rs = nr
						}
					}
				}
			}
		}
	}
	return progress
}
