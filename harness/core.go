package main

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------
// Run: one execution of one property's check.
// ---------------------------------------------------------------------------

type Run struct {
	Prop     string
	Tier     string
	Seed     int
	Workers  int
	start    time.Time
	deadline time.Time
	replay   *Replay
	replayed bool

	mu       sync.Mutex
	fams     []*FamStat
	total    Counts
	outcomes map[uint64]struct{}
	samples  []any
	viol     *Violation
	capped   bool
	bounds   []string
	assume   []string

	slots    []slot
	cleanups []func()
}

// Counts are the measured coverage figures.
type Counts struct {
	States      int64 `json:"states"`      // distinct states (histories' end states / inputs)
	Transitions int64 `json:"transitions"` // operations applied / elements appended
	Traces      int64 `json:"traces"`      // model traces executed on the implementation and compared
	Evals       int64 `json:"evaluations"` // calls into the code under test that were judged
}

func (c *Counts) add(o Counts) {
	c.States += o.States
	c.Transitions += o.Transitions
	c.Traces += o.Traces
	c.Evals += o.Evals
}

type FamStat struct {
	Name   string `json:"family"`
	Cases  int64  `json:"cases"`
	Counts `json:"counts"`
	Depth  int     `json:"depth,omitempty"`
	Closed bool    `json:"closed,omitempty"` // no new states beyond the depth reached
	Done   bool    `json:"exhaustive"`
	WallS  float64 `json:"wall_s"`
}

type Replay struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Repro    string          `json:"reproduced"`
}

type Violation struct {
	Family string
	Case   any
	Msg    string
	Index  int64
	Again  func() error
}

// T is a worker's private counter set and access to the run.
type T struct {
	Counts
	r    *Run
	out  map[uint64]struct{}
	slot *slot

	steps int64 // C28: of the last schedule
}

type slot struct {
	mu    sync.Mutex
	since int64 // unix nanoseconds of the start of the case in progress, 0 when idle
	fam   string
	c     any
	_     [64]byte
}

var hseed = maphash.MakeSeed()
var hseed2 = maphash.MakeSeed()

const maxOutcomes = 1 << 16

// Outcome records a distinct observed outcome (to detect vacuous exploration).
func (t *T) Outcome(b []byte) {
	if len(t.out) >= maxOutcomes {
		return
	}
	t.out[maphash.Bytes(hseed, b)] = struct{}{}
}

func (t *T) Outcomef(format string, args ...any) {
	if len(t.out) >= maxOutcomes {
		return
	}
	t.Outcome([]byte(fmt.Sprintf(format, args...)))
}

// CaseErr lets a check replace the case that is reported (e.g. by the minimal history).
type CaseErr struct {
	Case any
	Msg  string
}

func (e *CaseErr) Error() string { return e.Msg }

func failf(format string, args ...any) error { return fmt.Errorf(format, args...) }

func newRun(prop, tier string, seed int) *Run {
	r := &Run{Prop: prop, Tier: tier, Seed: seed, start: time.Now(), outcomes: map[uint64]struct{}{}}
	r.Workers = runtime.NumCPU()
	if r.Workers > 16 {
		r.Workers = 16
	}
	if r.Workers < 2 {
		r.Workers = 2
	}
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 780 * time.Second
	}
	r.deadline = r.start.Add(limit)
	r.slots = make([]slot, r.Workers+1)
	go r.watchdog()
	return r
}

func (r *Run) thorough() bool { return r.Tier == "thorough" }

// pick returns q in the quick tier and th in the thorough tier.
func pick[V any](r *Run, q, th V) V {
	if r.thorough() {
		return th
	}
	return q
}

func (r *Run) bound(format string, args ...any) {
	r.bounds = append(r.bounds, fmt.Sprintf(format, args...))
}
func (r *Run) assumption(s string) { r.assume = append(r.assume, s) }

func (r *Run) failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.viol != nil
}

func (r *Run) report(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.viol == nil || (r.viol.Family == v.Family && v.Index < r.viol.Index) {
		r.viol = v
	}
}

func (r *Run) sample(fam string, c any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, map[string]any{"family": fam, "case": c})
	}
}

func (r *Run) merge(f *FamStat, t *T) {
	r.mu.Lock()
	defer r.mu.Unlock()
	f.Counts.add(t.Counts)
	r.total.add(t.Counts)
	t.Counts = Counts{}
	for k := range t.out {
		if len(r.outcomes) < 1<<20 {
			r.outcomes[k] = struct{}{}
		}
	}
}

func (r *Run) newT(i int) *T { return &T{r: r, out: map[uint64]struct{}{}, slot: &r.slots[i]} }

// guarded runs a check of one case, turning panics of the code under test into failures.
func (t *T) guarded(fam string, c any, f func() error) (err error) {
	s := t.slot
	s.mu.Lock()
	s.since, s.fam, s.c = time.Now().UnixNano(), fam, c
	s.mu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(harnessBug); ok {
				fmt.Fprintln(os.Stderr, "harness error:", string(h))
				debug.PrintStack()
				os.Exit(3)
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
		s.mu.Lock()
		s.since = 0
		s.mu.Unlock()
	}()
	return f()
}

type harnessBug string

func must(cond bool, format string, args ...any) {
	if !cond {
		panic(harnessBug(fmt.Sprintf(format, args...)))
	}
}

func trimStack(b []byte) string {
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}

// watchdog turns a call that never returns, or that eats all memory, into a violation of the
// case in progress. The limits are far above anything a terminating call of this library needs.
func (r *Run) watchdog() {
	const hang = 90 * time.Second
	const memLimit = 12 << 30
	for {
		time.Sleep(500 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		over := ms.HeapAlloc > memLimit
		now := time.Now().UnixNano()
		var oldest int64 = math.MaxInt64
		var fam string
		var c any
		for i := range r.slots {
			s := &r.slots[i]
			s.mu.Lock()
			if s.since != 0 && s.since < oldest {
				oldest, fam, c = s.since, s.fam, s.c
			}
			s.mu.Unlock()
		}
		if oldest == math.MaxInt64 {
			continue
		}
		if stuck := time.Duration(now - oldest); stuck > hang || (over && stuck > 2*time.Second) {
			msg := fmt.Sprintf("call does not terminate (running for %s, heap %d MB)", stuck.Round(time.Second), ms.HeapAlloc>>20)
			r.finish(&Violation{Family: fam, Case: c, Msg: msg})
		}
	}
}

// ---------------------------------------------------------------------------
// Exhaustive enumeration of cases, spread over the workers.
// ---------------------------------------------------------------------------

func Enum[C any](r *Run, fam string, gen func(yield func(C) bool), check func(t *T, c C) error) {
	if r.replay != nil {
		replayCase(r, fam, check)
		return
	}
	if r.failed() {
		return
	}
	f := &FamStat{Name: fam, Done: true}
	r.fams = append(r.fams, f)
	t0 := time.Now()
	type item struct {
		i int64
		c C
	}
	ch := make(chan []item, r.Workers*4)
	var stop atomic.Bool
	var wg sync.WaitGroup
	for w := 0; w < r.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			t := r.newT(w)
			for b := range ch {
				for _, it := range b {
					if stop.Load() {
						break
					}
					c := it.c
					if err := t.guarded(fam, c, func() error { return check(t, c) }); err != nil {
						stop.Store(true)
						r.reportErr(fam, it.i, c, err, func(c any) error {
							cc, ok := c.(C)
							if !ok {
								return nil
							}
							return t.guarded(fam, c, func() error { return check(t, cc) })
						})
					}
				}
				r.merge(f, t)
			}
		}(w)
	}
	const batch = 64
	var n int64
	buf := make([]item, 0, batch)
	next := int64(0)
	gen(func(c C) bool {
		if stop.Load() {
			return false
		}
		if n == next && next < 1<<40 {
			r.sample(fam, c)
			next = next*200 + 100
		}
		buf = append(buf, item{n, c})
		n++
		if len(buf) == batch || n < batch {
			ch <- buf
			buf = make([]item, 0, batch)
			if time.Now().After(r.deadline) {
				f.Done = false
				r.capped = true
				return false
			}
		}
		return true
	})
	if len(buf) > 0 {
		ch <- buf
	}
	close(ch)
	wg.Wait()
	f.Cases = n
	f.WallS = round3(time.Since(t0).Seconds())
}

func (r *Run) reportErr(fam string, idx int64, c any, err error, again func(any) error) {
	v := &Violation{Family: fam, Case: c, Msg: err.Error(), Index: idx}
	if ce, ok := err.(*CaseErr); ok {
		v.Case, v.Msg = ce.Case, ce.Msg
	}
	cc := v.Case
	v.Again = func() error { return again(cc) }
	r.report(v)
}

func replayCase[C any](r *Run, fam string, check func(t *T, c C) error) {
	if r.replay.Family != fam {
		return
	}
	var c C
	if err := json.Unmarshal(r.replay.Case, &c); err != nil {
		fmt.Fprintln(os.Stderr, "cannot decode case:", err)
		os.Exit(2)
	}
	r.replayed = true
	t := r.newT(0)
	err := t.guarded(fam, c, func() error { return check(t, c) })
	if err != nil {
		fmt.Printf("replay: FAILS: %s\n", err)
		r.viol = &Violation{Family: fam, Case: c, Msg: err.Error()}
	} else {
		fmt.Println("replay: holds")
	}
}

// Serial is Enum on one goroutine, for checks that touch process-wide state.
func Serial[C any](r *Run, fam string, gen func(yield func(C) bool), check func(t *T, c C) error) {
	w := r.Workers
	r.Workers = 1
	Enum(r, fam, gen, check)
	r.Workers = w
}

// ---------------------------------------------------------------------------
// Breadth-first search over operation histories with state deduplication.
// ---------------------------------------------------------------------------

// Hist is a history: an initial configuration and the operations applied to it.
type Hist struct {
	Init int   `json:"init"`
	Ops  []int `json:"ops"`
}

type bfsSpec struct {
	Inits    int
	Ops      int
	MaxDepth int
	MaxState int
	// Run replays the history on a fresh implementation object and the model, judging every
	// step from index from on, and returns the canonical key of the final state ("" = do not
	// extend this state).
	Run func(t *T, h Hist, from int) (key []byte, err error)
}

type hkey [2]uint64

func hash128(b []byte) hkey { return hkey{maphash.Bytes(hseed, b), maphash.Bytes(hseed2, b)} }

func BFS(r *Run, fam string, s bfsSpec) {
	if r.replay != nil {
		replayCase(r, fam, func(t *T, h Hist) error { _, err := s.Run(t, h, -1); return err })
		return
	}
	if r.failed() {
		return
	}
	f := &FamStat{Name: fam, Done: true}
	r.fams = append(r.fams, f)
	t0 := time.Now()
	const shards = 64
	var seen [shards]struct {
		sync.Mutex
		m map[hkey]struct{}
	}
	for i := range seen {
		seen[i].m = map[hkey]struct{}{}
	}
	visit := func(k []byte) bool {
		h := hash128(k)
		sh := &seen[h[0]%shards]
		sh.Lock()
		defer sh.Unlock()
		if _, ok := sh.m[h]; ok {
			return false
		}
		sh.m[h] = struct{}{}
		return true
	}
	type node struct {
		init int32
		ops  []uint8
	}
	must(s.Ops <= 256, "too many operations")
	hist := func(n node, op int) Hist {
		h := Hist{Init: int(n.init), Ops: make([]int, 0, len(n.ops)+1)}
		for _, o := range n.ops {
			h.Ops = append(h.Ops, int(o))
		}
		if op >= 0 {
			h.Ops = append(h.Ops, op)
		}
		return h
	}
	again := func(t *T) func(any) error {
		return func(c any) error {
			return t.guarded(fam, c, func() error { _, err := s.Run(t, c.(Hist), -1); return err })
		}
	}
	var total atomic.Int64
	frontier := []node{}
	t := r.newT(0)
	for i := 0; i < s.Inits; i++ {
		h := Hist{Init: i}
		var key []byte
		err := t.guarded(fam, h, func() (e error) { key, e = s.Run(t, h, 0); return })
		if err != nil {
			r.reportErr(fam, int64(i), h, err, again(t))
			return
		}
		t.Traces++
		if key != nil && visit(key) {
			t.States++
			total.Add(1)
			frontier = append(frontier, node{init: int32(i)})
		}
	}
	r.merge(f, t)
	r.sample(fam, Hist{Init: 0})
	// a search that does not come to an end leaves time for the others
	limit := time.Now().Add(time.Until(r.deadline) / 3)
	depth := 0
	for depth < s.MaxDepth && len(frontier) > 0 && !r.failed() && f.Done {
		depth++
		var mu sync.Mutex
		var nextF []node
		var idx atomic.Int64
		var stop atomic.Bool
		var wg sync.WaitGroup
		for w := 0; w < r.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				t := r.newT(w)
				var local []node
				for {
					i := idx.Add(1) - 1
					if i >= int64(len(frontier)) || stop.Load() {
						break
					}
					n := frontier[i]
					for op := 0; op < s.Ops && !stop.Load(); op++ {
						h := hist(n, op)
						var key []byte
						err := t.guarded(fam, h, func() (e error) { key, e = s.Run(t, h, len(h.Ops)-1); return })
						t.Transitions++
						t.Traces++
						if err != nil {
							stop.Store(true)
							r.reportErr(fam, i*256+int64(op), h, err, again(t))
							break
						}
						if key != nil && visit(key) {
							t.States++
							if s.MaxState > 0 && total.Add(1) > int64(s.MaxState) {
								continue
							}
							ops := make([]uint8, len(n.ops)+1)
							copy(ops, n.ops)
							ops[len(n.ops)] = uint8(op)
							local = append(local, node{n.init, ops})
						}
					}
					if i%64 == 0 && time.Now().After(limit) {
						mu.Lock()
						f.Done = false
						mu.Unlock()
						stop.Store(true)
					}
				}
				r.merge(f, t)
				mu.Lock()
				nextF = append(nextF, local...)
				mu.Unlock()
			}(w)
		}
		wg.Wait()
		// Deterministic order of exploration whatever the worker timing.
		sort.Slice(nextF, func(a, b int) bool {
			if nextF[a].init != nextF[b].init {
				return nextF[a].init < nextF[b].init
			}
			return string(nextF[a].ops) < string(nextF[b].ops)
		})
		if len(nextF) > 0 {
			r.sample(fam, hist(nextF[len(nextF)/2], -1))
		}
		frontier = nextF
		if s.MaxState > 0 && total.Load() > int64(s.MaxState) {
			f.Done = false
		}
	}
	f.Depth = depth
	f.Closed = len(frontier) == 0
	if !f.Done {
		r.capped = true
	}
	f.Cases = f.Transitions
	f.WallS = round3(time.Since(t0).Seconds())
}

// ---------------------------------------------------------------------------
// Series trees: every sequence over an alphabet up to a length, element by element.
// ---------------------------------------------------------------------------

// Series is a node of the tree: alphabet number and letters; Below > 0 means that the subtree
// of this many further levels is explored as well.
type Series struct {
	Alph  int   `json:"alphabet"`
	L     []int `json:"letters"`
	Below int   `json:"below,omitempty"`
}

// seriesTree visits every series of length minLen..maxLen over each alphabet of the given size.
func seriesTree(r *Run, fam string, sizes []int, minLen, maxLen int, visit func(t *T, alph int, l []int) error) {
	Enum(r, fam, func(yield func(Series) bool) {
		for a, size := range sizes {
			split := maxLen
			for split > 0 && pow(size, split) > 4096 {
				split--
			}
			var rec func(l []int) bool
			rec = func(l []int) bool {
				if len(l) == split {
					return yield(Series{a, append([]int{}, l...), maxLen - split})
				}
				if !yield(Series{a, append([]int{}, l...), 0}) {
					return false
				}
				for x := 0; x < size; x++ {
					if !rec(append(l, x)) {
						return false
					}
				}
				return true
			}
			if !rec(make([]int, 0, maxLen)) {
				return
			}
		}
	}, func(t *T, s Series) error {
		buf := make([]int, len(s.L), len(s.L)+s.Below+1)
		copy(buf, s.L)
		var rec func(l []int, below int) error
		rec = func(l []int, below int) error {
			if len(l) >= minLen {
				t.States++
				if len(l) > 0 {
					t.Transitions++
				}
				if err := visitGuard(t, s.Alph, l, visit); err != nil {
					return &CaseErr{Series{s.Alph, append([]int{}, l...), 0}, err.Error()}
				}
			}
			if below > 0 {
				for x := 0; x < sizes[s.Alph]; x++ {
					if err := rec(append(l, x), below-1); err != nil {
						return err
					}
				}
			}
			return nil
		}
		return rec(buf, s.Below)
	})
}

func visitGuard(t *T, alph int, l []int, visit func(t *T, alph int, l []int) error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(harnessBug); ok {
				panic(p)
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	s := t.slot
	s.mu.Lock()
	s.since, s.c = time.Now().UnixNano(), Series{alph, l, 0}
	s.mu.Unlock()
	return visit(t, alph, l)
}

func pow(b, e int) int {
	n := 1
	for i := 0; i < e; i++ {
		if n > 1<<40 {
			return n
		}
		n *= b
	}
	return n
}

// ---------------------------------------------------------------------------
// Finish: evidence, replay file, exit code.
// ---------------------------------------------------------------------------

var verifDir = "/verif"

func round3(x float64) float64 { return math.Round(x*1000) / 1000 }

var finishOnce sync.Mutex

func (r *Run) finish(v *Violation) {
	finishOnce.Lock() // never unlocked: only one caller may finish, and it exits
	if v == nil {
		r.mu.Lock()
		v = r.viol
		r.mu.Unlock()
	}
	if r.replay != nil {
		if !r.replayed {
			fmt.Fprintln(os.Stderr, "no such family:", r.replay.Family)
			r.exit(2)
		}
		if v != nil {
			r.exit(1)
		}
		r.exit(0)
	}
	nviol := 0
	var path string
	if v != nil {
		nviol = 1
		repro := "not re-run"
		if v.Again != nil {
			k := 0
			for i := 0; i < 5; i++ {
				if v.Again() != nil {
					k++
				}
			}
			repro = fmt.Sprintf("%d of 5 isolated re-runs", k)
		}
		path = r.writeReplay(v, repro)
		fmt.Printf("property %s broken in family %s (%s)\n%s\n", r.Prop, v.Family, repro, v.Msg)
	}
	r.mu.Lock()
	exhaustive := !r.capped && v == nil
	type fam = FamStat
	cov := map[string]any{
		"states":                        r.total.States,
		"transitions":                   r.total.Transitions,
		"traces_validated_against_impl": r.total.Traces,
		"evaluations":                   r.total.Evals,
		"distinct_outcomes":             len(r.outcomes),
		"exhaustive":                    exhaustive,
		"bounds":                        r.bounds,
		"families":                      r.fams,
		"samples":                       r.samples,
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": r.assume,
		"wall_s": round3(time.Since(r.start).Seconds()), "violations": nviol,
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	writeJSON(filepath.Join(verifDir, "evidence", r.Prop+".json"), ev)
	fmt.Printf("%s: states=%d transitions=%d traces=%d evaluations=%d outcomes=%d exhaustive=%v wall=%.1fs\n",
		r.Prop, r.total.States, r.total.Transitions, r.total.Traces, r.total.Evals, len(r.outcomes), exhaustive, time.Since(r.start).Seconds())
	if v != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
		r.exit(1)
	}
	r.exit(0)
}

func (r *Run) exit(code int) {
	for _, f := range r.cleanups {
		f()
	}
	os.Exit(code)
}

func (r *Run) writeReplay(v *Violation, repro string) string {
	raw, err := json.Marshal(v.Case)
	if err != nil {
		raw, _ = json.Marshal(fmt.Sprintf("%+v", v.Case))
	}
	path := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%s.json", r.Prop, r.Tier))
	writeJSON(path, Replay{r.Prop, v.Family, raw, v.Msg, repro})
	return path
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot encode", path, err)
		os.Exit(3)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write", path, err)
		os.Exit(3)
	}
}

// ---------------------------------------------------------------------------
// Numbers.
// ---------------------------------------------------------------------------

// near compares floats up to rounding; scale is the magnitude of the numbers involved.
func near(a, b, scale float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	s := math.Max(math.Abs(scale), math.Max(math.Abs(a), math.Abs(b)))
	return math.Abs(a-b) <= 1e-9*s
}

func sameBits(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }
