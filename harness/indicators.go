package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
)

// ---------------------------------------------------------------------------
// Indicators: C16 - C22.
// ---------------------------------------------------------------------------

// closeAlphabets: the closes a series is spelled with.
var closeAlphabets = [][]float64{
	{1, 2},
	{1, 2, 4},
	{0, -1, 5},
	{100.1, 100.2, 99.9, 12000},
	{0.1, 0.7, -3.3},
	{1e9, 1e9 + 1, 1e9 - 2},
	{1e-9, 3e-9, 0},
}

// byClose makes candles whose other fields are unrelated to the close.
func byClose(cs []float64) []market.Candle {
	out := make([]market.Candle, len(cs), len(cs))
	for i, c := range cs {
		out[i] = market.Candle{Time: int64(1000 + 60*i), Open: 7 - 2*c, High: 50 + 3*c, Low: -40 - c, Close: c, Volume: 5 + c*c}
	}
	return out
}

func spell(alph []float64, l []int) []float64 {
	out := make([]float64, len(l))
	for i, x := range l {
		out[i] = alph[x]
	}
	return out
}

func maxAbs(xs []float64) float64 {
	m := 0.0
	for _, x := range xs {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

func mean(xs []float64) float64 {
	s := 0.0
	for _, x := range xs {
		s += x
	}
	return s / float64(len(xs))
}

type avgSpec struct {
	name string
	call func([]market.Candle, int) ([]float64, error)
	ref  func(cl []float64, period int) []float64
}

var avgMA = avgSpec{"simple", indicators.MovingAverage, func(cl []float64, p int) []float64 {
	var out []float64
	for k := 0; k+p <= len(cl); k++ {
		out = append(out, mean(cl[k:k+p]))
	}
	return out
}}

var avgEMA = avgSpec{"exponential", indicators.ExponentialMovingAverage, func(cl []float64, p int) []float64 {
	var out []float64
	w := 2 / (float64(p) + 1)
	prev := mean(cl[:p])
	for k := p; k < len(cl); k++ {
		prev = cl[k]*w + prev*(1-w)
		out = append(out, prev)
	}
	return out
}}

var avgSMMA = avgSpec{"smoothed", indicators.SmoothedMovingAverage, func(cl []float64, p int) []float64 {
	prev := mean(cl[:p])
	out := []float64{prev}
	for k := p; k < len(cl); k++ {
		prev = (prev*float64(p-1) + cl[k]) / float64(p)
		out = append(out, prev)
	}
	return out
}}

func (a *avgSpec) check(t *T, cl []float64, cs []market.Candle, period int) error {
	got, err := a.call(cs, period)
	t.Evals++
	n := len(cl)
	if period < 1 || period > n {
		if err == nil || len(got) != 0 {
			return failf("%s average of %v with period %d must be refused, gave %v, error %v", a.name, short(cl), period, short(got), err)
		}
		return nil
	}
	want := a.ref(cl, period)
	if err != nil || len(got) != len(want) {
		return failf("%s average of %v with period %d: %d values, error %v; expected %d values", a.name, short(cl), period, len(got), err, len(want))
	}
	scale := maxAbs(cl)
	for i := range want {
		if !near(got[i], want[i], scale) {
			return failf("%s average of %v with period %d: value %d is %v, expected %v", a.name, short(cl), period, i, got[i], want[i])
		}
	}
	if len(got) > 0 {
		t.Outcomef("%v", got[len(got)-1])
	}
	return nil
}

func short(xs []float64) string {
	if len(xs) > 24 {
		return fmt.Sprintf("%v...(%d values)", xs[:24], len(xs))
	}
	return fmt.Sprint(xs)
}

var oddPeriods = []int{0, -1, -14, math.MinInt64, math.MaxInt64, math.MaxInt32}

// longSeries gives structured long series.
func longSeries(pat, n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		f := float64(i)
		switch pat {
		case 0:
			out[i] = 100 + f
		case 1:
			out[i] = 1000 - 3*f
		case 2:
			out[i] = 50 + float64((i*7)%13)
		case 3:
			out[i] = 42.42
		case 4:
			out[i] = 10 * math.Pow(1.05, float64(i%60))
		case 5:
			out[i] = -5 + 10*float64(i%2)
		case 6:
			out[i] = 0
			if i == n/2 {
				out[i] = 1000
			}
		case 7:
			out[i] = 30000 + 500*math.Sin(f/3) + float64(i%5)/10
		case 8: // steps
			out[i] = float64(i / 9)
		default:
			out[i] = math.Abs(float64(n/2 - i))
		}
	}
	return out
}

const nLong = 10

type longCase struct{ Pat, N, Period int }

func longCases(r *Run, yield func(longCase) bool) {
	ns := []int{1, 2, 5, 13, 14, 15, 16, 28, 29, 50, 64, 100, 101}
	if r.thorough() {
		ns = append(ns, 128, 200, 255, 256, 257)
	}
	for _, n := range ns {
		for pat := 0; pat < nLong; pat++ {
			for p := -1; p <= n+2; p++ {
				if !yield(longCase{pat, n, p}) {
					return
				}
			}
		}
	}
	for _, n := range []int{5003, 10007, pick(r, 20011, 65539)} {
		for pat := 0; pat < nLong; pat++ {
			for _, p := range []int{1, 2, 14, 50, 200, 4999, n} {
				if !yield(longCase{pat, n, p}) {
					return
				}
			}
		}
	}
	for _, n := range []int{300, 1000, 1025, 3001} {
		for pat := 0; pat < nLong; pat++ {
			for _, p := range []int{1, 2, 9, 14, 20, 26, 50, 55, 100, 127, 128, 129, 200, 255, 256, 257, 365, 499, 500, 501, 512, 999, 1000, 1001, 1440, 2048, n - 1, n, n + 1} {
				if !yield(longCase{pat, n, p}) {
					return
				}
			}
		}
	}
}

// magCase: a structured series brought to a decimal magnitude.
type magCase struct {
	Pat, Exp, Period int
	Neg              bool
}

func magCases(yield func(magCase) bool) {
	for e := -280; e <= 280; e++ {
		for pat := 0; pat < nLong; pat++ {
			for _, p := range []int{1, 2, 5, 14, 19} {
				for _, neg := range []bool{false, true} {
					if !yield(magCase{pat, e, p, neg}) {
						return
					}
				}
			}
		}
	}
}

func (c magCase) series() []float64 {
	cl := longSeries(c.Pat, 20)
	f := math.Pow(10, float64(c.Exp))
	if c.Neg {
		f = -f
	}
	for i := range cl {
		cl[i] *= f
	}
	return cl
}

// plainCloses makes candles with nothing but times and closes.
func plainCloses(cl []float64) []market.Candle {
	out := make([]market.Candle, len(cl))
	for i, c := range cl {
		out[i] = market.Candle{Time: int64(60 * i), Close: c}
	}
	return out
}

// treeLens: how long the series over each close alphabet get.
func treeLens(r *Run) []int {
	if r.thorough() {
		return []int{20, 13, 12, 10, 12, 12, 12}
	}
	return []int{17, 11, 10, 8, 10, 10, 10}
}

func avgCheck(r *Run, a avgSpec) {
	r.bound("%s average: every series over %d close alphabets of 2-4 values up to lengths %v, every period from -1 to n+2 and extreme periods", a.name, len(closeAlphabets), treeLens(r))
	for k, alph := range closeAlphabets {
		alph := alph
		seriesTree(r, fmt.Sprintf("series/%d", k), []int{len(alph)}, 0, treeLens(r)[k], func(t *T, _ int, l []int) error {
			cl := spell(alph, l)
			cs := byClose(cl)
			t.Traces++
			for p := 1; p <= len(cl)+2; p++ {
				if err := a.check(t, cl, cs, p); err != nil {
					return err
				}
			}
			if len(l) < 5 {
				for _, p := range oddPeriods {
					if err := a.check(t, cl, cs, p); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	Enum(r, "missing", func(yield func(longCase) bool) {
		for p := -3; p < 40; p++ {
			if !yield(longCase{0, 0, p}) {
				return
			}
		}
	}, func(t *T, c longCase) error {
		got, err := a.call(nil, c.Period)
		t.States++
		t.Transitions++
		t.Traces++
		if err == nil || len(got) != 0 {
			return failf("a missing series with period %d gave %v, error %v", c.Period, got, err)
		}
		return nil
	})
	Enum(r, "long", func(yield func(longCase) bool) { longCases(r, yield) }, func(t *T, c longCase) error {
		cl := longSeries(c.Pat, c.N)
		t.States++
		t.Transitions += int64(c.N)
		t.Traces++
		return a.check(t, cl, byClose(cl), c.Period)
	})
	Enum(r, "magnitudes", magCases, func(t *T, c magCase) error {
		cl := c.series()
		t.States++
		t.Transitions += int64(len(cl))
		t.Traces++
		return a.check(t, cl, plainCloses(cl), c.Period)
	})
	r.bound("%s average: structured series at every decimal magnitude 1e-280..1e280, both signs", a.name)
	r.bound("%s average: 10 structured series with every period for 13+ lengths up to 101 (257 thorough), and periods up to n for n = 300, 1000, 1025, 3001; 7 periods for longer ones of up to 20011 (65539 thorough)", a.name)
}

// RSI -----------------------------------------------------------------------

func rsiRef(cl []float64, p int) []float64 {
	var out []float64
	for k := 0; k+p < len(cl); k++ {
		u, d := 0.0, 0.0
		for i := k + 1; i <= k+p; i++ {
			if x := cl[i] - cl[i-1]; x > 0 {
				u += x
			} else {
				d -= x
			}
		}
		if u == 0 && d == 0 {
			out = append(out, 50)
		} else {
			out = append(out, 100*u/(u+d))
		}
	}
	return out
}

func rsiCheck(t *T, cl []float64, cs []market.Candle, period int) error {
	got, err := indicators.RSI(cs, period)
	t.Evals++
	n := len(cl)
	if n < 14 || period < 1 || period >= n {
		if err == nil || len(got) != 0 {
			return failf("RSI of %v with period %d must be refused, gave %v, error %v", short(cl), period, got, err)
		}
		return nil
	}
	want := rsiRef(cl, period)
	if err != nil || len(got) != len(want) {
		return failf("RSI of %v with period %d: %d values, error %v; expected %d values", short(cl), period, len(got), err, len(want))
	}
	for i := range want {
		g := float64(got[i])
		if math.IsNaN(g) || g < 0 || g > 100 || math.Abs(g-want[i]) > 1e-4 {
			return failf("RSI of %v with period %d: value %d is %v, expected %v", short(cl), period, i, g, want[i])
		}
	}
	t.Outcomef("%v", got[len(got)-1])
	return nil
}

// Fractals --------------------------------------------------------------------

func fractalRef(cs []market.Candle) []indicators.WilliamFractal {
	var out []indicators.WilliamFractal
	if len(cs) < 5 {
		return nil
	}
	for i := 2; i < len(cs); i++ {
		for _, up := range []bool{true, false} {
			v := func(j int) float64 {
				if up {
					return cs[j].High
				}
				return -cs[j].Low
			}
			if !(v(i) > v(i-1) && v(i) > v(i-2)) {
				continue
			}
			lower := 0
			for j := i + 1; j < len(cs) && lower < 2; j++ {
				if v(j) > v(i) {
					break
				}
				if v(j) < v(i) {
					lower++
				}
			}
			if lower == 2 {
				f := indicators.WilliamFractal{Time: cs[i].Time, Price: cs[i].High, Type: indicators.FractalUp}
				if !up {
					f.Price, f.Type = cs[i].Low, indicators.FractalDown
				}
				out = append(out, f)
			}
		}
	}
	return out
}

func sortFr(fs []indicators.WilliamFractal) []indicators.WilliamFractal {
	o := append([]indicators.WilliamFractal{}, fs...)
	sort.SliceStable(o, func(i, j int) bool {
		if o[i].Time != o[j].Time {
			return o[i].Time < o[j].Time
		}
		return o[i].Type < o[j].Type
	})
	return o
}

// sameFractal compares what can be seen.
func sameFractal(a, b indicators.WilliamFractal) bool {
	return a.Time == b.Time && a.Price == b.Price && a.Type == b.Type
}

func fractalCheck(t *T, cs []market.Candle) error {
	got := indicators.WilliamFractals(cs)
	t.Evals++
	want := fractalRef(cs)
	hl := func() string {
		s := ""
		for _, c := range cs {
			s += fmt.Sprintf("(%g,%g)", c.High, c.Low)
			if len(s) > 400 {
				return s + "..."
			}
		}
		return s
	}
	for i := 1; i < len(got); i++ {
		if got[i].Time < got[i-1].Time {
			return failf("fractals of %s are not in time order: %v", hl(), got)
		}
	}
	a, b := sortFr(got), sortFr(want)
	ok := len(a) == len(b)
	for i := 0; ok && i < len(a); i++ {
		ok = sameFractal(a[i], b[i])
	}
	if !ok {
		return failf("fractals of %s are %v, expected %v", hl(), got, want)
	}
	t.Outcomef("%v", a)
	return nil
}

// hlAlphabets spell high/low pairs.
var hlAlphabets = []struct {
	name   string
	hl     [][2]float64
	q, th  int
	mirror bool
}{
	{"grid", [][2]float64{{1, 0}, {2, 0}, {3, 0}, {1, 1}, {2, 1}, {3, 1}, {2, 2}, {3, 2}, {3, -1}}, 7, 8, false},
	{"highs", [][2]float64{{1, 0}, {2, 0}, {3, 0}}, 12, 14, false},
	{"highs4", [][2]float64{{1.1, 0}, {1.2, 0}, {1.3, 0}, {1.4, 0}}, 9, 11, false},
	{"lows", [][2]float64{{10, 1}, {10, 2}, {10, 3}}, 12, 14, false},
	{"negative", [][2]float64{{-1, -2}, {-1.5, -3}, {0, -1}, {1, 0}}, 8, 10, false},
	{"tight", [][2]float64{{100.00000001, 99.99999999}, {100.00000002, 99.99999998}, {100, 100}}, 10, 13, false},
	{"points", [][2]float64{{1, 1}, {2, 2}, {3, 3}}, 10, 12, false},
	{"binary", [][2]float64{{1, 0}, {2, 1}}, 16, 20, false},
}

func hlCandles(hl [][2]float64, l []int) []market.Candle {
	out := make([]market.Candle, len(l), len(l))
	for i, x := range l {
		h, lo := hl[x][0], hl[x][1]
		out[i] = market.Candle{Time: int64(5000 + 60*i), Open: lo - float64(i%3), High: h, Low: lo, Close: h + float64(i%2), Volume: float64(i)}
	}
	return out
}

func init() {
	checks["C16"] = func(r *Run) { avgCheck(r, avgMA) }
	checks["C17"] = func(r *Run) { avgCheck(r, avgEMA) }
	checks["C18"] = func(r *Run) { avgCheck(r, avgSMMA) }

	checks["C19"] = func(r *Run) {
		for _, x := range []struct {
			k, q, th int
		}{{0, 18, 20}, {1, 14, 15}, {2, 14, 15}, {5, 14, 14}, {6, 14, 14}} {
			alph := closeAlphabets[x.k]
			if len(alph) == 3 && x.k != 1 && !r.thorough() {
				alph = alph[:2]
			}
			seriesTree(r, fmt.Sprintf("series/%d", x.k), []int{len(alph)}, 0, pick(r, x.q, x.th), func(t *T, _ int, l []int) error {
				if n := len(l); n < 14 && n > 7 && n != 13 {
					return nil
				}
				cl := spell(alph, l)
				cs := byClose(cl)
				t.Traces++
				hi := len(cl) + 1
				for p := 1; p <= hi; p++ {
					if len(cl) < 14 && p > 2 && p < len(cl)-1 {
						continue
					}
					if err := rsiCheck(t, cl, cs, p); err != nil {
						return err
					}
				}
				return nil
			})
		}
		r.bound("RSI: every series of up to %d closes from 2 values and of 14 closes from 3 values, every period 1..n+1; refusals for every shorter length class", pick(r, 18, 20))
		Enum(r, "long", func(yield func(longCase) bool) { longCases(r, yield) }, func(t *T, c longCase) error {
			cl := longSeries(c.Pat, c.N)
			t.States++
			t.Transitions += int64(c.N)
			t.Traces++
			return rsiCheck(t, cl, byClose(cl), c.Period)
		})
		// one move of every size at every place, in up, down and mixed surroundings
		type mv struct {
			N, At, Period int
			Move          float64
			Around        int
		}
		Enum(r, "single moves", func(yield func(mv) bool) {
			for _, n := range []int{14, 15, 20, 30} {
				for at := 1; at < n; at++ {
					for p := 1; p < n; p++ {
						for _, m := range []float64{1, -1, 1e-6, -1e-6, 500, -500} {
							for ar := 0; ar < 3; ar++ {
								if !yield(mv{n, at, p, m, ar}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(t *T, c mv) error {
			cl := make([]float64, c.N)
			cl[0] = 1000
			for i := 1; i < c.N; i++ {
				cl[i] = cl[i-1] + []float64{0, 1, -1}[c.Around]
				if i == c.At {
					cl[i] = cl[i-1] + c.Move
				}
			}
			t.States++
			t.Transitions += int64(c.N)
			t.Traces++
			// values this small only make sense up to the rounding of the closes themselves
			if math.Abs(c.Move) < 1e-3 && c.Around == 0 {
				for i := range cl {
					cl[i] -= 1000
				}
				cl[0] = 0
				for i := 1; i < c.N; i++ {
					cl[i] = cl[i-1]
					if i == c.At {
						cl[i] += c.Move
					}
				}
			}
			return rsiCheck(t, cl, byClose(cl), c.Period)
		})
		Enum(r, "magnitudes", magCases, func(t *T, c magCase) error {
			cl := c.series()
			t.States++
			t.Transitions += int64(len(cl))
			t.Traces++
			return rsiCheck(t, cl, plainCloses(cl), c.Period)
		})
		r.bound("RSI: structured series at every decimal magnitude 1e-280..1e280, both signs")
		Enum(r, "missing", func(yield func(longCase) bool) {
			for p := -3; p < 40; p++ {
				for n := 0; n < 14; n++ {
					if !yield(longCase{0, n, p}) {
						return
					}
				}
			}
			for _, p := range oddPeriods {
				for _, n := range []int{0, 13, 14, 40} {
					if !yield(longCase{0, n, p}) {
						return
					}
				}
			}
		}, func(t *T, c longCase) error {
			t.States++
			t.Transitions += int64(c.N) + 1
			t.Traces++
			cl := longSeries(2, c.N)
			if got, err := indicators.RSI(nil, c.Period); err == nil || len(got) != 0 {
				return failf("RSI of a missing series with period %d gave %v, error %v", c.Period, got, err)
			}
			return rsiCheck(t, cl, byClose(cl), c.Period)
		})
	}

	checks["C20"] = func(r *Run) {
		for _, a := range hlAlphabets {
			a := a
			seriesTree(r, "series/"+a.name, []int{len(a.hl)}, 0, pick(r, a.q, a.th), func(t *T, _ int, l []int) error {
				t.Traces++
				return fractalCheck(t, hlCandles(a.hl, l))
			})
			r.bound("fractals: every series of up to %d candles from %d high/low pairs (%s)", pick(r, a.q, a.th), len(a.hl), a.name)
		}
		// plateaus: peak, k equal candles, a step, m equal candles, a step
		type pl struct {
			K, M, S1, S2, Tail int
			Down               bool
		}
		maxK := pick(r, 24, 60)
		Enum(r, "plateaus", func(yield func(pl) bool) {
			for k := 0; k <= maxK; k++ {
				for m := 0; m <= maxK; m++ {
					for s1 := -1; s1 <= 1; s1++ {
						for s2 := -1; s2 <= 1; s2++ {
							for tail := 0; tail < 3; tail++ {
								for _, d := range []bool{false, true} {
									if !yield(pl{k, m, s1, s2, tail, d}) {
										return
									}
								}
							}
						}
					}
				}
			}
			for _, k := range []int{61, 98, 101, 256, 500, 999, 1001, 5003} { // and very long ones
				for _, m := range []int{0, 1, k} {
					for s := 0; s < 9; s++ {
						for tail := 0; tail < 3; tail++ {
							if !yield(pl{k, m, s/3 - 1, s%3 - 1, tail, false}) || !yield(pl{k, m, s/3 - 1, s%3 - 1, tail, true}) {
								return
							}
						}
					}
				}
			}
		}, func(t *T, c pl) error {
			hs := []float64{1, 2, 10}
			for i := 0; i < c.K; i++ {
				hs = append(hs, 10)
			}
			hs = append(hs, 10+float64(c.S1))
			for i := 0; i < c.M; i++ {
				hs = append(hs, 10)
			}
			hs = append(hs, 10+float64(c.S2))
			for i := 0; i < c.Tail; i++ {
				hs = append(hs, 5-float64(i))
			}
			cs := make([]market.Candle, len(hs))
			for i, h := range hs {
				cs[i] = market.Candle{Time: int64(i * 60), High: h, Low: 0.5}
				if c.Down {
					cs[i].High, cs[i].Low = 100, 50-h
				}
			}
			t.States++
			t.Transitions += int64(len(cs))
			t.Traces++
			return fractalCheck(t, cs)
		})
		type lf struct{ Pat, N, Exp int }
		Enum(r, "long", func(yield func(lf) bool) {
			for pat := 0; pat < nLong; pat++ {
				for n := 0; n <= pick(r, 300, 1000); n++ {
					if !yield(lf{pat, n, 0}) {
						return
					}
				}
				for _, n := range []int{1001, 1024, 1025, 2000, 4097} {
					if !yield(lf{pat, n, 0}) {
						return
					}
				}
				for e := -280; e <= 280; e++ { // and of every magnitude
					for _, neg := range []int{1, -1} {
						if !yield(lf{pat, 30 * neg, e}) {
							return
						}
					}
				}
			}
		}, func(t *T, c lf) error {
			f := math.Pow(10, float64(c.Exp))
			if c.N < 0 {
				c.N, f = -c.N, -f
			}
			cl := longSeries(c.Pat, c.N)
			cs := make([]market.Candle, len(cl))
			for i, x := range cl {
				cs[i] = market.Candle{Time: int64(i * 60), High: f * (x + 1), Low: f * (x - 1 - float64(i%3))}
				if f < 0 {
					cs[i].High, cs[i].Low = cs[i].Low, cs[i].High
				}
			}
			t.States++
			t.Transitions += int64(len(cs))
			t.Traces++
			return fractalCheck(t, cs)
		})
		// candles that share their times, lie before 1970 or come irregularly
		type tm struct {
			Mode int
			L    []int
		}
		grid := hlAlphabets[0].hl
		Enum(r, "times", func(yield func(tm) bool) {
			for mode := 0; mode < 4; mode++ {
				ok := true
				lists(len(grid), pick(r, 6, 7), func(l []int) bool {
					ok = yield(tm{mode, l})
					return ok
				})
				if !ok {
					return
				}
			}
			for mode := 0; mode < 4; mode++ {
				for n := 5; n <= 120; n++ {
					l := make([]int, n)
					for i := range l {
						l[i] = (i * i / 2) % len(grid)
					}
					if !yield(tm{mode, l}) {
						return
					}
				}
			}
		}, func(t *T, c tm) error {
			cs := hlCandles(grid, c.L)
			for i := range cs {
				switch c.Mode {
				case 0:
					cs[i].Time = 0
				case 1:
					cs[i].Time = 1614837600 + int64(i/2*60)
				case 2:
					cs[i].Time = -1e9 + int64(i*i*i)
				case 3:
					cs[i].Time = math.MinInt64 + int64(i)<<55
				}
			}
			t.States++
			t.Transitions += int64(len(cs))
			t.Traces++
			return fractalCheck(t, cs)
		})
		r.bound("fractals: every series of up to %d candles from %d high/low pairs, and series of up to 120, with equal, pairwise equal, negative irregular and extreme times", pick(r, 6, 7), len(grid))
		r.bound("fractals: plateaus of up to %d, and of up to 5003, equal candles before and between confirming or cancelling candles; structured series of every length up to %d, of up to 4097 candles, and of every decimal magnitude 1e-280..1e280", maxK, pick(r, 300, 1000))
	}

	checks["C21"] = func(r *Run) {
		betas := []float64{0, 0.5, 1, 0.1, 0.9, 0.94, 0.999999, 1e-6, 0.3333333333, 2, -1}
		ranges := []float64{0, 1, 2.5, 1000, 1e-6, -3}
		body := func(t *T, rs []float64, beta float64, offset float64) error {
			cs := make([]market.Candle, len(rs))
			max, min := 0.0, 0.0
			for i, x := range rs {
				lo := offset * (1 + float64(i%3)/8)
				cs[i] = market.Candle{Time: int64(i), High: lo + x, Low: lo, Open: 99, Close: -99, Volume: 7}
				max = math.Max(max, math.Abs(cs[i].High-cs[i].Low))
				min = math.Min(min, cs[i].High-cs[i].Low)
			}
			want, scale := 0.0, max
			for i := range cs {
				want = beta*want + (1-beta)*(cs[i].High-cs[i].Low)
				scale = math.Max(scale, math.Abs(want))
			}
			got := indicators.ExponentialWeightedVolatility(cs, beta)
			t.Evals++
			if !near(got, want, scale) {
				return failf("volatility of ranges %v with beta %v is %v, expected %v", short(rs), beta, got, want)
			}
			if beta >= 0 && beta <= 1 && (got < min-1e-9*max || got > max*(1+1e-9)) {
				return failf("volatility of ranges %v with beta %v is %v, outside 0 and the largest range", short(rs), beta, got)
			}
			t.Outcomef("%v", got)
			return nil
		}
		ml := pick(r, 7, 9)
		seriesTree(r, "series", []int{len(ranges)}, 0, ml, func(t *T, _ int, l []int) error {
			t.Traces++
			rs := spell(ranges, l)
			for _, b := range betas {
				if err := body(t, rs, b, 100); err != nil {
					return err
				}
			}
			if len(l) < 6 {
				for _, off := range []float64{0, -500, 1e-6} {
					for _, b := range betas {
						if err := body(t, rs, b, off); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
		type lv struct{ Pat, N, Beta int }
		Enum(r, "long", func(yield func(lv) bool) {
			for pat := 0; pat < nLong; pat++ {
				for n := 0; n <= pick(r, 400, 1500); n++ {
					for b := range betas[:9] {
						if !yield(lv{pat, n, b}) {
							return
						}
					}
				}
				for _, n := range []int{999, 1001, 1025, 2003, 5003, 10007, 65539} {
					for b := range betas[:9] {
						if !yield(lv{pat, n, b}) {
							return
						}
					}
				}
			}
		}, func(t *T, c lv) error {
			cl := longSeries(c.Pat, c.N)
			for i := range cl {
				cl[i] = math.Abs(cl[i])
			}
			t.States++
			t.Transitions += int64(c.N)
			t.Traces++
			if c.N == 0 {
				if v := indicators.ExponentialWeightedVolatility(nil, betas[c.Beta]); v != 0 {
					return failf("volatility of no candles is %v", v)
				}
			}
			return body(t, cl, betas[c.Beta], 5)
		})
		Enum(r, "magnitudes", func(yield func(magCase) bool) {
			magCases(func(c magCase) bool {
				c.Period %= len(betas)
				return yield(c)
			})
		}, func(t *T, c magCase) error {
			cl := c.series()
			t.States++
			t.Transitions += int64(len(cl))
			t.Traces++
			return body(t, cl, betas[c.Period], 0)
		})
		r.bound("volatility: ranges of every decimal magnitude 1e-280..1e280, both signs (low above high)")
		r.bound("volatility: every series of up to %d ranges from %v with %d betas; structured series of every length up to %d and of up to 65539", ml, ranges, len(betas), pick(r, 400, 1500))
	}

	checks["C22"] = func(r *Run) { checkC22(r) }
}

// C22 -----------------------------------------------------------------------

// result is what an indicator reported, as comparable numbers.
type result struct {
	vals []float64
	fr   []indicators.WilliamFractal
	err  bool
	raw  any
}

type indicator struct {
	name string
	call func(cs []market.Candle, period int) result
}

var allIndicators = []indicator{
	{"simple average", func(cs []market.Candle, p int) result {
		v, err := indicators.MovingAverage(cs, p)
		return result{vals: append([]float64{}, v...), err: err != nil, raw: v}
	}},
	{"exponential average", func(cs []market.Candle, p int) result {
		v, err := indicators.ExponentialMovingAverage(cs, p)
		return result{vals: append([]float64{}, v...), err: err != nil, raw: v}
	}},
	{"smoothed average", func(cs []market.Candle, p int) result {
		v, err := indicators.SmoothedMovingAverage(cs, p)
		return result{vals: append([]float64{}, v...), err: err != nil, raw: v}
	}},
	{"RSI", func(cs []market.Candle, p int) result {
		v, err := indicators.RSI(cs, p)
		o := make([]float64, len(v))
		for i := range v {
			o[i] = float64(v[i])
		}
		return result{vals: o, err: err != nil, raw: v}
	}},
	{"fractals", func(cs []market.Candle, p int) result {
		v := indicators.WilliamFractals(cs)
		return result{fr: append([]indicators.WilliamFractal{}, v...), raw: v}
	}},
	{"volatility", func(cs []market.Candle, p int) result {
		return result{vals: []float64{indicators.ExponentialWeightedVolatility(cs, 1/float64(p+2))}}
	}},
}

func sameResult(a, b result, scale float64) bool {
	if a.err != b.err || len(a.vals) != len(b.vals) || len(a.fr) != len(b.fr) {
		return false
	}
	return prefixResult(a, b, scale)
}

// prefixResult: everything a reported is also in b.
func prefixResult(a, b result, scale float64) bool {
	if len(a.vals) > len(b.vals) {
		return false
	}
	for i := range a.vals {
		if !near(a.vals[i], b.vals[i], scale) && !(math.IsNaN(a.vals[i]) && math.IsNaN(b.vals[i])) {
			return false
		}
	}
	for _, f := range a.fr {
		found := false
		for _, g := range b.fr {
			found = found || sameFractal(f, g)
		}
		if !found {
			return false
		}
	}
	return true
}

func checkC22(r *Run) {
	// a series candle letter moves high, low and close together
	mk := func(alph []float64, l []int, spare int) []market.Candle {
		step := int64(60)
		if len(alph) == 4 { // the newest first
			step = -60
		}
		out := make([]market.Candle, len(l), len(l)+spare)
		for i, x := range l {
			c := alph[x]
			out[i] = market.Candle{Time: step * int64(i), Open: c, High: c + 1, Low: c - 1, Close: c, Volume: 3}
		}
		full := out[:cap(out)]
		for i := len(l); i < len(full); i++ {
			full[i] = market.Candle{Time: int64(60 * i), Open: 1e5, High: 3e5 * float64(1-2*(i%2)), Low: -2e5, Close: 1e5 * float64(1+i%3), Volume: 9}
		}
		return out
	}
	one := func(t *T, alph []float64, l []int, periods []int) error {
		scale := maxAbs(spell(alph, l)) + 1
		exact := mk(alph, l, 0)
		roomy := mk(alph, l, 3)
		snapE, snapR := deep(nil, exact, &dumpOpt{caps: true}), deep(nil, roomy, &dumpOpt{caps: true})
		for _, in := range allIndicators {
			for _, p := range periods {
				if in.name == "fractals" && p != periods[0] {
					continue
				}
				a := in.call(exact, p)
				rawSnap := deep(nil, a.raw, nil)
				b := in.call(roomy, p)
				t.Evals += 2
				if !sameResult(a, b, scale) {
					return failf("%s with period %d depends on memory beyond the series %v: %v %v, with other memory %v %v", in.name, p, short(spell(alph, l)), a.vals, a.fr, b.vals, b.fr)
				}
				if len(l) > 0 && in.name != "volatility" {
					prev := in.call(exact[:len(l)-1], p)
					if !prev.err && (a.err || !prefixResult(prev, a, scale)) {
						return failf("%s with period %d changed what it had reported: %v %v for %v, now %v %v with one candle more", in.name, p, prev.vals, prev.fr, short(spell(alph, l[:len(l)-1])), a.vals, a.fr)
					}
					t.Evals++
				}
				if string(rawSnap) != string(deep(nil, a.raw, nil)) {
					return failf("%s with period %d: a later call changed an earlier result", in.name, p)
				}
				t.Outcomef("%s%v%v", in.name, a.vals, a.fr)
			}
		}
		if string(snapE) != string(deep(nil, exact, &dumpOpt{caps: true})) || string(snapR) != string(deep(nil, roomy, &dumpOpt{caps: true})) {
			return failf("an indicator modified its input %v", short(spell(alph, l)))
		}
		return nil
	}
	for _, x := range []struct {
		alph  []float64
		q, th int
		from  int
	}{{[]float64{1, 2, 4}, 7, 9, 0}, {[]float64{5, 3}, 16, 17, 13}, {[]float64{0, -1, 100, 2}, 6, 7, 0}} {
		x := x
		n := pick(r, x.q, x.th)
		seriesTree(r, fmt.Sprintf("append/%v", x.alph), []int{len(x.alph)}, x.from, n, func(t *T, _ int, l []int) error {
			t.Traces++
			var ps []int
			for p := 1; p <= len(l)+1; p++ {
				if len(l) > 12 && p > 3 && p < len(l)-3 && p%3 != 0 {
					continue
				}
				ps = append(ps, p)
			}
			return one(t, x.alph, l, ps)
		})
		r.bound("indicators: every series of %d..%d candles from %v: one appended candle, spare memory behind the slice, input and earlier results compared", x.from, n, x.alph)
	}
	// long series, appended one by one
	type lc struct{ Pat, N int }
	Enum(r, "long appends", func(yield func(lc) bool) {
		for pat := 0; pat < nLong; pat++ {
			for n := 1; n <= pick(r, 130, 300); n++ {
				if !yield(lc{pat, n}) {
					return
				}
			}
		}
	}, func(t *T, c lc) error {
		cl := longSeries(c.Pat, c.N)
		l := make([]int, c.N)
		for i := range l {
			l[i] = i
		}
		t.States++
		t.Transitions += int64(c.N)
		t.Traces++
		return one(t, cl, l, []int{1, 2, 14, 50, c.N / 2, c.N - 1, c.N})
	})
	// no look-ahead within the series: changing the last candle only changes what depends on it
	type la struct{ Pat, N, Period int }
	Enum(r, "last candle", func(yield func(la) bool) {
		for pat := 0; pat < nLong; pat++ {
			for n := 2; n <= 40; n++ {
				for p := 1; p <= n; p++ {
					if !yield(la{pat, n, p}) {
						return
					}
				}
			}
		}
	}, func(t *T, c la) error {
		cl := longSeries(c.Pat, c.N)
		scale := maxAbs(cl) + 1
		t.States++
		t.Transitions += int64(c.N)
		t.Traces++
		a, b := byClose(cl), byClose(cl)
		b[c.N-1] = market.Candle{Time: b[c.N-1].Time, Open: 9e4, High: 9.5e4, Low: 8e4, Close: 9.1e4, Volume: 1}
		for _, in := range allIndicators {
			if in.name == "volatility" || in.name == "fractals" {
				continue
			}
			x, y := in.call(a, c.Period), in.call(b, c.Period)
			t.Evals++
			if x.err || y.err || len(x.vals) == 0 {
				continue
			}
			if len(x.vals) != len(y.vals) {
				return failf("%s: number of values depends on the last candle", in.name)
			}
			x.vals = x.vals[:len(x.vals)-1]
			if !prefixResult(x, y, scale) {
				return failf("%s with period %d: changing the last of %d candles changed earlier values", in.name, c.Period, c.N)
			}
		}
		return nil
	})
	// earlier calls: the same call gives the same answer after any other call
	type pc struct{ I, PI, J, PJ, K int }
	Enum(r, "call pairs", func(yield func(pc) bool) {
		for i := range allIndicators {
			for j := range allIndicators {
				for pi := 1; pi <= 15; pi++ {
					for pj := 0; pj <= 16; pj += 2 {
						for k := 0; k < 3; k++ {
							if !yield(pc{i, pi, j, pj, k}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(t *T, c pc) error {
		a := byClose(longSeries(2, 20))
		var b []market.Candle
		switch c.K {
		case 0:
			b = byClose(longSeries(7, 31))
		case 1:
			b = a[3:17]
		case 2:
			b = a
		}
		t.States++
		t.Transitions += 3
		t.Traces++
		r1 := allIndicators[c.I].call(a, c.PI)
		raw := deep(nil, r1.raw, nil)
		allIndicators[c.J].call(b, c.PJ)
		r2 := allIndicators[c.I].call(a, c.PI)
		if !sameResult(r1, r2, 1e5) {
			return failf("%s gives another answer after a call of %s", allIndicators[c.I].name, allIndicators[c.J].name)
		}
		if string(raw) != string(deep(nil, r1.raw, nil)) {
			return failf("a call of %s changed an earlier result of %s", allIndicators[c.J].name, allIndicators[c.I].name)
		}
		// scribbling over a result must not reach the input or a later result
		switch v := r1.raw.(type) {
		case []float64:
			for i := range v {
				v[i] = -777
			}
		case []float32:
			for i := range v {
				v[i] = -777
			}
		case []indicators.WilliamFractal:
			for i := range v {
				v[i].Price = -777
			}
		}
		if r3 := allIndicators[c.I].call(a, c.PI); !sameResult(r2, r3, 1e5) {
			return failf("%s: writing to a result changes later results", allIndicators[c.I].name)
		}
		return nil
	})
	// nothing panics
	type np struct {
		L []int
		P int
	}
	odd := []float64{0, 1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64}
	Enum(r, "odd arguments", func(yield func(np) bool) {
		ok := true
		for _, p := range append([]int{1, 2, 3, 4, 5, 6, 13, 14, 15}, oddPeriods...) {
			lists(len(odd), 5, func(l []int) bool {
				ok = yield(np{l, p})
				return ok
			})
			if !ok {
				return
			}
			for n := 6; n < 30; n++ {
				for k := range odd {
					l := make([]int, n)
					for i := range l {
						l[i] = (i * (k + 1)) % len(odd)
					}
					if !yield(np{l, p}) {
						return
					}
				}
			}
		}
	}, func(t *T, c np) error {
		cs := make([]market.Candle, len(c.L))
		for i, x := range c.L {
			v := odd[x]
			cs[i] = market.Candle{Time: int64(i), Open: v, High: v, Low: -v, Close: v, Volume: v}
		}
		t.States++
		t.Transitions += int64(len(cs))
		t.Traces++
		for _, in := range allIndicators {
			in.call(cs, c.P)
			if len(c.L) == 0 {
				in.call(nil, c.P)
			}
			t.Evals++
		}
		return nil
	})
	r.bound("indicators: every pair of calls around a third, every series of up to 5 candles with NaN, infinite and extreme values and every odd period (no panics)")
}
