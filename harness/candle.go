package main

import (
	"fmt"
	"math"
	"time"

	"github.com/vanclief/finmod/market"
)

// ---------------------------------------------------------------------------
// Resampling: C11 - C13.
// ---------------------------------------------------------------------------

// candleAt gives a candle whose values follow one of several patterns.
func candleAt(pat, i int, at int64) market.Candle {
	c := market.Candle{Time: at}
	f := float64(i)
	switch pat {
	case 0: // zig-zag around 100
		k := float64((i*7 + 3) % 11)
		c.Open, c.Close, c.High, c.Low, c.Volume = 100+k, 101+float64((i*5+1)%7), 110+float64((i*3)%13), 90-float64((i*4)%9), 1+f*0.25
	case 1: // negative prices, rising
		c.Open, c.Close, c.High, c.Low, c.Volume = -500+f, -499+f, -490+f, -510+f, 0.00001*(f+1)
	case 2: // falling, extremes at the ends, volumes that need rounding
		c.Open, c.Close, c.High, c.Low, c.Volume = 1000-f, 999-f, 1001-f, 998-f, 0.1234567+f/3
	case 3: // flat with zero volume
		c.Open, c.Close, c.High, c.Low = 5, 5, 5, 5
	case 4: // tiny prices, huge volumes
		c.Open, c.Close, c.High, c.Low, c.Volume = 1e-8*(f+1), 2e-8*(f+1), 3e-8*(1+float64(i%3)), 1e-9*(1+float64(i%4)), 123456789.25+f
	case 5: // near the ends of the number range
		v := 1.1e308 + f*1e304
		if i%8 > 3 {
			v = -v
		}
		c.Open, c.Close, c.High, c.Low, c.Volume = v, v*1.01, v*1.05, v*1.02, 1+f
	case 9: // vast volumes with decimals
		c.Open, c.Close, c.High, c.Low, c.Volume = 3+f, 2+f, 5+f, 1+f, 1e9*math.Pow(10, float64(i%7))+0.25
	case 8: // volumes of both signs (corrections)
		c.Open, c.Close, c.High, c.Low, c.Volume = 7+f, 8+f, 9+f, 6+f, 3.5-float64(i*5%9)
	case 7: // falling through zero
		c.Open, c.Close, c.High, c.Low, c.Volume = 4-f, 3-f, 6-f, 2-f, 0.5+f
	default: // zero lows, spikes
		c.Open, c.Close, c.High, c.Low, c.Volume = f, f+0.5, float64((i*i)%17), 0, 2e-6*f
	}
	return c
}

const nPatterns = 10

// aligned says whether a timestamp can start a resampled series (UTC minute of the hour).
func aligned(at int64, interval int) bool {
	min := int(((at % 3600) + 3600) % 3600 / 60)
	m := interval
	if m > 60 {
		m %= 60
	}
	return min == 0 || (m != 0 && min%m == 0)
}

type refStatus int

const (
	refOK refStatus = iota
	refRefused
	refUnspecified
)

// resampleRef groups the source candles by interval, following the statement of C11 and C12.
func resampleRef(cs []market.Candle, interval int) (groups [][]market.Candle, st refStatus) {
	if len(cs) == 0 {
		return nil, refOK
	}
	if len(cs) == 1 {
		return [][]market.Candle{cs}, refOK
	}
	if interval <= 0 {
		return nil, refRefused
	}
	for i := 1; i < len(cs); i++ {
		if cs[i].Time < cs[i-1].Time {
			return nil, refUnspecified
		}
	}
	delta := (cs[1].Time - cs[0].Time) / 60
	if delta == 0 || int64(interval)%delta != 0 {
		return nil, refRefused
	}
	start := 0
	for start < len(cs) && !aligned(cs[start].Time, interval) {
		start++
	}
	if start == len(cs) {
		return nil, refRefused
	}
	last := int64(-1)
	for _, c := range cs[start:] {
		k := (c.Time - cs[start].Time) / 60 / int64(interval)
		if k != last {
			groups = append(groups, nil)
			last = k
		}
		groups[len(groups)-1] = append(groups[len(groups)-1], c)
	}
	return groups, refOK
}

func checkGroups(out []market.Candle, groups [][]market.Candle) error {
	if len(out) != len(groups) {
		return failf("%d output candles, expected %d", len(out), len(groups))
	}
	for i, g := range groups {
		o := out[i]
		hi, lo, vol, scale := math.Inf(-1), math.Inf(1), 0.0, 0.0
		for _, c := range g {
			hi, lo, vol = math.Max(hi, c.High), math.Min(lo, c.Low), vol+c.Volume
			scale += math.Abs(c.Volume)
		}
		if o.Time != g[0].Time || o.Open != g[0].Open || o.Close != g[len(g)-1].Close || o.High != hi || o.Low != lo {
			return failf("output %d is %+v, expected time %d open %v high %v low %v close %v from %d candles", i, o, g[0].Time, g[0].Open, hi, lo, g[len(g)-1].Close, len(g))
		}
		if math.Abs(o.Volume-vol) > 0.5000001e-5+4e-12*scale || !near(o.Volume, math.Round(o.Volume*1e5)/1e5, 0) {
			return failf("output %d has volume %v, expected %v rounded to 5 decimals", i, o.Volume, vol)
		}
	}
	return nil
}

func showTimes(cs []market.Candle) string {
	s := ""
	for _, c := range cs {
		s += time.Unix(c.Time, 0).UTC().Format("Jan2 15:04:05") + " "
		if len(s) > 300 {
			return s + "..."
		}
	}
	return s
}

func checkResample(t *T, cs []market.Candle, interval int) error {
	groups, st := resampleRef(cs, interval)
	if st != refOK {
		return nil // C12's business
	}
	t.Traces++
	out, err := market.ModifyInterval(cs, interval)
	t.Transitions += int64(len(cs)) + 1 // appends and the call
	t.Evals += int64(len(cs))
	if err != nil {
		return failf("resampling %d candles (%s) to %d minutes failed: %v", len(cs), showTimes(cs), interval, err)
	}
	if len(cs) == 1 {
		if !same(out, cs) {
			return failf("a single candle was not returned as it is: %+v", out)
		}
		return nil
	}
	if err := checkGroups(out, groups); err != nil {
		return failf("resampling %d candles (%s) to %d minutes: %v", len(cs), showTimes(cs), interval, err)
	}
	t.Outcomef("%d %d", len(out), len(cs))
	return nil
}

var bases = []int64{1614837600 /* 2021-03-04 06:00 */, 0, -7 * 86400, 1616893200 /* 2021-03-28 01:00, European DST change */}

func init() {
	checks["C11"] = func(r *Run) {
		type gap struct {
			D, Start, Iv, Pat, Base, Sec int
			Mask                         uint32
			N                            int
		}
		build := func(c gap) []market.Candle {
			var cs []market.Candle
			for i := 0; i < c.N; i++ {
				if c.Mask>>uint(i)&1 == 0 {
					at := bases[c.Base] + int64(c.Start*60+c.Sec) + int64(i*c.D)*60
					cs = append(cs, candleAt(c.Pat, i, at))
				}
			}
			return cs
		}
		nSlots := pick(r, 10, 13)
		ivs := map[int][]int{1: {1, 2, 3, 5, 7, 15, 60, 90}, 5: {5, 15, 30, 60, 75}, 15: {15, 30, 45, 60, 120, 1440}, 60: {60, 120, 240, 1440}, 7: {7, 14, 21, 70}}
		Enum(r, "gaps", func(yield func(gap) bool) {
			for _, d := range []int{1, 5, 15, 60, 7} {
				for _, iv := range ivs[d] {
					for start := 0; start < 60; start++ {
						if d == 60 && start%15 != 0 {
							continue
						}
						for mask := uint32(0); mask < 1<<uint(nSlots-1); mask++ {
							m := mask << 1 // the first candle is there
							c := gap{d, start, iv, (start + int(mask)) % nPatterns, start % len(bases), 0, m, nSlots}
							if start%7 == 3 {
								c.Sec = 30
							}
							if !yield(c) {
								return
							}
						}
					}
				}
			}
		}, func(t *T, c gap) error {
			t.States++
			return checkResample(t, build(c), c.Iv)
		})
		r.bound("resampling: every set of missing candles among %d slots (first present), spacings 1,5,7,15,60, every start minute, up to 8 intervals each", nSlots)

		// complete series: every spacing that divides, every start, lengths up to hundreds
		maxLen := pick(r, 150, 600)
		var allD []int
		for d := 1; d <= 1440; d++ {
			if d <= 24 || d%30 == 0 && d <= 240 || d == 45 || d == 720 || d == 1440 || d == 37 {
				allD = append(allD, d)
			}
		}
		Enum(r, "complete", func(yield func(gap) bool) {
			for _, d := range allD {
				for k := 1; k*d <= 1440 && k <= 60; k++ {
					if k > 6 && k%3 != 0 && k != 7 {
						continue
					}
					for start := 0; start < 60; start++ {
						for _, n := range []int{1, 2, 3, k, k + 1, 2*k - 1, 2 * k, 2*k + 1, 60, maxLen} {
							if n < 1 {
								continue
							}
							if n == maxLen && start%5 != 0 {
								continue
							}
							if !yield(gap{d, start, k * d, (start + k + n) % nPatterns, (start + k) % len(bases), (start % 2) * 59, 0, n}) {
								return
							}
						}
					}
				}
			}
		}, func(t *T, c gap) error {
			t.States++
			return checkResample(t, build(c), c.Iv)
		})
		r.bound("resampling: gap-free series of up to %d candles, %d spacings, their multiples up to a day, every start minute", maxLen, len(allD))

		// jumps: every sequence of distances
		type jump struct {
			D, Iv, Start, Pat int
			J                 []int
		}
		jl := pick(r, 6, 8)
		dist := func(d, iv, k int) int64 {
			return int64([]int{d, 2 * d, iv, iv + d, iv - d, 2 * iv, 1440, 0}[k])
		}
		Enum(r, "jumps", func(yield func(jump) bool) {
			for _, x := range [][2]int{{1, 5}, {5, 15}, {1, 60}, {15, 60}, {60, 240}, {30, 90}} {
				for _, start := range []int{0, 1, x[0], 29, 45, 59} {
					ok := true
					lists(8, jl, func(l []int) bool {
						if len(l) > 0 && l[0] > 1 {
							return true
						}
						ok = yield(jump{x[0], x[1], start, (start + len(l)) % nPatterns, l})
						return ok
					})
					if !ok {
						return
					}
				}
			}
		}, func(t *T, c jump) error {
			at := bases[0] + int64(c.Start)*60
			cs := []market.Candle{candleAt(c.Pat, 0, at)}
			for i, j := range c.J {
				at += dist(c.D, c.Iv, j) * 60
				cs = append(cs, candleAt(c.Pat, i+1, at))
			}
			t.States++
			return checkResample(t, cs, c.Iv)
		})
		r.bound("resampling: every sequence of up to %d distances from {spacing, 2 spacings, interval, interval+-spacing, 2 intervals, a day, 0} after the first", jl)
		// value patterns: every assignment of candle letters to the slots of one and two intervals
		vl := pick(r, 6, 8)
		letters := []market.Candle{
			{Open: 1, High: 4, Low: 1, Close: 2, Volume: 0.1}, {Open: 2, High: 2, Low: -3, Close: -1, Volume: 0}, {Open: 0, High: 9, Low: 0, Close: 0, Volume: 1e-6},
			{Open: -5, High: -4, Low: -7, Close: -6, Volume: 1e7}, {Open: 3, High: 3, Low: 3, Close: 3, Volume: 0.333333},
		}
		type val struct {
			Iv int
			L  []int
		}
		Enum(r, "values", func(yield func(val) bool) {
			for _, iv := range []int{3, 4} {
				ok := true
				lists(len(letters), vl, func(l []int) bool {
					ok = yield(val{iv, l})
					return ok
				})
				if !ok {
					return
				}
			}
		}, func(t *T, c val) error {
			if len(c.L) == 0 {
				return nil
			}
			var cs []market.Candle
			for i, l := range c.L {
				x := letters[l]
				x.Time = bases[0] + int64(i)*60
				cs = append(cs, x)
			}
			t.States++
			return checkResample(t, cs, c.Iv)
		})
		r.bound("resampling: every series of up to %d candles from %d value letters (negative, zero, tied, tiny and large values)", vl, len(letters))
	}

	c11long := func(r *Run) {
		type gap struct {
			D, Start, Iv, Pat, Skip, N int
		}
		build := func(c gap) []market.Candle {
			var cs []market.Candle
			for i := 0; i < c.N; i++ {
				if i < 2 || c.Skip == 0 || i%c.Skip != 0 {
					cs = append(cs, candleAt(c.Pat, i, bases[0]+int64(c.Start+i*c.D)*60))
				}
			}
			return cs
		}
		// intervals from a day to a year: outputs made of up to thousands of candles
		maxN := pick(r, 6000, 25000)
		Enum(r, "long intervals", func(yield func(gap) bool) {
			for _, iv := range []int{60, 61, 90, 100, 240, 720, 1439, 1440, 2880, 4320, 7200, 10080, 20160, 32767, 32768, 40000, 40320, 43200, 44640, 65536, 100000, 525600} {
				for _, d := range []int{1, 2, 5, 15, 30, 60, 240, 1440} {
					if iv%d != 0 {
						continue
					}
					k := iv / d
					for _, n := range []int{k - 1, k, k + 1, 2 * k, 2*k + 1, 3*k + 2, 300} {
						if n < 2 || n > maxN {
							continue
						}
						for _, start := range []int{0, 1, 30, 59, 7 * 60, 13*60 + 45} {
							for _, skip := range []int{0, 2, 7, 60, 1440} {
								if skip > n {
									continue
								}
								for pat := 0; pat < 2; pat++ {
									if !yield(gap{d, start, iv, (start + n + skip + pat) % nPatterns, skip, n}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, func(t *T, c gap) error {
			t.States++
			return checkResample(t, build(c), c.Iv)
		})
		// many outputs
		Enum(r, "many", func(yield func(gap) bool) {
			for _, x := range [][2]int{{1, 1}, {1, 2}, {1, 3}, {1, 5}, {5, 15}, {1, 60}, {60, 1440}, {1440, 10080}} {
				for _, n := range []int{999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 5003, 12000, pick(r, 40009, 70000)} {
					for _, skip := range []int{0, 3, 11} {
						for _, start := range []int{0, 4} {
							if !yield(gap{x[0], start, x[1], (n + skip + start) % nPatterns, skip, n}) {
								return
							}
						}
					}
				}
			}
		}, func(t *T, c gap) error {
			t.States++
			return checkResample(t, build(c), c.Iv)
		})
		// an outage of any length, from a minute to thousands of years, at any place
		type outage struct{ D, Iv, Start, Before, After, Exp, Off int }
		Enum(r, "outages", func(yield func(outage) bool) {
			for _, x := range [][2]int{{1, 1}, {1, 5}, {5, 15}, {15, 60}, {60, 240}, {1, 1440}, {60, 1440}} {
				for e := 0; e <= 40; e++ {
					for _, off := range []int{-1, 0, 1, 2} {
						for b := 2; b <= 4; b++ {
							for a := 1; a <= 3; a++ {
								for _, start := range []int{0, 1, 45} {
									if !yield(outage{x[0], x[1], start, b, a, e, off}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, func(t *T, c outage) error {
			at := bases[0] + int64(c.Start)*60
			var cs []market.Candle
			for i := 0; i < c.Before+c.After; i++ {
				cs = append(cs, candleAt(c.Exp%nPatterns, i, at))
				at += int64(c.D) * 60
				if i == c.Before-1 {
					at += (1<<uint(c.Exp) + int64(c.Off)) * int64(c.D) * 60
				}
			}
			t.States++
			return checkResample(t, cs, c.Iv)
		})
		// outages of every number of intervals
		type skip struct{ D, Iv, K, Off int }
		maxK := pick(r, 5000, 50000)
		Enum(r, "skipped intervals", func(yield func(skip) bool) {
			for _, x := range [][2]int{{1, 5}, {15, 60}, {60, 1440}} {
				for k := 0; k <= maxK; k++ {
					for off := -1; off <= 1; off++ {
						if !yield(skip{x[0], x[1], k, off}) {
							return
						}
					}
				}
				for _, p := range []int{10, 60, 24, 7} {
					for k := p; k < 1e12; k *= p {
						if !yield(skip{x[0], x[1], k, 0}) {
							return
						}
					}
				}
			}
		}, func(t *T, c skip) error {
			at := bases[0]
			cs := []market.Candle{candleAt(0, 0, at), candleAt(0, 1, at+int64(c.D)*60)}
			at += (int64(c.K)*int64(c.Iv) + int64((2+c.Off)*c.D)) * 60
			cs = append(cs, candleAt(0, 2, at), candleAt(0, 3, at+int64(c.D)*60))
			t.States++
			return checkResample(t, cs, c.Iv)
		})
		r.bound("resampling: outages of every number of intervals up to %d, and of powers of 7, 10, 24 and 60 intervals", maxK)
		r.bound("resampling: intervals from an hour to a year from 8 spacings (up to %d candles), series of up to %d candles with regular gaps, outages of 2^k spacings and around, k = 0..40", maxN, pick(r, 40009, 70000))
	}
	c11 := checks["C11"]
	checks["C11"] = func(r *Run) { c11(r); c11long(r) }

	checks["C12"] = func(r *Run) {
		type tc struct {
			Start int64
			J     []int
			Iv    int
			Cap   int
		}
		deltas := []int64{60, 300, 0, 30, 61, 3600, -60, 86400}
		ivs := []int{1, 5, 60, 0, -1, 7, 90, 1440, -60, math.MinInt64, math.MaxInt64}
		maxLen := pick(r, 4, 5)
		starts := []int64{bases[0], bases[0] + 60, bases[0] + 17*60 + 30, bases[0] + 59*60, -61, 0, math.MaxInt64 / 4}
		body := func(t *T, c tc) error {
			n := len(c.J)
			cs := make([]market.Candle, 0, n+c.Cap)
			at := c.Start
			for i, j := range c.J {
				if i > 0 {
					at += deltas[j]
				}
				cs = append(cs, candleAt(0, i, at))
			}
			full := cs[:cap(cs)]
			for i := n; i < len(full); i++ {
				full[i] = market.Candle{Time: 77, High: 1e9, Low: -1e9, Volume: 1e9}
			}
			snap := deep(nil, cs, &dumpOpt{caps: true})
			t.States++
			t.Traces++
			out, err := market.ModifyInterval(cs, c.Iv)
			t.Transitions += int64(n) + 1 // n appends and the call
			if string(snap) != string(deep(nil, cs, &dumpOpt{caps: true})) {
				return failf("the input series was modified: %+v", full)
			}
			groups, st := resampleRef(cs, c.Iv)
			switch {
			case n <= 1 && c.Iv <= 0:
				if err == nil && len(out) != n {
					return failf("%d candles to %d minutes gave %d candles", n, c.Iv, len(out))
				}
			case n == 0:
				if err != nil || len(out) != 0 {
					return failf("an empty series gave %v, error %v", out, err)
				}
			case st == refRefused:
				if err == nil || len(out) != 0 {
					return failf("resampling %s to %d minutes must be refused, gave %d candles, error %v", showTimes(cs), c.Iv, len(out), err)
				}
			case st == refOK:
				if err != nil || len(out) != len(groups) {
					return failf("resampling %s to %d minutes gave %d candles, error %v; expected %d", showTimes(cs), c.Iv, len(out), err, len(groups))
				}
				for i := range out {
					if out[i].Time != groups[i][0].Time {
						return failf("resampling %s to %d minutes: output %d starts at %d, expected %d", showTimes(cs), c.Iv, i, out[i].Time, groups[i][0].Time)
					}
				}
			}
			if err != nil && len(out) != 0 {
				return failf("an error came with %d candles", len(out))
			}
			// writing to the result must not write to the input, except for the returned single candle
			if n > 1 {
				for i := range out {
					out[i].Close = 424242
				}
				if string(snap) != string(deep(nil, cs, &dumpOpt{caps: true})) {
					return failf("the result shares memory with the input series")
				}
			}
			t.Evals++
			t.Outcomef("%d %v %d", n, err != nil, len(out))
			return nil
		}
		gen := func(maxLen int) func(yield func(tc) bool) {
			return func(yield func(tc) bool) {
				for _, iv := range ivs {
					for si, s := range starts {
						ok := true
						lists(len(deltas), maxLen, func(l []int) bool {
							if len(l) > 0 && l[0] != 0 {
								return true
							}
							ok = yield(tc{s, l, iv, si % 3})
							return ok
						})
						if !ok {
							return
						}
					}
				}
			}
		}
		Enum(r, "UTC", gen(maxLen+2), body)
		// every interval around the valid range
		Enum(r, "intervals", func(yield func(tc) bool) {
			for iv := -130; iv <= 1500; iv++ {
				for m := 0; m < 60; m++ {
					for j := range deltas {
						if !yield(tc{bases[0] + int64(m)*60, []int{0, j, j}, iv, m % 2}) {
							return
						}
					}
				}
			}
		}, body)
		r.bound("resampling refusals: every sequence of up to %d distances from %v s, %d intervals, %d starts; every interval -130..1500 at every start minute", maxLen+2, deltas, len(ivs), len(starts))
		// intervals of every magnitude, multiples of the spacing and not
		Enum(r, "far intervals", func(yield func(tc) bool) {
			for k := 0; k < 63; k++ {
				for _, f := range []int{1, 5, 60, 1440} {
					for off := -2; off <= 2; off++ {
						iv := f<<k + off
						for _, m := range []int64{0, 1, 20, 59} {
							for j := range deltas {
								if !yield(tc{bases[0] + m*60, []int{0, j, j, 5}, iv, 0}) || !yield(tc{bases[0] + m*60, []int{0, j}, -iv, 1}) {
									return
								}
							}
						}
					}
				}
			}
		}, body)
		// the first aligned candle comes late or not at all
		type late struct{ N, Tail, Iv, Minute int }
		Enum(r, "late start", func(yield func(late) bool) {
			ns := []int{255, 256, 499, 500, 501, 999, 1000, 1001, 1023, 1024, 1025, 1439, 1440, 1441, 4096, pick(r, 5000, 20000)}
			for n := 2; n <= pick(r, 130, 400); n++ {
				ns = append(ns, n)
			}
			for _, n := range ns {
				for tail := 0; tail <= 3; tail++ {
					for _, iv := range []int{60, 120, 1440, 10080} {
						for _, m := range []int{1, 30, 59} {
							if !yield(late{n, tail, iv, m}) {
								return
							}
						}
					}
				}
			}
		}, func(t *T, c late) error {
			var cs []market.Candle
			for i := 0; i < c.N; i++ {
				cs = append(cs, candleAt(0, i, bases[0]+int64(i*60+c.Minute)*60))
			}
			for i := 0; i < c.Tail; i++ {
				cs = append(cs, candleAt(0, i, bases[0]+int64((c.N+1+i)*60)*60))
			}
			t.States++
			t.Traces++
			t.Evals++
			t.Transitions += int64(len(cs)) + 1
			out, err := market.ModifyInterval(cs, c.Iv)
			groups, st := resampleRef(cs, c.Iv)
			if st == refRefused {
				if err == nil || len(out) != 0 {
					return failf("%d candles at minute %d, none aligned, to %d minutes gave %d candles, error %v", c.N, c.Minute, c.Iv, len(out), err)
				}
				return nil
			}
			if err != nil || len(out) != len(groups) || out[0].Time != groups[0][0].Time {
				return failf("%d candles at minute %d and %d aligned ones to %d minutes gave %d candles, error %v; expected %d", c.N, c.Minute, c.Tail, c.Iv, len(out), err, len(groups))
			}
			return nil
		})
		r.bound("resampling refusals: intervals around 1, 5, 60 and 1440 times every power of two, both signs; series whose first aligned candle comes after up to %d others, or never", pick(r, 5000, 20000))
		// the machine's time zone must not matter: every whole-minute offset of an hour and named zones
		zones := []*time.Location{}
		for m := 0; m < 60; m++ {
			zones = append(zones, time.FixedZone(fmt.Sprintf("+%dm", m), m*60))
		}
		for _, n := range []string{"Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "America/St_Johns", "Africa/Monrovia", "Pacific/Chatham", "Europe/Amsterdam", "America/New_York", "Asia/Tehran"} {
			l, err := time.LoadLocation(n)
			must(err == nil, "zone %s: %v", n, err)
			zones = append(zones, l)
		}
		for _, z := range zones {
			old := time.Local
			time.Local = z
			Enum(r, "zone "+z.String(), gen(pick(r, 3, 4)), body)
			time.Local = old
		}
		r.bound("resampling: the same decisions with the process in %d time zones (all 60 minute offsets)", len(zones))
	}

	checks["C13"] = func(r *Run) {
		ref := func(cs []market.Candle) int {
			if len(cs) < 2 {
				return 0
			}
			min := int64(math.MaxInt64)
			for i := 1; i < len(cs); i++ {
				d := cs[i].Time - cs[i-1].Time
				if d < 0 {
					d = -d
				}
				if d < min {
					min = d
				}
			}
			return int(min / 60)
		}
		body := func(t *T, cs []market.Candle) error {
			snap := deep(nil, cs, &dumpOpt{caps: true})
			got := market.GetMinInterval(cs)
			t.States++
			t.Transitions += int64(len(cs)) + 1 // appends and the call
			t.Traces++
			if want := ref(cs); got != want {
				return failf("minimum interval of %s is %d, expected %d", showTimes(cs), got, want)
			}
			if string(snap) != string(deep(nil, cs, &dumpOpt{caps: true})) {
				return failf("the series was modified")
			}
			t.Evals++
			t.Outcomef("%d %d", got, len(cs))
			return nil
		}
		type sc struct {
			Base int
			J    []int
		}
		deltas := []int64{60, 300, 0, 59, 3600, -60, -7200, 119, 604800}
		ml := pick(r, 6, 7)
		Enum(r, "series", func(yield func(sc) bool) {
			for b := range bases {
				ok := true
				lists(len(deltas), ml, func(l []int) bool {
					if b > 0 && len(l) > ml-2 {
						return false
					}
					ok = yield(sc{b, l})
					return ok
				})
				if !ok {
					return
				}
			}
		}, func(t *T, c sc) error {
			at := bases[c.Base]
			cs := make([]market.Candle, 0, len(c.J)+3)
			cs = append(cs, candleAt(0, 0, at))
			for i, j := range c.J {
				at += deltas[j]
				cs = append(cs, candleAt(0, i+1, at))
			}
			full := cs[:cap(cs)]
			for i := len(cs); i < len(full); i++ {
				full[i].Time = at + 1
			}
			return body(t, cs)
		})
		type lc struct{ N, Pos, Small, Big int }
		Enum(r, "long", func(yield func(lc) bool) {
			if !yield(lc{}) {
				return
			}
			for _, n := range []int{2, 3, 5, 20, 100, 101, 300, 1025, 5003, pick(r, 10007, 65539)} {
				step := 1
				if n > 300 {
					step = n / 50
				}
				for p := 1; p < n; p += step {
					for _, s := range []int{0, 59, 60, 3600, -60, 179, 5 * 60} {
						for _, b := range []int{300, 3600, 86400 * 30} {
							if !yield(lc{n, p, s, b}) {
								return
							}
						}
					}
				}
			}
		}, func(t *T, c lc) error {
			var cs []market.Candle
			at := bases[0]
			for i := 0; i < c.N; i++ {
				if i == c.Pos {
					at += int64(c.Small)
				} else {
					at += int64(c.Big)
				}
				cs = append(cs, candleAt(1, i, at))
			}
			return body(t, cs)
		})
		type mag struct {
			Exp, Off, N, Pos int
			Neg              bool
		}
		Enum(r, "magnitudes", func(yield func(mag) bool) {
			for e := 0; e <= 52; e++ {
				for off := -1; off <= 1; off++ {
					for n := 2; n <= 4; n++ {
						for p := 1; p < n; p++ {
							for _, neg := range []bool{false, true} {
								if !yield(mag{e, off, n, p, neg}) {
									return
								}
							}
						}
					}
				}
			}
			for _, n := range []int{1000, 1001, 1025, 5000} {
				for _, p := range []int{1, 2, n / 2, n - 2, n - 1} {
					if !yield(mag{6, 0, n, p, false}) {
						return
					}
				}
			}
		}, func(t *T, c mag) error {
			gap := int64(1)<<uint(c.Exp) + int64(c.Off)
			var cs []market.Candle
			at := int64(0)
			for i := 0; i < c.N; i++ {
				d := gap
				if i != c.Pos {
					d += gap / 2
				}
				if c.Neg {
					d = -d
				}
				if i > 0 {
					at += d
				}
				cs = append(cs, candleAt(0, i, at))
			}
			return body(t, cs)
		})
		r.bound("minimum interval: smallest gaps of 2^k and around, k = 0..52; series of up to %d candles", pick(r, 10007, 65539))
		r.bound("minimum interval: every series of up to %d distances from %v s; smallest gap at every position of series up to 300 candles", ml, deltas)
	}
}
