package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/vanclief/finmod/market"
)

// ---------------------------------------------------------------------------
// Candle files: C14, C15. Every file lives in a scratch directory of this run.
// ---------------------------------------------------------------------------

var scratchN atomic.Int64

func scratch(r *Run) string {
	d, err := os.MkdirTemp("", "candlefiles")
	must(err == nil, "scratch directory: %v", err)
	r.cleanups = append(r.cleanups, func() { os.RemoveAll(d) })
	return d
}

func newFile(dir string) string {
	return filepath.Join(dir, fmt.Sprintf("f%d", scratchN.Add(1)))
}

func sameCandles(a, b []market.Candle) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Time != y.Time || !sameBits(x.Open, y.Open) || !sameBits(x.High, y.High) || !sameBits(x.Low, y.Low) || !sameBits(x.Close, y.Close) || !sameBits(x.Volume, y.Volume) {
			return false
		}
	}
	return true
}

func firstDiff(a, b []market.Candle) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if !sameCandles(a[i:i+1], b[i:i+1]) {
			return fmt.Sprintf("candle %d is %+v, saved was %+v", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("%d candles, saved were %d", len(a), len(b))
}

func ladder(n int) []market.Candle {
	var cs []market.Candle
	for i := 0; i < n; i++ {
		cs = append(cs, candleAt(i%nPatterns, i, bases[0]+int64(i)*60))
	}
	return cs
}

func init() {
	checks["C14"] = func(r *Run) {
		dir := scratch(r)
		times := []int64{0, 1, -1, 59, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32 - 1, 1 << 32, 1<<32 + 7, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1614837600, 1614837600000, 1614837600000000000, -62135596800}
		negZero := math.Copysign(0, -1)
		floats := []float64{0, negZero, 1, -1, 0.1, -0.1, 1.0 / 3, 2.0 / 3, 100, 123456.789, 1e20, 1e21, 1e22, -1e21, 9.999999999999999e20, 1e-4, 1e-5, 9.9999e-5, 1e-7, 1e-8, 5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1e-300, math.MaxFloat64, -math.MaxFloat64, math.Nextafter(1, 2), math.Nextafter(1, 0), 0.1 + 0.2, 16777217, 9007199254740993, 4503599627370497.5, 1e15 + 0.3, 12345678901234567890}
		check := func(t *T, cs []market.Candle, path string) error {
			snap := append([]market.Candle{}, cs...)
			t.Evals += int64(len(cs))
			if err := market.SaveCandlesToFile(&cs, path); err != nil {
				return failf("saving %d candles failed: %v", len(cs), err)
			}
			t.Transitions++
			if !sameCandles(cs, snap) {
				return failf("saving changed the candles: %s", firstDiff(cs, snap))
			}
			got, err := market.LoadCandlesFromFile(path)
			t.Transitions++
			t.Traces++
			if err != nil {
				return failf("loading %d saved candles failed: %v", len(cs), err)
			}
			if !sameCandles(got, cs) {
				return failf("loaded candles differ: %s", firstDiff(got, cs))
			}
			return nil
		}
		// 1. single candles: every time, every pair of values in every pair of fields
		type vc struct {
			T, A, B, FA, FB int
		}
		set := func(c *market.Candle, f int, v float64) {
			*[]*float64{&c.Open, &c.High, &c.Low, &c.Close, &c.Volume}[f] = v
		}
		Enum(r, "values", func(yield func(vc) bool) {
			for ti := range times {
				for fa := 0; fa < 5; fa++ {
					for a := range floats {
						if !yield(vc{ti, a, a, fa, fa}) {
							return
						}
					}
				}
			}
			for fa := 0; fa < 5; fa++ {
				for fb := fa + 1; fb < 5; fb++ {
					for a := range floats {
						for b := range floats {
							if !yield(vc{(a + b) % len(times), a, b, fa, fb}) {
								return
							}
						}
					}
				}
			}
		}, func(t *T, c vc) error {
			x := market.Candle{Time: times[c.T], Open: 1, High: 2, Low: 3, Close: 4, Volume: 5}
			set(&x, c.FA, floats[c.A])
			set(&x, c.FB, floats[c.B])
			p := newFile(dir)
			defer os.Remove(p)
			t.States++
			t.Outcomef("%v %v", c.A, c.B)
			return check(t, []market.Candle{x}, p)
		})
		r.bound("candle files: every time of %d extremes, every pair of %d values in every two fields", len(times), len(floats))
		// 2. the whole exponent range
		type ec struct{ Exp, Field int }
		Enum(r, "exponents", func(yield func(ec) bool) {
			for e := -1074; e <= 1023; e++ {
				for f := 0; f < 5; f++ {
					if !yield(ec{e, f}) {
						return
					}
				}
			}
		}, func(t *T, c ec) error {
			var cs []market.Candle
			for k := 0; k < 32; k++ {
				v := math.Ldexp(1+float64(k)/31, c.Exp)
				if math.IsInf(v, 0) {
					continue
				}
				x := market.Candle{Time: int64(c.Exp)<<32 + int64(k)}
				set(&x, c.Field, v)
				set(&x, (c.Field+1)%5, -v)
				cs = append(cs, x)
			}
			p := newFile(dir)
			defer os.Remove(p)
			t.States++
			return check(t, cs, p)
		})
		r.bound("candle files: 32 mantissas of every binary exponent -1074..1023 in every field")
		// 3. sequences of saves to one file, list lengths small to large, file names
		type sq struct {
			L    []int
			Name int
		}
		lens := []int{0, 1, 2, 3, 17, 100, 1500, 6000}
		names := []string{"plain", "with space.txt", "ünïcode", "a.b.c", ".hidden"}
		ml := pick(r, 3, 4)
		Enum(r, "overwrite", func(yield func(sq) bool) {
			lists(len(lens), ml, func(l []int) bool {
				if len(l) == 0 {
					return true
				}
				return yield(sq{l, len(l) % len(names)})
			})
			for n := range names {
				if !yield(sq{[]int{3, 1}, n}) {
					return
				}
			}
		}, func(t *T, c sq) error {
			sub := newFile(dir)
			os.Mkdir(sub, 0o700)
			defer os.RemoveAll(sub)
			p := filepath.Join(sub, names[c.Name])
			t.States++
			for _, l := range c.L {
				if err := check(t, ladder(lens[l]), p); err != nil {
					return err
				}
			}
			return nil
		})
		r.bound("candle files: every sequence of up to %d saves to one file with list lengths %v", ml, lens)
		// lists in any order of times, with equal times and equal candles
		type ord struct{ L []int }
		letters := []market.Candle{{Time: 60, Open: 1, High: 2, Low: 0.5, Close: 1.5, Volume: 3}, {Time: 60, Open: 1, High: 2, Low: 0.5, Close: 1.5, Volume: 4}, {Time: 120, Open: 1, High: 2, Low: 0.5, Close: 1.5, Volume: 3}, {}, {Time: -60, Open: -1, High: -2, Low: -0.5, Close: -1.5, Volume: -3}, {Time: math.MinInt64, Open: -math.MaxFloat64, High: -2.2250738585072014e-308, Low: -math.MaxFloat64, Close: -2.2250738585072014e-308, Volume: -math.MaxFloat64}}
		Enum(r, "orders", func(yield func(ord) bool) {
			lists(len(letters), pick(r, 5, 6), func(l []int) bool { return yield(ord{l}) })
		}, func(t *T, c ord) error {
			var cs []market.Candle
			for _, l := range c.L {
				cs = append(cs, letters[l])
			}
			p := newFile(dir)
			defer os.Remove(p)
			t.States++
			return check(t, cs, p)
		})
		r.bound("candle files: every list of up to %d candles from %d, incl. repeated ones, equal and decreasing times", pick(r, 5, 6), len(letters))
		// 4. every length: content of the file never depends on buffer sizes
		type ln struct{ N int }
		maxN := pick(r, 700, 3000)
		big := []int{1000, 1001, 1024, 1025, 4096, 4097, 9999, 10000, 10001, 20001, 32769, 65536, 65537, 100001, 1<<20 + 3}
		Enum(r, "lengths", func(yield func(ln) bool) {
			for n := 0; n <= maxN; n++ {
				if !yield(ln{n}) {
					return
				}
			}
			for _, n := range big {
				if !yield(ln{n}) {
					return
				}
			}
		}, func(t *T, c ln) error {
			p := newFile(dir)
			defer os.Remove(p)
			os.WriteFile(p, bytes.Repeat([]byte("{1 2 3 4 5 6}\n"), 40), 0o600)
			t.States++
			return check(t, ladder(c.N), p)
		})
		r.bound("candle files: every list length 0..%d and %v over a file with earlier content", maxN, big)
	}

	checks["C15"] = func(r *Run) { checkC15(r) }
}

// refLine parses a line in the saved form; any line it refuses must be refused by the library.
func refLine(s string) (c market.Candle, ok bool) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return c, false
	}
	f := strings.Split(s[1:len(s)-1], " ")
	if len(f) != 6 {
		return c, false
	}
	var err error
	if c.Time, err = strconv.ParseInt(f[0], 10, 64); err != nil {
		return c, false
	}
	for i, p := range []*float64{&c.Open, &c.High, &c.Low, &c.Close, &c.Volume} {
		if *p, err = strconv.ParseFloat(f[i+1], 64); err != nil {
			return c, false
		}
	}
	return c, true
}

func refFile(b []byte) (cs []market.Candle, ok bool) {
	s := string(b)
	if s == "" {
		return nil, true
	}
	s = strings.TrimSuffix(s, "\n")
	for _, line := range strings.Split(s, "\n") {
		c, ok := refLine(strings.TrimSuffix(line, "\r"))
		if !ok {
			return nil, false
		}
		cs = append(cs, c)
	}
	return cs, true
}

// openUnder counts this process's open descriptors of files under dir.
func openUnder(dir string) int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && (strings.HasPrefix(l, dir) || l == "/dev/full") {
			n++
		}
	}
	return n
}

func checkC15(r *Run) {
	dir := scratch(r)
	nan := func(cs []market.Candle) bool {
		for _, c := range cs {
			for _, v := range []float64{c.Open, c.High, c.Low, c.Close, c.Volume} {
				if math.IsNaN(v) {
					return true
				}
			}
		}
		return false
	}
	judgeLoad := func(t *T, b []byte, what string) error {
		p := newFile(dir)
		must(os.WriteFile(p, b, 0o600) == nil, "cannot write %s", p)
		defer os.Remove(p)
		got, err := market.LoadCandlesFromFile(p)
		t.Transitions += 2
		t.Evals++
		want, ok := refFile(b)
		if !ok && err == nil {
			return failf("%s: malformed file %q was loaded as %+v", what, clip(b), got)
		}
		if err != nil && len(got) != 0 {
			return failf("%s: %q gave an error together with %d candles", what, clip(b), len(got))
		}
		if ok && err == nil && !sameCandles(got, want) && !nan(want) {
			return failf("%s: %q was loaded as %+v, it says %+v", what, clip(b), got, want)
		}
		t.Outcomef("%v %d", err != nil, len(got))
		return nil
	}
	saved := func(cs []market.Candle) []byte {
		p := newFile(dir)
		defer os.Remove(p)
		if err := market.SaveCandlesToFile(&cs, p); err != nil {
			return nil
		}
		b, _ := os.ReadFile(p)
		return b
	}
	sets := [][]market.Candle{
		{{Time: 1614837600, Open: 1.5, High: 2.25, Low: -0.5, Close: 1, Volume: 10}, {Time: 1614837660, Open: 1e-7, High: 1e21, Low: 0, Close: 3, Volume: 0.1}, {Time: -5, Open: 7, High: 8, Low: 6, Close: 7, Volume: 0}},
		ladder(2), ladder(40), {{}},
	}
	files := make([][]byte, len(sets))
	for i := range sets {
		files[i] = saved(sets[i])
	}
	// 1. a save cut short at every byte
	type cut struct{ Set, N int }
	Enum(r, "truncated", func(yield func(cut) bool) {
		for i := range files {
			for n := 0; n <= len(files[i]); n++ {
				if !yield(cut{i, n}) {
					return
				}
			}
		}
	}, func(t *T, c cut) error {
		p := newFile(dir)
		must(os.WriteFile(p, files[c.Set][:c.N], 0o600) == nil, "cannot write %s", p)
		defer os.Remove(p)
		got, err := market.LoadCandlesFromFile(p)
		t.States++
		t.Traces++
		t.Transitions++
		if err == nil && (len(got) > len(sets[c.Set]) || !sameCandles(got, sets[c.Set][:len(got)])) {
			return failf("file cut to %d bytes %q was loaded as %+v", c.N, clip(files[c.Set][:c.N]), got)
		}
		return judgeLoad(t, files[c.Set][:c.N], fmt.Sprintf("cut to %d bytes", c.N))
	})
	r.bound("candle files: every truncation of %d saved files", len(files))

	// 2. every single-byte change, insertion and deletion
	type dmg struct {
		Kind, Pos int
		B         int
		Pos2, B2  int
	}
	base := files[0]
	damage := func(b []byte, kind, pos, v int) []byte {
		var o []byte
		o = append(o, b[:pos]...)
		switch kind {
		case 0:
			o = append(o, byte(v))
			o = append(o, b[pos+1:]...)
		case 1:
			o = append(o, byte(v))
			o = append(o, b[pos:]...)
		default:
			o = append(o, b[pos+1:]...)
		}
		return o
	}
	Enum(r, "damaged", func(yield func(dmg) bool) {
		for pos := 0; pos <= len(base); pos++ {
			for kind := 0; kind < 3; kind++ {
				if kind != 1 && pos == len(base) {
					continue
				}
				for v := 0; v < 256; v++ {
					if kind == 2 && v > 0 {
						break
					}
					if !yield(dmg{kind, pos, v, -1, 0}) {
						return
					}
				}
			}
		}
	}, func(t *T, c dmg) error {
		t.States++
		t.Traces++
		return judgeLoad(t, damage(base, c.Kind, c.Pos, c.B), "damaged")
	})
	r.bound("candle files: every single-byte replacement, insertion (256 values) and deletion at every position of a %d-byte file", len(base))
	// 3. two damaged places, from the characters that structure a line
	small := []byte("{1 2.5 -3 4 5 6}\n{7 8 9 1 2 3}\n")
	sig := []byte("{} \n0-e.")
	if r.thorough() {
		sig = append(sig, "\rx\t+,N"...)
	}
	Enum(r, "damaged twice", func(yield func(dmg) bool) {
		for p1 := 0; p1 < len(small); p1++ {
			for k := 0; k < 9; k++ {
				for p2 := 0; p2 < len(small)-1; p2++ {
					for _, v1 := range sig {
						for _, v2 := range sig {
							if !yield(dmg{k, p1, int(v1), p2, int(v2)}) {
								return
							}
							if k%3 == 2 {
								break
							}
						}
						if k/3 == 2 {
							break
						}
					}
				}
			}
		}
	}, func(t *T, c dmg) error {
		t.States++
		t.Traces++
		b := damage(small, c.Kind/3, c.Pos, c.B)
		if c.Pos2 >= len(b) {
			return nil
		}
		return judgeLoad(t, damage(b, c.Kind%3, c.Pos2, c.B2), "damaged twice")
	})
	r.bound("candle files: every pair of byte damages with %d structural characters on a %d-byte file", len(sig), len(small))
	// 4. every short file over the structural characters, and every line of fields
	type txt struct{ S string }
	alpha := "{} 1\n"
	sl := pick(r, 7, 8)
	Enum(r, "short files", func(yield func(txt) bool) {
		lists(len(alpha), sl, func(l []int) bool {
			b := make([]byte, len(l))
			for i, x := range l {
				b[i] = alpha[x]
			}
			return yield(txt{string(b)})
		})
	}, func(t *T, c txt) error {
		t.States++
		t.Traces++
		return judgeLoad(t, []byte(c.S), "short file")
	})
	fields := []string{"", "1", "-2.5", "x", "1e400", "9223372036854775808", "{", "}", "1.0"}
	Enum(r, "lines", func(yield func(txt) bool) {
		for n := 0; n <= 8; n++ {
			for bad := -1; bad < n; bad++ {
				for _, f := range fields {
					for _, pre := range []string{"", "{1 2 3 4 5 6}\n", "{1 2 3 4 5 6}\n\n"} {
						for _, post := range []string{"", "\n", "\n{9 8 7 6 5 4}\n", "\r\n", "\n\n", " \n"} {
							for _, br := range [][2]string{{"{", "}"}, {"", "}"}, {"{", ""}, {"[", "]"}, {" {", "}"}, {"{", "} "}, {"{ ", "}"}} {
								fs := make([]string, n)
								for i := range fs {
									fs[i] = strconv.Itoa(i + 1)
								}
								if bad >= 0 {
									fs[bad] = f
								}
								if !yield(txt{pre + br[0] + strings.Join(fs, " ") + br[1] + post}) {
									return
								}
							}
						}
					}
					if bad < 0 {
						break
					}
				}
			}
		}
		for _, n := range []int{100, 4096, 65500, 65536, 70000, 1 << 20, 3 << 20} {
			z := strings.Repeat("0", n)
			for _, s := range []string{z, "{1 2 3 4 5 6." + z + "}\n", "{1 2 3 4 5 6}\n{1 2 3 4 5 6." + z + "}\n{7 7 7 7 7 7}\n", "{1 2 3 4 5 6}\n" + strings.Repeat(" ", n), "{1 2 3 4 5 6}\n" + strings.Repeat("\n", n), "{1 2 3 4 5 6}\n" + strings.Repeat("x", n) + "\n{1 2 3 4 5 6}\n"} {
				if !yield(txt{s}) {
					return
				}
			}
		}
	}, func(t *T, c txt) error {
		t.States++
		t.Traces++
		return judgeLoad(t, []byte(c.S), "line")
	})
	r.bound("candle files: every text of up to %d characters from %q; lines with 0..8 fields, one of them bad, bracketed 7 ways; lines of up to 3 MB", sl, alpha)

	// 5. I/O failures and descriptors, one at a time
	type iof struct {
		Kind string
		N    int
		Lim  int
	}
	signal.Ignore(syscall.SIGXFSZ)
	var lim0 syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim0) == nil, "getrlimit")
	// sizes first: the generator runs beside the worker, which limits the process
	size := map[int]int{}
	for _, n := range []int{0, 1, 2, 3, 40, 300, 2000} {
		size[n] = len(saved(ladder(n)))
	}
	Serial(r, "io failures", func(yield func(iof) bool) {
		for _, k := range []string{"full", "full2", "nodir", "isdir", "load-missing", "load-dir", "load-eio", "load-ok", "load-bad", "load-empty"} {
			for _, n := range []int{0, 1, 3, 40, 900} {
				if !yield(iof{k, n, 0}) {
					return
				}
			}
		}
		for n := 0; n < 4; n++ {
			for l := 0; l <= size[n]+2; l++ {
				if !yield(iof{"limit", n, l}) {
					return
				}
			}
		}
		for _, n := range []int{40, 300, 2000} {
			size := size[n]
			step := size/40 + 1
			for l := 0; l <= size+step; l += step {
				if !yield(iof{"limit", n, l}) {
					return
				}
			}
			for _, l := range []int{1, 4095, 4096, 4097, 8192, 65536, size - 1, size} {
				if !yield(iof{"limit", n, l}) {
					return
				}
			}
		}
	}, func(t *T, c iof) error {
		sub := newFile(dir)
		must(os.Mkdir(sub, 0o700) == nil, "mkdir")
		defer os.RemoveAll(sub)
		cs := ladder(c.N)
		p := filepath.Join(sub, "file")
		t.States++
		t.Traces++
		t.Transitions++
		t.Evals++
		var err error
		var got []market.Candle
		wantErr := false
		load := strings.HasPrefix(c.Kind, "load")
		gc := debug.SetGCPercent(-1) // a collection would close forgotten files
		defer debug.SetGCPercent(gc)
		before := openUnder(sub)
		switch c.Kind {
		case "full", "full2": // a device without space, reached by a link so that nothing can happen to it
			must(os.Symlink("/dev/full", p) == nil, "symlink")
			if c.Kind == "full2" {
				cs = append(cs, cs...)
			}
			err = market.SaveCandlesToFile(&cs, p)
			wantErr = len(cs) > 0
		case "nodir":
			err = market.SaveCandlesToFile(&cs, filepath.Join(sub, "missing", "file"))
			wantErr = true
		case "isdir":
			must(os.Mkdir(p, 0o700) == nil, "mkdir")
			err = market.SaveCandlesToFile(&cs, p)
			wantErr = true
		case "limit":
			want := saved(cs)
			l := lim0
			l.Cur = uint64(c.Lim)
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l) == nil, "setrlimit")
			func() {
				defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim0)
				err = market.SaveCandlesToFile(&cs, p)
			}()
			wantErr = c.Lim < len(want)
			if !wantErr && err != nil {
				return failf("saving %d candles within the size limit %d failed: %v", c.N, c.Lim, err)
			}
			if back, e := market.LoadCandlesFromFile(p); e == nil && (len(back) > len(cs) || !sameCandles(back, cs[:len(back)])) {
				return failf("after a save limited to %d bytes, %d candles load back that were not saved", c.Lim, len(back))
			} else if e == nil && err == nil && len(back) != len(cs) {
				return failf("a save limited to %d bytes succeeded but only %d of %d candles are there", c.Lim, len(back), len(cs))
			}
		case "load-missing":
			got, err = market.LoadCandlesFromFile(filepath.Join(sub, "missing"))
			wantErr = true
		case "load-dir":
			got, err = market.LoadCandlesFromFile(sub)
			wantErr = true
		case "load-eio": // opens, but reading fails
			must(os.Symlink("/proc/self/mem", p) == nil, "symlink")
			got, err = market.LoadCandlesFromFile(p)
			wantErr = true
		case "load-ok":
			must(os.WriteFile(p, saved(cs), 0o600) == nil, "write")
			got, err = market.LoadCandlesFromFile(p)
		case "load-bad":
			must(os.WriteFile(p, append(saved(cs), "{1 2 3"...), 0o600) == nil, "write")
			got, err = market.LoadCandlesFromFile(p)
			wantErr = true
		case "load-empty":
			must(os.WriteFile(p, nil, 0o600) == nil, "write")
			got, err = market.LoadCandlesFromFile(p)
		}
		if wantErr && err == nil {
			return failf("%s with %d candles (limit %d): no error reported", c.Kind, c.N, c.Lim)
		}
		if load && err != nil && len(got) > 0 {
			return failf("%s: an error came with %d candles", c.Kind, len(got))
		}
		if after := openUnder(sub); after > before {
			return failf("%s with %d candles: %d files left open", c.Kind, c.N, after-before)
		}
		t.Outcomef("%s %v", c.Kind, err != nil)
		return nil
	})
	r.bound("candle files: no-space device, missing and directory targets, unreadable sources, and a file size limit at every byte of saves of 0..3 candles and at 40+ offsets of larger ones; open descriptors counted after each")
	r.assumption("write failures are produced by a full device and by a process file size limit; read failures by a directory and an unreadable kernel file")
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return append(append([]byte{}, b[:200]...), "..."...)
	}
	return b
}
