package main

import (
	"math"

	"github.com/vanclief/finmod/market"
)

// ---------------------------------------------------------------------------
// C05: overlap of two books.  C06: ownership of rows.
// ---------------------------------------------------------------------------

type plainBook struct{ Asks, Bids []lvl } // best first

func overlapOneWay(asks, bids []lvl) (val, scale float64, ok bool) {
	if len(asks) == 0 || len(bids) == 0 {
		return 0, 0, false
	}
	bestAsk, bestBid := math.Inf(1), math.Inf(-1)
	for _, l := range asks {
		bestAsk = math.Min(bestAsk, l.p)
	}
	for _, l := range bids {
		bestBid = math.Max(bestBid, l.p)
	}
	if !(bestAsk < bestBid) {
		return 0, 0, false
	}
	cost, vol := 0.0, 0.0
	for _, l := range asks {
		if l.p <= bestBid {
			cost += l.p * l.v
			vol += l.v
		}
	}
	value, left := 0.0, vol
	for i := len(bids) - 1; i >= 0 && left > 0; i-- { // lowest price upward
		if l := bids[i]; l.p >= bestAsk {
			q := math.Min(l.v, left)
			value += q * l.p
			left -= q
		}
	}
	return math.Abs(cost - value), cost + value, true
}

func overlapOf(x, y plainBook) (float64, float64, bool) {
	if v, s, ok := overlapOneWay(x.Asks, y.Bids); ok {
		return v, s, true
	}
	return overlapOneWay(y.Asks, x.Bids)
}

func checkOverlap(t *T, x, y plainBook) error {
	obX := market.NewOrderBook(rowsOf(x.Asks), rowsOf(x.Bids), 1<<20)
	obY := market.NewOrderBook(rowsOf(y.Asks), rowsOf(y.Bids), 1<<20)
	co := &dumpOpt{caps: true}
	bx, by := deep(nil, obX, co), deep(nil, obY, co)
	want, scale, ok := overlapOf(x, y)
	for k, args := range [][2]market.OrderBook{{obX, obY}, {obY, obX}} {
		got, err := market.CalculateOverlap(args[0], args[1])
		t.Evals++
		if ok != (err == nil) {
			return failf("overlap of %s and %s: %v, error %v; expected value %v %v", showBook(&args[0]), showBook(&args[1]), got, err, want, ok)
		}
		if ok && !near(got, want, scale) {
			return failf("overlap of %s and %s (order %d) is %v, expected %v", showBook(&args[0]), showBook(&args[1]), k, got, want)
		}
	}
	if string(bx) != string(deep(nil, obX, co)) || string(by) != string(deep(nil, obY, co)) {
		return failf("overlap changed a book: %s / %s", showBook(&obX), showBook(&obY))
	}
	t.Outcomef("%v %v", want, ok)
	return nil
}

// tickBooks enumerates every uncrossed book over n ticks with the given volumes.
func tickBooks(n int, price func(int) float64, vols []float64) []plainBook {
	var out []plainBook
	st := make([]int, n) // 0 none, 1.. bid vol, len+1.. ask vol
	k := len(vols)
	var rec func(i int, seenAsk bool)
	rec = func(i int, seenAsk bool) {
		if i == n {
			var b plainBook
			for j := 0; j < n; j++ {
				if st[j] > k {
					b.Asks = append(b.Asks, lvl{price(j), vols[st[j]-k-1]})
				}
			}
			for j := n - 1; j >= 0; j-- {
				if st[j] >= 1 && st[j] <= k {
					b.Bids = append(b.Bids, lvl{price(j), vols[st[j]-1]})
				}
			}
			out = append(out, b)
			return
		}
		for s := 0; s <= 2*k; s++ {
			if seenAsk && s >= 1 && s <= k {
				continue
			}
			st[i] = s
			rec(i+1, seenAsk || s > k)
		}
	}
	rec(0, false)
	return out
}

func init() {
	checks["C05"] = func(r *Run) {
		type pairCase struct {
			Set  int
			X, Y int
		}
		type set struct {
			xs, ys []plainBook
		}
		var sets []set
		n := pick(r, 5, 6)
		for _, s := range []struct {
			n      int
			sc     int
			vx, vy []float64
		}{
			{n, 0, []float64{1, 3}, []float64{2, 5}},
			{n - 1, 1, []float64{0.1, 0.7, 1000}, []float64{0.3, 0.1, 50}},
			{n, 4, []float64{1, 3}, []float64{1, 4}},
			{n - 1, 2, []float64{1e-9, 3}, []float64{1e-9, 1e6}},
			{n - 1, 5, []float64{1, 2}, []float64{1, 2}},
			{n - 1, 0, []float64{0, 3}, []float64{0, 2}},
			{n - 1, 7, []float64{3e12, 8e15}, []float64{1e-3, 5e13}},
			{n - 1, 9, []float64{1e-18, 1e-3}, []float64{1e-9, 40}},
		} {
			sc := bookScales[s.sc]
			sets = append(sets, set{tickBooks(s.n, sc.price, s.vx), tickBooks(s.n, sc.price, s.vy)})
		}
		steep := func(i int) float64 { return math.Pow(1000, float64(i-2)) }
		sets = append(sets, set{tickBooks(n-1, steep, []float64{1, 3}), tickBooks(n-1, steep, []float64{1, 2})})
		Enum(r, "pairs", func(yield func(pairCase) bool) {
			for k, s := range sets {
				for x := range s.xs {
					for y := range s.ys {
						if !yield(pairCase{k, x, y}) {
							return
						}
					}
				}
			}
		}, func(t *T, c pairCase) error {
			t.States++
			t.Transitions += 2
			t.Traces++
			return checkOverlap(t, sets[c.Set].xs[c.X], sets[c.Set].ys[c.Y])
		})
		r.bound("overlap: every ordered pair of uncrossed books over %d ticks x 2 volumes and %d ticks x 2-3 volumes in other scales", n, n-1)
		type deepCase struct {
			NA, NB, Off, Gap, PA, PB, Extra, Scale int
		}
		maxN := pick(r, 10, 20)
		pat := func(p, i int) float64 {
			switch p {
			case 0:
				return 1
			case 1:
				return float64(i + 1)
			case 2:
				return 1 / float64(i+1)
			default:
				return float64(1 + (i*7)%5)
			}
		}
		deepBody := func(t *T, c deepCase) error {
			sc := bookScales[c.Scale]
			base := 2*c.NB + 5
			var x, y plainBook
			for i := 0; i < c.NA; i++ {
				x.Asks = append(x.Asks, lvl{sc.price(base + i), pat(c.PA, i)})
			}
			for i := c.NB - 1; i >= 0; i-- {
				y.Bids = append(y.Bids, lvl{sc.price(base + c.Off + i), pat(c.PB, i)})
			}
			if c.Extra&1 != 0 { // rows that must not matter: x bids, y asks
				x.Bids = append(x.Bids, lvl{sc.price(base - 1), 7}, lvl{sc.price(base - 3), 9}, lvl{sc.price(base - 4), 1}, lvl{sc.price(base - 6), 3})
			}
			if c.Extra&2 != 0 {
				y.Asks = append(y.Asks, lvl{sc.price(base + c.Off + c.NB), 11}, lvl{sc.price(base + c.Off + c.NB + 4), 2}, lvl{sc.price(base + c.Off + c.NB + 5), 2}, lvl{sc.price(base + c.Off + c.NB + 9), 6})
			}
			t.States++
			t.Transitions += 2
			t.Traces++
			return checkOverlap(t, x, y)
		}
		Enum(r, "deep", func(yield func(deepCase) bool) {
			for na := 1; na <= maxN; na++ {
				for nb := 1; nb <= maxN; nb++ {
					for off := -nb - 1; off <= na+1; off++ {
						for pa := 0; pa < 4; pa++ {
							for pb := 0; pb < 4; pb++ {
								for ex := 0; ex < 4; ex++ {
									for _, sc := range []int{0, 1, 7} {
										if !yield(deepCase{na, nb, off, 0, pa, pb, ex, sc}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}, deepBody)
		r.bound("overlap: books of 1..%d asks against 1..%d bids at every relative offset, 4x4 volume shapes, with and without outside rows", maxN, maxN)
		// much larger books
		sizes := []int{11, 13, 16, 17, 20, 21, 25, 26, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 200, 257, 500, 513}
		if r.thorough() {
			sizes = append(sizes, 999)
		}
		Enum(r, "large", func(yield func(deepCase) bool) {
			for _, na := range sizes {
				for _, nb := range sizes {
					for _, off := range []int{-nb + 1, -nb + 2, -nb / 2, -1, 0, 1, na / 2, na - 1} {
						for p := 0; p < 16; p++ {
							if !yield(deepCase{na, nb, off, 0, p / 4, p % 4, (na + nb) % 4, p % 2}) {
								return
							}
						}
					}
				}
			}
		}, deepBody)
		r.bound("overlap: books of %v asks against as many bids each, 8 relative offsets, 4x4 volume shapes", sizes)
		vast := []int{3, 1001, 2003, 5003, pick(r, 10007, 65539)}
		Enum(r, "huge", func(yield func(deepCase) bool) {
			for _, na := range vast {
				for _, nb := range vast {
					for _, off := range []int{-nb + 1, -nb / 2, 0, na / 2, na - 1} {
						for p := 0; p < 16; p++ {
							if !yield(deepCase{na, nb, off, 0, p / 4, p % 4, (na + nb) % 4, p % 2}) {
								return
							}
						}
					}
				}
			}
		}, deepBody)
		r.bound("overlap: books of %v asks against as many bids each, 5 relative offsets, 4x4 volume shapes", vast)
	}

	checks["C06"] = func(r *Run) {
		type own struct {
			Perm       int
			A, B, C, D int // asks = arr[A:B], bids = arr[C:D]
			Clip       bool
			Depth      int
			Ops        []int
		}
		const K = 4
		perms := [][]float64{{1, 2, 3, 4}, {4, 3, 2, 1}, {3, 1, 4, 2}, {3, 4, 2, 1}, {2, 2, 3, 3}}
		update := func(op int) market.OrderBookUpdate {
			return market.OrderBookUpdate{Side: [2]string{"ask", "bid"}[op%2], Volume: float64(op / 2 % 2 * 8), Price: float64(op/4)/1.0 + 0.5*float64(op/4%2)}
		}
		const nops = 24 // prices 0,1.5,2,3.5,4,5.5
		maxOps := pick(r, 2, 3)
		mkArr := func(p int) []market.OrderBookRow {
			arr := make([]market.OrderBookRow, K, K+3)
			full := arr[:cap(arr)]
			for i := range full {
				if i < K {
					full[i] = market.OrderBookRow{Price: perms[p][i], Volume: float64(i + 1), AccumVolume: 70 + float64(i)}
				} else {
					full[i] = market.OrderBookRow{Price: -9, Volume: -9, AccumVolume: -9}
				}
			}
			return arr
		}
		cut := func(arr []market.OrderBookRow, a, b int, clip bool) []market.OrderBookRow {
			if clip {
				return arr[a:b:b]
			}
			return arr[a:b]
		}
		clone := func(s []market.OrderBookRow) []market.OrderBookRow {
			c := make([]market.OrderBookRow, len(s))
			copy(c, s)
			return c[:len(c):len(c)]
		}
		Enum(r, "layouts", func(yield func(own) bool) {
			for p := range perms {
				for _, depth := range []int{1, 2, 100} {
					for a := 0; a <= K; a++ {
						for b := a; b <= K; b++ {
							for c := 0; c <= K; c++ {
								for d := c; d <= K; d++ {
									for _, clip := range []bool{false, true} {
										ok := true
										mx := maxOps
										if p > 2 && mx > 2 {
											mx = 2
										}
										lists(nops, mx, func(l []int) bool {
											ok = yield(own{p, a, b, c, d, clip, depth, l})
											return ok
										})
										if !ok {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}, func(t *T, c own) error {
			arr := mkArr(c.Perm)
			asks, bids := cut(arr, c.A, c.B, c.Clip), cut(arr, c.C, c.D, c.Clip)
			co := &dumpOpt{caps: true}
			snap := deep(nil, arr, co)
			iso := market.NewOrderBook(clone(asks), clone(bids), c.Depth)
			ob := market.NewOrderBook(asks, bids, c.Depth)
			ob2 := market.NewOrderBook(asks, bids, c.Depth)
			iso.Time, ob.Time, ob2.Time = 0, 0, 0
			t.States++
			t.Traces++
			no := deep(nil, iso, nil)
			if string(deep(nil, arr, co)) != string(snap) {
				return failf("building the book changed the caller's rows to %s", showRows(arr[:cap(arr)]))
			}
			if string(deep(nil, ob, nil)) != string(no) || string(deep(nil, ob2, nil)) != string(no) {
				return failf("book built from shared slices is %s / %s, from private copies %s", showBook(&ob), showBook(&ob2), showBook(&iso))
			}
			for _, op := range c.Ops {
				u := update(op)
				t.Transitions++
				t.Evals++
				iso.ApplyUpdate(u)
				ob.ApplyUpdate(u)
				if string(deep(nil, arr, co)) != string(snap) {
					return failf("update %+v changed the caller's rows to %s", u, showRows(arr[:cap(arr)]))
				}
				if !same(ob, iso) {
					return failf("after %+v the book is %s, built from private copies %s", u, showBook(&ob), showBook(&iso))
				}
				if string(deep(nil, ob2, nil)) != string(no) {
					return failf("update %+v of one book changed another one to %s", u, showBook(&ob2))
				}
			}
			// the caller now scribbles over its rows
			full := arr[:cap(arr)]
			for i := range full {
				full[i] = market.OrderBookRow{Price: 1e6 + float64(i), Volume: -1, AccumVolume: -1}
			}
			if !same(ob, iso) || string(deep(nil, ob2, nil)) != string(no) {
				return failf("writing to the slices the book was built from changed it: %s", showBook(&ob))
			}
			t.Outcome(deep(nil, ob, nil))
			return nil
		})
		// larger books at other scales
		type big struct{ N, Order, Scale, Depth, Op int }
		Enum(r, "large", func(yield func(big) bool) {
			ns := []int{255, 256, 257, 500, 1000, 1001, 1024, 1025}
			for n := 1; n <= pick(r, 130, 300); n++ {
				ns = append(ns, n)
			}
			for _, n := range ns {
				for o := 0; o < 4; o++ {
					for s := range bookScales {
						if bookScales[s].name == "geometric" && n > 100 {
							continue // out of the number range
						}
						for _, d := range []int{1, n, 2 * n, 2000} {
							for op := 0; op < 4; op++ {
								if !yield(big{n, o, s, d, op}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(t *T, c big) error {
			sc := bookScales[c.Scale]
			arr := make([]market.OrderBookRow, 2*c.N, 2*c.N+2)
			for i := 0; i < c.N; i++ {
				j := order(c.Order, c.N, i)
				arr[i] = market.OrderBookRow{Price: sc.price(1 + c.N + j), Volume: sc.vols[j%2], AccumVolume: float64(i % 2)}
				arr[c.N+i] = market.OrderBookRow{Price: sc.price(1 + j), Volume: sc.vols[i%2], AccumVolume: 5}
			}
			co := &dumpOpt{caps: true}
			snap := deep(nil, arr, co)
			t.States++
			t.Traces++
			iso := market.NewOrderBook(clone(arr[:c.N]), clone(arr[c.N:]), c.Depth)
			ob := market.NewOrderBook(arr[:c.N], arr[c.N:], c.Depth)
			other := market.NewOrderBook(arr[:c.N:c.N], arr[c.N:], c.Depth)
			iso.Time, ob.Time, other.Time = 0, 0, 0
			no := deep(nil, iso, nil)
			for _, u := range []market.OrderBookUpdate{
				{Side: [2]string{"ask", "bid"}[c.Op%2], Price: sc.price(1 + c.N*(1+c.Op/2)/2), Volume: 77},
				{Side: [2]string{"bid", "ask"}[c.Op%2], Price: sc.price(1 + c.N), Volume: 0},
				{Side: "ask", Price: sc.price(2), Volume: 3},
			} {
				t.Transitions++
				t.Evals++
				iso.ApplyUpdate(u)
				ob.ApplyUpdate(u)
			}
			if string(deep(nil, arr, co)) != string(snap) {
				return failf("building and updating a book of %d rows a side changed the caller's rows", c.N)
			}
			full := arr[:cap(arr)]
			for i := range full {
				full[i] = market.OrderBookRow{Price: -1, Volume: -1, AccumVolume: -1}
			}
			if !same(ob, iso) || string(deep(nil, other, nil)) != string(no) {
				return failf("a book of %d rows a side depends on the caller's slices or on another book built from them", c.N)
			}
			return nil
		})
		r.bound("ownership: books of every size up to %d and up to 1025 rows a side, 4 row orders, %d scales, 4 depths, three updates", pick(r, 130, 300), len(bookScales))
		r.bound("ownership: every pair of sub-slices of one 4-row array (clipped or not) as asks and bids, %d row orders, depths 1, 2, 100, every sequence of up to %d of %d updates", len(perms), maxOps, nops)
	}
}
