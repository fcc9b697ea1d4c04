package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/vanclief/finmod/market"
)

// ---------------------------------------------------------------------------
// Order book: alphabet, reference model, drivers.  C01 - C04.
// ---------------------------------------------------------------------------

type bookScale struct {
	name  string
	price func(tick int) float64
	vols  []float64
}

var bookScales = []bookScale{
	{"unit", func(i int) float64 { return float64(i + 1) }, []float64{1, 2}},
	{"cents", func(i int) float64 { return 100 + float64(i)*0.01 }, []float64{0.1, 0.7}},
	{"satoshi", func(i int) float64 { return float64(i+1) * 1e-8 }, []float64{1e-9, 3e7}},
	{"large", func(i int) float64 { return 1e8 + float64(i)*0.5 }, []float64{1e-12, 12345.678}},
	{"negative", func(i int) float64 { return float64(i) - 3 }, []float64{0.5, 4}},
	{"adjacent", func(i int) float64 { return nextUp(1000.1, i) }, []float64{5, 5.000000001}},
	{"geometric", func(i int) float64 { return math.Pow(10, float64(i-2)) }, []float64{1, 1e6}},
	{"heavy", func(i int) float64 { return 1e6 + float64(i)*250 }, []float64{3e12, 8e15}},
	{"signed", func(i int) float64 { return 10 + float64(i) }, []float64{-4, 6.5}},
	{"vast", func(i int) float64 { return float64(i+1) * 1e18 }, []float64{1e-18, 3e-300}},
}

func nextUp(x float64, n int) float64 {
	for ; n > 0; n-- {
		x = math.Nextafter(x, math.Inf(1))
	}
	return x
}

// bookModel is the reference: for each side a list of levels, kept sorted best first.
type lvl struct{ p, v float64 }

type bookModel struct {
	asks, bids []lvl
	depth      int
	time       int64
}

func newBookModel(asks, bids []lvl, depth int) *bookModel {
	m := &bookModel{append([]lvl{}, asks...), append([]lvl{}, bids...), depth, bookTime}
	m.settle()
	return m
}

func (m *bookModel) settle() {
	sort.SliceStable(m.asks, func(i, j int) bool { return m.asks[i].p < m.asks[j].p })
	sort.SliceStable(m.bids, func(i, j int) bool { return m.bids[i].p > m.bids[j].p })
	if len(m.asks) > m.depth {
		m.asks = m.asks[:m.depth]
	}
	if len(m.bids) > m.depth {
		m.bids = m.bids[:m.depth]
	}
}

func keep(ls []lvl, f func(lvl) bool) []lvl {
	out := []lvl{}
	for _, l := range ls {
		if f(l) {
			out = append(out, l)
		}
	}
	return out
}

// apply performs an update; ok is false when it must be rejected.
func (m *bookModel) apply(u market.OrderBookUpdate) (ok bool) {
	switch u.Side {
	case "ask":
		m.asks = keep(m.asks, func(l lvl) bool { return l.p != u.Price })
		if u.Volume != 0 {
			m.asks = append(m.asks, lvl{u.Price, u.Volume})
			m.bids = keep(m.bids, func(l lvl) bool { return l.p < u.Price })
		}
	case "bid":
		m.bids = keep(m.bids, func(l lvl) bool { return l.p != u.Price })
		if u.Volume != 0 {
			m.bids = append(m.bids, lvl{u.Price, u.Volume})
			m.asks = keep(m.asks, func(l lvl) bool { return l.p > u.Price })
		}
	default:
		return false
	}
	m.settle()
	return true
}

func rowsOf(ls []lvl) []market.OrderBookRow {
	out := make([]market.OrderBookRow, len(ls))
	for i, l := range ls {
		out[i] = market.OrderBookRow{Price: l.p, Volume: l.v, AccumVolume: 99}
	}
	return out
}

func showRows(rs []market.OrderBookRow) string {
	s := "["
	for i, r := range rs {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%gx%g(%g)", r.Price, r.Volume, r.AccumVolume)
	}
	return s + "]"
}

func showBook(ob *market.OrderBook) string {
	return fmt.Sprintf("asks %s bids %s depth %d", showRows(ob.Asks), showRows(ob.Bids), ob.MaxDepth)
}

// Oracles -------------------------------------------------------------------

func bookSorted(ob *market.OrderBook, strict bool) error {
	for i := 1; i < len(ob.Asks); i++ {
		a, b := ob.Asks[i-1].Price, ob.Asks[i].Price
		if !(a < b || (!strict && a == b)) {
			return failf("asks not in increasing order of distinct prices: %s", showBook(ob))
		}
	}
	for i := 1; i < len(ob.Bids); i++ {
		a, b := ob.Bids[i-1].Price, ob.Bids[i].Price
		if !(a > b || (!strict && a == b)) {
			return failf("bids not in decreasing order of distinct prices: %s", showBook(ob))
		}
	}
	return nil
}

// C01
func bookCanonical(ob *market.OrderBook, depth int, strict bool) error {
	if err := bookSorted(ob, strict); err != nil {
		return err
	}
	if len(ob.Asks) > depth || len(ob.Bids) > depth {
		return failf("more than %d rows on a side: %s", depth, showBook(ob))
	}
	if strict && len(ob.Asks) > 0 && len(ob.Bids) > 0 && ob.Bids[0].Price >= ob.Asks[0].Price {
		return failf("book is crossed or locked: %s", showBook(ob))
	}
	return nil
}

// C02
func sideEquals(rows []market.OrderBookRow, ls []lvl) bool {
	if len(rows) != len(ls) {
		return false
	}
	a := make([]lvl, len(rows))
	for i, r := range rows {
		a[i] = lvl{r.Price, r.Volume}
	}
	b := append([]lvl{}, ls...)
	for _, s := range [][]lvl{a, b} {
		s := s
		sort.Slice(s, func(i, j int) bool {
			if s[i].p != s[j].p {
				return s[i].p < s[j].p
			}
			return s[i].v < s[j].v
		})
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func bookEquals(ob *market.OrderBook, m *bookModel) error {
	if !sideEquals(ob.Asks, m.asks) || !sideEquals(ob.Bids, m.bids) {
		return failf("book is %s, expected asks %v bids %v", showBook(ob), m.asks, m.bids)
	}
	if ob.MaxDepth != m.depth {
		return failf("maximum depth became %d, was %d", ob.MaxDepth, m.depth)
	}
	if ob.Time != m.time {
		return failf("the book's time became %d, was %d", ob.Time, m.time)
	}
	return nil
}

// C03
func bookTotals(ob *market.OrderBook) error {
	for side, rows := range map[string][]market.OrderBookRow{"ask": ob.Asks, "bid": ob.Bids} {
		sum := 0.0
		for i, r := range rows {
			sum += r.Volume
			if !near(r.AccumVolume, sum, 0) {
				return failf("%s row %d has accumulated volume %v, expected %v: %s", side, i, r.AccumVolume, sum, showBook(ob))
			}
		}
	}
	return nil
}

// C04
func depthRef(ob *market.OrderBook, price float64) (float64, bool) {
	if price <= 0 {
		return 0, false
	}
	if n := len(ob.Asks); n > 0 {
		lo, hi, sum := math.Inf(1), math.Inf(-1), 0.0
		for _, r := range ob.Asks {
			lo, hi = math.Min(lo, r.Price), math.Max(hi, r.Price)
			if r.Price <= price {
				sum += r.Volume
			}
		}
		if lo <= price && price <= hi {
			return sum, true
		}
	}
	if n := len(ob.Bids); n > 0 {
		lo, hi, sum := math.Inf(1), math.Inf(-1), 0.0
		for _, r := range ob.Bids {
			lo, hi = math.Min(lo, r.Price), math.Max(hi, r.Price)
			if r.Price >= price {
				sum += r.Volume
			}
		}
		if lo <= price && price <= hi {
			return sum, true
		}
	}
	return 0, false
}

func bookDepth(t *T, ob *market.OrderBook, prices []float64) error {
	before := deep(nil, ob, nil)
	for _, p := range prices {
		got, err := ob.GetDepth(p)
		t.Evals++
		want, ok := depthRef(ob, p)
		if ok != (err == nil) {
			return failf("depth at %v: got %v, error %v; expected answer %v (%v) on %s", p, got, err, ok, want, showBook(ob))
		}
		if ok && !near(got, want, 0) {
			return failf("depth at %v is %v, expected %v on %s", p, got, want, showBook(ob))
		}
	}
	if string(before) != string(deep(nil, ob, nil)) {
		return failf("depth query changed the book: %s", showBook(ob))
	}
	return nil
}

// Driver --------------------------------------------------------------------

type bookOracle struct {
	// judge is called after construction (u == nil) and after each update.
	judge func(t *T, ob *market.OrderBook, m *bookModel, u *market.OrderBookUpdate, err error, rejectOK bool, before []byte, prices []float64, strict bool) error
	model bool // the oracle needs the model (and so the model is part of the state)
	// before: the oracle needs a dump of the book before the update
	before bool
}

var oracleC01 = bookOracle{judge: func(t *T, ob *market.OrderBook, m *bookModel, u *market.OrderBookUpdate, err error, ok bool, before []byte, prices []float64, strict bool) error {
	return bookCanonical(ob, m.depth, strict)
}}

var oracleC02 = bookOracle{model: true, before: true, judge: func(t *T, ob *market.OrderBook, m *bookModel, u *market.OrderBookUpdate, err error, ok bool, before []byte, prices []float64, strict bool) error {
	if u == nil {
		return nil
	}
	if ok != (err == nil) {
		return failf("update %+v: error %v, expected success %v", *u, err, ok)
	}
	if !ok && string(before) != string(deep(nil, ob, nil)) {
		return failf("rejected update %+v changed the book: %s", *u, showBook(ob))
	}
	return bookEquals(ob, m)
}}

var oracleC03 = bookOracle{judge: func(t *T, ob *market.OrderBook, m *bookModel, u *market.OrderBookUpdate, err error, ok bool, before []byte, prices []float64, strict bool) error {
	return bookTotals(ob)
}}

var oracleC04 = bookOracle{judge: func(t *T, ob *market.OrderBook, m *bookModel, u *market.OrderBookUpdate, err error, ok bool, before []byte, prices []float64, strict bool) error {
	return bookDepth(t, ob, prices)
}}

// bookTime stands for the time at which a book was built.
const bookTime = 1614834367

var badSides = []string{"", "Ask", "bids", "buy"}

// bookStep applies one update to both and judges it.
func (o *bookOracle) step(t *T, ob *market.OrderBook, m *bookModel, u market.OrderBookUpdate, prices []float64, judge bool) error {
	var before []byte
	if judge && o.before {
		before = deep(nil, ob, nil)
	}
	err := ob.ApplyUpdate(u)
	ok := m.apply(u)
	if !judge {
		return nil
	}
	t.Evals++
	if e := o.judge(t, ob, m, &u, err, ok, before, prices, true); e != nil {
		return fmt.Errorf("after update %+v: %w", u, e)
	}
	return nil
}

func (o *bookOracle) build(t *T, asks, bids []lvl, depth int, prices []float64, strict bool) (*market.OrderBook, *bookModel, error) {
	ob := market.NewOrderBook(rowsOf(asks), rowsOf(bids), depth)
	ob.Time = bookTime
	m := newBookModel(asks, bids, depth)
	t.Evals++
	return &ob, m, o.judge(t, &ob, m, nil, nil, true, nil, prices, strict)
}

func probePrices(sc bookScale, ticks int) []float64 {
	var ps []float64
	for i := 0; i < ticks; i++ {
		p := sc.price(i)
		ps = append(ps, p, (p+sc.price(i+1))/2)
	}
	lo := sc.price(0)
	return append(ps, lo-math.Abs(lo)*0.5, sc.price(ticks)*2, 0, -1, -sc.price(ticks))
}

var anyDepths = []int{0, 1, 2, 3, 4, 1000}

func bookCheck(r *Run, o bookOracle, skip map[string]bool) {
	// 1. All reachable states of books over a few price ticks.
	search := func(fam string, scales []bookScale, ticks int, depths []int, maxDepth int, caps bool) {
		dopt := &dumpOpt{hide: true, caps: caps}
		for _, sc := range scales {
			for _, md := range depths {
				sc, md := sc, md
				v := sc.vols
				type initT struct{ asks, bids []lvl }
				inits := []initT{{nil, nil}, {[]lvl{}, []lvl{}}}
				mid := ticks / 2
				var full initT
				for i := ticks - 1; i >= mid; i-- {
					full.asks = append(full.asks, lvl{sc.price(i), v[i%2]})
				}
				for i := 0; i < mid; i++ {
					full.bids = append(full.bids, lvl{sc.price(i), v[(i+1)%2]})
				}
				inits = append(inits, full, initT{full.asks, nil}, initT{nil, full.bids})
				// per side and tick: delete, set v0, set v1
				nop := 2*ticks*3 + len(badSides)*2
				update := func(op int) market.OrderBookUpdate {
					if op >= 2*ticks*3 {
						op -= 2 * ticks * 3
						return market.OrderBookUpdate{Price: sc.price(mid), Volume: float64(op%2) * v[0], Side: badSides[op/2]}
					}
					u := market.OrderBookUpdate{Side: [2]string{"ask", "bid"}[op%2], Price: sc.price(op / 2 % ticks)}
					if k := op / 2 / ticks; k > 0 {
						u.Volume = v[k-1]
					}
					return u
				}
				prices := probePrices(sc, ticks)
				name := fmt.Sprintf("%s/%s/ticks=%d/depth=%d", fam, sc.name, ticks, md)
				BFS(r, name, bfsSpec{Inits: len(inits), Ops: nop, MaxDepth: maxDepth, MaxState: 4000000, Run: func(t *T, h Hist, from int) ([]byte, error) {
					in := inits[h.Init]
					ob, m, err := o.build(t, in.asks, in.bids, md, prices, true)
					if err != nil {
						return nil, fmt.Errorf("new book asks %v bids %v depth %d: %w", in.asks, in.bids, md, err)
					}
					for i, op := range h.Ops {
						if err := o.step(t, ob, m, update(op), prices, i >= from); err != nil {
							return nil, err
						}
					}
					key := deep(nil, ob, dopt)
					t.Outcome(key)
					if o.model {
						key = deep(key, m, nil)
					}
					return key, nil
				}})
			}
		}
	}
	nticks := pick(r, 8, 10)

	// 2. Larger books: every pair of updates at every position of a book with n levels a side.
	type wide struct {
		N, Depth, Scale, Op1, Op2 int
	}
	maxN := pick(r, 14, 24)
	// positions: 0..2N+1 over doubled ticks of both sides; op = pos*4 + side*2 + vol
	wideUpdate := func(sc bookScale, n, op int) market.OrderBookUpdate {
		u := market.OrderBookUpdate{Side: [2]string{"ask", "bid"}[op/2%2], Volume: float64(op%2) * sc.vols[1]}
		pos := op / 4
		p0 := sc.price(pos / 2)
		if pos%2 == 1 {
			p0 = (p0 + sc.price(pos/2+1)) / 2
		}
		u.Price = p0
		return u
	}
	wideBody := func(t *T, c wide) error {
		sc := bookScales[c.Scale]
		var asks, bids []lvl
		for i := 0; i < c.N; i++ {
			bids = append(bids, lvl{sc.price(1 + i), sc.vols[i%2]})
			asks = append(asks, lvl{sc.price(1 + c.N + i), sc.vols[(i+1)%2]})
		}
		var prices []float64
		if o.judge != nil && r.Prop == "C04" {
			if c.N <= maxN {
				prices = probePrices(sc, 2*c.N+2)
			} else {
				for _, op := range []int{0, 4 * c.N, 4 * (2*c.N - 1), 4 * (2*c.N + 1), 4 * (2*c.N + 2), 4 * (4*c.N + 1), c.Op1} {
					prices = append(prices, wideUpdate(sc, c.N, op).Price)
				}
			}
		}
		judgeFirst := c.Op2 < 0
		ob, m, err := o.build(t, asks, bids, c.Depth, nil, true)
		if err != nil {
			return err
		}
		if r.Prop == "C01" && c.N > 2000 {
			if err := bestRows(ob.Asks, asks, m.asks); err != nil {
				return err
			}
			if err := bestRows(ob.Bids, bids, m.bids); err != nil {
				return err
			}
		}
		t.States++
		t.Traces++
		for k, op := range []int{c.Op1, c.Op2} {
			if op < 0 {
				break
			}
			t.Transitions++
			if err := o.step(t, ob, m, wideUpdate(sc, c.N, op), prices, k == 1 || judgeFirst); err != nil {
				return err
			}
		}
		return nil
	}
	Enum(r, "pairs", func(yield func(wide) bool) {
		for _, n := range []int{5, 8, 11, maxN} {
			for _, d := range []int{n - 1, n, n + 1, 1000} {
				for _, s := range []int{0, 1} {
					nop := (4*n + 4) * 4
					for a := 0; a < nop; a++ {
						for b := -1; b < nop; b++ {
							if b >= 0 && s > 0 && n > 8 {
								break
							}
							if !yield(wide{n, d, s, a, b}) {
								return
							}
						}
					}
				}
			}
		}
	}, wideBody)
	r.bound("order book: every pair of updates at every position (on, between, beyond levels) of books with up to %d levels a side", maxN)
	// every single update at every position of much larger books
	every := pick(r, 130, 300)
	large := []int{255, 256, 257, 500, 1000, 1001, 1024}
	if r.thorough() {
		large = append(large, 2000, 4097)
	}
	Enum(r, "large", func(yield func(wide) bool) {
		one := func(n, d, s int) bool {
			for a := 0; a < (4*n+4)*4; a++ {
				if !yield(wide{n, d, s, a, -1}) {
					return false
				}
			}
			return true
		}
		for n := maxN + 1; n <= every; n++ {
			for _, d := range []int{n - 1, n, n + 1} {
				if !one(n, d, n%2) {
					return
				}
			}
		}
		for _, n := range large {
			for _, d := range []int{n, 10 * n} {
				if !one(n, d, n%2) {
					return
				}
			}
		}
	}, wideBody)
	r.bound("order book: every update at every position of books with every number of levels %d..%d a side, and with %v", maxN+1, every, large)
	// still larger ones, updated at positions spread over the book
	huge := []int{2001, 4097, 5003, pick(r, 10007, 65539)}
	Enum(r, "huge", func(yield func(wide) bool) {
		for _, n := range huge {
			for _, d := range []int{n, 10 * n} {
				for i := 0; i <= 48; i++ {
					pos := i * (4*n + 3) / 48
					for k := 0; k < 8; k++ {
						if !yield(wide{n, d, n % 2, (pos+k/4)*4 + k%4, -1}) {
							return
						}
					}
				}
			}
		}
	}, wideBody)
	r.bound("order book: updates at 98 positions of books with %v levels a side", huge)

	// 3. Long fills and drains in structured orders, with every depth.
	type longRun struct {
		N, Depth, Fill, Drain, Scale int
	}
	longN := pick(r, 40, 120)
	Enum(r, "fill-drain", func(yield func(longRun) bool) {
		for s := range bookScales {
			if sc := bookScales[s]; sc.name == "geometric" {
				continue
			}
			for d := 0; d <= longN+2; d++ {
				for f := 0; f < 4; f++ {
					for g := 0; g < 4; g++ {
						if !yield(longRun{longN, d, f, g, s}) {
							return
						}
					}
				}
			}
		}
	}, func(t *T, c longRun) error {
		sc := bookScales[c.Scale]
		var prices []float64
		if r.Prop == "C04" {
			prices = []float64{sc.price(0), sc.price(c.N), sc.price(c.N / 2), sc.price(3 * c.N / 2), sc.price(2*c.N - 1)}
		}
		ob, m, err := o.build(t, nil, nil, c.Depth, prices, true)
		if err != nil {
			return err
		}
		t.States++
		t.Traces++
		do := func(u market.OrderBookUpdate) error {
			t.Transitions++
			return o.step(t, ob, m, u, prices, true)
		}
		for i := 0; i < c.N; i++ {
			k := order(c.Fill, c.N, i)
			if err := do(market.OrderBookUpdate{Side: "ask", Price: sc.price(c.N + k), Volume: sc.vols[k%2]}); err != nil {
				return err
			}
			if err := do(market.OrderBookUpdate{Side: "bid", Price: sc.price(k), Volume: sc.vols[(k+1)%2]}); err != nil {
				return err
			}
		}
		for i := 0; i < c.N; i++ {
			k := order(c.Drain, c.N, i)
			if err := do(market.OrderBookUpdate{Side: "bid", Price: sc.price(k)}); err != nil {
				return err
			}
			if err := do(market.OrderBookUpdate{Side: "ask", Price: sc.price(c.N + k)}); err != nil {
				return err
			}
		}
		// and a sweep through the book from both ends
		for i := 0; i < c.N; i++ {
			k := order(c.Fill, c.N, i)
			if err := do(market.OrderBookUpdate{Side: "ask", Price: sc.price(k), Volume: 1}); err != nil {
				return err
			}
			if err := do(market.OrderBookUpdate{Side: "bid", Price: sc.price(order(c.Drain, c.N, i)), Volume: 2}); err != nil {
				return err
			}
		}
		return nil
	})
	r.bound("order book: fill/drain/sweep histories of %d updates in 4x4 orders for every maximum depth 0..%d and 8 scales", longN*6, longN+2)

	// One book through very many updates: a cycle of sets, changes, deletions and refused updates
	// whose length shares no factor with the number of levels.
	type history struct {
		Levels, Depth, Order, Scale int
	}
	steps := pick(r, 20011, 200003)
	Enum(r, "history", func(yield func(history) bool) {
		for _, n := range []int{3, 8, 25} {
			for _, d := range []int{2, 5, 1000} {
				for o := 0; o < 4; o++ {
					for s := 0; s < 2; s++ {
						if !yield(history{n, d, o, s}) {
							return
						}
					}
				}
			}
		}
	}, func(t *T, c history) error {
		sc := bookScales[c.Scale]
		prices := []float64{sc.price(0), sc.price(c.Levels - 1), sc.price(c.Levels), sc.price(2*c.Levels - 1)}
		ob, m, err := o.build(t, nil, nil, c.Depth, prices, true)
		if err != nil {
			return err
		}
		t.States++
		t.Traces++
		for i := 0; i < steps; i++ {
			k := order(c.Order, c.Levels, i/2%c.Levels)
			u := market.OrderBookUpdate{Side: "bid", Price: sc.price(k), Volume: sc.vols[i/7%2]}
			if i%2 == 0 {
				u.Side, u.Price = "ask", sc.price(c.Levels+k)
			}
			switch i % 11 {
			case 3, 8:
				u.Volume = 0
			case 5:
				u.Side = badSides[i%len(badSides)]
			}
			t.Transitions++
			if err := o.step(t, ob, m, u, prices, true); err != nil {
				return fmt.Errorf("update %d: %w", i, err)
			}
		}
		return nil
	})
	r.bound("order book: one book through %d updates, for 3 numbers of levels, 3 maximum depths, 4 orders and 2 scales", steps)

	// Prices and volumes of every magnitude: set, changed and deleted on both sides.
	type number struct {
		Exp, Man, V, W int
		Ask            bool
	}
	mans := []float64{1, 1.23456789012345, 9.9999999999}
	minus := math.Copysign(0, -1)
	numVols := []float64{minus, 5e-324, 1e-310, 1e-18, 1e-9, 0.123456789012345, 1234567.890123, 98765432109876.5, 8e307}
	Enum(r, "numbers", func(yield func(number) bool) {
		for e := -12; e <= 17; e++ {
			for a := range mans {
				for v := range numVols {
					for w := range numVols {
						if !yield(number{e, a, v, w, true}) || !yield(number{e, a, v, w, false}) {
							return
						}
					}
				}
			}
		}
	}, func(t *T, c number) error {
		p := mans[c.Man] * math.Pow(10, float64(c.Exp))
		below, above := math.Nextafter(p, 0), p*1.5
		prices := []float64{p, below, above, p / 2, (p + above) / 2, p / 4}
		ob, m, err := o.build(t, []lvl{{above, 3}, {2 * p, 4.5}}, []lvl{{p / 2, 2}, {p / 4, 0.25}}, 1000, prices, true)
		if err != nil {
			return err
		}
		t.States++
		t.Traces++
		u := market.OrderBookUpdate{Side: "bid", Price: p}
		if c.Ask {
			u.Side = "ask"
		}
		for _, v := range []float64{numVols[c.V], numVols[c.W], 0, numVols[c.W], minus} {
			u.Volume = v
			t.Transitions++
			if err := o.step(t, ob, m, u, prices, true); err != nil {
				return err
			}
		}
		u.Volume, u.Price = numVols[c.V], below
		t.Transitions++
		if err := o.step(t, ob, m, u, prices, true); err != nil {
			return err
		}
		u.Volume, u.Price = numVols[c.W], p
		t.Transitions++
		return o.step(t, ob, m, u, prices, true)
	})
	r.bound("order book: every pair of %d volumes (minus zero, subnormal to 8e307) at prices of 30 decimal magnitudes with up to 15 digits", len(numVols))

	// 4. Construction from every short row list (unsorted, duplicate prices).
	type rowsCase struct {
		Asks, Bids []int
		Depth      int
		Scale      int
	}
	conScales := []bookScale{bookScales[0], bookScales[1], bookScales[2],
		{"void", bookScales[0].price, []float64{0, 2}}, {"negative volumes", bookScales[0].price, []float64{-3, 1}},
		{"negative prices", func(i int) float64 { return float64(i) - 1.5 }, bookScales[0].vols}}
	letters := 6 // 3 prices x 2 volumes
	maxRows := pick(r, 5, 6)
	mk := func(sc bookScale, ls []int, off int) []lvl {
		var out []lvl
		for _, l := range ls {
			out = append(out, lvl{sc.price(off + l/2), sc.vols[l%2]})
		}
		return out
	}
	Enum(r, "construct", func(yield func(rowsCase) bool) {
		lists(letters, maxRows, func(l []int) bool {
			for d := 0; d <= maxRows+1; d++ {
				for s := range conScales {
					// the other side: empty, the same shape reversed
					rev := make([]int, len(l))
					for i := range l {
						rev[len(l)-1-i] = letters - 1 - l[i]
					}
					if !yield(rowsCase{l, nil, d, s}) || !yield(rowsCase{nil, l, d, s}) || !yield(rowsCase{l, rev, d, s}) {
						return false
					}
				}
			}
			return true
		})
	}, func(t *T, c rowsCase) error {
		sc := conScales[c.Scale]
		asks, bids := mk(sc, c.Asks, 3), mk(sc, c.Bids, 0)
		t.States++
		t.Traces++
		prices := probePrices(sc, 6)
		ob, m, err := o.build(t, asks, bids, c.Depth, prices, false)
		if err != nil {
			return fmt.Errorf("new book asks %v bids %v depth %d: %w", asks, bids, c.Depth, err)
		}
		if r.Prop == "C01" {
			if err := bestRows(ob.Asks, asks, m.asks); err != nil {
				return failf("asks built from %v with depth %d: %v", asks, c.Depth, err)
			}
			if err := bestRows(ob.Bids, bids, m.bids); err != nil {
				return failf("bids built from %v with depth %d: %v", bids, c.Depth, err)
			}
		}
		t.Outcome(deep(nil, ob, nil))
		return nil
	})
	r.bound("order book construction: every list of up to %d rows over 3 prices x 2 volumes per side, depths 0..%d, 5 scales incl. zero and negative volumes", maxRows, maxRows+1)

	// 5. Sides that are almost "ask" or "bid", and maximum depths far beyond the number of rows.
	sides := nearSides()
	type odd struct {
		Side, Depth, Op, Book int
	}
	oddDepths := []int{0, 1, 2, 3, 100, 5001, 65537, 1 << 20, 1<<24 + 1, math.MaxInt32, math.MaxInt64}
	Enum(r, "odd", func(yield func(odd) bool) {
		for side := range sides {
			for d := range oddDepths {
				for op := 0; op < 6*3; op++ {
					for b := 0; b < 4; b++ {
						if !yield(odd{side, d, op, b}) {
							return
						}
					}
				}
			}
		}
	}, func(t *T, c odd) error {
		sc := bookScales[0]
		var asks, bids []lvl
		if c.Book&1 != 0 {
			asks = []lvl{{sc.price(3), 1}, {sc.price(4), 2}}
		}
		if c.Book&2 != 0 {
			bids = []lvl{{sc.price(2), 3}, {sc.price(1), 4}}
		}
		prices := probePrices(sc, 6)
		ob, m, err := o.build(t, asks, bids, oddDepths[c.Depth], prices, true)
		if err != nil {
			return err
		}
		t.States++
		t.Traces++
		t.Transitions++
		m.time = []int64{bookTime, 0, -7, 1614834367123456789, math.MinInt64}[(c.Op+c.Depth)%5]
		ob.Time = m.time
		return o.step(t, ob, m, market.OrderBookUpdate{Side: sides[c.Side], Price: sc.price(c.Op % 6), Volume: float64(c.Op/6) * 7}, prices, true)
	})
	r.bound("order book: every update whose side is one edit (case, letter added, dropped, replaced) away from ask or bid, or one of a list of other words; maximum depths up to the largest integer, 5 times of the book")
	// last, as what the library keeps to itself can make the number of states grow without end
	search("reach", bookScales[:1], nticks, anyDepths, 64, false)
	search("scales", bookScales[1:], pick(r, 5, 6), []int{2, 1000}, 64, false)
	search("caps", bookScales[:1], pick(r, 5, 6), []int{0, 1, 2, 3, 1000}, pick(r, 6, 8), true)
	r.bound("order book: every state reachable by set/delete/invalid updates over %d price ticks, 2 volumes, 2 sides, maximum depths %v (closure), plus %d price/volume scales over %d ticks, plus slice-capacity-aware states over %d ticks", nticks, anyDepths, len(bookScales)-1, pick(r, 5, 6), pick(r, 5, 6))
}

// nearSides lists the two sides, everything one small edit away from them and other words.
func nearSides() []string {
	out := []string{"ask", "bid", "", "buy", "sell", "long", "short", "asks", "bids", "offer", "both", "none", "a", "b", "askbid", "bidask", "null", "0", "1"}
	seen := map[string]bool{}
	for _, s := range out {
		seen[s] = true
	}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, w := range []string{"ask", "bid"} {
		for m := 1; m < 8; m++ {
			b := []byte(w)
			for i := range b {
				if m>>i&1 != 0 {
					b[i] -= 'a' - 'A'
				}
			}
			add(string(b))
		}
		for i := 0; i <= len(w); i++ {
			for _, x := range []string{" ", "\x00", "s", "\n", "_"} {
				add(w[:i] + x + w[i:])
				if i < len(w) {
					add(w[:i] + x + w[i+1:])
				}
			}
			if i < len(w) {
				add(w[:i] + w[i+1:])
			}
		}
	}
	return out
}

// bestRows: the rows kept are input rows, and their prices are the best of the input's.
func bestRows(got []market.OrderBookRow, in, want []lvl) error {
	if len(got) != len(want) {
		return failf("holds %s, expected the prices of %v", showRows(got), want)
	}
	left := map[lvl]int{}
	for _, l := range in {
		left[l]++
	}
	for i, g := range got {
		if g.Price != want[i].p {
			return failf("holds %s, expected the prices of %v", showRows(got), want)
		}
		k := lvl{g.Price, g.Volume}
		if left[k] == 0 {
			return failf("row %gx%g is not one of the given rows", g.Price, g.Volume)
		}
		left[k]--
	}
	return nil
}

// order enumerates 0..n-1 in one of four structured orders.
func order(kind, n, i int) int {
	switch kind {
	case 0:
		return i
	case 1:
		return n - 1 - i
	case 2: // inside out
		if i%2 == 0 {
			return n/2 - i/2 - (n+1)%2
		}
		return (n/2 + i/2 + 1 - (n+1)%2)
	default: // stride permutation
		step := 7
		for gcd(step, n) != 1 {
			step++
		}
		return (i * step) % n
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// lists enumerates every list of letters 0..size-1 of length 0..max.
func lists(size, max int, yield func([]int) bool) {
	for n := 0; n <= max; n++ {
		l := make([]int, n)
		for {
			if !yield(append([]int{}, l...)) {
				return
			}
			i := n - 1
			for ; i >= 0; i-- {
				l[i]++
				if l[i] < size {
					break
				}
				l[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

func init() {
	checks["C01"] = func(r *Run) { bookCheck(r, oracleC01, nil) }
	checks["C02"] = func(r *Run) { bookCheck(r, oracleC02, nil) }
	checks["C03"] = func(r *Run) { bookCheck(r, oracleC03, nil) }
	checks["C04"] = func(r *Run) { bookCheck(r, oracleC04, nil) }
}
