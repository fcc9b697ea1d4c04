package main

import (
	"fmt"
	"math"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
)

// ---------------------------------------------------------------------------
// C38: asks and bids, buys and sells, highs and lows are mirror images. Two real
// instances run in lock step, one of them fed the mirrored inputs.
// ---------------------------------------------------------------------------

func init() { checks["C38"] = checkC38 }

// mirrorRows compares the rows of a side with the other side of the mirrored book.
func mirrorRows(what string, a, b []market.OrderBookRow, c float64) error {
	if len(a) != len(b) {
		return failf("%s: %d rows %s, mirrored %d rows %s", what, len(a), showRows(a), len(b), showRows(b))
	}
	for i := range a {
		if a[i].Price != c-b[i].Price || a[i].Volume != b[i].Volume || !near(a[i].AccumVolume, b[i].AccumVolume, 0) {
			return failf("%s: row %d differs: %s, mirrored about %v: %s", what, i, showRows(a), c/2, showRows(b))
		}
	}
	return nil
}

func mirrorBook(t *T, x, y *market.OrderBook, c float64, prices []float64) error {
	t.Evals++
	if err := mirrorRows("asks", x.Asks, y.Bids, c); err != nil {
		return err
	}
	if err := mirrorRows("bids", x.Bids, y.Asks, c); err != nil {
		return err
	}
	if x.MaxDepth != y.MaxDepth {
		return failf("maximum depth %d, mirrored %d", x.MaxDepth, y.MaxDepth)
	}
	// a depth query asks one side first, so it only has a mirror image where the sides are apart
	if len(x.Asks) > 0 && len(x.Bids) > 0 && x.Asks[0].Price <= x.Bids[0].Price {
		return nil
	}
	for _, p := range prices {
		a, ea := x.GetDepth(p)
		b, eb := y.GetDepth(c - p)
		if (ea == nil) != (eb == nil) || ea == nil && !near(a, b, 0) {
			return failf("depth at %v is %v (%v), at %v of the mirrored book %v (%v): %s / %s", p, a, ea, c-p, b, eb, showBook(x), showBook(y))
		}
	}
	return nil
}

func flip(a market.ActionType) market.ActionType {
	switch a {
	case market.BuyAction:
		return market.SellAction
	case market.SellAction:
		return market.BuyAction
	}
	return a
}

func mirrorPosition(s *posSet, p, q *market.Position, ref *posRef) error {
	scale := s.money(ref.flow)
	size := math.Max(s.qUnit(1), math.Min(p.Quantity, q.Quantity))
	if p.Type == q.Type {
		return failf("both the position and its mirror image are %s", p.Type)
	}
	if p.Open != q.Open || !near(p.Quantity, q.Quantity, s.qUnit(ref.vol)) || !near(p.OpenPrice, q.OpenPrice, scale/size) || p.ClosePrice != q.ClosePrice ||
		p.CloseTime != q.CloseTime || p.OpenTime != q.OpenTime || p.Pair != q.Pair || !sameStrs(p.Trades, q.Trades) {
		return failf("position %+v, mirrored %+v", *p, *q)
	}
	if !near(p.Profit, -q.Profit, scale) {
		return failf("profit %v, mirrored %v: %s", p.Profit, q.Profit, p)
	}
	for _, x := range []int64{0, 1, 13, 100000} {
		a, b := p.UnrealizedProfit(s.pUnit(x)), q.UnrealizedProfit(s.pUnit(x))
		if !near(a, -b, scale+s.money(ref.vol*x)) {
			return failf("unrealized profit at %v is %v, mirrored %v: %s", s.pUnit(x), a, b, p)
		}
	}
	return nil
}

func mirrorFractals(t *T, cs []market.Candle) error {
	ms := make([]market.Candle, len(cs))
	for i, c := range cs {
		ms[i] = c
		ms[i].Open, ms[i].High, ms[i].Low, ms[i].Close = -c.Open, -c.Low, -c.High, -c.Close
	}
	t.Evals++
	a, b := indicators.WilliamFractals(cs), indicators.WilliamFractals(ms)
	if len(a) != len(b) {
		return failf("fractals %v, of the mirrored series %v", a, b)
	}
	for i := range b {
		b[i].Price = -b[i].Price
		switch b[i].Type {
		case indicators.FractalUp:
			b[i].Type = indicators.FractalDown
		case indicators.FractalDown:
			b[i].Type = indicators.FractalUp
		}
	}
	a, b = sortFr(a), sortFr(b)
	for i := range a {
		if !sameFractal(a[i], b[i]) {
			return failf("fractals %v, of the mirrored series, mirrored back, %v", a, b)
		}
	}
	t.Outcomef("%v", a)
	return nil
}

func checkC38(r *Run) {
	flipSide := func(s string) string {
		switch s {
		case "ask":
			return "bid"
		case "bid":
			return "ask"
		}
		return s
	}
	mirrorLvls := func(ls []lvl, c float64) []lvl {
		var out []lvl
		for _, l := range ls {
			out = append(out, lvl{c - l.p, l.v})
		}
		return out
	}

	// books built from every short list of distinct prices
	type built struct {
		Asks, Bids []int
		Depth      int
	}
	distinct := func(l []int) bool {
		seen := 0
		for _, x := range l {
			if seen&(1<<x) != 0 {
				return false
			}
			seen |= 1 << x
		}
		return true
	}
	Enum(r, "construct", func(yield func(built) bool) {
		lists(5, 4, func(a []int) bool {
			ok := true
			if !distinct(a) {
				return true
			}
			lists(5, 3, func(b []int) bool {
				if !distinct(b) {
					return true
				}
				for d := 0; d <= 5; d++ {
					if ok = yield(built{a, b, d}); !ok {
						break
					}
				}
				return ok
			})
			return ok
		})
	}, func(t *T, c built) error {
		var asks, bids []lvl
		for i, a := range c.Asks {
			asks = append(asks, lvl{float64(6 + a), float64(i + 1)})
		}
		for i, b := range c.Bids {
			bids = append(bids, lvl{float64(5 - b), float64(3 * (i + 1))})
		}
		t.States += 2
		t.Transitions += 2
		t.Traces++
		x := market.NewOrderBook(rowsOf(asks), rowsOf(bids), c.Depth)
		y := market.NewOrderBook(rowsOf(mirrorLvls(bids, 11)), rowsOf(mirrorLvls(asks, 11)), c.Depth)
		if err := mirrorBook(t, &x, &y, 11, probeMirror(10)); err != nil {
			return fmt.Errorf("new book asks %v bids %v depth %d: %w", asks, bids, c.Depth, err)
		}
		return nil
	})
	r.bound("mirror: books built from every list of up to 4 asks and 3 bids of 5 distinct prices each, depths 0..5")

	// every book reachable over a few ticks; searches run last, as what the library keeps to itself
	// can make the number of states grow without end
	var searches []func()
	ticks := pick(r, 7, 8)
	c := float64(ticks + 1) // prices 1..ticks
	for _, md := range []int{0, 1, 2, 3, 1000} {
		md := md
		nop := 2*ticks*3 + len(badSides)
		update := func(op int) market.OrderBookUpdate {
			if op >= 2*ticks*3 {
				return market.OrderBookUpdate{Price: 2, Volume: 1, Side: badSides[op-2*ticks*3]}
			}
			return market.OrderBookUpdate{Side: [2]string{"ask", "bid"}[op%2], Price: float64(op/2%ticks + 1), Volume: float64(op / 2 / ticks)}
		}
		var full [2][]lvl
		for i := 1; i <= ticks; i++ {
			full[i*2/(ticks+1)%2] = append(full[i*2/(ticks+1)%2], lvl{float64(i), float64(1 + i%2)})
		}
		inits := [][2][]lvl{{nil, nil}, {full[1], full[0]}, {full[1], nil}, {nil, full[0]}}
		searches = append(searches, func() {
			BFS(r, fmt.Sprintf("books/depth=%d", md), bfsSpec{Inits: len(inits), Ops: nop, MaxDepth: 64, MaxState: 3000000, Run: func(t *T, h Hist, from int) ([]byte, error) {
				in := inits[h.Init]
				x := market.NewOrderBook(rowsOf(in[0]), rowsOf(in[1]), md)
				y := market.NewOrderBook(rowsOf(mirrorLvls(in[1], c)), rowsOf(mirrorLvls(in[0], c)), md)
				if len(h.Ops) == 0 {
					if err := mirrorBook(t, &x, &y, c, probeMirror(ticks)); err != nil {
						return nil, err
					}
				}
				for i, op := range h.Ops {
					u := update(op)
					v := u
					v.Side, v.Price = flipSide(u.Side), c-u.Price
					ex, ey := x.ApplyUpdate(u), y.ApplyUpdate(v)
					if i < from {
						continue
					}
					if (ex == nil) != (ey == nil) {
						return nil, failf("update %+v: %v, mirrored: %v", u, ex, ey)
					}
					if err := mirrorBook(t, &x, &y, c, probeMirror(ticks)); err != nil {
						return nil, fmt.Errorf("after update %+v: %w", u, err)
					}
				}
				x.Time, y.Time = 0, 0
				hide := &dumpOpt{hide: true}
				key := deep(deep(nil, &x, hide), &y, hide)
				t.Outcome(key)
				return key, nil
			}})
		})
	}
	r.bound("mirror: every pair of mirrored books reachable by set/delete/invalid updates over %d ticks, 2 volumes, 2 sides, depths 0..3 and 1000 (closure)", ticks)

	// larger books, one update at every position
	type large struct{ N, Depth, Op int }
	Enum(r, "large", func(yield func(large) bool) {
		for n := 5; n <= pick(r, 70, 140); n++ {
			for _, d := range []int{n - 1, n, n + 1, 1000} {
				for op := 0; op < (4*n+4)*4; op++ {
					if !yield(large{n, d, op}) {
						return
					}
				}
			}
		}
	}, func(t *T, k large) error {
		var asks, bids []lvl
		for i := 0; i < k.N; i++ {
			asks = append(asks, lvl{float64(k.N + 2 + i), float64(1 + i%3)})
			bids = append(bids, lvl{float64(k.N + 1 - i), float64(2 + i%2)})
		}
		c := float64(2*k.N + 3)
		x := market.NewOrderBook(rowsOf(asks), rowsOf(bids), k.Depth)
		y := market.NewOrderBook(rowsOf(mirrorLvls(bids, c)), rowsOf(mirrorLvls(asks, c)), k.Depth)
		u := market.OrderBookUpdate{Side: [2]string{"ask", "bid"}[k.Op/2%2], Volume: float64(k.Op % 2 * 7), Price: 1 + float64(k.Op/4)/2}
		v := u
		v.Side, v.Price = flipSide(u.Side), c-u.Price
		t.States += 2
		t.Traces++
		t.Transitions += 2
		if ex, ey := x.ApplyUpdate(u), y.ApplyUpdate(v); (ex == nil) != (ey == nil) {
			return failf("update %+v: %v, mirrored: %v", u, ex, ey)
		}
		n := float64(k.N)
		return mirrorBook(t, &x, &y, c, []float64{u.Price, 1.5, n / 2, n + 1, n + 1.5, n + 2, 3 * n / 2, 2*n + 1.5})
	})
	r.bound("mirror: every update at every position of books with 5..%d levels a side", pick(r, 70, 140))

	// positions
	for i := range posSets {
		s := &posSets[i]
		ops := s.ops()
		var opens []posOp
		for _, o := range ops {
			if o.kind == 0 && o.q != 0 && o.buy {
				opens = append(opens, o)
			}
		}
		step := func(t *T, p, q *market.Position, ref *posRef, op posOp, n int, judge bool) (bool, error) {
			tr := s.trade(ref, op, n)
			mt := *tr
			mt.Action = flip(tr.Action)
			ep, eq := p.Modify(tr), q.Modify(&mt)
			if op.kind == 6 {
				return true, nil // C08: the action is neither buy nor sell
			}
			if _, judged := s.apply(ref, op, tr); !judged {
				ref.vol += ref.qty // a quantity just beside the rest, which the reference does not follow
			}
			if !judge {
				return false, nil
			}
			t.Evals++
			if (ep == nil) != (eq == nil) {
				return true, failf("trade %d %+v: %v, mirrored: %v", n, *tr, ep, eq)
			}
			if err := mirrorPosition(s, p, q, ref); err != nil {
				return true, fmt.Errorf("after trade %d %+v: %w", n, *tr, err)
			}
			return op.kind == 1 && op.buy == ref.long || op.kind == 2 && op.buy == ref.long, nil
		}
		open := func(op posOp) (*market.Position, *market.Position, *posRef) {
			p, ref, tr := s.openPos(op)
			mt := *tr
			mt.Action = flip(tr.Action)
			return p, market.NewPosition(&mt), ref
		}
		depth := pick(r, s.mdepth[0]-1, s.mdepth[1]-1)
		searches = append(searches, func() {
			BFS(r, "positions/"+s.name, bfsSpec{Inits: len(opens), Ops: len(ops), MaxDepth: depth, MaxState: 3000000, Run: func(t *T, h Hist, from int) ([]byte, error) {
				p, q, ref := open(opens[h.Init])
				for k, o := range h.Ops {
					stop, err := step(t, p, q, ref, ops[o], k+1, k >= from)
					if err != nil {
						return nil, err
					}
					if stop && k == len(h.Ops)-1 {
						return nil, nil
					}
				}
				key := deep(nil, []any{p.Open, p.OpenPrice, p.Quantity, p.Profit, len(p.Trades), q.OpenPrice, q.Quantity, q.Profit, ref.qty, ref.cash, ref.flow, hidden(p), hidden(q)}, nil)
				t.Outcome(key)
				return key, nil
			}})
		})
		type long struct{ Pattern, Len int }
		Enum(r, "long/"+s.name, func(yield func(long) bool) {
			for pat := 0; pat < 4; pat++ {
				for _, n := range []int{1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 377, 610, 1597} {
					if !yield(long{pat, n}) {
						return
					}
				}
			}
		}, func(t *T, c long) error {
			p, q, ref := open(posOp{buy: true, q: s.qs[1], p: s.ps[0]})
			t.States++
			t.Traces++
			for i := 1; i <= c.Len; i++ {
				op := posOp{buy: c.Pattern == 0 || i%(c.Pattern+1) != 0, q: s.qs[1], p: s.ps[i%len(s.ps)]}
				if i == c.Len {
					op.kind, op.buy = 4, false
				}
				t.Transitions++
				if _, err := step(t, p, q, ref, op, i, true); err != nil {
					return err
				}
			}
			return nil
		})
	}
	r.bound("mirror: every history of up to 3-%d trades over 10 alphabets, and 4 structured ones of up to 1597 trades, long and short in lock step", pick(r, 4, 5))

	// fractals
	for _, a := range hlAlphabets {
		a := a
		n := pick(r, a.q, a.th) - 1
		seriesTree(r, "fractals/"+a.name, []int{len(a.hl)}, 0, n, func(t *T, _ int, l []int) error {
			t.Traces++
			return mirrorFractals(t, hlCandles(a.hl, l))
		})
		r.bound("mirror: fractals of every series of up to %d candles from %d high/low pairs (%s)", n, len(a.hl), a.name)
	}
	type lf struct{ Pat, N, Exp int }
	Enum(r, "fractals/long", func(yield func(lf) bool) {
		for pat := 0; pat < nLong; pat++ {
			for n := 0; n <= pick(r, 300, 600); n++ {
				if !yield(lf{pat, n, 0}) {
					return
				}
			}
			for _, n := range []int{1001, 4097} {
				if !yield(lf{pat, n, 0}) {
					return
				}
			}
			for e := -280; e <= 280; e++ {
				if !yield(lf{pat, 30, e}) {
					return
				}
			}
		}
	}, func(t *T, c lf) error {
		f := math.Pow(10, float64(c.Exp))
		cl := longSeries(c.Pat, c.N)
		cs := make([]market.Candle, len(cl))
		for i, x := range cl {
			cs[i] = market.Candle{Time: int64(i * 60), High: f * (x + 1), Low: f * (x - 1 - float64(i%3))}
		}
		t.States++
		t.Transitions += int64(len(cs))
		t.Traces++
		return mirrorFractals(t, cs)
	})
	r.bound("mirror: fractals of %d structured series of every length up to %d and of 561 magnitudes", nLong, pick(r, 300, 600))
	for _, f := range searches {
		f()
	}
}

// probeMirror lists the prices on, between and beyond n ticks that have a positive mirror image.
func probeMirror(n int) []float64 {
	var out []float64
	for i := 1; i <= 2*n+1; i++ {
		out = append(out, float64(i)/2)
	}
	return out
}
