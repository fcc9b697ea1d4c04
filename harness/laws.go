package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"time"

	"github.com/vanclief/ez"
	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
)

// ---------------------------------------------------------------------------
// C31: constructors. C32: resuming from the JSON form. C33: order and repetition of book updates.
// C34: resampling in steps. C35: laws of the averages and of RSI. C36: kinds of errors.
// ---------------------------------------------------------------------------

func init() {
	checks["C31"] = checkC31
	checks["C32"] = checkC32
	checks["C33"] = checkC33
	checks["C34"] = checkC34
	checks["C35"] = checkC35
	checks["C36"] = checkC36
}

// --- C31 --------------------------------------------------------------------

func checkC31(r *Run) {
	// every subset of a trade's fields, in several variants
	Enum(r, "position", func(yield func(maskCase) bool) {
		masks(r, []any{market.Trade{}}, 24, yield)
	}, func(t *T, c maskCase) error {
		for _, a := range []market.ActionType{market.BuyAction, market.SellAction} {
			var tr market.Trade
			fillMask(reflect.ValueOf(&tr).Elem(), c.Mask, c.K)
			tr.Action = a
			before := tr
			t.Transitions++
			p := market.NewPosition(&tr)
			t.Traces++
			t.Evals++
			if !same(tr, before) {
				return failf("opening a position changed its trade to %+v", tr)
			}
			want := market.Position{ID: p.ID, Type: market.LongPosition, Pair: before.Pair, Open: true, OpenPrice: before.Price,
				Quantity: before.Quantity, OpenTime: before.ExecutionTime, Trades: []string{before.ID}}
			if a == market.SellAction {
				want.Type = market.ShortPosition
			}
			if p.OpenTime != before.ExecutionTime {
				return failf("position opened at %v by a trade of %v", p.OpenTime, before.ExecutionTime)
			}
			got := *p
			want.OpenTime, got.OpenTime = time.Time{}, time.Time{}
			if !same(got, want) {
				return failf("position %+v opened by %+v, expected %+v", *p, before, want)
			}
			want.ID = ""
			t.Outcome(deep(nil, want, nil))
			want.ID = p.ID
			if p.ID == "" || !fresh(p.ID) {
				return failf("position id %q is not a new one", p.ID)
			}
			// what becomes of the trade later is not the position's business
			tr = market.Trade{ID: "later"}
			got = *p
			got.OpenTime = time.Time{}
			if !same(got, want) {
				return failf("the position changed with its trade: %+v", *p)
			}
		}
		t.States++
		return nil
	})
	type note struct{ T, P, L, S int }
	texts := append([]string{""}, fillStrings...)
	floats := append([]float64{0}, fillFloats...)
	ints := append([]int64{0}, fillInts...)
	Enum(r, "annotation", func(yield func(note) bool) {
		for a := range ints {
			for b := range floats {
				for c := range texts {
					for d := range texts {
						if !yield(note{a, b, c, d}) {
							return
						}
					}
				}
			}
		}
	}, func(t *T, c note) error {
		t.States++
		t.Transitions++
		t.Traces++
		t.Evals++
		n := strategy.NewAnnotation(ints[c.T], floats[c.P], texts[c.L], texts[c.S])
		want := strategy.Annotation{ID: n.ID, Time: ints[c.T], Price: floats[c.P], Label: texts[c.L], Tooltip: texts[c.S]}
		if !same(*n, want) {
			return failf("annotation %+v, expected %+v", *n, want)
		}
		if n.ID == "" || !fresh(n.ID) {
			return failf("annotation id %q is not a new one", n.ID)
		}
		return nil
	})
	type pairs struct{ A, B maskCase }
	Enum(r, "pair", func(yield func(pairs) bool) {
		masks(r, []any{market.Asset{}}, 7, func(a maskCase) bool {
			ok := true
			masks(r, []any{market.Asset{}}, 7, func(b maskCase) bool { ok = yield(pairs{a, b}); return ok })
			return ok
		})
	}, func(t *T, c pairs) error {
		t.States++
		t.Transitions++
		t.Traces++
		t.Evals++
		var a, b market.Asset
		fillMask(reflect.ValueOf(&a).Elem(), c.A.Mask, c.A.K)
		fillMask(reflect.ValueOf(&b).Elem(), c.B.Mask, c.B.K)
		if p := market.NewPair(a, b); p != (market.Pair{Base: a, Quote: b}) {
			return failf("pair of %+v and %+v is %+v", a, b, p)
		}
		return nil
	})
	type newBook struct{ Depth, Asks, Bids int }
	depths := []int{0, 1, 2, 10, 1000, 65537, math.MaxInt32, math.MaxInt64}
	Enum(r, "book", func(yield func(newBook) bool) {
		for d := range depths {
			for a := 0; a <= 12; a++ {
				for b := 0; b <= 12; b++ {
					if !yield(newBook{d, a, b}) {
						return
					}
				}
			}
		}
	}, func(t *T, c newBook) error {
		t.States++
		t.Transitions++
		t.Traces++
		t.Evals++
		var asks, bids []lvl
		for i := 0; i < c.Asks; i++ {
			asks = append(asks, lvl{float64(100 + i), 1})
		}
		for i := 0; i < c.Bids; i++ {
			bids = append(bids, lvl{float64(90 - i), 1})
		}
		from := time.Now().Unix()
		ob := market.NewOrderBook(rowsOf(asks), rowsOf(bids), depths[c.Depth])
		to := time.Now().Unix()
		if ob.MaxDepth != depths[c.Depth] {
			return failf("a new book of maximum depth %d has the maximum depth %d", depths[c.Depth], ob.MaxDepth)
		}
		if from <= to && (ob.Time < from || ob.Time > to) {
			return failf("a book built between %d and %d has the time %d", from, to, ob.Time)
		}
		return nil
	})
	r.bound("constructors: books of 0..12 rows a side with %d maximum depths", len(depths))
	// fresh ids on every kind of action: nothing else changes, and no id is ever given twice, also
	// across kinds and constructors
	acts := []func() any{
		func() any { return &strategy.CreateOrderAction{} }, func() any { return &strategy.UpdateOrderAction{} }, func() any { return &strategy.CancelOrderAction{} },
		func() any { return &strategy.UpdatePositionAction{} }, func() any { return &strategy.ClosePositionAction{} },
	}
	type idCase struct {
		Kind int
		Mask uint64
		K    int
	}
	Enum(r, "ids", func(yield func(idCase) bool) {
		for k, f := range acts {
			n := reflect.TypeOf(f()).Elem().NumField()
			for m := uint64(0); m < 1<<uint(n); m++ {
				for v := 0; v < 5; v++ {
					if !yield(idCase{k, m, v}) {
						return
					}
				}
			}
		}
	}, func(t *T, c idCase) error {
		t.States++
		t.Traces++
		x := acts[c.Kind]()
		v := reflect.ValueOf(x).Elem()
		fillMask(v, c.Mask, c.K)
		before := idless(v.Interface())
		for i := 0; i < 3; i++ {
			old := v.FieldByName("ID").String()
			x.(interface{ GenerateID() }).GenerateID()
			t.Transitions++
			t.Evals++
			id := v.FieldByName("ID").String()
			if id == "" || id == old || !fresh(id) {
				return failf("generated id %q is not a new one", id)
			}
			if idless(v.Interface()) != before {
				return failf("generating an id changed %s", before)
			}
		}
		return nil
	})
	type mix struct{ N int }
	Serial(r, "mixed ids", func(yield func(mix) bool) {
		for _, n := range []int{1, 2, 7, 255, 256, 257, 65536, pick(r, 140000, 1200000)} {
			if !yield(mix{n}) {
				return
			}
		}
	}, func(t *T, c mix) error {
		t.States++
		t.Traces++
		seen := make(map[string]int, c.N)
		for i := 0; i < c.N; i++ {
			var id string
			switch k := i % 7; k {
			case 5:
				id = market.NewPosition(&market.Trade{}).ID
			case 6:
				id = strategy.NewAnnotation(0, 0, "", "").ID
			default:
				x := acts[k]()
				x.(interface{ GenerateID() }).GenerateID()
				id = reflect.ValueOf(x).Elem().FieldByName("ID").String()
			}
			t.Transitions++
			t.Evals++
			if j, ok := seen[id]; ok || id == "" {
				return failf("generated object %d has the id %q of object %d", i, id, j)
			}
			seen[id] = i
		}
		return nil
	})
	r.bound("constructors: positions of every subset of a trade's fields (%d variants), annotations of %d x %d x %d x %d values, pairs of all asset field subsets, ids on every subset of every action's fields", 24, len(ints), len(floats), len(texts), len(texts))
	r.bound("ids: sequences of up to %d objects of all 7 kinds in turn", pick(r, 140000, 1200000))
}

// --- C32 --------------------------------------------------------------------

func throughJSON(src, dst any) error {
	b, err := json.Marshal(src)
	if err != nil {
		return failf("cannot encode %+v: %v", src, err)
	}
	if err := json.Unmarshal(b, dst); err != nil {
		return failf("cannot decode %s: %v", b, err)
	}
	return nil
}

// bookDiff compares what a user can see of two books, empty sides alike.
func bookDiff(a, b *market.OrderBook) bool {
	if showLevels(a) != showLevels(b) || a.MaxDepth != b.MaxDepth || a.Time != b.Time {
		return true
	}
	for _, x := range [][2][]market.OrderBookRow{{a.Asks, b.Asks}, {a.Bids, b.Bids}} {
		for i := range x[0] {
			if !near(x[0][i].AccumVolume, x[1][i].AccumVolume, 0) {
				return true
			}
		}
	}
	return false
}

func checkC32(r *Run) {
	search := func(fam string, sc bookScale, ticks int, depths []int) {
		for _, md := range depths {
			md := md
			mid := ticks / 2
			var asks, bids []lvl
			for i := 0; i < ticks; i++ {
				if i >= mid {
					asks = append(asks, lvl{sc.price(i), sc.vols[i%2]})
				} else {
					bids = append(bids, lvl{sc.price(i), sc.vols[(i+1)%2]})
				}
			}
			inits := [][2][]lvl{{nil, nil}, {asks, bids}, {asks, nil}, {nil, bids}}
			nop := 2*ticks*3 + 1
			update := func(op int) market.OrderBookUpdate {
				if op == nop-1 {
					return market.OrderBookUpdate{Side: "other", Price: sc.price(mid), Volume: 1}
				}
				u := market.OrderBookUpdate{Side: [2]string{"ask", "bid"}[op%2], Price: sc.price(op / 2 % ticks)}
				if k := op / 2 / ticks; k > 0 {
					u.Volume = sc.vols[k-1]
				}
				return u
			}
			probes := probePrices(sc, ticks)
			rival := market.NewOrderBook(rowsOf(asks), rowsOf(bids), 100)
			BFS(r, fmt.Sprintf("%s/%s/depth=%d", fam, sc.name, md), bfsSpec{Inits: len(inits), Ops: nop, MaxDepth: 64, MaxState: 2000000, Run: func(t *T, h Hist, from int) ([]byte, error) {
				in := inits[h.Init]
				ob := market.NewOrderBook(rowsOf(in[0]), rowsOf(in[1]), md)
				ob.Time = 1614837600
				for i, op := range h.Ops {
					u := update(op)
					if i != len(h.Ops)-1 {
						// half of the steps of a history go on with the restored book
						if (i+op)%2 == 0 {
							var re market.OrderBook
							if err := throughJSON(&ob, &re); err != nil {
								return nil, err
							}
							ob = re
						}
						ob.ApplyUpdate(u)
					} else {
						// the restored book takes the same update and answers the same questions
						var re market.OrderBook
						if err := throughJSON(&ob, &re); err != nil {
							return nil, err
						}
						if bookDiff(&ob, &re) {
							return nil, failf("book %s at %d restored as %s at %d", showBook(&ob), ob.Time, showBook(&re), re.Time)
						}
						e1, e2 := ob.ApplyUpdate(u), re.ApplyUpdate(u)
						t.Evals++
						if bookDiff(&ob, &re) || (e1 == nil) != (e2 == nil) {
							return nil, failf("after %+v the book is %s (error %v), the restored one %s (error %v)", u, showBook(&ob), e1, showBook(&re), e2)
						}
						for _, p := range probes {
							d1, e1 := ob.GetDepth(p)
							d2, e2 := re.GetDepth(p)
							t.Evals++
							if (e1 == nil) != (e2 == nil) || e1 == nil && !near(d1, d2, 0) {
								return nil, failf("depth at %v is %v (%v), of the restored book %v (%v): %s", p, d1, e1, d2, e2, showBook(&ob))
							}
						}
						o1, e1 := market.CalculateOverlap(ob, rival)
						o2, e2 := market.CalculateOverlap(re, rival)
						if (e1 == nil) != (e2 == nil) || e1 == nil && !near(o1, o2, 0) {
							return nil, failf("overlap is %v (%v), of the restored book %v (%v): %s", o1, e1, o2, e2, showBook(&ob))
						}
						if (i+op)%2 == 0 {
							ob = re
						}
					}
				}
				key := deep(nil, &ob, &dumpOpt{hide: true})
				t.Outcome(key)
				return key, nil
			}})
		}
	}

	// long histories with a restoration before every k-th update
	type longBook struct{ N, Depth, Every, Order int }
	Enum(r, "long books", func(yield func(longBook) bool) {
		for _, n := range []int{30, pick(r, 60, 200)} {
			for _, d := range []int{5, n / 2, n, 1000} {
				for every := 1; every <= 8; every++ {
					for o := 0; o < 4; o++ {
						if !yield(longBook{n, d, every, o}) {
							return
						}
					}
				}
			}
		}
	}, func(t *T, c longBook) error {
		t.States++
		t.Traces++
		sc := bookScales[1]
		a, b := market.NewOrderBook(nil, nil, c.Depth), market.NewOrderBook(nil, nil, c.Depth)
		a.Time, b.Time = 1, 1
		k := 0
		do := func(u market.OrderBookUpdate) error {
			if k++; k%c.Every == 0 {
				var re market.OrderBook
				if err := throughJSON(&b, &re); err != nil {
					return err
				}
				b = re
			}
			e1, e2 := a.ApplyUpdate(u), b.ApplyUpdate(u)
			t.Transitions++
			t.Evals++
			if bookDiff(&a, &b) || (e1 == nil) != (e2 == nil) {
				return failf("after update %d %+v the book is %s, the restored one %s", k, u, showBook(&a), showBook(&b))
			}
			return nil
		}
		for i := 0; i < c.N; i++ {
			j := order(c.Order, c.N, i)
			if err := do(market.OrderBookUpdate{Side: "ask", Price: sc.price(c.N + j), Volume: sc.vols[i%2]}); err != nil {
				return err
			}
			if err := do(market.OrderBookUpdate{Side: "bid", Price: sc.price(j), Volume: sc.vols[j%2]}); err != nil {
				return err
			}
		}
		for i := 0; i < 2*c.N; i += 2 {
			if err := do(market.OrderBookUpdate{Side: "ask", Price: sc.price(order(3-c.Order, 2*c.N, i)), Volume: float64(i % 3)}); err != nil {
				return err
			}
			if err := do(market.OrderBookUpdate{Side: "bid", Price: sc.price(order(c.Order, 2*c.N, i)), Volume: float64(i / 2 % 2)}); err != nil {
				return err
			}
		}
		return nil
	})

	// positions: restored after every prefix, then the same trade on both
	for i := range posSets {
		s := &posSets[i]
		ops := s.ops()
		var opens []posOp
		for _, o := range ops {
			if o.kind == 0 && o.q != 0 {
				opens = append(opens, o)
			}
		}
		BFS(r, "positions/"+s.name, bfsSpec{Inits: len(opens), Ops: len(ops), MaxDepth: pick(r, 3, 4), MaxState: 3000000, Run: func(t *T, h Hist, from int) ([]byte, error) {
			p, ref, _ := s.openPos(opens[h.Init])
			decorate(p)
			for k, o := range h.Ops {
				tr := s.trade(ref, ops[o], k+1)
				if k == len(h.Ops)-1 {
					re := &market.Position{}
					if err := throughJSON(p, re); err != nil {
						return nil, err
					}
					if positionView(p) != positionView(re) {
						return nil, failf("position %+v restored as %+v", *p, *re)
					}
					e1, e2 := p.Modify(tr), re.Modify(tr)
					t.Evals++
					if positionView(p) != positionView(re) || (e1 == nil) != (e2 == nil) {
						return nil, failf("after trade %+v the position is %+v (error %v), the restored one %+v (error %v)", *tr, *p, e1, *re, e2)
					}
					for _, x := range []float64{0, 1, 12345.6} {
						if a, b := p.UnrealizedProfit(x), re.UnrealizedProfit(x); !near(a, b, 0) {
							return nil, failf("unrealized profit at %v is %v, of the restored position %v", x, a, b)
						}
					}
					p = re
				} else {
					re := &market.Position{}
					if err := throughJSON(p, re); err != nil {
						return nil, err
					}
					p = re
					p.Modify(tr)
				}
				s.apply(ref, ops[o], tr)
			}
			key := deep(nil, []any{p.Type, p.Open, p.OpenPrice, p.Quantity, p.Profit, len(p.Trades), ref.qty, hidden(p)}, nil)
			t.Outcome(key)
			return key, nil
		}})
	}
	r.bound("restored positions: every history of up to %d trades over %d alphabets, encoded and decoded before every trade", pick(r, 3, 4), len(posSets))
	// longer histories, restored before every k-th trade
	type longPos struct {
		Set, N, Every, Shape int
		Buy                  bool
	}
	Enum(r, "long positions", func(yield func(longPos) bool) {
		for i := range posSets {
			for n := 1; n <= pick(r, 40, 120); n++ {
				for every := 1; every <= 8; every++ {
					for shape := 0; shape < 4; shape++ {
						for _, b := range []bool{true, false} {
							if !yield(longPos{i, n, every, shape, b}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(t *T, c longPos) error {
		s := &posSets[c.Set]
		q := func(i int) int64 { return s.qs[1+i%(len(s.qs)-1)] }
		a, ref, _ := s.openPos(posOp{buy: c.Buy, q: q(0), p: s.ps[0]})
		decorate(a)
		b := *a
		b.Trades = append([]string{}, a.Trades...)
		t.States++
		t.Traces++
		for i := 1; i <= c.N; i++ {
			op := posOp{buy: c.Buy, q: q(i), p: s.ps[i%len(s.ps)]}
			switch c.Shape {
			case 1:
				op.buy = c.Buy == (i%2 == 1)
			case 2:
				op.buy = c.Buy == (i%3 != 0)
			case 3:
				op.buy, op.q = c.Buy == (i <= c.N/2), s.qs[1]
			}
			if i == c.N {
				op.buy, op.kind = !c.Buy, 4
			}
			tr := s.trade(ref, op, i)
			if i%c.Every == 0 {
				var re market.Position
				if err := throughJSON(&b, &re); err != nil {
					return err
				}
				b = re
			}
			e1, e2 := a.Modify(tr), b.Modify(tr)
			s.apply(ref, op, tr)
			t.Transitions++
			t.Evals++
			if positionView(a) != positionView(&b) || (e1 == nil) != (e2 == nil) {
				return failf("after trade %d %+v the position is %+v (error %v), the restored one %+v (error %v)", i, *tr, *a, e1, b, e2)
			}
		}
		return nil
	})
	r.bound("restored positions: 4 structured histories of every length up to %d, restored before every k-th trade, k = 1..8", pick(r, 40, 120))
	search("books", bookScales[0], pick(r, 6, 8), []int{0, 1, 2, 1000})
	search("books", bookScales[5], pick(r, 4, 6), []int{2, 1000})
	search("books", bookScales[2], pick(r, 4, 6), []int{1000})
	r.bound("restored books: every reachable state over %d ticks x 2 volumes (depths 0, 1, 2, 1000; 2 more scales), encoded and decoded, then every update and query on both", pick(r, 6, 8))
}

// positionView: what can be seen of a position.
func positionView(p *market.Position) string {
	q := *p
	q.OpenTime, q.CloseTime = q.OpenTime.UTC(), q.CloseTime.UTC()
	return string(deep(nil, []any{q.ID, q.Type, q.Pair, q.Open, q.TakeProfit, q.StopLoss, q.OpenPrice, q.ClosePrice, q.Quantity, q.Profit,
		q.OpenTime.UnixNano(), q.CloseTime.UnixNano(), len(q.Trades), fmt.Sprint(q.Trades), q.ExecutionID, q.Data}, nil))
}

// --- C33 --------------------------------------------------------------------

func checkC33(r *Run) {
	type pairOps struct {
		Scale, State, A, B int
	}
	for _, cfg := range []struct{ scale, ticks int }{{0, pick(r, 6, 7)}, {5, pick(r, 4, 5)}, {4, pick(r, 4, 5)}, {3, 4}} {
		sc := bookScales[cfg.scale]
		ticks := cfg.ticks
		// every uncrossed book over the ticks: boundary x per-tick content
		var books []plainBook
		books = tickBooks(ticks, sc.price, sc.vols)
		nop := 2 * ticks * 3
		update := func(op int) market.OrderBookUpdate {
			u := market.OrderBookUpdate{Side: [2]string{"ask", "bid"}[op%2], Price: sc.price(op / 2 % ticks)}
			if k := op / 2 / ticks; k > 0 {
				u.Volume = sc.vols[k-1]
			}
			return u
		}
		Enum(r, fmt.Sprintf("diamonds/%s", sc.name), func(yield func(pairOps) bool) {
			for s := range books {
				for a := 0; a < nop; a++ {
					for b := 0; b < nop; b++ {
						if !yield(pairOps{cfg.scale, s, a, b}) {
							return
						}
					}
				}
			}
		}, func(t *T, c pairOps) error {
			bk := books[c.State]
			t.States++
			u, v := update(c.A), update(c.B)
			run := func(depth int, us ...market.OrderBookUpdate) (string, error) {
				ob := market.NewOrderBook(rowsOf(bk.Asks), rowsOf(bk.Bids), depth)
				for _, u := range us {
					t.Transitions++
					if err := ob.ApplyUpdate(u); err != nil {
						return "", failf("update %+v of %s failed: %v", u, showBook(&ob), err)
					}
				}
				t.Evals++
				s := showLevels(&ob)
				t.Outcome([]byte(s))
				return s, nil
			}
			for _, depth := range []int{1000, 2, 1, 0} {
				t.Traces++
				if u == v { // repeating an update changes nothing
					one, err := run(depth, u)
					if err != nil {
						return err
					}
					two, err := run(depth, u, u)
					if err != nil {
						return err
					}
					if one != two {
						return failf("book asks %v bids %v depth %d: update %+v gives %s, repeated %s", bk.Asks, bk.Bids, depth, u, one, two)
					}
					continue
				}
				if u.Side == v.Side && u.Price == v.Price && v.Volume != 0 { // the last one counts
					one, err := run(depth, v)
					if err != nil {
						return err
					}
					two, err := run(depth, u, v)
					if err != nil {
						return err
					}
					if one != two {
						return failf("book asks %v bids %v depth %d: update %+v gives %s, but %s after %+v", bk.Asks, bk.Bids, depth, v, one, two, u)
					}
				}
			}
			if u.Side == v.Side && u.Price == v.Price || crosses(u, v) || crosses(v, u) {
				return nil
			}
			// independent levels: both orders give the same book (with room for all rows)
			x, err := run(1000, u, v)
			if err != nil {
				return err
			}
			y, err := run(1000, v, u)
			if err != nil {
				return err
			}
			if x != y {
				return failf("book asks %v bids %v: %+v then %+v gives %s, the other way round %s", bk.Asks, bk.Bids, u, v, x, y)
			}
			return nil
		})
		r.bound("updates: every pair of %d updates on every uncrossed book over %d ticks x 2 volumes (%s): repetition, replacement (depths 0, 1, 2, 1000), both orders", nop, ticks, sc.name)
	}
	// all orders of a set of levels lead to the same book
	type perm struct {
		Scale int
		P     []int
	}
	np := pick(r, 8, 9)
	Enum(r, "orders", func(yield func(perm) bool) {
		for _, s := range []int{0, 1, 5} {
			p := make([]int, np)
			for i := range p {
				p[i] = i
			}
			ok := true
			permute(p, 0, func() bool {
				ok = yield(perm{s, append([]int{}, p...)})
				return ok
			})
			if !ok {
				return
			}
		}
	}, func(t *T, c perm) error {
		sc := bookScales[c.Scale]
		t.States++
		t.Traces++
		run := func(p []int) (string, error) {
			ob := market.NewOrderBook(rowsOf([]lvl{{sc.price(np + 1), 7}}), nil, 1000)
			for _, i := range p {
				u := market.OrderBookUpdate{Side: "bid", Price: sc.price(i), Volume: sc.vols[i%2]}
				if i >= np/2 {
					u.Side = "ask"
				}
				t.Transitions++
				if err := ob.ApplyUpdate(u); err != nil {
					return "", err
				}
			}
			t.Evals++
			return showLevels(&ob), nil
		}
		ids := make([]int, np)
		for i := range ids {
			ids[i] = i
		}
		a, err := run(ids)
		if err != nil {
			return err
		}
		b, err := run(c.P)
		if err != nil {
			return err
		}
		if a != b {
			return failf("levels set in the order %v give %s, in ascending order %s", c.P, b, a)
		}
		return nil
	})
	r.bound("updates: every order of %d updates of different levels, 3 scales", np)
}

// showLevels prints the rows without their totals.
func showLevels(ob *market.OrderBook) string {
	s := ""
	for _, rows := range [][]market.OrderBookRow{ob.Asks, ob.Bids} {
		s += "["
		for _, r := range rows {
			s += fmt.Sprintf(" %vx%v", r.Price, r.Volume)
		}
		s += " ]"
	}
	return s
}

// crosses: does u, when applied, remove the level v names, or could it?
func crosses(u, v market.OrderBookUpdate) bool {
	if u.Volume == 0 || u.Side == v.Side {
		return false
	}
	if u.Side == "ask" {
		return v.Price >= u.Price
	}
	return v.Price <= u.Price
}

func permute(p []int, k int, yield func() bool) bool {
	if k == len(p) {
		return yield()
	}
	for i := k; i < len(p); i++ {
		p[k], p[i] = p[i], p[k]
		if !permute(p, k+1, yield) {
			return false
		}
		p[k], p[i] = p[i], p[k]
	}
	return true
}

// --- C34 --------------------------------------------------------------------

func checkC34(r *Run) {
	type chain struct {
		D, Start, A, B, N, Pat, Base int
	}
	var mids, tops []int
	for a := 1; a <= 1440; a++ {
		if 60%a == 0 || a%60 == 0 && 1440%a == 0 {
			mids = append(mids, a)
		}
	}
	for k := 1; k <= 48; k++ {
		tops = append(tops, k)
	}
	if !r.thorough() {
		tops = []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 24, 30, 48}
	}
	Enum(r, "chains", func(yield func(chain) bool) {
		for _, a := range mids {
			for d := 1; d <= a; d++ {
				if a%d != 0 || a/d > 60 {
					continue
				}
				for _, k := range tops {
					b := a * k
					if b > 2880 {
						break
					}
					for start := 0; start < 60; start++ {
						if !r.thorough() && start%3 != 0 && start > 5 && start < 55 {
							continue
						}
						per := b / d
						for _, n := range []int{a/d + 2, per + 1, 2*per + 3, 3*per - 1} {
							if n < 3 || n > pick(r, 700, 3000) {
								continue
							}
							for pat := 0; pat < nPatterns; pat++ {
								if pat == 5 {
									continue // prices near the ends of the number range are C11's business
								}
								if !yield(chain{d, start, a, b, n, pat, (start + a) % len(bases)}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}, func(t *T, c chain) error {
		var cs []market.Candle
		for i := 0; i < c.N; i++ {
			cs = append(cs, candleAt(c.Pat, i, bases[c.Base]+int64(c.Start)*60+int64(i*c.D)*60))
		}
		t.States++
		t.Transitions += 3
		direct, e1 := market.ModifyInterval(cs, c.B)
		mid, e2 := market.ModifyInterval(cs, c.A)
		t.Evals += 2
		if e2 != nil || len(mid) < 2 {
			return nil // nothing to go on with
		}
		two, e3 := market.ModifyInterval(mid, c.B)
		t.Evals++
		t.Traces++
		if (e1 == nil) != (e3 == nil) {
			return failf("%d candles every %d minutes from %s to %d minutes: error %v; through %d minutes: %v", c.N, c.D, showTimes(cs[:1]), c.B, e1, c.A, e3)
		}
		if e1 != nil {
			t.Outcomef("refused")
			return nil
		}
		if len(direct) != len(two) {
			return failf("%d candles every %d minutes from %s to %d minutes: %d candles; through %d minutes: %d", c.N, c.D, showTimes(cs[:1]), c.B, len(direct), c.A, len(two))
		}
		var vol float64
		for i := range direct {
			x, y := direct[i], two[i]
			tol := 0.51e-5*float64(c.B/c.A+2) + 1e-9*math.Abs(x.Volume)
			if x.Time != y.Time || x.Open != y.Open || x.High != y.High || x.Low != y.Low || x.Close != y.Close || math.Abs(x.Volume-y.Volume) > tol {
				return failf("%d candles every %d minutes from %s to %d minutes: candle %d is %+v; through %d minutes: %+v", c.N, c.D, showTimes(cs[:1]), c.B, i, x, c.A, y)
			}
			vol += x.Volume
		}
		// nothing is lost: the totals of the source from the first interval on
		var want float64
		hi, lo, k := math.Inf(-1), math.Inf(1), 0
		for _, x := range cs {
			if x.Time >= direct[0].Time {
				want, hi, lo = want+x.Volume, math.Max(hi, x.High), math.Min(lo, x.Low)
				k++
			}
		}
		ohi, olo := math.Inf(-1), math.Inf(1)
		for _, x := range direct {
			ohi, olo = math.Max(ohi, x.High), math.Min(olo, x.Low)
		}
		if ohi != hi || olo != lo || math.Abs(vol-want) > 0.51e-5*float64(len(direct)+1)+1e-9*math.Abs(want) || direct[len(direct)-1].Close != cs[len(cs)-1].Close {
			return failf("%d candles every %d minutes from %s to %d minutes: volume %v high %v low %v close %v; the source has %v %v %v %v", c.N, c.D, showTimes(cs[:1]), c.B, vol, ohi, olo, direct[len(direct)-1].Close, want, hi, lo, cs[len(cs)-1].Close)
		}
		t.Outcomef("%d %d", len(direct), len(mid))
		return nil
	})
	r.bound("resampling in steps: all source spacings, %d intermediate intervals (divisors and multiples of an hour), up to %d multiples of each up to two days, start minutes, 4 lengths, %d value patterns", len(mids), len(tops), nPatterns-1)
}

// --- C35 --------------------------------------------------------------------

func checkC35(r *Run) {
	avgs := []avgSpec{avgMA, avgEMA, avgSMMA}
	laws := func(t *T, cl []float64, periods []int) error {
		n := len(cl)
		scale := maxAbs(cl)
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, x := range cl {
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
		tr := func(f func(float64) float64) []market.Candle {
			ys := make([]float64, n)
			for i, x := range cl {
				ys[i] = f(x)
			}
			return byClose(ys)
		}
		base := byClose(cl)
		twice, moved, mirrored := tr(func(x float64) float64 { return 2 * x }), tr(func(x float64) float64 { return x + scale }), tr(func(x float64) float64 { return -x })
		for _, p := range periods {
			if p < 1 || p > n {
				continue
			}
			for _, a := range avgs {
				v, err := a.call(base, p)
				t.Evals++
				if err != nil {
					return nil // that is C16-C18's business
				}
				t.Outcomef("%v", v)
				for i, x := range v {
					if !(x >= lo-1e-9*scale && x <= hi+1e-9*scale) {
						return failf("%s average %d of %v with period %d is %v, outside of the closes", a.name, i, short(cl), p, x)
					}
				}
				for _, l := range []struct {
					name string
					cs   []market.Candle
					f    func(float64) float64
				}{
					{"doubled", twice, func(x float64) float64 { return 2 * x }},
					{"raised", moved, func(x float64) float64 { return x + scale }},
					{"negated", mirrored, func(x float64) float64 { return -x }},
				} {
					w, err := a.call(l.cs, p)
					t.Evals++
					if err != nil || len(w) != len(v) {
						return failf("%s average of %v with period %d has %d values, of the %s closes %d (%v)", a.name, short(cl), p, len(v), l.name, len(w), err)
					}
					for i := range v {
						if !near(w[i], l.f(v[i]), 4*scale) {
							return failf("%s average %d of %v with period %d is %v, of the %s closes %v", a.name, i, short(cl), p, v[i], l.name, w[i])
						}
					}
				}
			}
			if n < 14 || p >= n {
				continue
			}
			v, err := indicators.RSI(base, p)
			t.Evals++
			if err != nil {
				return nil
			}
			for k, cs := range [][]market.Candle{twice, mirrored} {
				w, err := indicators.RSI(cs, p)
				t.Evals++
				if err != nil || len(w) != len(v) {
					return failf("RSI of %v with period %d has %d values, of the transformed closes %d (%v)", short(cl), p, len(v), len(w), err)
				}
				for i := range v {
					want := float64(v[i])
					if k == 1 {
						want = 100 - want
					}
					if math.Abs(float64(w[i])-want) > 0.001 {
						return failf("RSI %d of %v with period %d is %v, of the %s closes %v", i, short(cl), p, v[i], []string{"doubled", "negated"}[k], w[i])
					}
				}
			}
		}
		t.Traces++
		return nil
	}
	sizes := make([]int, len(closeAlphabets))
	for i, a := range closeAlphabets {
		sizes[i] = len(a)
	}
	every := func(n int) []int {
		ps := make([]int, n)
		for i := range ps {
			ps[i] = i + 1
		}
		return ps
	}
	ml := pick(r, 7, 9)
	seriesTree(r, "series", sizes, 1, ml, func(t *T, alph int, l []int) error {
		return laws(t, spell(closeAlphabets[alph], l), every(len(l)))
	})
	seriesTree(r, "long series", []int{2}, 14, pick(r, 15, 18), func(t *T, alph int, l []int) error {
		return laws(t, spell(closeAlphabets[0], l), every(len(l)))
	})
	type structured struct{ Shape, N int }
	shapes := []func(i int) float64{
		func(i int) float64 { return 5 },
		func(i int) float64 { return float64(i) },
		func(i int) float64 { return 1000 - 3*float64(i) },
		func(i int) float64 { return float64((i * i) % 17) },
		func(i int) float64 { return 100 + 0.1*float64(i%2) },
		func(i int) float64 { return math.Pow(1.01, float64(i)) },
		func(i int) float64 { return 1e-7 * float64(1+i%5) },
		func(i int) float64 { return float64(i%23) * float64(1-2*(i%2)) },
	}
	maxN := pick(r, 80, 260)
	Enum(r, "structured", func(yield func(structured) bool) {
		for s := range shapes {
			for n := 1; n <= maxN; n++ {
				if !yield(structured{s, n}) {
					return
				}
			}
			for _, n := range []int{500, 1024} {
				if !yield(structured{s, n}) {
					return
				}
			}
		}
	}, func(t *T, c structured) error {
		cl := make([]float64, c.N)
		for i := range cl {
			cl[i] = shapes[c.Shape](i)
		}
		t.States++
		t.Transitions += int64(c.N)
		ps := every(c.N)
		if c.N > 300 {
			ps = []int{1, 2, 14, 50, 200, c.N / 2, c.N - 1, c.N}
		}
		return laws(t, cl, ps)
	})
	r.bound("laws: every series of up to %d closes over 7 alphabets and of 14..%d closes over 2 values, all periods, doubled, raised and negated; 8 structured series of every length up to %d", ml, pick(r, 15, 18), maxN)
}

// --- C36 --------------------------------------------------------------------

func codeIs(what string, err error, want string) error {
	if err == nil {
		return nil // whether it is refused is another property's business
	}
	if v := reflect.ValueOf(err); v.Kind() == reflect.Ptr && v.IsNil() {
		return failf("%s returned a nil error inside a non-nil interface", what)
	}
	if got := ez.ErrorCode(err); got != want {
		return failf("%s failed with code %q (%v), expected %q", what, got, err, want)
	}
	if err.Error() == "" || ez.ErrorMessage(err) == "" {
		return failf("%s failed without a message", what)
	}
	return nil
}

func checkC36(r *Run) {
	// a call that must succeed gives a nil error even when compared as an interface
	type bookCase struct{ Asks, Bids, Side, Price, Vol int }
	sides := append([]string{"ask", "bid"}, badSides...)
	prices := []float64{0, -1, 1, 2, 2.5, 3, 5, 7, 8, 9, 20, 1e9, -1e9, math.SmallestNonzeroFloat64}
	Enum(r, "books", func(yield func(bookCase) bool) {
		for a := 0; a < 4; a++ {
			for b := 0; b < 4; b++ {
				for s := range sides {
					for p := range prices {
						for v := 0; v < 3; v++ {
							if !yield(bookCase{a, b, s, p, v}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(t *T, c bookCase) error {
		var asks, bids []lvl
		for i := 0; i < c.Asks; i++ {
			asks = append(asks, lvl{7 + float64(i), 1})
		}
		for i := 0; i < c.Bids; i++ {
			bids = append(bids, lvl{5 - 2*float64(i), 1})
		}
		t.States++
		t.Traces++
		ob := market.NewOrderBook(rowsOf(asks), rowsOf(bids), 10)
		t.Transitions += 2
		t.Evals += 3
		p := prices[c.Price]
		_, err := ob.GetDepth(p)
		want := ez.ENOTFOUND
		if p <= 0 {
			want = ez.EINVALID
		}
		if e := codeIs(fmt.Sprintf("depth at %v of %s", p, showBook(&ob)), err, want); e != nil {
			return e
		}
		other := market.NewOrderBook(rowsOf([]lvl{{p + 1, 1}}), rowsOf([]lvl{{p, 1}}), 10)
		_, err = market.CalculateOverlap(ob, other)
		if e := codeIs(fmt.Sprintf("overlap of %s and %s", showBook(&ob), showBook(&other)), err, ez.ENOTFOUND); e != nil {
			return e
		}
		u := market.OrderBookUpdate{Side: sides[c.Side], Price: p, Volume: float64(c.Vol)}
		err = ob.ApplyUpdate(u)
		t.Outcomef("%v", err)
		return codeIs(fmt.Sprintf("update %+v", u), err, ez.EINVALID)
	})
	r.bound("errors: all combinations of 0..3 asks and bids, %d prices, %d sides, 3 volumes", len(prices), len(sides))

	type posCase struct {
		Set, Open, A, B int
	}
	s := &posSets[0]
	ops := s.ops()
	Enum(r, "positions", func(yield func(posCase) bool) {
		for o := 0; o < len(ops); o++ {
			if ops[o].kind != 0 {
				continue
			}
			for a := range ops {
				for b := range ops {
					if !yield(posCase{0, o, a, b}) {
						return
					}
				}
			}
		}
	}, func(t *T, c posCase) error {
		t.States++
		t.Traces++
		p, ref, _ := s.openPos(ops[c.Open])
		for k, o := range []int{c.A, c.B} {
			tr := s.trade(ref, ops[o], k+1)
			err := p.Modify(tr)
			s.apply(ref, ops[o], tr)
			t.Transitions++
			t.Evals++
			t.Outcomef("%v", err)
			if e := codeIs(fmt.Sprintf("trade %+v", *tr), err, ez.EINVALID); e != nil {
				return e
			}
		}
		return nil
	})
	r.bound("errors: every pair of %d trades on every opening of a position", len(ops))

	type reqCase struct{ Type, Action, Base, Q, P, T, Cur int }
	types := []market.OrderType{"", market.MarketOrder, market.LimitOrder, market.ClosePosition, market.StopLoss, market.TakeProfit, "odd"}
	actions := []market.ActionType{"", market.BuyAction, market.SellAction}
	nums := []float64{0, 1, -2, 1e308}
	Enum(r, "requests", func(yield func(reqCase) bool) {
		for a := range types {
			for b := range actions {
				for c := 0; c < 2; c++ {
					for q := range nums {
						for p := range nums {
							for tt := range nums {
								for cur := range nums {
									if !yield(reqCase{a, b, c, q, p, tt, cur}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}, func(t *T, c reqCase) error {
		t.States++
		t.Traces++
		t.Transitions += 2
		t.Evals += 2
		pair := market.Pair{}
		if c.Base > 0 {
			pair = posPair
		}
		q, err := market.NewOrderRequest(pair, actions[c.Action], types[c.Type], nums[c.Q], nums[c.P], nums[c.T])
		if err != nil && q != nil {
			return failf("refused request %+v was returned", q)
		}
		t.Outcomef("%v", err)
		if e := codeIs(fmt.Sprintf("request %+v", c), err, ez.EINVALID); e != nil {
			return e
		}
		o := market.OrderRequest{Type: types[c.Type], Action: actions[c.Action], Pair: pair, Quantity: nums[c.Q], Price: nums[c.P], Total: nums[c.T]}
		res, err := o.CalculateFields(nums[c.Cur])
		if err != nil && res != nil {
			return failf("refused resolution of %+v was returned: %+v", o, *res)
		}
		t.Outcomef("%v", err)
		return codeIs(fmt.Sprintf("resolving %+v at %v", o, nums[c.Cur]), err, ez.EINVALID)
	})
	r.bound("errors: all order requests of %d types, %d actions, with and without pair, %d^3 numbers and %d current prices", len(types), len(actions), len(nums), len(nums))

	type rs struct {
		D0, D1 int
		Start  int
		Iv     int
	}
	ds := []int64{0, 30, 60, 120, 300, 420, 3600, 86400}
	ivs := []int{-60, -1, 0, 1, 2, 3, 5, 7, 15, 30, 45, 60, 90, 120, 240, 1440, math.MinInt64, math.MaxInt64}
	Enum(r, "resampling", func(yield func(rs) bool) {
		for a := range ds {
			for b := range ds {
				for st := 0; st < 60; st++ {
					for iv := range ivs {
						if !yield(rs{a, b, st, iv}) {
							return
						}
					}
				}
			}
		}
	}, func(t *T, c rs) error {
		t.States++
		t.Traces++
		at := bases[0] + int64(c.Start)*60
		cs := []market.Candle{candleAt(0, 0, at), candleAt(0, 1, at+ds[c.D0]), candleAt(0, 2, at+ds[c.D0]+ds[c.D1])}
		t.Transitions++
		t.Evals++
		iv := ivs[c.Iv]
		out, err := market.ModifyInterval(cs, iv)
		if err != nil && len(out) > 0 {
			return failf("refused resampling to %d minutes returned %d candles", iv, len(out))
		}
		want := ez.ECONFLICT
		if d := ds[c.D0] / 60; iv <= 0 || d != 0 && int64(iv)%d == 0 {
			want = ez.EINVALID // the interval itself, or no aligned candle
		}
		if iv == 1 && ds[c.D0]/60 != 1 {
			want = ez.ECONFLICT
		}
		t.Outcomef("%v", err)
		return codeIs(fmt.Sprintf("resampling %s to %d minutes", showTimes(cs), iv), err, want)
	})
	r.bound("errors: resampling of three candles at %d x %d distances, every start minute, %d intervals", len(ds), len(ds), len(ivs))

	type ind struct{ N, P, Nil int }
	Enum(r, "indicators", func(yield func(ind) bool) {
		for n := 0; n <= 20; n++ {
			for p := -3; p <= n+3; p++ {
				for z := 0; z < 2; z++ {
					if !yield(ind{n, p, z}) {
						return
					}
				}
			}
			for _, p := range []int{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32} {
				if !yield(ind{n, p, 0}) {
					return
				}
			}
		}
	}, func(t *T, c ind) error {
		t.States++
		t.Traces++
		var cs []market.Candle
		if c.N > 0 || c.Nil == 0 {
			cl := make([]float64, c.N)
			for i := range cl {
				cl[i] = float64(i * i % 7)
			}
			cs = byClose(cl)
		}
		for _, a := range []avgSpec{avgMA, avgEMA, avgSMMA} {
			v, err := a.call(cs, c.P)
			t.Transitions++
			t.Evals++
			t.Outcomef("%v", err)
			if err != nil && len(v) > 0 {
				return failf("refused %s average returned %d values", a.name, len(v))
			}
			if e := codeIs(fmt.Sprintf("%s average of %d candles, period %d", a.name, c.N, c.P), err, ez.EINVALID); e != nil {
				return e
			}
		}
		v, err := indicators.RSI(cs, c.P)
		t.Transitions++
		t.Evals++
		t.Outcomef("%v", err)
		if err != nil && len(v) > 0 {
			return failf("refused RSI returned %d values", len(v))
		}
		return codeIs(fmt.Sprintf("RSI of %d candles, period %d", c.N, c.P), err, ez.EINVALID)
	})
	r.bound("errors: averages and RSI of 0..20 candles with every period from -3 to n+3 and the extremes")

	// lookups, assets and models
	type look struct {
		Kind int
		Text string
	}
	Enum(r, "lookups", func(yield func(look) bool) {
		for k := 0; k < 3; k++ {
			if !yield(look{k, ""}) {
				return
			}
			for _, n := range []int{1, 2, 3} {
				ok := true
				tuples(26, n, func(l []int) bool {
					b := make([]byte, n)
					for i, x := range l {
						b[i] = byte('A' + x)
					}
					ok = yield(look{k, string(b)}) && yield(look{k, string(b) + "?"})
					return ok
				})
				if !ok {
					return
				}
			}
		}
	}, func(t *T, c look) error {
		t.States++
		t.Traces++
		t.Transitions++
		t.Evals++
		f := []func(string) (market.Asset, error){market.NewCryptoAsset, market.NewForexAsset, market.NewStockAsset}[c.Kind]
		a, err := f(c.Text)
		if err != nil && a != (market.Asset{}) {
			return failf("refused symbol %q gave asset %+v", c.Text, a)
		}
		t.Outcomef("%v", err)
		if e := codeIs(fmt.Sprintf("symbol %q", c.Text), err, ez.ENOTFOUND); e != nil {
			return e
		}
		for _, x := range [][2]string{{c.Text, ""}, {"", c.Text}, {c.Text, c.Text}} {
			a, err := market.NewAsset(x[0], x[1])
			if err != nil && a != (market.Asset{}) {
				return failf("refused asset %q %q gave %+v", x[0], x[1], a)
			}
			if e := codeIs(fmt.Sprintf("asset %q", x), err, ez.EINVALID); e != nil {
				return e
			}
		}
		return nil
	})
	type upd struct{ A, B int }
	ms := []func() model{
		func() model { return &market.Order{} }, func() model { return &market.Trade{} },
		func() model { return &market.Position{} }, func() model { return &strategy.Annotation{} },
	}
	srcs := func() []any {
		return []any{&market.Order{}, &market.Trade{}, &market.Position{}, &strategy.Annotation{}, market.Order{}, market.Trade{}, market.Position{}, strategy.Annotation{},
			nil, (*market.Order)(nil), (*market.Trade)(nil), (*market.Position)(nil), (*strategy.Annotation)(nil), 1, "x", []int{}, &market.Pair{}, func() {}}
	}
	Enum(r, "models", func(yield func(upd) bool) {
		for a := range ms {
			for b := range srcs() {
				if !yield(upd{a, b}) {
					return
				}
			}
		}
	}, func(t *T, c upd) error {
		t.States++
		t.Traces++
		t.Transitions++
		t.Evals++
		err := ms[c.A]().Update(srcs()[c.B])
		t.Outcomef("%v", err)
		return codeIs(fmt.Sprintf("updating %T from %T", ms[c.A](), srcs()[c.B]), err, ez.EINVALID)
	})
	r.bound("errors: asset lookups of every text of up to 3 capital letters; model updates from %d sources", len(srcs()))

	// lines that are not candles
	dir, err := os.MkdirTemp("", "c36")
	must(err == nil, "%v", err)
	r.cleanups = append(r.cleanups, func() { os.RemoveAll(dir) })
	type line struct{ Text string }
	Enum(r, "files", func(yield func(line) bool) {
		for _, pre := range []string{"", "{1 2 3 4 5 6}\n"} {
			for _, l := range []string{"x", "{", "}", "{}", "1 2 3 4 5 6", "{1 2 3 4 5}", "{1 2 3 4 5 6 7}", "{1 2 3 4 5 6", "1 2 3 4 5 6}", "{ }", "[1 2 3 4 5 6]", "{1  2 3 4 5 6}", "{1 2 3 4 5 6} ", "", "{1,2,3,4,5,6}"} {
				for _, post := range []string{"\n", "", "\n{1 2 3 4 5 6}\n"} {
					if !yield(line{pre + l + post}) {
						return
					}
				}
			}
		}
	}, func(t *T, c line) error {
		t.States++
		t.Traces++
		t.Transitions++
		t.Evals++
		f, err := os.CreateTemp(dir, "l")
		must(err == nil, "%v", err)
		name := f.Name()
		f.WriteString(c.Text)
		f.Close()
		out, err := market.LoadCandlesFromFile(name)
		os.Remove(filepath.Clean(name))
		if err != nil && len(out) > 0 {
			return failf("loading %q failed but gave %d candles", c.Text, len(out))
		}
		t.Outcomef("%v", err)
		return codeIs(fmt.Sprintf("loading %q", c.Text), err, ez.EINVALID)
	})
	r.bound("errors: 90 files with a line that does not have the form of a candle")
}

// tuples enumerates every list of n letters.
func tuples(size, n int, yield func([]int) bool) {
	l := make([]int, n)
	for {
		if !yield(l) {
			return
		}
		i := n - 1
		for ; i >= 0; i-- {
			l[i]++
			if l[i] < size {
				break
			}
			l[i] = 0
		}
		if i < 0 {
			return
		}
	}
}
