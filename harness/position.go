package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/vanclief/finmod/market"
)

// ---------------------------------------------------------------------------
// Positions and trades: C07 - C09.
// ---------------------------------------------------------------------------

// posSet is an alphabet of trades. Quantities and prices are integer multiples of a unit, so
// that the reference can account exactly.
type posSet struct {
	name   string
	qs     []int64
	qUnit  func(int64) float64
	ps     []int64
	pUnit  func(int64) float64
	exact  bool // tolerance letters make sense at this scale
	mdepth [2]int
}

var posSets = []posSet{
	{"tenths", []int64{1, 2, 5}, div(10), []int64{1, 2, 10}, mul(1), true, [2]int{5, 6}},
	{"cents", []int64{10, 70, 333}, div(1000), []int64{3, 25000, 30001}, div(100), true, [2]int{5, 6}},
	{"zeros", []int64{0, 1, 3}, mul(1), []int64{0, 5, 7}, mul(1), true, [2]int{5, 6}},
	{"satoshi", []int64{1, 2, 5}, div(1e8), []int64{1, 3, 90000}, mul(1), false, [2]int{5, 6}},
	{"huge", []int64{1, 2, 5}, mul(1e6), []int64{1, 2, 7}, div(1e6), true, [2]int{5, 6}},
	{"mixed", []int64{1, 7, 10000}, div(10), []int64{1, 50000}, mul(1), true, [2]int{5, 6}},
	{"negative", []int64{1, 2}, mul(1), []int64{-37, 0, 20}, mul(1), true, [2]int{5, 6}},
	{"wei", []int64{1, 2, 1000003}, div(1e18), []int64{3, 500}, mul(1), false, [2]int{4, 5}},
	{"whale", []int64{1, 3, 40}, mul(25e8), []int64{1, 7, 90}, mul(1e5), true, [2]int{4, 5}},
	{"thirds", []int64{1, 2, 5}, div(3), []int64{1, 2, 8}, div(7), true, [2]int{4, 5}},
}

func mul(u float64) func(int64) float64 { return func(n int64) float64 { return float64(n) * u } }
func div(u float64) func(int64) float64 { return func(n int64) float64 { return float64(n) / u } }

var (
	posPair  = market.Pair{Base: market.Asset{Name: "Bitcoin", Symbol: "BTC", AltSymbol: "XBT"}, Quote: market.Asset{Name: "Dollar", Symbol: "USD"}}
	posPairs = []market.Pair{ // every way in which a pair can differ
		{Base: market.Asset{Name: "Ether", Symbol: "ETH"}, Quote: posPair.Quote},
		{Base: posPair.Base, Quote: market.Asset{Name: "Euro", Symbol: "EUR"}},
		{Base: posPair.Quote, Quote: posPair.Base},
		{},
		{Base: market.Asset{Name: "Bitcoin", Symbol: "BTC", AltSymbol: "BTC"}, Quote: posPair.Quote},
		{Base: market.Asset{Name: "Bitcoin Token", Symbol: "BTC", AltSymbol: "XBT"}, Quote: posPair.Quote},
		{Base: market.Asset{Name: "Bitcoin", Symbol: "BTCU", AltSymbol: "XBT"}, Quote: market.Asset{Name: "Dollar", Symbol: "SD"}},
		{Base: market.Asset{Name: "Bitcoin", Symbol: "btc", AltSymbol: "XBT"}, Quote: posPair.Quote},
	}
	posT0   = time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)
	posZone = time.FixedZone("E", 2*3600)
)

// posTime is the time of the trade at a step: trades are not always reported in time order, nor
// at whole seconds, nor in one zone.
func posTime(step int) time.Time {
	switch step % 6 {
	case 1:
		return posT0.Add(-time.Hour)
	case 3:
		return posT0
	case 4:
		return time.Time{}
	case 5:
		return posT0.Add(time.Duration(step) * time.Hour).In(posZone)
	}
	return posT0.Add(time.Duration(step)*time.Hour + 123456789)
}

// posRef is the exact reference of a position.
type posRef struct {
	long   bool
	qty    int64 // units
	cash   int64 // received minus paid, q-units times p-units
	flow   int64 // sum of |flows|, the rounding scale of money
	vol    int64 // sum of traded quantities, the rounding scale of the size
	open   bool
	ledger []string
	closeP int64
	closeT time.Time
	openP  int64
	frozen market.Position                  // the impl's field values that must not change
	dress  func(step int, tr *market.Trade) // fields of a trade that must not matter
}

type posOp struct {
	buy   bool
	q, p  int64
	kind  int // 0 ordinary, 1 just above remainder (accepted), 2 above tolerance, 3 other pair, 4 exactly the remainder, 5 repeated id, 6 unknown action
	other int
}

func (s *posSet) ops() []posOp {
	var out []posOp
	for _, buy := range []bool{true, false} {
		for _, q := range s.qs {
			for _, p := range s.ps {
				out = append(out, posOp{buy: buy, q: q, p: p})
			}
		}
		p := s.ps[len(s.ps)-1]
		if s.exact {
			out = append(out, posOp{buy: buy, p: p, kind: 1}, posOp{buy: buy, p: p, kind: 2})
		}
		out = append(out, posOp{buy: buy, p: s.ps[0], kind: 4})
		out = append(out, posOp{buy: buy, q: s.qs[1], p: s.ps[1], kind: 5})
		for i := range posPairs {
			out = append(out, posOp{buy: buy, q: s.qs[1], p: p, kind: 3, other: i})
		}
	}
	return append(out, posOp{q: s.qs[1], p: s.ps[0], kind: 6})
}

func act(buy bool) market.ActionType {
	if buy {
		return market.BuyAction
	}
	return market.SellAction
}

// trade materialises an operation against the current reference.
func (s *posSet) trade(ref *posRef, op posOp, step int) *market.Trade {
	t := &market.Trade{
		ID: fmt.Sprintf("t%d", step), ExecutionTime: posTime(step),
		Action: act(op.buy), OrderType: market.LimitOrder, Pair: posPair,
		Price: s.pUnit(op.p), Quantity: s.qUnit(op.q), Fee: 1.5, Cost: 7, ExecutionID: "exec",
	}
	switch op.kind {
	case 1:
		t.Quantity = s.qUnit(ref.qty) + 0.00005
	case 2:
		t.Quantity = s.qUnit(ref.qty) + 0.0002
	case 3:
		t.Pair = posPairs[op.other]
	case 4:
		t.Quantity = s.qUnit(ref.qty)
	case 5:
		t.ID = "t0"
	case 6:
		t.Action = "hold"
	}
	if ref.dress != nil {
		ref.dress(step, t)
	}
	return t
}

// apply updates the reference; ok tells whether the trade must be accepted, judged whether the
// property says anything about this trade.
func (s *posSet) apply(ref *posRef, op posOp, tr *market.Trade) (ok, judged bool) {
	if op.kind == 6 {
		return false, false
	}
	if !ref.open || op.kind == 3 {
		return false, true
	}
	q := op.q
	if op.kind == 1 || op.kind == 2 || op.kind == 4 {
		q = ref.qty
	}
	if op.buy == ref.long { // adds
		if op.kind == 1 || op.kind == 2 {
			return true, false // not a quantity the exact reference can follow
		}
		ref.qty += q
		s.flowOf(ref, op.buy, q, op.p)
		ref.ledger = append(ref.ledger[:len(ref.ledger):len(ref.ledger)], tr.ID)
		return true, true
	}
	if op.kind == 2 {
		return false, true
	}
	over := s.qUnit(q) - s.qUnit(ref.qty)
	if q > ref.qty && over > 0.0001 {
		return false, true
	}
	if q >= ref.qty {
		q = ref.qty
		s.flowOf(ref, op.buy, q, op.p)
		ref.open = false
		ref.closeP, ref.closeT = op.p, tr.ExecutionTime
	} else {
		s.flowOf(ref, op.buy, q, op.p)
		ref.qty -= q
	}
	ref.ledger = append(ref.ledger[:len(ref.ledger):len(ref.ledger)], tr.ID)
	return true, true
}

func (s *posSet) flowOf(ref *posRef, buy bool, q, p int64) {
	f := q * p
	ref.vol += q
	if f < 0 {
		ref.flow -= f
	} else {
		ref.flow += f
	}
	if buy {
		f = -f
	}
	ref.cash += f
}

// money converts an exact product of units.
func (s *posSet) money(x int64) float64 { return float64(x) * s.qUnit(1) * s.pUnit(1) }

func (s *posSet) openPos(op posOp) (*market.Position, *posRef, *market.Trade) {
	ref := &posRef{long: op.buy, qty: op.q, open: true, ledger: []string{"t0"}, openP: op.p}
	s.flowOf(ref, op.buy, op.q, op.p)
	tr := s.trade(ref, op, 0)
	p := market.NewPosition(tr)
	return p, ref, tr
}

func decorate(p *market.Position) {
	p.TakeProfit = market.PositionCloseOrder{Price: 11, OrderID: "tp"}
	p.StopLoss = market.PositionCloseOrder{Price: 3, OrderID: "sl"}
	p.ExecutionID, p.Data = "exec-1", "{}"
}

func judgeC07(s *posSet, p *market.Position, ref *posRef) error {
	scale := s.money(ref.flow)
	if ref.open {
		before := deep(nil, p, nil)
		for _, x := range []int64{0, 1, 13, 100000} {
			want := ref.cash
			if ref.long {
				want += ref.qty * x
			} else {
				want -= ref.qty * x
			}
			got := p.UnrealizedProfit(s.pUnit(x))
			if !near(got, s.money(want), scale+s.money(ref.qty*x)) {
				return failf("unrealized profit at %v is %v, net cash flow says %v: %s", s.pUnit(x), got, s.money(want), p)
			}
		}
		if string(before) != string(deep(nil, p, nil)) {
			return failf("asking for the unrealized profit changed the position: %s", p)
		}
		return nil
	}
	if !near(p.Profit, s.money(ref.cash), scale) {
		return failf("profit of the closed position is %v, net cash flow says %v: %s", p.Profit, s.money(ref.cash), p)
	}
	return nil
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// judgeC08 compares size, state, ledger and untouched fields.
func judgeC08(s *posSet, p *market.Position, ref *posRef) error {
	f := ref.frozen
	wantType := market.ShortPosition
	if ref.long {
		wantType = market.LongPosition
	}
	if p.Type != wantType {
		return failf("type is %q, expected %q", p.Type, wantType)
	}
	if p.Open != ref.open {
		return failf("open is %v, expected %v (remaining %v): %s", p.Open, ref.open, s.qUnit(ref.qty), p)
	}
	if !near(p.Quantity, s.qUnit(ref.qty), s.qUnit(ref.vol)) {
		return failf("quantity is %v, expected %v", p.Quantity, s.qUnit(ref.qty))
	}
	if !sameStrs(p.Trades, ref.ledger) {
		return failf("ledger is %v, expected %v", p.Trades, ref.ledger)
	}
	if !ref.open {
		if p.ClosePrice != s.pUnit(ref.closeP) || p.CloseTime != ref.closeT {
			return failf("closed at %v %v, expected %v %v", p.ClosePrice, p.CloseTime, s.pUnit(ref.closeP), ref.closeT)
		}
	} else if p.ClosePrice != f.ClosePrice || p.CloseTime != f.CloseTime || p.Profit != f.Profit {
		return failf("closing fields of an open position were set: %s", p)
	}
	if p.ID != f.ID || p.Pair != f.Pair || p.TakeProfit != f.TakeProfit || p.StopLoss != f.StopLoss || p.OpenTime != f.OpenTime || p.ExecutionID != f.ExecutionID || p.Data != f.Data {
		return failf("unrelated fields changed: %+v, were %+v", *p, f)
	}
	return nil
}

// posStep applies one trade to implementation and reference and judges it. stop tells that the
// history should not be followed further (outside this property's domain).
func posStep(t *T, prop string, s *posSet, p *market.Position, ref *posRef, op posOp, step int, judge bool) (stop bool, err error) {
	tr := s.trade(ref, op, step)
	var before, trBefore []byte
	if judge {
		before, trBefore = deep(nil, p, nil), deep(nil, tr, nil)
	}
	wasOpen, openPrice := p.Open, p.OpenPrice
	e := p.Modify(tr)
	ok, judged := s.apply(ref, op, tr)
	if op.kind == 6 {
		if judge && prop == "C08" && string(before) != string(deep(nil, p, nil)) {
			return true, failf("trade %d with unknown action changed the position: %s", step, p)
		}
		return true, nil
	}
	if !judged {
		return true, nil
	}
	if !judge {
		return false, nil
	}
	t.Evals++
	if prop == "C07" {
		if ok != (e == nil) || p.Open != ref.open {
			return true, nil // C08's business
		}
		if err := judgeC07(s, p, ref); err != nil {
			return true, fmt.Errorf("after trade %d %+v: %w", step, *tr, err)
		}
		return false, nil
	}
	if ok != (e == nil) {
		return true, failf("trade %d %+v on %s: error %v, expected acceptance %v", step, *tr, p, e, ok)
	}
	if !ok && string(before) != string(deep(nil, p, nil)) {
		return true, failf("rejected trade %d %+v changed the position to %+v", step, *tr, *p)
	}
	if string(trBefore) != string(deep(nil, tr, nil)) {
		return true, failf("the trade passed in was changed to %+v", *tr)
	}
	if err := judgeC08(s, p, ref); err != nil {
		return true, fmt.Errorf("after trade %d %+v: %w", step, *tr, err)
	}
	if wasOpen && !p.Open && p.OpenPrice != openPrice {
		return true, failf("closing changed the open price from %v to %v", openPrice, p.OpenPrice)
	}
	return false, nil
}

func posInit(prop string, s *posSet, op posOp) (*market.Position, *posRef, error) {
	return posInitPlain(prop, s, op, false)
}

func posInitPlain(prop string, s *posSet, op posOp, plain bool) (*market.Position, *posRef, error) {
	p, ref, tr := s.openPos(op)
	if prop == "C08" {
		if p.ID == "" || p.Pair != tr.Pair || p.OpenPrice != tr.Price || p.OpenTime != tr.ExecutionTime {
			return nil, nil, failf("new position %+v does not carry the data of its trade %+v", *p, *tr)
		}
		z := *p
		z.ID, z.Type, z.Pair, z.Open, z.OpenPrice, z.Quantity, z.OpenTime, z.Trades = "", "", market.Pair{}, false, 0, 0, time.Time{}, nil
		if !same(z, market.Position{}) {
			return nil, nil, failf("new position has unexpected fields set: %+v", *p)
		}
	}
	if !plain {
		decorate(p)
	}
	ref.frozen = *p
	if prop == "C07" {
		return p, ref, judgeC07(s, p, ref)
	}
	return p, ref, judgeC08(s, p, ref)
}

func posCheck(r *Run, prop string) {
	// 1. histories over small alphabets; states merge when position and account agree
	for i := range posSets {
		s := &posSets[i]
		ops := s.ops()
		var opens []posOp
		for _, o := range ops {
			if o.kind == 0 && o.q != 0 {
				opens = append(opens, o)
			}
		}
		BFS(r, "histories/"+s.name, bfsSpec{Inits: len(opens), Ops: len(ops), MaxDepth: pick(r, s.mdepth[0], s.mdepth[1]), MaxState: 6000000, Run: func(t *T, h Hist, from int) ([]byte, error) {
			p, ref, err := posInit(prop, s, opens[h.Init])
			if err != nil {
				return nil, err
			}
			for k, o := range h.Ops {
				stop, err := posStep(t, prop, s, p, ref, ops[o], k+1, k >= from)
				if err != nil {
					return nil, err
				}
				if stop && k == len(h.Ops)-1 {
					return nil, nil
				}
			}
			key := deep(nil, []any{p.Type, p.Open, p.OpenPrice, p.Quantity, p.Profit, len(p.Trades), cap(p.Trades), ref.qty, ref.cash, hidden(p)}, nil)
			t.Outcome(key)
			return key, nil
		}})
	}
	r.bound("positions: every history of up to %d-%d trades (depth per alphabet) over 10 alphabets of buy/sell x quantities x prices incl. exact-remainder, within- and beyond-tolerance, foreign-pair, repeated-id and post-close trades", pick(r, 5, 7), pick(r, 6, 8))

	// positions without stop loss, take profit, execution id or data
	for i := range posSets {
		s := &posSets[i]
		ops := s.ops()
		type plain struct {
			Open int
			Ops  []int
		}
		Enum(r, "plain/"+s.name, func(yield func(plain) bool) {
			for o := range ops {
				if ops[o].kind != 0 || ops[o].q == 0 {
					continue
				}
				ok := true
				lists(len(ops), 2, func(l []int) bool {
					ok = yield(plain{o, l})
					return ok
				})
				if !ok {
					return
				}
			}
		}, func(t *T, c plain) error {
			p, ref, err := posInitPlain(prop, s, ops[c.Open], true)
			if err != nil {
				return err
			}
			t.States++
			t.Traces++
			for k, o := range c.Ops {
				t.Transitions++
				stop, err := posStep(t, prop, s, p, ref, ops[o], k+1, k == len(c.Ops)-1)
				if stop || err != nil {
					return err
				}
			}
			return nil
		})
	}
	// what else a trade carries does not matter
	type dressed struct {
		Set, Open, Type, Money, Which int
		Ops                           []int
		Plain                         bool
	}
	types := []market.OrderType{"", market.MarketOrder, market.ClosePosition, market.LimitOrder, market.TakeProfit, market.StopLoss}
	moneys := []struct {
		fee, cost float64
		exec, id  string
	}{{0, 0, "", ""}, {1.5, 7, "exec", "tp"}, {-0.25, -3, "exec-1", "sl"}, {1e6, 1e9, "given", "0123456789abcdefghij"}, {0, 20, "exec-1", "ü \n"}, {0.75, 4, "exec-1", "exec-1"}}
	Enum(r, "trade fields", func(yield func(dressed) bool) {
		for i := range posSets {
			ops := posSets[i].ops()
			for o := range ops {
				if ops[o].kind != 0 || ops[o].q == 0 || ops[o].p != posSets[i].ps[1] {
					continue
				}
				ok := true
				lists(len(ops), 2, func(l []int) bool {
					if len(l) == 2 && (ops[l[0]].kind != 0 || ops[l[0]].p != posSets[i].ps[0]) {
						return true
					}
					for ty := range types {
						for m := range moneys {
							for w := 0; w < 2; w++ {
								if ok = yield(dressed{i, o, ty, m, w, l, (ty+m)%2 == 0}); !ok {
									return false
								}
							}
						}
					}
					return true
				})
				if !ok {
					return
				}
			}
		}
	}, func(t *T, c dressed) error {
		s := &posSets[c.Set]
		ops := s.ops()
		p, ref, err := posInitPlain(prop, s, ops[c.Open], c.Plain)
		if err != nil {
			return err
		}
		ref.dress = func(step int, tr *market.Trade) {
			if c.Which == 0 || step == len(c.Ops) { // all of them, or the last one only
				m := moneys[c.Money]
				tr.OrderType, tr.Fee, tr.Cost, tr.ExecutionID, tr.ID = types[c.Type], m.fee, m.cost, m.exec, m.id
			}
		}
		t.States++
		t.Traces++
		for k, o := range c.Ops {
			t.Transitions++
			stop, err := posStep(t, prop, s, p, ref, ops[o], k+1, k == len(c.Ops)-1)
			if stop || err != nil {
				return err
			}
		}
		return nil
	})
	r.bound("positions: every history of up to two trades (the first at one price) of %d order types x %d sets of fee, cost, ids, in one trade or all of them, per alphabet", len(types), len(moneys))
	// positions that were not opened here: built by hand or restored, in any state
	type given struct {
		Set, Ledger, Op int
		Long, Open      bool
		Q, P            int64
	}
	if prop == "C08" {
		Enum(r, "given", func(yield func(given) bool) {
			for i := range posSets {
				s := &posSets[i]
				for op := range s.ops() {
					for led := 0; led < 4; led++ {
						for _, q := range append([]int64{0}, s.qs...) {
							for _, p := range s.ps {
								for b := 0; b < 4; b++ {
									if q == 0 && b&1 == 0 {
										continue // an open position has a size
									}
									if !yield(given{i, led, op, b&2 != 0, b&1 == 0, q, p}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, func(t *T, c given) error {
			s := &posSets[c.Set]
			ref := &posRef{long: c.Long, qty: c.Q, vol: c.Q, open: c.Open, openP: c.P}
			p := &market.Position{ID: "given", Type: market.ShortPosition, Pair: posPair, Open: c.Open, OpenPrice: s.pUnit(c.P), Quantity: s.qUnit(c.Q), OpenTime: posT0}
			if c.Long {
				p.Type = market.LongPosition
			}
			for i := 1; i < c.Ledger; i++ {
				ref.ledger = append(ref.ledger, fmt.Sprintf("t%d", i-1))
			}
			if c.Ledger > 0 {
				p.Trades = append([]string{}, ref.ledger...)
			}
			if !c.Open {
				p.ClosePrice, p.CloseTime = s.pUnit(c.P), posT0
				ref.closeP, ref.closeT = c.P, posT0
			}
			ref.frozen = *p
			if (c.Op+c.Ledger)%2 == 0 {
				ref.dress = func(_ int, tr *market.Trade) { tr.ID = p.ID }
			}
			t.States++
			t.Traces++
			t.Transitions++
			_, err := posStep(t, prop, s, p, ref, s.ops()[c.Op], 7, true)
			return err
		})
		r.bound("positions: every trade on every given position, open or closed, with ledgers of 0..2 trades (or none), per alphabet")
	}

	// 2. long histories
	type long struct {
		Set, Pattern, Len int
		Buy               bool
	}
	maxLen := pick(r, 120, 400)
	longer := []int{151, 257, 400, 601, 1001, 1025, pick(r, 2003, 5003)}
	Enum(r, "long", func(yield func(long) bool) {
		for i := range posSets {
			for pat := 0; pat < 6; pat++ {
				for _, b := range []bool{true, false} {
					for n := 1; n <= maxLen; n++ {
						if !yield(long{i, pat, n, b}) {
							return
						}
					}
					for _, n := range longer {
						if n > maxLen && !yield(long{i, pat, n, b}) {
							return
						}
					}
				}
			}
		}
	}, func(t *T, c long) error {
		s := &posSets[c.Set]
		q := func(i int) int64 { return s.qs[1+i%(len(s.qs)-1)] }
		p, ref, err := posInit(prop, s, posOp{buy: c.Buy, q: q(0), p: s.ps[0]})
		if err != nil {
			return err
		}
		t.States++
		t.Traces++
		for i := 1; i <= c.Len; i++ {
			op := posOp{buy: c.Buy, q: q(i), p: s.ps[i%len(s.ps)]}
			switch c.Pattern {
			case 1: // add, reduce, add, ...
				op.buy = c.Buy == (i%2 == 1)
				op.q = s.qs[len(s.qs)-1-i%2]
			case 2: // two adds, one reduction
				op.buy = c.Buy == (i%3 != 0)
				op.q = s.qs[1]
			case 3: // grow then shrink
				op.buy = c.Buy == (i <= c.Len/2)
				op.q = s.qs[1]
			case 4: // grow in the largest, shrink in the smallest quantity
				op.buy = c.Buy == (i <= c.Len/4)
				op.q = s.qs[1]
				if i <= c.Len/4 {
					op.q = s.qs[len(s.qs)-1]
				}
			case 5:
				op.p = s.ps[0] + int64(i)
				op.buy = c.Buy == (i%5 != 4)
			}
			t.Transitions++
			if i == c.Len {
				op.kind = 4
				op.buy = !c.Buy
			}
			stop, err := posStep(t, prop, s, p, ref, op, i, c.Len <= maxLen || i%37 == 0 || i > c.Len-3)
			if err != nil {
				return err
			}
			if stop {
				break
			}
		}
		return nil
	})
	r.bound("positions: 6 structured histories of every length up to %d trades, and of %v, per alphabet and side", maxLen, longer)

	// 3. copies that go on separately
	type fork struct {
		Set, Open, How int
		Pre, One, Two  []int
	}
	s := posSets[0]
	fops := []posOp{{buy: true, q: 1, p: 2}, {buy: false, q: 1, p: 10}, {buy: true, q: 5, p: 1}, {buy: false, q: 5, p: 1}}
	pre, suf := pick(r, 4, 5), 2
	Enum(r, "copies", func(yield func(fork) bool) {
		for open := 0; open < 4; open++ {
			for how := 0; how < 4; how++ {
				ok := true
				lists(len(fops), pre, func(a []int) bool {
					lists(len(fops), suf, func(b []int) bool {
						lists(len(fops), suf, func(c []int) bool {
							if len(b) > 0 && len(c) > 0 {
								ok = yield(fork{0, open, how, a, b, c})
							}
							return ok
						})
						return ok
					})
					return ok
				})
				if !ok {
					return
				}
			}
		}
	}, func(t *T, c fork) error {
		p, ref, err := posInit(prop, &s, fops[c.Open])
		if err != nil {
			return err
		}
		t.States++
		t.Traces++
		if c.How >= 2 { // a ledger slice with room to grow
			p.Trades = append(make([]string, 0, 8), p.Trades...)
		}
		step := 1
		for _, o := range c.Pre {
			if _, err := posStep(t, prop, &s, p, ref, fops[o], step, false); err != nil {
				return err
			}
			t.Transitions++
			step++
		}
		var q *market.Position
		if c.How%2 == 0 {
			cp := *p
			q = &cp
		} else {
			q = &market.Position{}
			if err := q.Update(p); err != nil {
				return nil
			}
		}
		r2 := *ref
		ref2 := &r2
		for i := 0; i < suf; i++ {
			for side, l := range [][]int{c.One, c.Two} {
				if i >= len(l) {
					continue
				}
				pp, rr := p, ref
				if side == 1 {
					pp, rr = q, ref2
				}
				t.Transitions++
				if _, err := posStep(t, prop, &s, pp, rr, fops[l[i]], 100*(side+1)+i, true); err != nil {
					return err
				}
				// the other one must not notice
				judge := judgeC08
				if prop == "C07" {
					judge = judgeC07
				}
				if err := judge(&s, p, ref); err != nil {
					return fmt.Errorf("original, after trades on both: %w", err)
				}
				if err := judge(&s, q, ref2); err != nil {
					return fmt.Errorf("copy, after trades on both: %w", err)
				}
			}
		}
		return nil
	})
	r.bound("positions: every prefix of up to %d trades, copied (by value / by Update, tight or roomy ledger), then every pair of continuations of up to %d trades interleaved", pre, suf)
}

func init() {
	checks["C07"] = func(r *Run) { posCheck(r, "C07") }
	checks["C08"] = func(r *Run) { posCheck(r, "C08") }

	checks["C09"] = func(r *Run) {
		vals := []float64{0, 1, 2, 0.1, 0.3, 0.003, 1e-8, 123456.789, 98765.4321, 7e9}
		if r.thorough() {
			vals = append(vals, 3, 33.33, 1e-12, 5e-5, 250000, 1e12)
		}
		fees := []float64{0, 0.5, -0.5, 0.001, 1e-6, 12.345678, 5000}
		// whole and broken seconds, other zones, a clock reading, no time at all
		times := []time.Time{posT0, posT0.Add(123456789).In(time.FixedZone("X", 5*3600)), posT0.In(time.Local), time.Now(), {}}
		type tc struct {
			P, Q, C    float64
			Buy        bool
			Type, Pair int
			ID         int
			Time       int
		}
		types := []market.OrderType{market.MarketOrder, market.LimitOrder, market.TakeProfit, market.StopLoss, market.ClosePosition, ""}
		ids := []string{"", "abc", strings.Repeat("0123456789", 30)}
		pairs := append([]market.Pair{posPair}, posPairs...)
		Enum(r, "trades", func(yield func(tc) bool) {
			for _, p := range vals {
				for _, q := range vals {
					costs := append([]float64{}, vals...)
					for _, f := range fees {
						costs = append(costs, p*q+f)
					}
					for ci, c := range costs {
						for _, b := range []bool{true, false} {
							for ty := range types {
								for pr := range pairs {
									if !yield(tc{p, q, c, b, ty, pr, (ci + ty) % 3, (ci + ty + pr) % len(times)}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, func(t *T, c tc) error {
			at := times[c.Time]
			pair := pairs[c.Pair]
			tr := market.NewTrade(ids[c.ID], at, act(c.Buy), types[c.Type], pair, c.P, c.Q, c.C)
			again := market.NewTrade(ids[c.ID], at, act(c.Buy), types[c.Type], pair, c.P, c.Q, c.C)
			t.States++
			t.Transitions += 2
			if !same(tr, again) {
				return failf("the same trade created twice differs: %+v and %+v", *tr, *again)
			}
			t.Traces++
			want := market.Trade{ID: ids[c.ID], ExecutionTime: at, Action: act(c.Buy), OrderType: types[c.Type], Pair: pair, Price: c.P, Quantity: c.Q, Cost: c.C, Fee: tr.Fee}
			if !same(*tr, want) || tr.ExecutionTime != at {
				return failf("trade is %+v, expected %+v", *tr, want)
			}
			rhs := c.P*c.Q + tr.Fee
			if !c.Buy {
				rhs = c.P*c.Q - tr.Fee
			}
			t.Evals++
			if !near(c.C, rhs, math.Abs(c.C)+math.Abs(c.P*c.Q)) {
				return failf("cost %v does not equal price x quantity +/- fee = %v for %+v", c.C, rhs, *tr)
			}
			t.Outcomef("%v", tr.Fee)
			return nil
		})
		r.bound("trades: %d prices x %d quantities x %d costs x both actions x %d order types x %d pairs", len(vals), len(vals), len(vals)+len(fees), len(types), len(pairs))
		// histories of several trades: one trade must not depend on another
		type seq struct {
			A, B, C int
		}
		letters := []tc{{P: 1, Q: 2, C: 2.5, Buy: true}, {P: 1, Q: 2, C: 1.5}, {P: 10, Q: 0.1, C: 1, Buy: true}, {P: 3, Q: 7, C: 20, Buy: false}}
		Enum(r, "sequences", func(yield func(seq) bool) {
			for a := range letters {
				for b := range letters {
					for c := range letters {
						if !yield(seq{a, b, c}) {
							return
						}
					}
				}
			}
		}, func(t *T, c seq) error {
			var trs []*market.Trade
			var snaps [][]byte
			t.States++
			t.Traces++
			for i, l := range []tc{letters[c.A], letters[c.B], letters[c.C]} {
				tr := market.NewTrade(fmt.Sprint(i), posT0, act(l.Buy), market.LimitOrder, posPair, l.P, l.Q, l.C)
				t.Transitions++
				fee := l.C - l.P*l.Q
				if !l.Buy {
					fee = -fee
				}
				if !near(tr.Fee, fee, 1) {
					return failf("trade %d of a sequence has fee %v, expected %v", i, tr.Fee, fee)
				}
				trs = append(trs, tr)
				snaps = append(snaps, deep(nil, tr, nil))
				for j := range trs {
					if string(deep(nil, trs[j], nil)) != string(snaps[j]) {
						return failf("creating trade %d changed trade %d", i, j)
					}
				}
			}
			return nil
		})
	}

	checks["C10"] = func(r *Run) {
		types := []market.OrderType{market.MarketOrder, market.ClosePosition, market.LimitOrder, market.TakeProfit, market.StopLoss, "", "other"}
		acts := []market.ActionType{market.BuyAction, market.SellAction, "", "hold"}
		pairs := []market.Pair{posPair, {}, {Base: market.Asset{Symbol: "X"}}, {Base: posPair.Base, Quote: posPair.Base}, {Base: market.Asset{Name: "only name", AltSymbol: "A"}, Quote: posPair.Quote}}
		nums := []float64{0, 1, 0.25, 3, 1e-13, 1e9, -2, 4e17}
		if r.thorough() {
			nums = append(nums, 0.1, 7, 1e-4, 12345.678, 1e15, -0.3)
		}
		type rc struct {
			Type, Act, Pair int
			Q, P, T         float64
		}
		Enum(r, "requests", func(yield func(rc) bool) {
			for ty := range types {
				for a := range acts {
					for p := range pairs {
						for _, q := range nums {
							for _, pr := range nums {
								for _, to := range nums {
									if !yield(rc{ty, a, p, q, pr, to}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, func(t *T, c rc) error {
			pair := pairs[c.Pair]
			req, err := market.NewOrderRequest(pair, acts[c.Act], types[c.Type], c.Q, c.P, c.T)
			t.States++
			t.Transitions++
			t.Traces++
			bad := pair.Base.Symbol == "" || acts[c.Act] == "" || types[c.Type] == "" || (types[c.Type] == market.LimitOrder && c.P == 0) || (c.Q == 0 && c.T == 0)
			if bad != (err != nil) {
				return failf("request %+v: error %v, expected refusal %v", c, err, bad)
			}
			if bad {
				if req != nil {
					return failf("refused request %+v returned a value", c)
				}
				return nil
			}
			want := market.OrderRequest{Action: acts[c.Act], Type: types[c.Type], Pair: pair, Price: c.P, Quantity: c.Q, Total: c.T}
			if req == nil || !same(*req, want) {
				return failf("request is %+v, expected %+v", req, want)
			}
			return nil
		})
		type cc struct {
			Type, Act, Extra int
			Q, P, T, Cur     float64
		}
		Enum(r, "resolve", func(yield func(cc) bool) {
			for ty := range types {
				for a := range acts {
					for ex := 0; ex < 4; ex++ {
						for _, q := range nums {
							for _, pr := range nums {
								for _, to := range nums {
									for _, cur := range nums {
										if !yield(cc{ty, a, ex, q, pr, to, cur}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}, func(t *T, c cc) error {
			req := market.OrderRequest{Action: acts[c.Act], Type: types[c.Type], Pair: posPair, Price: c.P, Quantity: c.Q, Total: c.T}
			if c.Extra > 0 {
				req.TakeProfit, req.StopLoss = 5, 0.5
			}
			if c.Extra > 2 {
				req.TakeProfit, req.StopLoss = 2, 30
			}
			if c.Extra == 2 {
				req.Pair = market.Pair{}
			}
			orig := req
			got, err := req.CalculateFields(c.Cur)
			again, err2 := req.CalculateFields(c.Cur)
			t.States++
			t.Transitions += 2
			if (err == nil) != (err2 == nil) || err == nil && (!same(got, again) || got == again) {
				return failf("resolving %+v twice at %v gave %+v (%v) and %+v (%v)", req, c.Cur, got, err, again, err2)
			}
			t.Traces++
			t.Evals++
			if !same(req, orig) {
				return failf("resolving changed the request to %+v, was %+v", req, orig)
			}
			price := c.P
			if types[c.Type] == market.MarketOrder || types[c.Type] == market.ClosePosition {
				price = c.Cur
			}
			bad := (c.Q == 0) == (c.T == 0) || (c.Q == 0 && price == 0)
			if bad != (err != nil) {
				return failf("resolving %+v at %v: error %v, expected failure %v", orig, c.Cur, err, bad)
			}
			if bad {
				return nil
			}
			if got == nil {
				return failf("resolving %+v gave nothing", orig)
			}
			if got == &req {
				return failf("resolving returned the request itself")
			}
			want := orig
			if c.Q != 0 {
				want.Total = c.Q * price
			} else {
				want.Quantity = c.T / price
			}
			g, w := *got, want
			if !near(g.Total, w.Total, 0) || !near(g.Quantity, w.Quantity, 0) || !near(g.Total, g.Quantity*price, 0) {
				return failf("resolving %+v at %v gave %+v, expected %+v", orig, c.Cur, g, w)
			}
			g.Total, g.Quantity, w.Total, w.Quantity = 0, 0, 0, 0
			if !same(g, w) {
				return failf("resolving %+v at %v changed other fields: %+v", orig, c.Cur, g)
			}
			t.Outcomef("%v %v", got.Total, got.Quantity)
			return nil
		})
		r.bound("order requests: all combinations of %d types x %d actions x %d pairs x %d^3 quantities, prices, totals; resolution with %d current prices", len(types), len(acts), len(pairs), len(nums), len(nums))
	}
}
