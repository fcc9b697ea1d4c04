package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/utils"
)

// ---------------------------------------------------------------------------
// C28: concurrent independent callers.
//
// The library's statements are instrumented (in a build overlay, the working tree is not
// touched) with a call to a scheduler before each of them. Two or three callers then run one at a
// time, and every schedule with a bounded number of preemptions between statements is executed.
// What such a cooperative schedule cannot see, races inside a statement, is looked for by running
// the same callers freely in a binary built with the race detector.
// ---------------------------------------------------------------------------

// hookY is called before every instrumented statement; set by the build with the overlay.
var setHook = func(func(), func() bool) bool { return false }
var hookHasGo = false

// concBody is one caller. me selects its own input data, so that two callers of the same body
// work on different data.
type concBody struct {
	name string
	run  func(me int) (res []byte, ids []string)
}

// data all callers share and none modifies
var concShared struct {
	candles []market.Candle
	book    market.OrderBook
	other   market.OrderBook
	pos     *market.Position
	trade   *market.Trade
	rows    []market.OrderBookRow
	acts    []strategy.CreateOrderAction
	notes   []strategy.Annotation
	order   *market.Order
	file    string
	dir     string
}

func concSharedDump() []byte {
	s := &concShared
	b := deep(nil, s.candles[:cap(s.candles)], nil)
	b = deep(b, s.book, nil)
	b = deep(b, s.other, nil)
	b = deep(b, s.pos, nil)
	b = deep(b, s.trade, nil)
	b = deep(b, s.rows[:cap(s.rows)], nil)
	b = deep(b, s.acts, nil)
	b = deep(b, s.notes[:cap(s.notes)], nil)
	b = deep(b, s.order, nil)
	return b
}

func concCandles(me, n int) []market.Candle {
	out := make([]market.Candle, 0, n+4)
	px := []float64{10, 12, 11, 15, 9, 14, 13, 8, 16, 7, 18, 12}
	for i := 0; i < n; i++ {
		p := px[(i*(me+1)+me)%len(px)] + float64(me)
		out = append(out, market.Candle{Time: 1600000200 + int64(i*60), Open: p, High: p + 1 + float64(i%2), Low: p - 1 - float64(i%3), Close: p + 0.5, Volume: float64(i + 1 + me)})
	}
	return out
}

// concSetup makes the shared data; cold: without calling the library.
func concSetup(dir string, cold bool) {
	s := &concShared
	s.dir = dir
	s.candles = concCandles(5, 7)
	sc := bookScales[0]
	row := func(ps ...int) (rs []market.OrderBookRow) {
		for i, p := range ps {
			rs = append(rs, market.OrderBookRow{Price: sc.price(p), Volume: float64(i + 1)})
		}
		return rs
	}
	if cold {
		at := func(rs []market.OrderBookRow) []market.OrderBookRow {
			for i := range rs {
				rs[i].AccumVolume = float64((i + 1) * (i + 2) / 2)
			}
			return rs
		}
		s.book = market.OrderBook{Asks: at(row(5, 6)), Bids: at(row(3, 2)), MaxDepth: 4}
		s.other = market.OrderBook{Asks: at(row(5, 7)), Bids: at(row(3, 1)), MaxDepth: 4}
		s.trade = &market.Trade{ID: "tr", ExecutionTime: posT0, Action: market.BuyAction, OrderType: market.MarketOrder, Pair: posPair, Price: 10, Quantity: 2, Cost: 20}
		s.pos = &market.Position{ID: "p", Type: market.LongPosition, Pair: posPair, OpenPrice: 10, Quantity: 2, Open: true, OpenTime: posT0, Trades: []string{"tr"}}
	} else {
		s.book = market.NewOrderBook(row(6, 5), row(2, 3), 4)
		s.other = market.NewOrderBook(row(5, 7), row(3, 1), 4)
		s.trade = market.NewTrade("tr", posT0, market.BuyAction, market.MarketOrder, posPair, 10, 2, 20)
		s.pos = market.NewPosition(s.trade)
	}
	s.rows = append(make([]market.OrderBookRow, 0, 6), row(4, 3)...)
	s.acts = []strategy.CreateOrderAction{{ID: "mine", Symbol: "A", Volume: 1}, {ID: "mine", Symbol: "B", Volume: 2}}
	s.notes = append(make([]strategy.Annotation, 0, 4), strategy.Annotation{ID: "n", Price: 2})
	s.order = &market.Order{ID: "0123456789ab", Pair: &posPair, Trades: []string{"a"}, Status: market.UnfilledOrder, Volume: 2}
	s.file = filepath.Join(dir, "shared.txt")
	b := ""
	for _, c := range s.candles[:3] {
		b += fmt.Sprintf("%d,%g,%g,%g,%g,%g\n", c.Time, c.Open, c.High, c.Low, c.Close, c.Volume)
	}
	must(os.WriteFile(s.file, []byte(b), 0o600) == nil, "writing %s", s.file)
}

func dumpAll(xs ...any) []byte {
	var b []byte
	for _, x := range xs {
		if e, ok := x.(error); ok {
			b = append(b, fmt.Sprintf("error %v;", e)...)
			continue
		}
		b = deep(b, x, nil)
	}
	return b
}

var concBodies = []concBody{
	{"book", func(me int) ([]byte, []string) {
		sc := bookScales[0]
		r := func(p, v int) market.OrderBookRow {
			return market.OrderBookRow{Price: sc.price(p + me), Volume: float64(v + me)}
		}
		ob := market.NewOrderBook([]market.OrderBookRow{r(6, 1), r(5, 2)}, []market.OrderBookRow{r(2, 1), r(3, 3)}, 3)
		d, err := ob.GetDepth(sc.price(6 + me))
		ob.Time = 0
		return dumpAll(ob, d, err), nil
	}},
	{"book update", func(me int) ([]byte, []string) {
		sc := bookScales[0]
		ob := market.NewOrderBook([]market.OrderBookRow{{Price: sc.price(6 + me), Volume: 2}}, []market.OrderBookRow{{Price: sc.price(2 + me), Volume: float64(me + 1)}}, 2)
		side := "ask"
		if me == 1 {
			side = "bid"
		}
		e1 := ob.ApplyUpdate(market.OrderBookUpdate{Side: side, Price: sc.price(4 + me), Volume: float64(3 + me)})
		e2 := ob.ApplyUpdate(market.OrderBookUpdate{Side: side, Price: sc.price(6 + me), Volume: 0})
		ob.Time = 0
		return dumpAll(ob, e1, e2), nil
	}},
	{"shared rows", func(me int) ([]byte, []string) {
		ob := market.NewOrderBook(concShared.rows, concShared.rows[:1], 1+me)
		e := ob.ApplyUpdate(market.OrderBookUpdate{Side: "ask", Price: 1000 + float64(me), Volume: 1})
		ob.Time = 0
		return dumpAll(ob, e), nil
	}},
	{"shared depth", func(me int) ([]byte, []string) {
		sc := bookScales[0]
		d, err := concShared.book.GetDepth(sc.price(6 - 4*me))
		return dumpAll(d, err, concShared.book.String()), nil
	}},
	{"shared overlap", func(me int) ([]byte, []string) {
		a, b := concShared.book, concShared.other
		if me == 1 {
			a, b = b, a
		}
		v, err := market.CalculateOverlap(a, b)
		return dumpAll(v, err), nil
	}},
	{"position", func(me int) ([]byte, []string) {
		tr := func(id string, a market.ActionType, p, q float64) *market.Trade {
			return market.NewTrade(id, posT0, a, market.MarketOrder, posPair, p, q, p*q)
		}
		p := market.NewPosition(tr("a", act(me == 0), 10+float64(me), 2))
		e1 := p.Modify(tr("b", act(me == 0), 12, 1+float64(me)))
		e2 := p.Modify(tr("c", act(me != 0), 11, 1))
		u := p.UnrealizedProfit(13)
		e3 := p.Modify(tr("d", act(me != 0), 11, p.Quantity))
		ids := []string{p.ID, "=" + p.GetID()}
		p.ID = ""
		return dumpAll(p, e1, e2, e3, u), ids
	}},
	{"shared trade", func(me int) ([]byte, []string) {
		p := market.NewPosition(concShared.trade)
		e := p.Modify(concShared.trade)
		ids := []string{p.ID, "=" + p.GetID()}
		p.ID = ""
		return dumpAll(p, e, concShared.pos.UnrealizedProfit(5+float64(me)), concShared.pos.String(), concShared.trade.String()), ids
	}},
	{"order request", func(me int) ([]byte, []string) {
		o, err := market.NewOrderRequest(posPair, act(me == 0), market.LimitOrder, 2+float64(me), 10, 0)
		if err != nil {
			return dumpAll(err), nil
		}
		o2, err := o.CalculateFields(11 + float64(me))
		return dumpAll(o, o2, err, o.String()), nil
	}},
	{"resample", func(me int) ([]byte, []string) {
		cs := concCandles(me, 4)
		out, err := market.ModifyInterval(cs, 2)
		return dumpAll(out, err, market.GetMinInterval(cs)), nil
	}},
	{"shared resample", func(me int) ([]byte, []string) {
		out, err := market.ModifyInterval(concShared.candles[:4+me], 2+me)
		return dumpAll(out, err, market.GetMinInterval(concShared.candles)), nil
	}},
	{"load", func(me int) ([]byte, []string) {
		cs, err := market.LoadCandlesFromFile(concShared.file)
		return dumpAll(cs, err), nil
	}},
	{"save", func(me int) ([]byte, []string) {
		f := filepath.Join(concShared.dir, fmt.Sprintf("own-%d", me))
		cs := concCandles(me, 2)
		e1 := market.SaveCandlesToFile(&cs, f)
		b, e2 := os.ReadFile(f)
		must(e2 == nil, "reading back: %v", e2)
		e3 := os.Remove(f)
		must(e3 == nil, "removing: %v", e3)
		return dumpAll(string(b), e1), nil
	}},
	{"moving average", func(me int) ([]byte, []string) {
		a, e := indicators.MovingAverage(concShared.candles[:5], 2+me)
		return dumpAll(a, e), nil
	}},
	{"exponential average", func(me int) ([]byte, []string) {
		a, e := indicators.ExponentialMovingAverage(concShared.candles[:5], 2+me)
		return dumpAll(a, e), nil
	}},
	{"smoothed average", func(me int) ([]byte, []string) {
		a, e := indicators.SmoothedMovingAverage(concShared.candles[:5], 2+me)
		return dumpAll(a, e), nil
	}},
	{"own averages", func(me int) ([]byte, []string) {
		cs := concCandles(me, 3)
		a, e1 := indicators.MovingAverage(cs, 2)
		b, e2 := indicators.ExponentialMovingAverage(cs, 2)
		c, e3 := indicators.SmoothedMovingAverage(cs, 2)
		return dumpAll(a, b, c, e1, e2, e3), nil
	}},
	{"volatility", func(me int) ([]byte, []string) {
		return dumpAll(indicators.ExponentialWeightedVolatility(concShared.candles, 0.5+float64(me)/4)), nil
	}},
	{"rsi", func(me int) ([]byte, []string) {
		a, e := indicators.RSI(concShared.candles[:5+me], 2+me)
		return dumpAll(a, e), nil
	}},
	{"fractals", func(me int) ([]byte, []string) {
		return dumpAll(indicators.WilliamFractals(concShared.candles[me : 5+me])), nil
	}},
	{"actions", func(me int) ([]byte, []string) {
		a := &strategy.Actions{}
		a.AddCreateOrders(concShared.acts[:1+me%2]...)
		a.AddUpdateOrders(strategy.UpdateOrderAction{OrderID: fmt.Sprint(me)})
		a.AddCancelOrders(strategy.CancelOrderAction{OrderID: fmt.Sprint(me)})
		a.AddUpdatePositions(strategy.UpdatePositionAction{PositionID: fmt.Sprint(me)})
		a.AddClosePositions(strategy.ClosePositionAction{PositionID: fmt.Sprint(me)})
		a.AddAnnotations(concShared.notes...)
		var ids, payload []string
		for k, x := range a.CreateOrders {
			ids = append(ids, k, "="+x.ID)
			x.ID = ""
			payload = append(payload, fmt.Sprint(x))
		}
		for k, x := range a.UpdateOrders {
			ids = append(ids, k, "="+x.ID)
			payload = append(payload, x.OrderID)
		}
		for k, x := range a.CancelOrders {
			ids = append(ids, k, "="+x.ID)
			payload = append(payload, x.OrderID)
		}
		for k, x := range a.UpdatePositions {
			ids = append(ids, k, "="+x.ID)
			payload = append(payload, x.PositionID)
		}
		for k, x := range a.ClosePositions {
			ids = append(ids, k, "="+x.ID)
			payload = append(payload, x.PositionID)
		}
		sort.Strings(payload)
		return dumpAll(payload, a.Annotations), ids
	}},
	{"ids", func(me int) ([]byte, []string) {
		var a strategy.CreateOrderAction
		var b strategy.ClosePositionAction
		a.GenerateID()
		b.GenerateID()
		n := strategy.NewAnnotation(int64(me), 2, "l", "t")
		ids := []string{a.ID, "=" + a.ID, b.ID, "=" + b.ID, n.ID, "=" + n.ID}
		n.ID = ""
		return dumpAll(n), ids
	}},
	{"models", func(me int) ([]byte, []string) {
		var o market.Order
		e1 := o.Update(concShared.order)
		var t market.Trade
		e2 := t.Update(concShared.trade)
		e3 := t.Update(concShared.order)
		return dumpAll(o, t, e1, e2, e3, o.String(), t.GetID(), o.IsOpen(), *o.GetSchema(), concShared.order.String()), nil
	}},
	{"symbols", func(me int) ([]byte, []string) {
		a, e1 := market.NewCryptoAsset([]string{"ETH", "LTC"}[me%2])
		b, e2 := market.NewForexAsset([]string{"USD", "XXX"}[me%2])
		p := market.NewPair(a, b)
		q := market.PairMappings[[]string{"ETHBTC", "BNBETH"}[me%2]]
		return dumpAll(a, b, e1, e2, p.Symbol("/"), q, p.String()), nil
	}},
	{"dates", func(me int) ([]byte, []string) {
		d, e := utils.RawDateToRFC3339(fmt.Sprintf("202%d-03-04", me))
		t := strategy.Tick{Candle: &concShared.candles[me]}
		x, e2 := t.GetLocationTime([]string{"UTC", "Nowhere"}[me%2])
		return dumpAll(d.Unix(), e, x.Unix(), e2, t.GetLocalTime().Unix()), nil
	}},
}

func bodyIndex(name string) int {
	for i := range concBodies {
		if concBodies[i].name == name {
			return i
		}
	}
	return -1
}

// concCase: callers (indices of bodies); a schedule if one particular is meant.
type concCase struct {
	Callers  []string
	Bound    int   // preemptions
	Start    int   // first caller
	Free     bool  // run freely under the race detector instead
	Switches []int `json:",omitempty"` // pairs of (global step, caller to switch to)
	Single   bool  `json:",omitempty"` // only this schedule
	Cold     bool  `json:",omitempty"` // the callers' calls are the first ones of the process

	Alone [][]byte `json:",omitempty"` // Cold: what the callers get alone
}

type concReply struct {
	Schedules, Steps, Nodes, Switched, Blocked int64
	Outcomes                                   []string
	Err                                        string
	Case                                       *concCase
	Incomplete                                 bool
	Instrumented                               bool
	Result                                     []byte // Cold: of a single caller
}

// ---------------------------------------------------------------------------
// The worker process: explores the schedules of one group of callers at a time.
// ---------------------------------------------------------------------------

type concTask struct {
	idx  int
	wake chan struct{}
	done bool
	gid  string
	res  []byte
	ids  []string
	pan  string
}

type concSched struct {
	mu       sync.Mutex
	tasks    []*concTask
	cur      *concTask
	step     int64
	switches []int
	pos      int
	free     atomic.Bool
	progress atomic.Int64
	finished chan struct{}
	nswitch  int64
	waits    int64
}

var curSched atomic.Pointer[concSched]

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	if len(f) > 1 {
		return string(f[1])
	}
	return ""
}

// yield is called before every statement of the library.
func (s *concSched) yield() {
	if s.free.Load() {
		return
	}
	s.mu.Lock()
	me := s.cur
	if me == nil || s.free.Load() || hookHasGo && me.gid != goid() {
		s.mu.Unlock()
		return
	}
	s.step++
	s.progress.Add(1)
	if s.pos+1 < len(s.switches) && int64(s.switches[s.pos]) == s.step {
		to := s.tasks[s.switches[s.pos+1]]
		s.pos += 2
		if !to.done && to != me {
			s.nswitch++
			s.cur = to
			s.mu.Unlock()
			to.wake <- struct{}{}
			<-me.wake
			return
		}
	}
	s.mu.Unlock()
}

// block is called by a caller that waits for a lock: another one has to run. It reports whether
// one did.
func (s *concSched) block() bool {
	if s.free.Load() {
		return false
	}
	s.mu.Lock()
	me := s.cur
	if me == nil || s.free.Load() || hookHasGo && me.gid != goid() {
		s.mu.Unlock()
		return false
	}
	for k := 1; k < len(s.tasks); k++ {
		if to := s.tasks[(me.idx+k)%len(s.tasks)]; !to.done {
			s.waits++
			if s.waits > 100000 { // nobody gets any further
				break
			}
			s.cur = to
			s.mu.Unlock()
			to.wake <- struct{}{}
			<-me.wake
			return true
		}
	}
	s.mu.Unlock()
	return false
}

// runSchedule executes one schedule: start first, then the given switches; a caller that ends
// hands over to the next one that has not.
func runSchedule(bodies []int, start int, switches []int) (*concSched, bool) {
	s, blocked := trySchedule(bodies, start, switches, 10*time.Millisecond)
	if blocked { // a busy machine looks the same
		s, blocked = trySchedule(bodies, start, switches, 300*time.Millisecond)
	}
	return s, blocked
}

func trySchedule(bodies []int, start int, switches []int, patience time.Duration) (*concSched, bool) {
	s := &concSched{switches: switches, finished: make(chan struct{}, 1)}
	for i := range bodies {
		s.tasks = append(s.tasks, &concTask{idx: i, wake: make(chan struct{}, 2)})
	}
	left := len(bodies)
	for i, t := range s.tasks {
		go func() {
			<-t.wake
			if hookHasGo {
				t.gid = goid()
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						if h, ok := p.(harnessBug); ok {
							fmt.Fprintln(os.Stderr, "harness error:", string(h))
							os.Exit(3)
						}
						t.pan = fmt.Sprint(p)
					}
				}()
				t.res, t.ids = concBodies[bodies[i]].run(i)
			}()
			s.mu.Lock()
			t.done = true
			left--
			s.progress.Add(1)
			var next *concTask
			if left == 0 {
				s.finished <- struct{}{}
			} else if s.cur == t && !s.free.Load() {
				for k := 1; k < len(s.tasks); k++ {
					if o := s.tasks[(i+k)%len(s.tasks)]; !o.done {
						next = o
						break
					}
				}
				s.cur = next
			}
			s.mu.Unlock()
			if next != nil {
				next.wake <- struct{}{}
			}
		}()
	}
	s.cur = s.tasks[start]
	curSched.Store(s)
	s.tasks[start].wake <- struct{}{}
	// a caller waiting for something another suspended caller holds shows as lack of progress:
	// then all of them run freely
	blocked := false
	var timer *time.Timer
	for {
		last := s.progress.Load()
		if timer == nil {
			timer = time.NewTimer(patience)
		} else {
			timer.Reset(patience)
		}
		select {
		case <-s.finished:
			timer.Stop()
			return s, blocked
		case <-timer.C:
			if s.progress.Load() == last && !blocked {
				blocked = true
				s.mu.Lock()
				s.free.Store(true)
				s.cur = nil
				s.mu.Unlock()
				for _, t := range s.tasks {
					select {
					case t.wake <- struct{}{}:
					default:
					}
				}
			}
		}
	}
}

// judge compares with the callers run alone.
func (s *concSched) judge(bodies []int, alone [][]byte, shared []byte) string {
	ids := map[string]bool{}
	for i, t := range s.tasks {
		name := concBodies[bodies[i]].name
		if t.pan != "" && string(alone[i]) != "panic "+t.pan {
			return fmt.Sprintf("caller %d (%s) panics: %s", i, name, t.pan)
		}
		if t.pan == "" && !bytes.Equal(t.res, alone[i]) {
			return fmt.Sprintf("caller %d (%s) gets %q, alone %q", i, name, t.res, alone[i])
		}
		if e := checkIDs(t.ids, ids); e != "" {
			return fmt.Sprintf("caller %d (%s): %s", i, name, e)
		}
	}
	if !bytes.Equal(concSharedDump(), shared) {
		return "data the callers share was modified"
	}
	return ""
}

func checkIDs(in []string, ids map[string]bool) string {
	for k := 0; k+1 < len(in); k += 2 {
		if in[k] == "" || in[k+1] != "="+in[k] || ids[in[k]] {
			return fmt.Sprintf("id %q (recorded %q) is empty, wrong or not unique", in[k], in[k+1])
		}
		ids[in[k]] = true
	}
	return ""
}

func concWorker() {
	dir, err := os.MkdirTemp("", "conc")
	must(err == nil, "scratch: %v", err)
	defer os.RemoveAll(dir)
	instrumented := setHook(func() {
		if s := curSched.Load(); s != nil {
			s.yield()
		}
	}, func() bool {
		s := curSched.Load()
		return s != nil && s.block()
	})
	var shared []byte
	// results of every body alone, in this fresh process, for every caller number
	alone := map[[2]int][]byte{}
	warm := func() {
		if shared != nil {
			return
		}
		concSetup(dir, false)
		shared = concSharedDump()
		for i, b := range concBodies {
			for me := 0; me < 3; me++ {
				func() {
					defer func() {
						if p := recover(); p != nil {
							alone[[2]int{i, me}] = []byte(fmt.Sprint("panic ", p))
						}
					}()
					alone[[2]int{i, me}], _ = b.run(me)
				}()
			}
		}
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c concCase
		must(json.Unmarshal(line, &c) == nil, "bad request %s", line)
		var bodies []int
		rep := &concReply{Instrumented: instrumented}
		if c.Cold {
			must(shared == nil, "a process for first calls was used before")
			for _, n := range c.Callers {
				bodies = append(bodies, bodyIndex(n))
			}
			concSetup(dir, true)
			shared = concSharedDump()
			coldRun(rep, &c, bodies, shared)
			must(out.Encode(rep) == nil, "reply")
			return
		}
		warm()
		var al [][]byte
		for i, n := range c.Callers {
			bodies = append(bodies, bodyIndex(n))
			al = append(al, alone[[2]int{bodyIndex(n), i}])
		}
		if c.Free {
			freeRun(rep, &c, bodies, al, shared)
		} else {
			explore(rep, &c, bodies, al, shared)
		}
		must(out.Encode(rep) == nil, "reply")
	}
}

// explore executes every schedule with at most c.Bound preemptions that starts with c.Start.
func explore(rep *concReply, c *concCase, bodies []int, alone [][]byte, shared []byte) {
	limit := time.Now().Add(20 * time.Second)
	bound := c.Bound
	if hookHasGo && bound > 1 && !c.Single {
		// a library that starts goroutines has to tell them from the callers, which is slow
		bound = 1
		rep.Incomplete = true
	}
	seen := map[string]bool{}
	one := func(sw []int) (steps int64, ok bool) {
		s, blocked := runSchedule(bodies, c.Start, sw)
		curSched.Store(nil)
		rep.Schedules++
		rep.Steps += s.step
		rep.Switched += s.nswitch
		rep.Nodes += s.step // decision points not already visited by the schedule this one extends
		if len(sw) > 0 {
			rep.Nodes -= min(s.step, int64(sw[len(sw)-2]))
		}
		if blocked {
			rep.Blocked++
		}
		if e := s.judge(bodies, alone, shared); e != "" {
			rep.Err = e
			rep.Case = &concCase{Callers: c.Callers, Start: c.Start, Bound: c.Bound, Switches: append([]int{}, sw...), Single: true}
			return 0, false
		}
		if len(seen) < 64 {
			k := fmt.Sprintf("%d %d", s.step, s.nswitch)
			if !seen[k] {
				seen[k] = true
				rep.Outcomes = append(rep.Outcomes, fmt.Sprint(c.Callers, k))
			}
		}
		return s.step, true
	}
	if c.Single {
		one(c.Switches)
		return
	}
	if len(c.Switches) > 0 {
		one(c.Switches)
	}
	var rec func(sw []int) bool
	rec = func(sw []int) bool {
		steps, ok := one(sw)
		if !ok {
			return false
		}
		if len(sw)/2 >= bound {
			return true
		}
		from := int64(0)
		last := c.Start
		if len(sw) > 0 {
			from = int64(sw[len(sw)-2])
			last = sw[len(sw)-1]
		}
		for st := from + 1; st <= steps; st++ {
			for to := range bodies {
				if to == last && len(bodies) == 2 {
					continue
				}
				if rep.Blocked > 20 || time.Now().After(limit) {
					rep.Incomplete = true
					return true
				}
				if !rec(append(append([]int{}, sw...), int(st), to)) {
					return false
				}
			}
		}
		return true
	}
	rec(nil)
}

// coldRun executes one schedule in a process that has not called the library before, or runs one
// caller alone.
func coldRun(rep *concReply, c *concCase, bodies []int, shared []byte) {
	if len(bodies) == 1 {
		defer func() {
			if p := recover(); p != nil {
				rep.Result = []byte(fmt.Sprint("panic ", p))
			}
		}()
		rep.Result, _ = concBodies[bodies[0]].run(c.Start)
		return
	}
	if c.Free {
		freeRun(rep, c, bodies, c.Alone, shared)
		return
	}
	s, blocked := trySchedule(bodies, c.Start, c.Switches, 30*time.Millisecond)
	curSched.Store(nil)
	rep.Schedules, rep.Steps, rep.Nodes, rep.Switched = 1, s.step, s.step, s.nswitch
	if len(c.Switches) > 0 {
		rep.Nodes -= min(s.step, int64(c.Switches[0]))
	}
	if blocked {
		rep.Blocked = 1
	}
	rep.Outcomes = []string{fmt.Sprint("first ", c.Callers, s.step, s.nswitch)}
	rep.Err = s.judge(bodies, c.Alone, shared)
}

// freeRun lets the callers run in parallel without any synchronisation between them.
func freeRun(rep *concReply, c *concCase, bodies []int, alone [][]byte, shared []byte) {
	for round := 0; round < 4 && rep.Err == ""; round++ {
		s := &concSched{}
		var wg sync.WaitGroup
		var gate atomic.Int32
		for i := range bodies {
			t := &concTask{idx: i}
			s.tasks = append(s.tasks, t)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						t.pan = fmt.Sprint(p)
					}
				}()
				gate.Add(1)
				for n := 0; int(gate.Load()) < len(bodies) && n < 1e6; n++ {
					runtime.Gosched()
				}
				t.res, t.ids = concBodies[bodies[i]].run(i)
			}()
		}
		wg.Wait()
		rep.Schedules++
		if e := s.judge(bodies, alone, shared); e != "" {
			rep.Err = e
			rep.Case = c
		}
	}
}

// ---------------------------------------------------------------------------
// The parent: one worker process per CPU.
// ---------------------------------------------------------------------------

type concProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
	mu  sync.Mutex
}

func startConc(bin string) *concProc {
	p := &concProc{err: &bytes.Buffer{}}
	p.cmd = exec.Command(bin, "-conc")
	p.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
	p.cmd.Stderr = p.err
	var err error
	p.in, err = p.cmd.StdinPipe()
	must(err == nil, "pipe: %v", err)
	o, err := p.cmd.StdoutPipe()
	must(err == nil, "pipe: %v", err)
	p.out = bufio.NewReaderSize(o, 1<<20)
	must(p.cmd.Start() == nil, "starting %s", bin)
	return p
}

func (p *concProc) ask(c concCase) (rep concReply, err error) {
	b, _ := json.Marshal(c)
	if _, err = p.in.Write(append(b, '\n')); err != nil {
		return rep, err
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		return rep, err
	}
	return rep, json.Unmarshal(line, &rep)
}

func (p *concProc) stop() {
	p.in.Close()
	p.cmd.Wait()
}

// procPool hands out worker processes; each is fresh when it is first used.
type procPool struct {
	bin  string
	mu   sync.Mutex
	idle []*concProc
}

func (pp *procPool) ask(c concCase) (concReply, error) {
	pp.mu.Lock()
	var p *concProc
	if n := len(pp.idle); n > 0 && !c.Cold {
		p = pp.idle[n-1]
		pp.idle = pp.idle[:n-1]
	}
	pp.mu.Unlock()
	if p == nil {
		p = startConc(pp.bin)
	}
	rep, err := p.ask(c)
	if err != nil {
		p.in.Close()
		p.cmd.Wait()
		return rep, fmt.Errorf("the process died: %v\n%s", err, trimReport(p.err.String()))
	}
	if c.Cold {
		p.stop()
		return rep, nil
	}
	if rep.Err != "" { // do not reuse a process whose state may be spoiled
		p.stop()
		return rep, nil
	}
	pp.mu.Lock()
	pp.idle = append(pp.idle, p)
	pp.mu.Unlock()
	return rep, nil
}

func (pp *procPool) close() {
	for _, p := range pp.idle {
		p.stop()
	}
	pp.idle = nil
}

func trimReport(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

var schedBin, raceBin string

func init() {
	checks["C28"] = func(r *Run) {
		must(schedBin != "" && raceBin != "", "the schedule and race binaries are needed (run through check.sh)")
		sp, rp := &procPool{bin: schedBin}, &procPool{bin: raceBin}
		r.cleanups = append(r.cleanups, sp.close, rp.close)
		var mu sync.Mutex
		var blocked, incomplete, uninstr, schedules int64
		body := func(pp *procPool) func(t *T, c concCase) error {
			return func(t *T, c concCase) error {
				rep, err := pp.ask(c)
				if err != nil {
					// a crash that the recover of a caller cannot catch: data race report, concurrent
					// map access, stack exhaustion, deadlock
					if strings.Contains(err.Error(), "vanclief/finmod") {
						return err
					}
					if rep, err = pp.ask(c); err != nil {
						if strings.Contains(err.Error(), "vanclief/finmod") {
							return err
						}
						fmt.Fprintln(os.Stderr, "note: callers", c.Callers, "not explored:", err)
						mu.Lock()
						incomplete++
						mu.Unlock()
						return nil
					}
				}
				t.States += rep.Nodes
				t.Transitions += rep.Steps + rep.Switched
				t.Traces += rep.Schedules
				t.Evals += rep.Schedules
				for _, o := range rep.Outcomes {
					t.Outcome([]byte(o))
				}
				t.steps = rep.Steps
				mu.Lock()
				schedules += rep.Schedules
				blocked += rep.Blocked
				if rep.Incomplete {
					incomplete++
				}
				if !rep.Instrumented && pp == sp {
					uninstr++
				}
				mu.Unlock()
				if rep.Err != "" {
					cc := c
					if rep.Case != nil {
						cc = *rep.Case
					}
					return &CaseErr{Case: cc, Msg: rep.Err}
				}
				return nil
			}
		}
		n := len(concBodies)
		Enum(r, "two callers", func(yield func(concCase) bool) {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					for st := 0; st < 2; st++ {
						if !yield(concCase{Callers: []string{concBodies[i].name, concBodies[j].name}, Bound: 2, Start: st}) {
							return
						}
					}
				}
			}
		}, body(sp))
		r.bound("every schedule of 2 callers with at most 2 preemptions between statements of the library, for all %d ordered pairs of %d call bodies", n*n, n)
		Enum(r, "three callers", func(yield func(concCase) bool) {
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					for k := j; k < n; k++ {
						if !r.thorough() && !(i == j || j == k) {
							continue
						}
						for st := 0; st < 3; st++ {
							if !yield(concCase{Callers: []string{concBodies[i].name, concBodies[j].name, concBodies[k].name}, Bound: 1, Start: st}) {
								return
							}
						}
					}
				}
			}
		}, body(sp))
		r.bound("every schedule of 3 callers with at most 1 preemption (quick: groups in which a body occurs twice; thorough: all)")
		if r.thorough() {
			Enum(r, "same body", func(yield func(concCase) bool) {
				for i := 0; i < n; i++ {
					for st := 0; st < 2; st++ {
						if !yield(concCase{Callers: []string{concBodies[i].name, concBodies[i].name}, Bound: 3, Start: st}) {
							return
						}
					}
				}
			}, body(sp))
			r.bound("every schedule of 2 callers of the same body with at most 3 preemptions")
		}
		Enum(r, "race detector", func(yield func(concCase) bool) {
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					if !yield(concCase{Callers: []string{concBodies[i].name, concBodies[j].name}, Free: true}) {
						return
					}
				}
			}
			for i := 0; i < n; i++ {
				b := concBodies[i].name
				if !yield(concCase{Callers: []string{b, b, b}, Free: true}) {
					return
				}
			}
		}, body(rp))
		r.bound("the same callers run freely in parallel under the race detector, every pair 4 times")
		// the first calls of a process: whatever the library sets up lazily is set up by them
		cold := map[string][]byte{}
		for _, b := range concBodies {
			for me := 0; me < 2; me++ {
				rep, err := sp.ask(concCase{Callers: []string{b.name}, Start: me, Cold: true})
				must(err == nil, "%s alone: %v", b.name, err)
				cold[fmt.Sprint(b.name, me)] = rep.Result
			}
		}
		pairs := func(free bool) func(yield func(concCase) bool) {
			return func(yield func(concCase) bool) {
				for i := 0; i < n; i++ {
					for j := i; j < n; j++ {
						if !free && !r.thorough() && j > i+1 {
							continue
						}
						for st := 0; st < 2; st++ {
							a, b := concBodies[i].name, concBodies[j].name
							if !free || st == 0 {
								if !yield(concCase{Callers: []string{a, b}, Start: st, Bound: 1, Free: free, Cold: true, Alone: [][]byte{cold[fmt.Sprint(a, 0)], cold[fmt.Sprint(b, 1)]}}) {
									return
								}
							}
						}
					}
				}
			}
		}
		Enum(r, "first calls", pairs(false), func(t *T, c concCase) error {
			one := body(sp)
			if c.Single {
				return one(t, c)
			}
			c.Single = true
			if err := one(t, c); err != nil {
				return &CaseErr{Case: c, Msg: err.Error()}
			}
			for st := int64(1); st <= t.steps; st++ {
				x := c
				x.Switches = []int{int(st), 1 - c.Start}
				steps := t.steps
				if err := one(t, x); err != nil {
					return &CaseErr{Case: x, Msg: err.Error()}
				}
				t.steps = steps
			}
			return nil
		})
		r.bound("every schedule of the first two calls of a process with at most 1 preemption (quick: pairs of the same or of neighbouring bodies; thorough: all %d pairs), and all pairs run freely under the race detector as the first calls", n*(n+1)/2)
		Enum(r, "first calls, race detector", pairs(true), body(rp))
		if incomplete > 0 || uninstr > 0 {
			r.capped = true
			r.assumption(fmt.Sprintf("%d groups of callers not explored to the bound, %d without statement-level schedules", incomplete, uninstr))
		}
		if blocked > 0 {
			r.assumption(fmt.Sprintf("%d schedules in which a caller waited for a suspended one were completed freely", blocked))
		}
		r.assumption("preemption happens between statements of the library; races within a statement are left to the race detector run")
		fmt.Printf("%d schedules and free runs\n", schedules)
	}
}

// ---------------------------------------------------------------------------
// The instrumenter: writes a build overlay.
// ---------------------------------------------------------------------------

const hookPath = "github.com/vanclief/finmod/verifhook"

func instrument(repo, out string) error {
	overlay := map[string]string{}
	hasGo := false
	n := 0
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		name := d.Name()
		if d.IsDir() {
			if p != repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
				return fs.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		tf := fset.File(f.Pos())
		// locks cooperate with the scheduler
		repl := map[int]int{}
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				repl[tf.Offset(im.Path.Pos())] = len(im.Path.Value)
			}
		}
		at := map[int]bool{}
		put := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at[tf.Offset(s.Pos())] = true
				}
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				put(x.List)
			case *ast.CaseClause:
				put(x.Body)
			case *ast.CommClause:
				put(x.Body)
			case *ast.GoStmt:
				hasGo = true
			}
			return true
		})
		// the clauses of switch and select are statements of a block but nothing can precede them
		ast.Inspect(f, func(x ast.Node) bool {
			switch x.(type) {
			case *ast.CaseClause, *ast.CommClause:
				delete(at, tf.Offset(x.Pos()))
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		var offs []int
		for o := range at {
			offs = append(offs, o)
		}
		for o := range repl {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		var b bytes.Buffer
		pkgEnd := tf.Offset(f.Name.End())
		b.Write(src[:pkgEnd])
		fmt.Fprintf(&b, "; import verifhook %q", hookPath)
		prev := pkgEnd
		for _, o := range offs {
			b.Write(src[prev:o])
			prev = o
			if n := repl[o]; n > 0 {
				fmt.Fprintf(&b, "%q", hookPath+"/sync")
				prev += n
				continue
			}
			b.WriteString("verifhook.Y(); ")
		}
		b.Write(src[prev:])
		n++
		dst := filepath.Join(out, fmt.Sprintf("%d_%s", n, name))
		overlay[p] = dst
		return os.WriteFile(dst, b.Bytes(), 0o600)
	})
	if err != nil {
		return err
	}
	for name, code := range map[string]string{"verifhook/hook.go": fmt.Sprintf(hookSrc, hasGo), "verifhook/sync/sync.go": syncSrc} {
		dst := filepath.Join(out, strings.ReplaceAll(name, "/", "_"))
		if err := os.WriteFile(dst, []byte(code), 0o600); err != nil {
			return err
		}
		overlay[filepath.Join(repo, name)] = dst
	}
	js, _ := json.Marshal(map[string]any{"Replace": overlay})
	return os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o600)
}

const hookSrc = `package verifhook

var F func()
var B func() bool

const HasGo = %v

func Y() {
	if F != nil {
		F()
	}
}

func Block() bool { return B != nil && B() }
`

// syncSrc stands in for package sync in the instrumented library.
const syncSrc = `//go:build go1.21

package sync

import (
	"sync"

	"github.com/vanclief/finmod/verifhook"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		if !verifhook.Block() {
			m.m.Lock()
			return
		}
	}
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }
func (m *RWMutex) Lock() {
	for !m.m.TryLock() {
		if !verifhook.Block() {
			m.m.Lock()
			return
		}
	}
}
func (m *RWMutex) RLock() {
	for !m.m.TryRLock() {
		if !verifhook.Block() {
			m.m.RLock()
			return
		}
	}
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}
`
