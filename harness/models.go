package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/state/interfaces"
)

// ---------------------------------------------------------------------------
// Models as data: C24, C25, C29, C30. Values are filled in by reflection, so that every subset
// of fields can be populated.
// ---------------------------------------------------------------------------

var fillTimes = []time.Time{
	time.Date(2021, 3, 4, 5, 6, 7, 890, time.UTC),
	time.Date(1969, 12, 31, 23, 59, 59, 999999999, time.UTC),
	time.Date(2024, 2, 29, 0, 0, 0, 0, time.FixedZone("", -3*3600-1800)),
	time.Date(9999, 12, 31, 0, 0, 0, 1, time.UTC),
}
var fillFloats = []float64{1.5, -0.1, 1e-9, 123456789.123456789, math.MaxFloat64, 5e-324, 1e21, 1.0 / 3}
var fillStrings = []string{"x", "0123456789abcdefghij", "ü\"<&>\\ \n", "日本", "buy", "null", " ", strings.Repeat("long text ", 40)}
var fillNames = map[reflect.Type][]string{
	reflect.TypeOf(market.BuyAction):      {"buy", "sell", "hold"},
	reflect.TypeOf(market.LimitOrder):     {"market", "close_position", "limit", "take_profit", "stop_loss", "other"},
	reflect.TypeOf(market.FulfilledOrder): {"fulfilled", "partial_fill", "unfilled", "canceled", "other"},
	reflect.TypeOf(market.LongPosition):   {"long", "short", "flat"},
}
var fillInts = []int64{1, -1, math.MaxInt64, math.MinInt64, 1614837600, 1<<53 + 1}

// fill sets v to a non-zero value; k selects among variants.
func fill(v reflect.Value, k int) {
	if v.Type() == timeType {
		v.Set(reflect.ValueOf(fillTimes[k%len(fillTimes)]))
		return
	}
	if names := fillNames[v.Type()]; names != nil {
		v.SetString(names[k%len(names)])
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int64:
		v.SetInt(fillInts[k%len(fillInts)])
	case reflect.Int32, reflect.Int16, reflect.Int8:
		v.SetInt(int64(k%100 + 1))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(k%100 + 1))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(fillFloats[k%len(fillFloats)])
	case reflect.String:
		v.SetString(fillStrings[k%len(fillStrings)])
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		if k%3 != 2 { // a pointer to a zero value is a variant too
			fill(v.Elem(), k+1)
		}
	case reflect.Slice:
		n := []int{0, 9, 1, 40, 2, 9, 0, 40}[k%8] // empty but present, few, many
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fill(v.Index(i), k+i)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < 2; i++ {
			kk, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(kk, k+i)
			fill(e, k+i+1)
			v.SetMapIndex(kk, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fill(v.Field(i), k+i)
			}
		}
	}
}

// fillMask populates the fields of a struct selected by a mask.
func fillMask(v reflect.Value, mask uint64, k int) {
	for i := 0; i < v.NumField(); i++ {
		if mask>>uint(i)&1 != 0 && v.Type().Field(i).IsExported() {
			fill(v.Field(i), k+i*3)
		}
	}
}

type maskCase struct {
	Type string
	Mask uint64
	K    int
}

func typeByName(protos []any) map[string]reflect.Type {
	m := map[string]reflect.Type{}
	for _, p := range protos {
		m[reflect.TypeOf(p).String()] = reflect.TypeOf(p)
	}
	return m
}

// masks enumerates every subset of fields of every type with several value variants; for types
// with many fields the variants beyond the first use all subsets of up to two fields present or
// absent.
func masks(r *Run, protos []any, variants int, yield func(maskCase) bool) {
	for _, p := range protos {
		ty := reflect.TypeOf(p)
		n := ty.NumField()
		for k := 0; k < variants; k++ {
			full := uint64(1)<<uint(n) - 1
			if n <= 10 || k == 0 && (n <= 15 || r.thorough()) {
				for m := uint64(0); m <= full; m++ {
					if !yield(maskCase{ty.String(), m, k}) {
						return
					}
				}
				continue
			}
			seen := map[uint64]bool{}
			for i := -1; i < n; i++ {
				for j := -1; j < n; j++ {
					for l := -1; l < n; l++ {
						m := uint64(0)
						for _, x := range []int{i, j, l} {
							if x >= 0 {
								m |= 1 << uint(x)
							}
						}
						for _, mm := range []uint64{m, full &^ m} {
							if !seen[mm] {
								seen[mm] = true
								if !yield(maskCase{ty.String(), mm, k}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

var jsonModels = []any{
	market.Asset{}, market.Pair{}, market.Candle{}, market.Ticker{}, market.OrderBookRow{}, market.OrderBookUpdate{}, market.OrderBook{},
	market.BalanceSnapshot{}, market.AssetsSnapshot{}, market.Balance{}, market.Trade{}, market.Order{}, market.Position{}, market.PositionCloseOrder{},
	strategy.Annotation{}, strategy.CreateOrderAction{}, strategy.UpdateOrderAction{}, strategy.CancelOrderAction{}, strategy.UpdatePositionAction{}, strategy.ClosePositionAction{},
}

var textModels = []any{
	market.Asset{}, market.Pair{}, market.Candle{}, market.Ticker{}, market.OrderBookRow{}, market.OrderBook{}, market.OrderRequest{},
	market.BalanceSnapshot{}, market.AssetsSnapshot{}, market.Balance{}, market.Trade{}, market.Order{}, market.Position{}, market.PositionCloseOrder{},
	strategy.Annotation{}, strategy.AddAnnotationsAction{}, indicators.WilliamFractal{},
}

// snake: the snake case of a Go field name, acronyms kept together.
func snake(s string) string {
	rs := []rune(s)
	var b strings.Builder
	for i, c := range rs {
		if unicode.IsUpper(c) && i > 0 && (unicode.IsLower(rs[i-1]) || unicode.IsDigit(rs[i-1]) || i+1 < len(rs) && unicode.IsLower(rs[i+1])) {
			b.WriteByte('_')
		}
		b.WriteRune(unicode.ToLower(c))
	}
	return b.String()
}

type model interface {
	GetSchema() *interfaces.Schema
	GetID() string
	Update(i interface{}) error
}

func init() {
	checks["C24"] = func(r *Run) {
		storage := []any{market.Order{}, market.Trade{}, market.Position{}, strategy.Annotation{}}
		tables := map[string]string{"market.Order": "orders", "market.Trade": "trades", "market.Position": "positions", "strategy.Annotation": "annotations"}
		types := typeByName(storage)
		type uc struct {
			maskCase
			Target int
		}
		// typed nil pointers of the model's own kind are handled like nil
		foreign := func(self string) []any {
			o := []any{nil, 0, 1, "id", true, 1.5, []string{"id"}, map[string]any{"ID": "x"}, struct{ ID string }{"x"}, &struct{ ID string }{"x"}, []byte("{}"), func() {}, new(int), new(string), error(nil), time.Now, &time.Time{}}
			for n, ty := range types {
				v := reflect.New(ty)
				fill(v.Elem(), 1)
				o = append(o, v.Elem().Interface()) // plain value, also of its own kind
				if n != self {
					o = append(o, v.Interface())
				}
				pp := reflect.New(v.Type())
				pp.Elem().Set(v)
				o = append(o, pp.Interface()) // pointer to pointer
				o = append(o, reflect.Zero(reflect.PointerTo(ty)).Interface())
				sl := reflect.MakeSlice(reflect.SliceOf(ty), 1, 1)
				o = append(o, sl.Interface())
			}
			for _, p := range jsonModels {
				if types[reflect.TypeOf(p).String()] == nil {
					v := reflect.New(reflect.TypeOf(p))
					o = append(o, v.Interface(), v.Elem().Interface())
				}
			}
			return o
		}
		foreigns := map[string][]any{}
		for n := range types {
			foreigns[n] = foreign(n)
		}
		Enum(r, "replace", func(yield func(uc) bool) {
			masks(r, storage, 4, func(m maskCase) bool {
				for tg := 0; tg < 3; tg++ {
					if !yield(uc{m, tg}) {
						return false
					}
				}
				return true
			})
		}, func(t *T, c uc) error {
			ty := types[c.Type]
			src, dst := reflect.New(ty), reflect.New(ty)
			fillMask(src.Elem(), c.Mask, c.K)
			if c.Target == 1 {
				fill(dst.Elem(), c.K+1)
			} else if c.Target == 2 {
				fillMask(dst.Elem(), ^c.Mask, c.K+2)
			}
			m := dst.Interface().(model)
			snap := deep(nil, src.Interface(), nil)
			t.States++
			t.Transitions += 4 // two updates, the id and the schema
			t.Traces++
			t.Evals += 6
			if err := m.Update(src.Interface()); err != nil {
				return failf("updating a %s from another one failed: %v", c.Type, err)
			}
			if string(deep(nil, src.Interface(), nil)) != string(snap) {
				return failf("updating a %s changed its source", c.Type)
			}
			if string(deep(nil, dst.Interface(), nil)) != string(snap) {
				return failf("updated %s is %+v, expected %+v", c.Type, dst.Elem().Interface(), src.Elem().Interface())
			}
			id := dst.Elem().FieldByName("ID").String()
			if m.GetID() != id {
				return failf("%s with id %q reports %q", c.Type, id, m.GetID())
			}
			sc := m.GetSchema()
			f, _ := ty.FieldByName("ID")
			tag := strings.Split(f.Tag.Get("json"), ",")[0]
			if sc == nil || sc.Name != tables[c.Type] || sc.PKey != "id" || sc.PKey != tag {
				return failf("%s reports schema %+v, its id field is named %q", c.Type, sc, tag)
			}
			if string(deep(nil, dst.Interface(), nil)) != string(snap) {
				return failf("asking for id and schema changed the %s", c.Type)
			}
			// from itself
			if err := m.Update(dst.Interface()); err != nil || string(deep(nil, dst.Interface(), nil)) != string(snap) {
				return failf("updating a %s from itself: %v, %+v", c.Type, err, dst.Elem().Interface())
			}
			t.Outcome(snap)
			return nil
		})
		type fc struct {
			Type  string
			F, K  int
			Empty bool
		}
		Enum(r, "refuse", func(yield func(fc) bool) {
			for _, p := range storage {
				n := reflect.TypeOf(p).String()
				for f := range foreigns[n] {
					for k := 0; k < 8; k++ {
						if !yield(fc{n, f, k, k == 7}) {
							return
						}
					}
				}
			}
		}, func(t *T, c fc) error {
			dst := reflect.New(types[c.Type])
			if !c.Empty {
				fill(dst.Elem(), c.K)
			}
			snap := deep(nil, dst.Interface(), nil)
			x := foreigns[c.Type][c.F]
			err := dst.Interface().(model).Update(x)
			t.States++
			t.Transitions++
			t.Traces++
			t.Evals += 2
			if err == nil {
				return failf("updating a %s from a %T succeeded", c.Type, x)
			}
			if string(deep(nil, dst.Interface(), nil)) != string(snap) {
				return failf("refused update of a %s from a %T changed it to %+v", c.Type, x, dst.Elem().Interface())
			}
			return nil
		})
		r.bound("storage models: every subset of populated fields (4 value variants; all subsets of up to 3 present/absent fields for the widest models in the quick tier) over 3 targets; %d wrong sources each", len(foreigns["market.Order"]))
	}

	checks["C25"] = func(r *Run) {
		types := typeByName(jsonModels)
		Enum(r, "round trip", func(yield func(maskCase) bool) { masks(r, jsonModels, 24, yield) }, func(t *T, c maskCase) error {
			ty := types[c.Type]
			src, dst := reflect.New(ty), reflect.New(ty)
			fillMask(src.Elem(), c.Mask, c.K)
			snap := deep(nil, src.Interface(), nil)
			t.States++
			t.Transitions += 2
			t.Traces++
			t.Evals++
			b, err := json.Marshal(src.Interface())
			if err != nil {
				return failf("encoding %+v failed: %v", src.Elem().Interface(), err)
			}
			b2, err := json.Marshal(src.Elem().Interface())
			if err != nil || string(b2) != string(b) {
				return failf("encoding a %s by value gives %s (%v), by pointer %s", c.Type, b2, err, b)
			}
			if err := json.Unmarshal(b, dst.Interface()); err != nil {
				return failf("decoding %s failed: %v", b, err)
			}
			if string(deep(nil, dst.Interface(), nil)) != string(snap) {
				return failf("%s decodes to %+v, was %+v", b, dst.Elem().Interface(), src.Elem().Interface())
			}
			if string(deep(nil, src.Interface(), nil)) != string(snap) {
				return failf("encoding changed the %s", c.Type)
			}
			if err := names(ty, b); err != nil {
				return fmt.Errorf("%s encoded as %s: %w", c.Type, b, err)
			}
			t.Outcome(b)
			return nil
		})
		r.bound("JSON: %d models, every subset of populated fields (up to 10 fields; subsets of up to 3 present/absent beyond), 24 value variants incl. extreme numbers, zones and nested absent/zero/filled values", len(jsonModels))
	}

	checks["C29"] = func(r *Run) {
		types := typeByName(textModels)
		Enum(r, "text", func(yield func(maskCase) bool) { masks(r, textModels, 24, yield) }, func(t *T, c maskCase) error {
			v := reflect.New(types[c.Type])
			fillMask(v.Elem(), c.Mask, c.K)
			return renders(t, c.Type, v)
		})
		// ids of every length, in every string field
		type idc struct {
			Type  string
			Field int
			Len   int
			Multi bool
		}
		Enum(r, "string lengths", func(yield func(idc) bool) {
			for _, p := range textModels {
				ty := reflect.TypeOf(p)
				for f := 0; f < ty.NumField(); f++ {
					if ty.Field(f).Type.Kind() != reflect.String {
						continue
					}
					for n := 0; n <= 64; n++ {
						for _, mb := range []bool{false, true} {
							if !yield(idc{ty.String(), f, n, mb}) {
								return
							}
						}
					}
				}
			}
		}, func(t *T, c idc) error {
			v := reflect.New(types[c.Type])
			ch := "a"
			if c.Multi {
				ch = "ü"
			}
			v.Elem().Field(c.Field).SetString(strings.Repeat(ch, c.Len))
			return renders(t, c.Type, v)
		})
		// odd numbers
		type oc struct {
			Type string
			V    int
		}
		odd := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324}
		Enum(r, "odd numbers", func(yield func(oc) bool) {
			for _, p := range textModels {
				for i := range odd {
					if !yield(oc{reflect.TypeOf(p).String(), i}) {
						return
					}
				}
			}
		}, func(t *T, c oc) error {
			v := reflect.New(types[c.Type])
			var set func(x reflect.Value)
			set = func(x reflect.Value) {
				switch x.Kind() {
				case reflect.Float64:
					x.SetFloat(odd[c.V])
				case reflect.Int64:
					x.SetInt([]int64{math.MaxInt64, math.MinInt64}[c.V%2])
				case reflect.Struct:
					if x.Type() != timeType {
						for i := 0; i < x.NumField(); i++ {
							if x.Type().Field(i).IsExported() {
								set(x.Field(i))
							}
						}
					}
				}
			}
			set(v.Elem())
			return renders(t, c.Type, v)
		})
		r.bound("text: %d models, every subset of populated fields (up to 10; subsets of up to 3 present/absent beyond) with 24 variants; every string field at every length 0..64; NaN, infinite and extreme numbers", len(textModels))
		// printing: every book size
		type pc struct{ NA, NB, Scale int }
		maxN := pick(r, 16, 40)
		Serial(r, "print", func(yield func(pc) bool) {
			for na := 0; na <= maxN; na++ {
				for nb := 0; nb <= maxN; nb++ {
					for s := 0; s < 4; s++ {
						if !yield(pc{na, nb, s}) {
							return
						}
					}
				}
			}
			// long books, one or both sides
			for n := maxN + 1; n <= pick(r, 300, 1200); n++ {
				for _, c := range []pc{{n, 0, 0}, {0, n, 0}, {n, n, 0}} {
					if !yield(c) {
						return
					}
				}
			}
		}, func(t *T, c pc) error {
			sc := bookScales[[]int{0, 1, 2, 4}[c.Scale]]
			var asks, bids []lvl
			for i := 0; i < c.NA; i++ {
				asks = append(asks, lvl{sc.price(c.NB + i), sc.vols[i%2] * float64(1+i)})
			}
			for i := 0; i < c.NB; i++ {
				bids = append(bids, lvl{sc.price(c.NB - 1 - i), sc.vols[(i+1)%2]})
			}
			ob := market.NewOrderBook(rowsOf(asks), rowsOf(bids), 2000)
			snap := deep(nil, ob, nil)
			out, err := captureStdout(func() { ob.Print() })
			t.States++
			t.Transitions++
			t.Traces++
			t.Evals++
			if err != nil {
				return err
			}
			if string(deep(nil, ob, nil)) != string(snap) {
				return failf("printing changed the book")
			}
			var want []market.OrderBookRow
			for i := len(ob.Asks) - 1; i >= 0; i-- {
				want = append(want, ob.Asks[i])
			}
			want = append(want, ob.Bids...)
			got := printedRows(out)
			ok := len(got) == len(want)
			for i := 0; ok && i < len(got); i++ {
				// at least two decimals of a row must be legible
				for k, x := range []float64{want[i].Price, want[i].Volume, want[i].AccumVolume} {
					ok = ok && math.Abs(got[i][k]-x) <= 0.00501+1e-5*math.Abs(x)
				}
			}
			if !ok {
				return failf("book %s prints as rows %v:\n%s", showBook(&ob), got, out)
			}
			t.Outcome([]byte(out))
			return nil
		})
		r.bound("printing: every book of 0..%d asks and 0..%d bids in 4 scales, and one- and two-sided books of every size up to %d", maxN, maxN, pick(r, 300, 1200))
	}

	checks["C30"] = func(r *Run) {
		statuses := []market.OrderStatus{market.FulfilledOrder, market.PartialyFilledOrder, market.UnfilledOrder, market.CanceledOrder, "", "Fulfilled", "cancelled", "CANCELED", "open", "closed", "fulfilled ", "unknown"}
		ty := reflect.TypeOf(market.Order{})
		body := func(t *T, o market.Order, s market.OrderStatus) error {
			o.Status = s
			snap := deep(nil, o, nil)
			got := o.IsOpen()
			t.States++
			t.Transitions++
			t.Traces++
			t.Evals++
			if want := s != "fulfilled" && s != "canceled"; got != want {
				return failf("order %+v reports open=%v, expected %v", o, got, want)
			}
			if string(deep(nil, o, nil)) != string(snap) {
				return failf("asking changed the order")
			}
			if o.IsOpen() != got {
				return failf("asking twice gives different answers")
			}
			t.Transitions++
			t.Outcomef("%s %v", s, got)
			return nil
		}
		type oc struct {
			Mask   uint64
			K      int
			Status int
		}
		Enum(r, "orders", func(yield func(oc) bool) {
			n := ty.NumField()
			for s := range statuses {
				for k := 0; k < pick(r, 1, 4); k++ {
					for m := uint64(0); m < 1<<uint(n); m++ {
						if !yield(oc{m, k, s}) {
							return
						}
					}
				}
			}
		}, func(t *T, c oc) error {
			var o market.Order
			fillMask(reflect.ValueOf(&o).Elem(), c.Mask, c.K)
			return body(t, o, statuses[c.Status])
		})
		type vc struct {
			V, E          float64
			Open, Close   int
			Trades        int
			Status        int
			Type, Pair    int
			Act           int
			Price, TP, SL float64
		}
		vols := []float64{0, 1, 2.5, -1}
		times := []time.Time{{}, posT0, posT0.Add(-time.Hour), time.Unix(0, 0), time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC)}
		types := []market.OrderType{market.MarketOrder, market.LimitOrder, market.TakeProfit, market.StopLoss, market.ClosePosition, ""}
		Enum(r, "fills", func(yield func(vc) bool) {
			for s := range statuses {
				for _, v := range vols {
					for _, e := range vols {
						for op := range times {
							for cl := range times {
								for tr := 0; tr < 3; tr++ {
									for ty := range types {
										for a := 0; a < 2; a++ {
											for pr := 0; pr < 3; pr++ {
												if !yield(vc{V: v, E: e, Open: op, Close: cl, Trades: tr, Status: s, Type: ty, Act: a, Pair: pr, Price: float64(tr), TP: float64(a), SL: float64(pr)}) {
													return
												}
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}, func(t *T, c vc) error {
			o := market.Order{ID: "o", Volume: c.V, ExecutedVolume: c.E, OpenTime: times[c.Open], CloseTime: times[c.Close], Type: types[c.Type], Price: c.Price, TakeProfit: c.TP, StopLoss: c.SL, Action: act(c.Act == 0)}
			for i := 0; i < c.Trades; i++ {
				o.Trades = append(o.Trades, "t")
			}
			if c.Pair == 1 {
				o.Pair = &market.Pair{}
			} else if c.Pair == 2 {
				o.Pair = &posPair
			}
			return body(t, o, statuses[c.Status])
		})
		r.bound("orders: %d status values x every subset of populated fields, and all combinations of filled volume, times, trades, type and pair", len(statuses))
	}
}

// names checks the encoded object's own field names against the snake case of the Go fields.
func names(ty reflect.Type, b []byte) error {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		return failf("not an object: %v", err)
	}
	n := 0
	seen := map[string]string{}
	for i := 0; i < ty.NumField(); i++ {
		f := ty.Field(i)
		if !f.IsExported() {
			continue
		}
		n++
		w := snake(f.Name)
		if o, dup := seen[w]; dup {
			return failf("fields %s and %s share a name", o, f.Name)
		}
		seen[w] = f.Name
		if _, ok := m[w]; !ok {
			return failf("field %s does not appear as %q", f.Name, w)
		}
	}
	if len(m) != n {
		return failf("%d names for %d fields", len(m), n)
	}
	// each name once in the text itself (a decoder would merge duplicates)
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	depth, keys, expectKey := 0, map[string]int{}, false
	for {
		tok, err := dec.Token()
		if err != nil {
			break
		}
		switch x := tok.(type) {
		case json.Delim:
			if x == '{' || x == '[' {
				depth++
				expectKey = depth == 1
				continue
			}
			depth--
			if depth == 1 {
				expectKey = true
			}
			continue
		case string:
			if depth == 1 && expectKey {
				keys[x]++
				if keys[x] > 1 {
					return failf("name %q appears twice", x)
				}
				expectKey = false
				continue
			}
		}
		if depth == 1 {
			expectKey = true
		}
	}
	return nil
}

func renders(t *T, name string, v reflect.Value) error {
	snap := deep(nil, v.Interface(), nil)
	s, ok := v.Interface().(fmt.Stringer)
	t.States++
	t.Traces++
	if !ok {
		if s, ok = v.Elem().Interface().(fmt.Stringer); !ok {
			return failf("%s has no text form", name)
		}
	}
	a := s.String()
	t.Transitions++
	b := s.String()
	t.Transitions++
	t.Evals++
	if a != b {
		return failf("%s renders as %q, then as %q", name, a, b)
	}
	// as fmt would do it (fmt turns panics into text)
	for _, x := range []any{v.Interface(), v.Elem().Interface()} {
		if out := fmt.Sprintf("%v|%s", x, x); strings.Contains(out, "PANIC=") {
			return failf("%s panics when printed: %s", name, out)
		}
	}
	if string(deep(nil, v.Interface(), nil)) != string(snap) {
		return failf("rendering changed the %s", name)
	}
	t.Outcome([]byte(a))
	return nil
}

// captureStdout runs f with the standard output redirected to a file in memory.
func captureStdout(f func()) (out string, err error) {
	rd, wr, e := os.Pipe()
	must(e == nil, "pipe: %v", e)
	old := os.Stdout
	os.Stdout = wr
	done := make(chan []byte)
	go func() {
		var b []byte
		buf := make([]byte, 4096)
		for {
			n, e := rd.Read(buf)
			b = append(b, buf[:n]...)
			if e != nil {
				break
			}
		}
		done <- b
	}()
	func() {
		defer func() {
			if p := recover(); p != nil {
				err = failf("panic: %v", p)
			}
			os.Stdout = old
			wr.Close()
		}()
		f()
	}()
	b := <-done
	rd.Close()
	return string(b), err
}

var numRe = regexp.MustCompile(`[-+]?[0-9]+(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?`)

// printedRows: the lines that hold exactly three numbers.
func printedRows(out string) (rows [][3]float64) {
	for _, line := range strings.Split(out, "\n") {
		ns := numRe.FindAllString(line, -1)
		if len(ns) != 3 {
			continue
		}
		var row [3]float64
		for i := range row {
			row[i], _ = strconv.ParseFloat(ns[i], 64)
		}
		rows = append(rows, row)
	}
	return rows
}
