package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
)

// ---------------------------------------------------------------------------
// What texts say: C37.
// ---------------------------------------------------------------------------

// shown is one labelled value of a text. Labels are looked for in order, each behind the value
// of the one before.
type shown struct {
	label string
	value any
}

// textParts lists what the text of a model has to show.
func textParts(m any) []shown {
	switch x := m.(type) {
	case *market.Candle:
		return []shown{{"Time: ", time.Unix(x.Time, 0)}, {"Open: ", x.Open}, {"High: ", x.High}, {"Low: ", x.Low}, {"Close: ", x.Close}, {"Volume: ", x.Volume}}
	case *market.Trade:
		return []shown{{"ID: ", x.ID}, {"Execution Time: ", x.ExecutionTime}, {"Action: ", string(x.Action)}, {"Type: ", string(x.OrderType)}, {"Pair: ", x.Pair},
			{"Price: $", x.Price}, {"Quantity: ", x.Quantity}, {"Fee: $", x.Fee}, {"Cost: $", x.Cost}}
	case *market.Order:
		s := []shown{{"ID: ", x.ID}, {"Action: ", string(x.Action)}, {"Type: ", string(x.Type)}}
		if x.Pair != nil {
			s = append(s, shown{"Pair: ", *x.Pair})
		}
		return append(s, shown{"Price: ", x.Price}, shown{"Volume: ", x.Volume}, shown{"ExecVolume: ", x.ExecutedVolume}, shown{"Fee: $", x.Fee}, shown{"Cost: $", x.Cost},
			shown{"Status: ", string(x.Status)}, shown{"OT: ", x.OpenTime}, shown{"CT: ", x.CloseTime})
	case *market.OrderRequest:
		return []shown{{"Action: ", string(x.Action)}, {"Type: ", string(x.Type)}, {"Pair: ", x.Pair}, {"Quantity: ", x.Quantity}, {"Price: $", x.Price}, {"Total: $", x.Total}}
	case *market.Position:
		id := x.ID
		if len(id) > 8 {
			id = id[:8]
		}
		return []shown{{"ID: ", id + " "}, {"Type: ", string(x.Type)}, {"Pair: ", x.Pair}, {"Open: ", fmt.Sprint(x.Open)}, {"OpenPrice: ", x.OpenPrice}, {"ClosePrice: ", x.ClosePrice},
			{"Quantity: ", x.Quantity}, {"Profit: ", x.Profit}, {"OpenTime: ", x.OpenTime}, {"CloseTime: ", x.CloseTime}, {"Trades: ", strconv.Itoa(len(x.Trades))}}
	case *market.PositionCloseOrder:
		return []shown{{"Price: ", x.Price}, {"OrderID: ", x.OrderID}}
	case *market.Ticker:
		return []shown{{"Time: ", fmt.Sprint(x.Time)}, {"Ask: ", x.Ask}, {"Bid: ", x.Bid}, {"Last: ", x.Last}, {"Volume: ", x.Volume}, {"VWAP: ", x.VWAP}}
	case *market.BalanceSnapshot:
		return []shown{{"Balance: ", x.Balance}, {"Equity: ", x.Equity}, {"Margin: ", x.Margin}, {"Free Margin: ", x.FreeMargin}}
	case *market.Balance:
		if x.Asset == nil {
			return []shown{{"Amount: ", x.Amount}}
		}
		return []shown{{"Asset: ", *x.Asset}, {"Amount: ", x.Amount}}
	case *market.AssetsSnapshot:
		s := []shown{{"Time: ", x.Time}, {"Assets: ", "["}}
		for _, b := range x.Assets { // in a list, asset and amount come without labels
			if b.Asset != nil {
				s = append(s, shown{"{", *b.Asset})
			}
			s = append(s, shown{" ", b.Amount})
		}
		return s
	case *market.Asset:
		return []shown{{"", *x}}
	case *market.Pair:
		return []shown{{"", *x}}
	case *market.OrderBookRow:
		return []shown{{"Price: ", x.Price}, {"Volume: ", x.Volume}, {"AccumVolume: ", x.AccumVolume}}
	case *market.OrderBook:
		s := []shown{{"Time: ", fmt.Sprint(x.Time)}}
		for i, rows := range [][]market.OrderBookRow{x.Asks, x.Bids} {
			s = append(s, shown{[]string{"Asks: ", "Bids: "}[i], "["})
			for _, row := range rows {
				s = append(s, shown{"{", row.Price}, shown{" ", row.Volume}, shown{" ", row.AccumVolume})
			}
		}
		return s
	case *strategy.Annotation:
		return []shown{{"ID: ", x.ID}, {"Time: ", fmt.Sprint(x.Time)}, {"Creation Time: ", fmt.Sprint(x.CreationTime)}, {"Price: ", x.Price}, {"ExecutionID: ", x.ExecutionID}, {"Label: ", x.Label}, {"Tooltip: ", x.Tooltip}}
	case *strategy.AddAnnotationsAction:
		s := []shown{}
		for i := range x.Annotations {
			s = append(s, textParts(&x.Annotations[i])...)
		}
		return s
	case *indicators.WilliamFractal:
		return []shown{{"", fmt.Sprint(x.Time)}, {" ", x.Price}, {" ", fmt.Sprint(x.Type)}}
	}
	return nil
}

// numberAt reads the number a text starts with, and the size of its last digit.
func numberAt(s string) (v, digit float64, n int, err error) {
	for n < len(s) && strings.IndexByte("+-.0123456789eEInfNa", s[n]) >= 0 {
		n++
	}
	v, err = strconv.ParseFloat(s[:n], 64)
	digit = 1
	if i := strings.IndexByte(s[:n], '.'); i >= 0 {
		digit = math.Pow(10, -float64(n-i-1))
	}
	return
}

// saysAll follows the labels through a text.
func saysAll(text string, parts []shown) error {
	at := 0
	for _, p := range parts {
		i := strings.Index(text[at:], p.label)
		if i < 0 {
			return failf("%q does not show %q (%v)", text, p.label, p.value)
		}
		at += i + len(p.label)
		rest := text[at:]
		switch v := p.value.(type) {
		case string:
			if !strings.HasPrefix(rest, v) {
				return failf("%q shows %.40q after %q instead of %q", text, rest, p.label, v)
			}
			at += len(v)
		case float64:
			got, digit, n, err := numberAt(rest)
			same := got == v || math.IsNaN(got) && math.IsNaN(v) || math.Abs(got-v) <= 0.5000001*digit+1e-9*math.Abs(v)
			if err != nil || !same || got != v && digit > 0.01 {
				return failf("%q shows %.40q after %q instead of %v", text, rest, p.label, v)
			}
			at += n
		case time.Time:
			if !strings.HasPrefix(rest, v.String()) {
				return failf("%q shows %.40q after %q instead of %v", text, rest, p.label, v)
			}
			at += len(v.String())
		case market.Pair:
			b := strings.Index(rest, v.Base.Symbol)
			if b < 0 {
				return failf("%q does not show the base %q", text, v.Base.Symbol)
			}
			at += b + len(v.Base.Symbol)
			q := strings.Index(text[at:], v.Quote.Symbol)
			if q < 0 {
				return failf("%q does not show the quote %q", text, v.Quote.Symbol)
			}
			at += q + len(v.Quote.Symbol)
		case market.Asset:
			if !strings.HasPrefix(rest, v.Name+": "+v.Symbol) {
				return failf("%q shows %.40q instead of the asset %q %q", text, rest, v.Name, v.Symbol)
			}
			at += len(v.Name + ": " + v.Symbol)
		}
	}
	return nil
}

func checkC37(r *Run) {
	types := typeByName(textModels)
	says := func(t *T, name string, make func() reflect.Value) error {
		v, w := make(), make()
		m, ok := v.Interface().(fmt.Stringer)
		must(ok, "%s has no text", name)
		text := m.String()
		again := w.Interface().(fmt.Stringer).String()
		t.States++
		t.Traces += 2
		t.Transitions += 2 // two renderings, and the fields set before
		for i := 0; i < v.Elem().NumField(); i++ {
			if !v.Elem().Field(i).IsZero() {
				t.Transitions++
			}
		}
		if text != again {
			return failf("two equal values of %s have the texts %q and %q", name, text, again)
		}
		parts := textParts(v.Interface())
		t.Evals += int64(len(parts))
		t.Outcomef("%s", text)
		return saysAll(text, parts)
	}
	Enum(r, "fields", func(yield func(maskCase) bool) { masks(r, textModels, 24, yield) }, func(t *T, c maskCase) error {
		return says(t, c.Type, func() reflect.Value {
			v := reflect.New(types[c.Type])
			fillMask(v.Elem(), c.Mask, c.K)
			return v
		})
	})
	// every number field by itself, over numbers of every decimal magnitude and both signs
	type num struct {
		Type          string
		Field, Exp, K int
	}
	mant := []float64{1, -1, 1.2345678, -9.87654321}
	Enum(r, "numbers", func(yield func(num) bool) {
		for _, p := range textModels {
			ty := reflect.TypeOf(p)
			for f := 0; f < ty.NumField(); f++ {
				if ty.Field(f).Type.Kind() != reflect.Float64 {
					continue
				}
				for e := -12; e <= pick(r, 15, 300); e++ {
					for k := range mant {
						if !yield(num{ty.String(), f, e, k}) {
							return
						}
					}
				}
			}
		}
	}, func(t *T, c num) error {
		return says(t, c.Type, func() reflect.Value {
			v := reflect.New(types[c.Type])
			v.Elem().Field(c.Field).SetFloat(mant[c.K] * math.Pow(10, float64(c.Exp)))
			return v
		})
	})
	// ids of every length
	type idCase struct{ Len int }
	Enum(r, "ids", func(yield func(idCase) bool) {
		for n := 0; n <= 40; n++ {
			if !yield(idCase{n}) {
				return
			}
		}
	}, func(t *T, c idCase) error {
		id := "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGH"[:c.Len]
		for _, p := range []any{market.Position{ID: id, Type: market.LongPosition}, market.Order{ID: id}, market.Trade{ID: id}, strategy.Annotation{ID: id, ExecutionID: id, Label: id, Tooltip: id}} {
			if err := says(t, reflect.TypeOf(p).String(), func() reflect.Value {
				v := reflect.New(reflect.TypeOf(p))
				v.Elem().Set(reflect.ValueOf(p))
				return v
			}); err != nil {
				return err
			}
		}
		return nil
	})
	// annotation lists of every length up to 12
	type annCase struct{ Len int }
	Enum(r, "annotations", func(yield func(annCase) bool) {
		for n := 0; n <= 12; n++ {
			if !yield(annCase{n}) {
				return
			}
		}
	}, func(t *T, c annCase) error {
		return says(t, "strategy.AddAnnotationsAction", func() reflect.Value {
			a := &strategy.AddAnnotationsAction{}
			for i := 0; i < c.Len; i++ {
				a.Annotations = append(a.Annotations, strategy.Annotation{ID: fmt.Sprintf("id%d.", i), Time: int64(i * 60), Price: float64(i) + 0.25, Label: fmt.Sprintf("label %d", i%3), Tooltip: "tip"})
			}
			return reflect.ValueOf(a)
		})
	})
	r.bound("texts: %d models, every subset of populated fields (up to 10; subsets of up to 3 present/absent beyond), 24 variants in which neighbouring fields differ; every number field at every decimal magnitude from 1e-12; ids of every length up to 40; lists of up to 12 annotations", len(textModels))
}

func init() { checks["C37"] = checkC37 }
