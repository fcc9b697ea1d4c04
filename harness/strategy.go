package main

import (
	"fmt"
	"math"
	"reflect"
	"sync"
	"time"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/utils"
)

// ---------------------------------------------------------------------------
// C23: the action set of a strategy, as a state machine of Add calls.
// ---------------------------------------------------------------------------

const nActionKinds = 5

var actionKinds = [nActionKinds]string{"CreateOrders", "UpdateOrders", "CancelOrders", "UpdatePositions", "ClosePositions"}

// actOp: one Add call. Kind 5 adds annotations.
type actOp struct {
	Kind, Batch int
	Carry       int // ids carried by the actions: 0 none, 1 all the same, 2 an id already in the set, 3 equal annotations
}

type actCase struct {
	Init int // 0 zero value, 1 maps present but empty, 2 filled in by the caller
	Ops  []actOp
}

var usedIDs [64]struct {
	sync.Mutex
	m map[string]bool
}

// fresh reports whether no earlier action of the whole run had that id.
func fresh(id string) bool {
	h := 0
	for i := 0; i < len(id); i++ {
		h = h*31 + int(id[i])
	}
	s := &usedIDs[uint(h)%64]
	s.Lock()
	defer s.Unlock()
	if s.m == nil || len(s.m) > 200000 {
		s.m = map[string]bool{}
	}
	if s.m[id] {
		return false
	}
	s.m[id] = true
	return true
}

func idless(x any) string {
	v := reflect.New(reflect.TypeOf(x)).Elem()
	v.Set(reflect.ValueOf(x))
	v.FieldByName("ID").SetString("")
	return string(deep(nil, v.Interface(), nil))
}

// keptAction: what the set is expected to hold.
type keptAction struct {
	payload string
	whole   string // dump including the id, once seen
}

func actRun(t *T, c actCase) error {
	a := &strategy.Actions{}
	// expected payloads not yet matched to an id, and entries already known, per kind
	known := [nActionKinds]map[string]string{}
	for i := range known {
		known[i] = map[string]string{}
	}
	ids := map[string]bool{}
	var notes []strategy.Annotation
	av := reflect.ValueOf(a).Elem()
	if c.Init > 0 {
		for k, name := range actionKinds {
			f := av.FieldByName(name)
			f.Set(reflect.MakeMap(f.Type()))
			if c.Init == 2 {
				e := reflect.New(f.Type().Elem()).Elem()
				fill(e, k)
				id := fmt.Sprintf("preset-%d", k)
				e.FieldByName("ID").SetString(id)
				f.SetMapIndex(reflect.ValueOf(id), e)
				known[k][id] = string(deep(nil, e.Interface(), nil))
				ids[id] = true
			}
		}
		if c.Init == 2 {
			notes = append(notes, strategy.Annotation{ID: "n0", Price: 3})
			a.Annotations = append(make([]strategy.Annotation, 0, 8), notes...)
		}
	}
	t.States++
	n := 0
	type callerSlice struct {
		v    reflect.Value
		snap string
	}
	var callers []callerSlice
	for step, op := range c.Ops {
		t.States++
		t.Transitions++
		if op.Kind == nActionKinds {
			in := make([]strategy.Annotation, op.Batch, op.Batch+2)
			for i := range in {
				n++
				in[i] = strategy.Annotation{ID: []string{"", "same", "n0", ""}[op.Carry], Time: int64(n), CreationTime: int64(-n), Price: float64(n) / 3, ExecutionID: "e", Label: "l", Tooltip: fmt.Sprint(n)}
				if op.Carry == 3 { // the same one over and over
					in[i] = strategy.Annotation{Time: 5, Label: "l"}
				}
			}
			notes = append(notes, in...)
			v := reflect.ValueOf(in)
			snap := string(deep(nil, in, nil))
			a.AddAnnotations(in...)
			callers = append(callers, callerSlice{v, snap})
		} else {
			f := av.FieldByName(actionKinds[op.Kind])
			et := f.Type().Elem()
			in := reflect.MakeSlice(reflect.SliceOf(et), op.Batch, op.Batch+2)
			want := map[string]int{}
			for i := 0; i < op.Batch; i++ {
				n++
				fill(in.Index(i), n)
				// a payload no other action has, except in mode 1 where the batch repeats itself
				for j := 0; j < et.NumField(); j++ {
					if fv := in.Index(i).Field(j); fv.Kind() == reflect.Float64 || fv.Kind() == reflect.String {
						m := n
						if op.Carry == 1 {
							m = step
						}
						if fv.Kind() == reflect.String {
							fv.SetString(fmt.Sprintf("%s-%d", et.Field(j).Name, m))
						} else {
							fv.SetFloat(float64(m) + float64(j)/7)
						}
					}
				}
				id := []string{"", "same", "preset-0"}[op.Carry]
				if op.Carry == 2 {
					for k := range known[op.Kind] { // any id in use
						if id == "preset-0" || k < id {
							id = k
						}
					}
				}
				in.Index(i).FieldByName("ID").SetString(id)
				want[idless(in.Index(i).Interface())]++
			}
			snap := string(deep(nil, in.Interface(), nil))
			reflect.ValueOf(a).MethodByName("Add" + actionKinds[op.Kind]).CallSlice([]reflect.Value{in})
			callers = append(callers, callerSlice{in, snap})
			f = av.FieldByName(actionKinds[op.Kind])
			if f.Len() != len(known[op.Kind])+op.Batch {
				return failf("step %d: adding %d actions to %d gives %d %s", step+1, op.Batch, len(known[op.Kind]), f.Len(), actionKinds[op.Kind])
			}
			it := f.MapRange()
			for it.Next() {
				key, e := it.Key().String(), it.Value()
				if _, old := known[op.Kind][key]; old {
					continue
				}
				id := e.FieldByName("ID").String()
				if id != key || id == "" || ids[id] || id == "same" || !fresh(id) {
					return failf("step %d: action kept under %q has id %q, which is empty, different or not new", step+1, key, id)
				}
				ids[id] = true
				p := idless(e.Interface())
				if want[p] == 0 {
					return failf("step %d: action %+v was not added like that", step+1, e.Interface())
				}
				want[p]--
				known[op.Kind][key] = string(deep(nil, e.Interface(), nil))
			}
		}
		t.Evals++
		if err := actCompare(a, known, notes); err != nil {
			return fmt.Errorf("step %d: %w", step+1, err)
		}
		for _, cs := range callers {
			if string(deep(nil, cs.v.Interface(), nil)) != cs.snap {
				return failf("step %d: the caller's own slice of %s was modified", step+1, cs.v.Type())
			}
		}
	}
	// what the caller does with its own values afterwards must not matter
	for _, cs := range callers {
		for i := 0; i < cs.v.Len(); i++ {
			cs.v.Index(i).Set(reflect.Zero(cs.v.Type().Elem()))
		}
	}
	t.Traces++
	if err := actCompare(a, known, notes); err != nil {
		return fmt.Errorf("after the caller reused its slices: %w", err)
	}
	t.Outcomef("%v", c.Ops)
	return nil
}

func actCompare(a *strategy.Actions, known [nActionKinds]map[string]string, notes []strategy.Annotation) error {
	for k, name := range actionKinds {
		f := reflect.ValueOf(a).Elem().FieldByName(name)
		if f.Len() != len(known[k]) {
			return failf("%d %s, expected %d", f.Len(), name, len(known[k]))
		}
		for id, w := range known[k] {
			e := f.MapIndex(reflect.ValueOf(id))
			if !e.IsValid() || string(deep(nil, e.Interface(), nil)) != w {
				return failf("action %q of %s is gone or changed", id, name)
			}
		}
	}
	if len(a.Annotations) != len(notes) {
		return failf("%d annotations, expected %d", len(a.Annotations), len(notes))
	}
	for i := range notes {
		if a.Annotations[i] != notes[i] {
			return failf("annotation %d is %+v, expected %+v", i, a.Annotations[i], notes[i])
		}
	}
	return nil
}

func init() {
	checks["C23"] = func(r *Run) {
		var ops []actOp
		for k := 0; k < nActionKinds; k++ {
			for b := 0; b <= 3; b++ {
				ops = append(ops, actOp{k, b, 0})
			}
			ops = append(ops, actOp{k, 2, 1}, actOp{k, 2, 2})
		}
		for b := 0; b <= 2; b++ {
			ops = append(ops, actOp{nActionKinds, b, 0})
		}
		ops = append(ops, actOp{nActionKinds, 2, 1}, actOp{nActionKinds, 1, 3}, actOp{nActionKinds, 2, 3})
		seqs := func(alpha []actOp, depth int, inits []int) func(func(actCase) bool) {
			return func(yield func(actCase) bool) {
				for _, in := range inits {
					var rec func(pre []actOp) bool
					rec = func(pre []actOp) bool {
						if len(pre) > 0 && len(pre) == depth || len(pre) > 0 && len(pre) < 2 {
							if !yield(actCase{in, append([]actOp{}, pre...)}) {
								return false
							}
						}
						if len(pre) == depth {
							return true
						}
						for _, o := range alpha {
							if !rec(append(pre[:len(pre):len(pre)], o)) {
								return false
							}
						}
						return true
					}
					if !rec(nil) {
						return
					}
				}
			}
		}
		d := pick(r, 3, 4)
		Enum(r, "calls", seqs(ops, d, []int{0, 1, 2}), actRun)
		r.bound("action sets: every sequence of %d calls (each prefix checked) out of %d (5 kinds in batches of 0..3, repeated and already used carried ids, annotations), from 3 starting sets", d, len(ops))
		// longer histories over a small alphabet
		var small []actOp
		for k := 0; k <= nActionKinds; k++ {
			small = append(small, actOp{k, 1, k % 3})
		}
		d = pick(r, 6, 7)
		Enum(r, "long histories", seqs(small, d, []int{0}), actRun)
		r.bound("action sets: every sequence of %d single additions over all 6 kinds", d)
		// batch sizes
		type bc struct{ Kind, N, Init int }
		var sizes []int
		for i := 0; i <= pick(r, 130, 300); i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 255, 256, 257, 1000, 1024, 4097, 70000)
		Enum(r, "batches", func(yield func(bc) bool) {
			for _, n := range sizes {
				for k := 0; k <= nActionKinds; k++ {
					for in := 0; in < 3; in++ {
						if !yield(bc{k, n, in}) {
							return
						}
					}
				}
			}
		}, func(t *T, c bc) error {
			return actRun(t, actCase{c.Init, []actOp{{c.Kind, c.N, 0}, {c.Kind, 1, 0}}})
		})
		r.bound("action sets: one call with every batch of 0..%d, 255..257, 1000, 1024, 4097 and 70000 actions of every kind", pick(r, 130, 300))
		// ids straight from the models
		type gc struct{ Kind, N int }
		Serial(r, "generated ids", func(yield func(gc) bool) {
			for k := 0; k <= nActionKinds; k++ {
				for n := 0; n < pick(r, 20000, 60000); n++ {
					if !yield(gc{k, n}) {
						return
					}
				}
			}
		}, func(t *T, c gc) error {
			t.States++
			t.Transitions++
			t.Traces++
			t.Evals++
			if c.Kind == nActionKinds {
				n := strategy.NewAnnotation(int64(c.N), float64(c.N)/7, "l", "t")
				if n == nil || n.ID == "" || !fresh(n.ID) {
					return failf("new annotation %+v has no new id", n)
				}
				if n.Time != int64(c.N) || n.Price != float64(c.N)/7 || n.Label != "l" || n.Tooltip != "t" || n.ExecutionID != "" || n.CreationTime != 0 {
					return failf("new annotation is %+v", n)
				}
				return nil
			}
			f, _ := reflect.TypeOf(strategy.Actions{}).FieldByName(actionKinds[c.Kind])
			v := reflect.New(f.Type.Elem())
			fill(v.Elem(), c.N)
			w := idless(v.Elem().Interface())
			v.Interface().(interface{ GenerateID() }).GenerateID()
			if id := v.Elem().FieldByName("ID").String(); id == "" || !fresh(id) || idless(v.Elem().Interface()) != w {
				return failf("generating an id gives %+v", v.Elem().Interface())
			}
			return nil
		})
	}

	checks["C27"] = func(r *Run) {
		years := []int{}
		for y := 0; y <= 9999; y++ {
			if r.thorough() || y%10 == 0 || y >= 1890 && y <= 2110 || y%4 == 0 && y%16 != 0 {
				years = append(years, y)
			}
		}
		type dc struct{ Y, M int }
		Enum(r, "dates", func(yield func(dc) bool) {
			for _, y := range years {
				for m := 0; m <= 13; m++ {
					if !yield(dc{y, m}) {
						return
					}
				}
			}
		}, func(t *T, c dc) error {
			for d := 0; d <= 32; d++ {
				if err := dateCase(t, fmt.Sprintf("%04d-%02d-%02d", c.Y, c.M, d)); err != nil {
					return err
				}
			}
			return nil
		})
		r.bound("dates: every YYYY-MM-DD with month 00..13 and day 00..32 of %d years", len(years))
		// every one-character edit, and every two-character substitution, of some dates
		bs := []string{"2021-03-04", "2020-02-29", "1999-12-31", "0001-01-01"}
		alpha := "0123456789-+/. :TZt\x00\xff,a_"
		type ec struct {
			S string
		}
		Enum(r, "edits", func(yield func(ec) bool) {
			for _, b := range bs {
				for i := 0; i <= len(b); i++ {
					if i < len(b) && !yield(ec{b[:i] + b[i+1:]}) {
						return
					}
					for x := 0; x < 256; x++ {
						if i < len(b) && !yield(ec{b[:i] + string([]byte{byte(x)}) + b[i+1:]}) {
							return
						}
						if !yield(ec{b[:i] + string([]byte{byte(x)}) + b[i:]}) {
							return
						}
					}
				}
				for i := 0; i < len(b); i++ {
					for j := i + 1; j < len(b); j++ {
						for _, x := range []byte(alpha) {
							for _, y := range []byte(alpha) {
								e := []byte(b)
								e[i], e[j] = x, y
								if !yield(ec{string(e)}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(t *T, c ec) error { return dateCase(t, c.S) })
		var odd []ec
		for _, s := range []string{"", " ", "2021", "2021-03", "2021-03-04T", "2021-03-04T00:00:00Z", "2021-03-04Z", "2021-03-04 ", " 2021-03-04", "04-03-2021", "03/04/2021", "2021/03/04", "20210304", "2021-3-4", "2021-03-4", "2021-3-04", "21-03-04", "12021-03-04", "-2021-03-04", "+2021-03-04", "2021-03-04\n", "2021-Mar-04", "2021-03-04T00:00:00", "2021-03-04T10:11:12Z", "2021-063", "2021-W09-4", "today", "1614816000", "２０２１-03-04", "2021–03–04", "2021-03-04+00:00", "2021-03-04.5", "2021-03-04T00:00:00.5", "2021-03-04T00:00:00+01:00#"} {
			odd = append(odd, ec{s})
		}
		Enum(r, "malformed", func(yield func(ec) bool) {
			for _, o := range odd {
				if !yield(o) {
					return
				}
			}
		}, func(t *T, c ec) error { return dateCase(t, c.S) })
		r.bound("date texts: all one-byte edits, and all two-character substitutions over %d characters, of %d dates, and %d other texts", len(alpha), len(bs), len(odd))

		type lc struct {
			Local, Y, M int
		}
		locals := []*time.Location{time.UTC, time.FixedZone("p", 5*3600+1800), time.FixedZone("m", -11*3600-61)}
		for _, z := range []string{"Europe/Madrid", "America/New_York", "Australia/Lord_Howe"} {
			l, err := time.LoadLocation(z)
			must(err == nil, "zone %s: %v", z, err)
			locals = append(locals, l)
		}
		defer func() { time.Local = time.UTC }()
		Serial(r, "dates anywhere", func(yield func(lc) bool) {
			for l := range locals {
				for y := 1960; y <= 2040; y++ {
					for m := 1; m <= 12; m++ {
						if !yield(lc{l, y, m}) {
							return
						}
					}
				}
			}
		}, func(t *T, c lc) error {
			time.Local = locals[c.Local]
			for d := 0; d <= 32; d++ {
				if err := dateCase(t, fmt.Sprintf("%04d-%02d-%02d", c.Y, c.M, d)); err != nil {
					return fmt.Errorf("with local zone %v: %w", time.Local, err)
				}
			}
			return nil
		})
		time.Local = time.UTC
		r.bound("dates: every date of 1960..2040 in %d local zones", len(locals))

		zones := []string{"UTC", "", "Local", "Europe/Madrid", "America/New_York", "America/Mexico_City", "Asia/Tokyo", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia", "Pacific/Kiritimati", "Africa/Monrovia", "Europe/Dublin", "Asia/Pyongyang", "America/Sao_Paulo", "Antarctica/Troll"}
		var times []int64
		for y := 1965; y <= 2040; y++ {
			for m := 1; m <= 12; m++ {
				times = append(times, time.Date(y, time.Month(m), 1, 0, 0, 0, 0, time.UTC).Unix())
			}
		}
		for _, x := range []int64{0, 1, -1, 1616893200, 1616893199, 1635642000, 1635641999, 1615705200, 1615705199, 1636264800, 1636264799, 1 << 31, 1<<31 - 1, -1 << 31, 1e12, 1614837600123, 253402300799, -62135596800} {
			times = append(times, x)
		}
		type tc struct {
			Local int
			Zone  string
			T     int64
		}
		Serial(r, "tick times", func(yield func(tc) bool) {
			for l := range locals {
				for _, z := range zones {
					for _, x := range times {
						if !yield(tc{l, z, x}) {
							return
						}
					}
				}
			}
		}, func(t *T, c tc) error {
			time.Local = locals[c.Local]
			t.States++
			t.Traces++
			t.Evals++
			tick := &strategy.Tick{Candle: &market.Candle{Time: c.T, Close: 1}}
			loc := time.Local
			switch c.Zone {
			case "Local":
			case "", "UTC":
				loc = time.UTC
			default:
				var err error
				loc, err = time.LoadLocation(c.Zone)
				must(err == nil, "zone %s: %v", c.Zone, err)
			}
			got, err := tick.GetLocationTime(c.Zone)
			t.Transitions++
			if err != nil {
				return failf("tick at %d in %q fails: %v", c.T, c.Zone, err)
			}
			if e := sameClock(got, c.T, loc); e != nil {
				return fmt.Errorf("tick at %d in %q: %w", c.T, c.Zone, e)
			}
			lt := tick.GetLocalTime()
			t.Transitions++
			if e := sameClock(lt, c.T, time.Local); e != nil {
				return fmt.Errorf("tick at %d in local zone %v: %w", c.T, time.Local, e)
			}
			if tick.Candle.Time != c.T {
				return failf("asking for the time changed the candle")
			}
			t.Outcomef("%d %d", c.T, off(got))
			return nil
		})
		type bz struct{ Zone string }
		Serial(r, "unknown locations", func(yield func(bz) bool) {
			for _, z := range []string{"Nowhere", "Europe/Madridd", "europe/nowhere", "../etc/passwd", "/etc/localtime", "Europe/", "UTC ", " UTC", "+01:00", "GMT+25", "\\", "..", "."} {
				if _, err := time.LoadLocation(z); err == nil {
					continue
				}
				if !yield(bz{z}) {
					return
				}
			}
		}, func(t *T, c bz) error {
			tick := &strategy.Tick{Candle: &market.Candle{Time: 1614837600}}
			_, err := tick.GetLocationTime(c.Zone)
			t.States++
			t.Transitions++
			t.Traces++
			t.Evals++
			if err == nil {
				return failf("unknown location %q is accepted", c.Zone)
			}
			return nil
		})
		time.Local = time.UTC
		r.bound("tick times: %d instants (every month 1965..2040, zone changes, extremes) x %d locations x %d local zones", len(times), len(zones), len(locals))
	}
}

func off(t time.Time) int { _, o := t.Zone(); return o }

// sameClock: same instant, and the same clock reading as that instant has in loc.
func sameClock(got time.Time, sec int64, loc *time.Location) error {
	if got.Unix() != sec || got.Nanosecond() != 0 {
		return failf("instant %d.%09d", got.Unix(), got.Nanosecond())
	}
	w := time.Unix(sec, 0).In(loc)
	if got.Format("2006-01-02T15:04:05") != w.Format("2006-01-02T15:04:05") || off(got) != off(w) {
		return failf("reads %v, expected %v", got, w)
	}
	return nil
}

// dateCase compares one text with the calendar.
func dateCase(t *T, s string) error {
	got, err := utils.RawDateToRFC3339(s)
	t.States++
	t.Transitions++
	t.Traces++
	t.Evals++
	days, ok := civil(s)
	if !ok {
		if err == nil {
			return failf("%q is accepted as %v", s, got)
		}
		t.Outcomef("error")
		return nil
	}
	if err != nil {
		return failf("date %q is refused: %v", s, err)
	}
	if got.Unix() != days*86400 || got.Nanosecond() != 0 {
		return failf("date %q denotes %v (%d), expected %d", s, got, got.Unix(), days*86400)
	}
	if off(got) != 0 {
		return failf("date %q is not in UTC: %v", s, got)
	}
	t.Outcomef("%d", days)
	return nil
}

// civil: days since 1970-01-01 of a valid YYYY-MM-DD, computed without the time package.
func civil(s string) (int64, bool) {
	if len(s) != 10 || s[4] != '-' || s[7] != '-' {
		return 0, false
	}
	num := func(a, b int) int {
		n := 0
		for i := a; i < b; i++ {
			if s[i] < '0' || s[i] > '9' {
				return math.MinInt32
			}
			n = n*10 + int(s[i]-'0')
		}
		return n
	}
	y, m, d := num(0, 4), num(5, 7), num(8, 10)
	if y < 0 || m < 1 || m > 12 || d < 1 {
		return 0, false
	}
	leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
	lens := [12]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap {
		lens[1] = 29
	}
	if d > lens[m-1] {
		return 0, false
	}
	days := 0
	for k := 0; k < y; k++ {
		days += 365
		if k%4 == 0 && (k%100 != 0 || k%400 == 0) {
			days++
		}
	}
	for k := 0; k < m-1; k++ {
		days += lens[k]
	}
	return int64(days+d-1) - 719528, true
}
