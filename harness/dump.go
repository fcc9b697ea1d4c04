package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
)

var timeType = reflect.TypeOf(time.Time{})

// dumpOpt selects what a deep dump contains.
type dumpOpt struct {
	hide bool            // what cannot be seen of the library's values (unexported fields) too
	caps bool            // capacities and hidden tails of slices too
	skip map[string]bool // struct fields to leave out ("Type.Field")
}

// deep appends a canonical dump of a value. Unexported fields of the library's types are only
// included on request: they tell states apart, but what they hold is the library's business.
func deep(b []byte, x any, o *dumpOpt) []byte {
	return deepV(b, reflect.ValueOf(x), o, 0)
}

func deepV(b []byte, v reflect.Value, o *dumpOpt, lvl int) []byte {
	if !v.IsValid() {
		return append(b, 'n')
	}
	if lvl > 24 {
		return append(b, '!')
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(b, 'T')
		}
		return append(b, 'F')
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return binary.LittleEndian.AppendUint64(append(b, 'i'), uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return binary.LittleEndian.AppendUint64(append(b, 'u'), v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == 0 {
			f = 0 // -0 and 0 are the same state
		}
		return binary.LittleEndian.AppendUint64(append(b, 'f'), math.Float64bits(f))
	case reflect.String:
		s := v.String()
		b = binary.LittleEndian.AppendUint32(append(b, 's'), uint32(len(s)))
		return append(b, s...)
	case reflect.Slice:
		if v.IsNil() {
			return append(b, 'Z')
		}
		n := v.Len()
		b = binary.LittleEndian.AppendUint32(append(b, '['), uint32(n))
		if o != nil && o.caps {
			b = binary.LittleEndian.AppendUint32(b, uint32(v.Cap()))
			v = v.Slice(0, v.Cap())
			n = v.Cap()
		}
		for i := 0; i < n; i++ {
			b = deepV(b, v.Index(i), o, lvl+1)
		}
		return b
	case reflect.Array:
		b = append(b, '(')
		for i := 0; i < v.Len(); i++ {
			b = deepV(b, v.Index(i), o, lvl+1)
		}
		return b
	case reflect.Struct:
		t := v.Type()
		if t == timeType {
			// wall clock and instant; the location pointer is not followed
			b = binary.LittleEndian.AppendUint64(append(b, 't'), v.Field(0).Uint())
			return binary.LittleEndian.AppendUint64(b, uint64(v.Field(1).Int()))
		}
		b = append(b, '{')
		for i := 0; i < v.NumField(); i++ {
			if o != nil && o.skip != nil && o.skip[t.Name()+"."+t.Field(i).Name] {
				continue
			}
			if !t.Field(i).IsExported() && (o == nil || !o.hide) && strings.Contains(t.PkgPath(), "vanclief/finmod") {
				continue
			}
			b = deepV(b, v.Field(i), o, lvl+1)
		}
		return append(b, '}')
	case reflect.Map:
		if v.IsNil() {
			return append(b, 'z')
		}
		type kv struct{ k, e string }
		var es []kv
		it := v.MapRange()
		for it.Next() {
			es = append(es, kv{string(deepV(nil, it.Key(), o, lvl+1)), string(deepV(nil, it.Value(), o, lvl+1))})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		b = binary.LittleEndian.AppendUint32(append(b, 'm'), uint32(len(es)))
		for _, e := range es {
			b = append(append(b, e.k...), e.e...)
		}
		return b
	case reflect.Ptr:
		if v.IsNil() {
			return append(b, 'p')
		}
		return deepV(append(b, 'P'), v.Elem(), o, lvl+1)
	case reflect.Interface:
		if v.IsNil() {
			return append(b, 'q')
		}
		return deepV(append(append(b, 'Q'), v.Elem().Type().String()...), v.Elem(), o, lvl+1)
	default:
		return append(b, fmt.Sprintf("<%s>", v.Kind())...)
	}
}

// same reports equality of all that can be seen.
func same(a, b any) bool { return string(deep(nil, a, nil)) == string(deep(nil, b, nil)) }

// hidden is a dump of what cannot be seen of a struct, "" if there is nothing.
func hidden(p any) (s string) {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if !v.Type().Field(i).IsExported() {
			s += string(deepV(nil, v.Field(i), &dumpOpt{hide: true}, 0))
		}
	}
	return s
}
