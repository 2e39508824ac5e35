package main

import (
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"time"
)

// digestOf summarises everything a caller can see of values: exported fields, elements, what pointers lead to.
// With spare, also the elements between the length and the capacity of slices.
func digestOf(spare bool, vals ...interface{}) string {
	d := &dumper{spare: spare, seen: map[uintptr]bool{}}
	for _, v := range vals {
		d.val(reflect.ValueOf(v), 0)
	}
	s := sha256.Sum256(d.w)
	return hex.EncodeToString(s[:6])
}

type dumper struct {
	w     []byte
	spare bool
	seen  map[uintptr]bool
}

func (d *dumper) p(f string, a ...interface{}) {
	if len(a) == 0 {
		d.w = append(d.w, f...)
		return
	}
	d.w = fmt.Appendf(d.w, f, a...)
}

func (d *dumper) val(v reflect.Value, depth int) {
	if depth > 40 {
		d.p("deep;")
		return
	}
	if !v.IsValid() {
		d.p("nil;")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case *big.Int:
			if x == nil {
				d.p("nil;")
			} else {
				d.w = append(x.Append(d.w, 62), ';')
			}
			return
		case big.Int:
			d.w = append(x.Append(d.w, 62), ';')
			return
		case time.Time:
			_, off := x.Zone()
			d.p("time %d %d %d;", x.Unix(), x.Nanosecond(), off)
			return
		case *url.URL:
			if x == nil {
				d.p("nil;")
			} else {
				d.p("url %q;", x.String())
			}
			return
		case elliptic.Curve:
			if isNil(x) {
				d.p("nil;")
				return
			}
			if holdsCurve(v.Type()) {
				break // a key, which is a curve because it embeds one
			}
			p := x.Params()
			d.p("curve %s %s %s %s %s %s %d;", p.Name, p.P.Text(16), p.N.Text(16), p.B.Text(16), p.Gx.Text(16), p.Gy.Text(16), p.BitSize)
			return
		case error:
			if !isNil(x) {
				d.p("error %q;", x.Error())
				return
			}
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.p("nil;")
			return
		}
		if d.seen[v.Pointer()] && v.Elem().Kind() == reflect.Struct {
			d.p("again;")
			return
		}
		d.seen[v.Pointer()] = true
		d.p("&")
		d.val(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			d.p("nil;")
			return
		}
		d.p("%s:", v.Elem().Type())
		d.val(v.Elem(), depth+1)
	case reflect.Struct:
		d.p("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue // not visible
			}
			d.w = append(append(d.w, v.Type().Field(i).Name...), '=')
			d.val(v.Field(i), depth+1)
		}
		d.p("}")
	case reflect.Slice:
		n := v.Len()
		if v.IsNil() {
			d.p("none;")
			return
		}
		w := v
		if d.spare && v.Cap() > n {
			w = v.Slice(0, v.Cap())
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			d.w = append(strconv.AppendInt(d.w, int64(n), 10), ':')
			d.w = append(d.w, w.Bytes()...)
			return
		}
		d.p("%d[", n)
		for i := 0; i < w.Len(); i++ {
			d.val(w.Index(i), depth+1)
		}
		d.p("]")
	case reflect.Array:
		d.p("[")
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i), depth+1)
		}
		d.p("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		d.p("map[")
		for _, k := range keys {
			d.val(k, depth+1)
			d.val(v.MapIndex(k), depth+1)
		}
		d.p("]")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		d.p("opaque;")
	case reflect.String:
		d.w = strconv.AppendQuote(d.w, v.String())
	case reflect.Bool:
		d.p("%v;", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.w = append(strconv.AppendInt(d.w, v.Int(), 10), ';')
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.p("%d;", v.Uint())
	default:
		d.p("%v;", v)
	}
}

// holdsCurve tells the types that embed a curve, keys, from curves
func holdsCurve(t reflect.Type) bool {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.Type == reflect.TypeOf((*elliptic.Curve)(nil)).Elem() || f.Anonymous && f.Type.Kind() == reflect.Struct && holdsCurve(f.Type) {
			return true
		}
	}
	return false
}

// scribbler changes everything that can be changed in a value through what is exported of it; done a second time, it undoes this
type scribbler struct {
	seen map[uintptr]bool
}

func scribble(v interface{}) { (&scribbler{map[uintptr]bool{}}).val(reflect.ValueOf(v), 0) }

func (s *scribbler) once(p uintptr) bool {
	if s.seen[p] {
		return false
	}
	s.seen[p] = true
	return true
}

func (s *scribbler) val(v reflect.Value, depth int) {
	if depth > 40 || !v.IsValid() {
		return
	}
	if v.CanInterface() && v.Kind() != reflect.Interface {
		if _, ok := v.Interface().(elliptic.Curve); ok && !holdsCurve(v.Type()) {
			return // there is one of each, as in the standard library
		}
	}
	switch x := v; x.Kind() {
	case reflect.Interface:
		if !x.IsNil() {
			s.val(x.Elem(), depth+1)
		}
	case reflect.Ptr:
		if x.IsNil() {
			return
		}
		if x.CanInterface() {
			switch y := x.Interface().(type) {
			case *big.Int:
				for i, w := range y.Bits() {
					if s.once(reflect.ValueOf(&y.Bits()[i]).Pointer()) {
						y.Bits()[i] = w ^ 0x5555
					}
				}
				return
			case error:
				return
			}
		}
		if x.Elem().Kind() == reflect.Struct && !s.once(x.Pointer()) {
			return
		}
		s.val(x.Elem(), depth+1)
	case reflect.Struct:
		if _, ok := x.Interface().(time.Time); ok {
			return
		}
		for i := 0; i < x.NumField(); i++ {
			if x.Type().Field(i).PkgPath == "" {
				s.val(x.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if x.Type().Elem().Kind() == reflect.Uint8 {
			for i, b := range x.Bytes() {
				if p := x.Index(i).Addr().Pointer(); s.once(p) {
					x.Bytes()[i] = b ^ 0x55
				}
			}
			return
		}
		for i := 0; i < x.Len(); i++ {
			s.val(x.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < x.Len(); i++ {
			s.val(x.Index(i), depth+1)
		}
	case reflect.Map:
		if x.Type().Key().Kind() == reflect.String && !x.IsNil() {
			k, e := reflect.ValueOf("scribbled").Convert(x.Type().Key()), reflect.Zero(x.Type().Elem())
			if x.MapIndex(k).IsValid() {
				e = reflect.Value{}
			}
			x.SetMapIndex(k, e)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if x.CanSet() && s.once(x.Addr().Pointer()) {
			x.SetInt(x.Int() ^ 1)
		}
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if x.CanSet() && s.once(x.Addr().Pointer()) {
			x.SetUint(x.Uint() ^ 1)
		}
	}
}
