//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"SIMMODULE/simrt"
)

// digest is a content hash of a value of any type; it sees unexported fields
// and follows pointers. Functions hash by nil-ness only.
func digest(v reflect.Value) uint64 { return digestInto(0x9e37, v, 0) }

func digestOf(x any) uint64 { return digest(reflect.ValueOf(x)) }

func digestInto(h uint64, v reflect.Value, depth int) uint64 {
	if depth > 40 {
		return h
	}
	if !v.IsValid() {
		return simrt.Mix(h, 0xdead)
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return simrt.Mix(h, 1)
		}
		return simrt.Mix(h, 2)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return simrt.Mix(h, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return simrt.Mix(h, v.Uint())
	case reflect.Float32, reflect.Float64:
		return simrt.Mix(h, math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		return simrt.Mix(h, math.Float64bits(real(v.Complex())), math.Float64bits(imag(v.Complex())))
	case reflect.String:
		return simrt.MixString(h, v.String())
	case reflect.Slice:
		n := v.Len()
		h = simrt.Mix(h, uint64(n), 7)
		if n == 0 {
			return h
		}
		p := v.UnsafePointer()
		switch v.Type().Elem().Kind() {
		case reflect.Uint32:
			for _, x := range unsafe.Slice((*uint32)(p), n) {
				h = step(h, uint64(x))
			}
			return h
		case reflect.Uint64, reflect.Int, reflect.Int64, reflect.Float64:
			for _, x := range unsafe.Slice((*uint64)(p), n) {
				h = step(h, x)
			}
			return h
		case reflect.Uint8:
			for _, x := range unsafe.Slice((*byte)(p), n) {
				h = step(h, uint64(x))
			}
			return h
		}
		for i := 0; i < n; i++ {
			h = digestInto(h, v.Index(i), depth+1)
		}
		return h
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h = digestInto(h, v.Index(i), depth+1)
		}
		return h
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h = digestInto(h, v.Field(i), depth+1)
		}
		return h
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return simrt.Mix(h, 3)
		}
		return digestInto(simrt.Mix(h, 4), v.Elem(), depth+1)
	case reflect.Map:
		var hs []uint64
		for _, k := range v.MapKeys() {
			hs = append(hs, digestInto(digestInto(11, k, depth+1), v.MapIndex(k), depth+1))
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		return simrt.Mix(append(hs, h, uint64(len(hs)))...)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			return simrt.Mix(h, 5)
		}
		return simrt.Mix(h, 6)
	}
	return h
}

func step(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	return h ^ h>>29
}

// clone deep-copies slices, arrays, structs, pointers and maps reachable from v.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	cloneInto(out, v)
	return out
}

func cloneOf[X any](x X) X { return clone(reflect.ValueOf(&x).Elem()).Interface().(X) }

func writable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func readable(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func plainKind(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Complex128 || k == reflect.String
}

func cloneInto(dst, src reflect.Value) {
	dst = writable(dst)
	switch src.Kind() {
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := src.Len()
		s := reflect.MakeSlice(src.Type(), n, n)
		if plainKind(src.Type().Elem().Kind()) {
			reflect.Copy(s, readable(src))
		} else {
			for i := 0; i < n; i++ {
				cloneInto(s.Index(i), src.Index(i))
			}
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			cloneInto(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		if !src.CanAddr() {
			t := reflect.New(src.Type()).Elem()
			t.Set(src)
			src = t
		}
		for i := 0; i < src.NumField(); i++ {
			cloneInto(dst.Field(i), readable(src.Field(i)))
		}
	case reflect.Pointer:
		if src.IsNil() {
			return
		}
		p := reflect.New(src.Type().Elem())
		cloneInto(p.Elem(), src.Elem())
		dst.Set(p)
	case reflect.Map:
		if src.IsNil() {
			return
		}
		m := reflect.MakeMapWithSize(src.Type(), src.Len())
		keys := src.MapKeys()
		for _, k := range keys {
			e := reflect.New(src.Type().Elem()).Elem()
			cloneInto(e, src.MapIndex(k))
			m.SetMapIndex(k, e)
		}
		dst.Set(m)
	default:
		dst.Set(readable(src))
	}
}

// typeName is the bare name of a possibly generic named type.
func typeName(t reflect.Type) string {
	n := t.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}

// typeKey is package-qualified typeName.
func typeKey(t reflect.Type) string {
	p := t.PkgPath()
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		p = p[i+1:]
	}
	if p == "" {
		return t.String()
	}
	return p + "." + typeName(t)
}

// fill writes pseudo-random contents into every torus, float or boolean slot of
// v, leaving lengths and parameter structures as they are.
func fill(v reflect.Value, rng *simrt.Rng) {
	v = writable(v)
	switch v.Kind() {
	case reflect.Uint32, reflect.Uint64, reflect.Uint8:
		v.SetUint(rng.Uint64() >> (64 - v.Type().Bits()))
	case reflect.Float64:
		v.SetFloat(float64(int64(rng.Uint64()))/math.Exp2(61) + 1.0/1024)
	case reflect.Complex128:
		v.SetComplex(complex(float64(int64(rng.Uint64()))/math.Exp2(61), float64(int64(rng.Uint64()))/math.Exp2(61)))
	case reflect.Int:
		v.SetInt(int64(rng.Intn(1 << 20)))
	case reflect.Bool:
		v.SetBool(rng.Intn(2) == 1)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), rng)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), rng)
		}
	case reflect.Struct:
		if n := typeName(v.Type()); strings.HasSuffix(n, "Parameters") || strings.HasSuffix(n, "Literal") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			fill(v.Field(i), rng)
		}
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() && v.Kind() == reflect.Pointer {
			fill(v.Elem(), rng)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			e := clone(v.MapIndex(k))
			fill(e, rng)
			v.SetMapIndex(k, e)
		}
	}
}

// fillAny fills *p.
func fillAny(p any, seed uint64) { fill(reflect.ValueOf(p).Elem(), simrt.NewRng(seed)) }

// approx compares two values of the same type: torus integers by circular
// distance, floats relatively, the rest exactly.
func approx(a, b reflect.Value) (bool, string) {
	switch a.Kind() {
	case reflect.Uint32:
		d := int32(uint32(a.Uint()) - uint32(b.Uint()))
		if d < 0 {
			d = -d
		}
		return d >= 0 && d <= 1<<16, fmt.Sprintf("%d vs %d", a.Uint(), b.Uint())
	case reflect.Uint64:
		d := int64(a.Uint() - b.Uint())
		if d < 0 {
			d = -d
		}
		return d >= 0 && d <= 1<<48, fmt.Sprintf("%d vs %d", a.Uint(), b.Uint())
	case reflect.Float64:
		x, y := a.Float(), b.Float()
		if x == y || math.IsNaN(x) && math.IsNaN(y) {
			return true, ""
		}
		return math.Abs(x-y) <= 1e-6*(1+math.Abs(x)+math.Abs(y)), fmt.Sprintf("%g vs %g", x, y)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false, fmt.Sprintf("length %d vs %d", a.Len(), b.Len())
		}
		if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Float64 {
			m := 0.0
			for i := 0; i < a.Len(); i++ {
				m = math.Max(m, math.Abs(a.Index(i).Float()))
			}
			for i := 0; i < a.Len(); i++ {
				if d := math.Abs(a.Index(i).Float() - b.Index(i).Float()); !(d <= 1e-6*(1+m)) {
					return false, fmt.Sprintf("[%d] %g vs %g", i, a.Index(i).Float(), b.Index(i).Float())
				}
			}
			return true, ""
		}
		for i := 0; i < a.Len(); i++ {
			if ok, w := approx(a.Index(i), b.Index(i)); !ok {
				return false, fmt.Sprintf("[%d]%s", i, w)
			}
		}
		return true, ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if ok, w := approx(a.Field(i), b.Field(i)); !ok {
				return false, "." + a.Type().Field(i).Name + w
			}
		}
		return true, ""
	}
	return digest(a) == digest(b), " differs"
}

// where describes the first difference between two equal-typed values.
func where(a, b reflect.Value) string {
	if a.Kind() != b.Kind() {
		return "kind"
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf(": length %d vs %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if digest(a.Index(i)) != digest(b.Index(i)) {
				return fmt.Sprintf("[%d]%s", i, where(a.Index(i), b.Index(i)))
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if digest(a.Field(i)) != digest(b.Field(i)) {
				return "." + a.Type().Field(i).Name + where(a.Field(i), b.Field(i))
			}
		}
	default:
		if plainKind(a.Kind()) {
			return fmt.Sprintf(": %v vs %v", a, b)
		}
	}
	return ""
}
