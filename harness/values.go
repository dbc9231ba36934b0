package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/simrt"
	"github.com/sp301415/tfhe-go/tfhe"
)

// S04: copies of values. Threads own pools of keys, ciphertexts and tables;
// each runs a history of copying, overwriting, clearing, reloading and
// scribbling, with its own objects as destinations and shared ones as sources.
// The model of an object is a deep clone made by the harness.

func init() {
	register("S04", true, func(c *Ctx) { either(c, s04[uint32], s04[uint64]) })
}

type valueKind struct {
	name string
	mk   func() any // a zero object of the drawn shape, by pointer
}

// drawValueKind draws a kind of value and fixes its shape.
func drawValueKind[T tfhe.TorusInt](c *Ctx) valueKind {
	s := shapes[T]{c}
	switch c.Int(8) {
	case 7:
		e, N := 1+c.Int(3), s.poly()
		return valueKind{"LookUpTable", func() any { return ptr(tfhe.NewLUTCustom[T](e, N)) }}
	case 6:
		N := s.poly()
		if c.Int(2) == 1 {
			return valueKind{"Poly", func() any { return ptr(poly.NewPoly[T](N)) }}
		}
		return valueKind{"FFTPoly", func() any { return ptr(poly.NewFFTPoly(N)) }}
	}
	ks := storeKinds[T]()
	for {
		k := ks[c.Int(len(ks))]
		o := k.mk(s)
		if _, ok := reflect.TypeOf(o).MethodByName("CopyFrom"); !ok {
			continue
		}
		// Later objects of the kind have the shape of the first one, with the
		// sharing between the parts that the constructor sets up.
		first := o
		return valueKind{k.name, func() any { return shapeClone(first) }}
	}
}

// shapeClone copies an object including the sharing of memory inside of it.
func shapeClone(o any) any {
	out := reflect.New(reflect.TypeOf(o).Elem())
	shareClone(out.Elem(), reflect.ValueOf(o).Elem(), map[uintptr]reflect.Value{}, sliceBases(reflect.ValueOf(o).Elem()))
	return out.Interface()
}

// leafSlices walks the numeric slices of a value in order.
func leafSlices(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Uint32, reflect.Uint64, reflect.Float64, reflect.Int, reflect.Int64:
			f(v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			leafSlices(v.Index(i), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leafSlices(v.Field(i), f)
		}
	}
}

type span struct{ lo, hi uintptr }

// sliceBases finds the maximal memory ranges behind the numeric slices.
func sliceBases(v reflect.Value) []span {
	var l []span
	leafSlices(v, func(s reflect.Value) {
		if s.Len() == 0 {
			return
		}
		lo := s.Pointer()
		l = append(l, span{lo, lo + uintptr(s.Len())*s.Type().Elem().Size()})
	})
	var m []span
	for _, a := range l {
		inside := false
		for _, b := range l {
			if b != a && b.lo <= a.lo && a.hi <= b.hi {
				inside = true
			}
		}
		for _, b := range m {
			inside = inside || a == b
		}
		if !inside {
			m = append(m, a)
		}
	}
	return m
}

func shareClone(dst, src reflect.Value, seen map[uintptr]reflect.Value, bases []span) {
	dst = writable(dst)
	switch src.Kind() {
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		switch src.Type().Elem().Kind() {
		case reflect.Uint32, reflect.Uint64, reflect.Float64:
			if src.Len() == 0 {
				dst.Set(reflect.MakeSlice(src.Type(), 0, 0))
				return
			}
			sz := src.Type().Elem().Size()
			for _, b := range bases {
				if b.lo <= src.Pointer() && src.Pointer() < b.hi {
					base, ok := seen[b.lo]
					if !ok {
						base = reflect.MakeSlice(src.Type(), int((b.hi-b.lo)/sz), int((b.hi-b.lo)/sz))
						seen[b.lo] = base
					}
					at := int((src.Pointer() - b.lo) / sz)
					part := base.Slice3(at, at+src.Len(), at+src.Len())
					reflect.Copy(part, readable(src))
					dst.Set(part.Convert(src.Type()))
					return
				}
			}
			panic("slice without memory")
		}
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			shareClone(dst.Index(i), src.Index(i), seen, bases)
		}
	case reflect.Struct:
		if n := typeName(src.Type()); n == "GadgetParameters" || n == "Parameters" {
			dst.Set(readable(src))
			return
		}
		for i := 0; i < src.NumField(); i++ {
			shareClone(dst.Field(i), src.Field(i), seen, bases)
		}
	default:
		dst.Set(readable(src))
	}
}

// overlap reports memory that two objects share.
func overlap(a, b any) bool {
	x, y := sliceBases(reflect.ValueOf(a).Elem()), sliceBases(reflect.ValueOf(b).Elem())
	m := map[uintptr]bool{}
	for _, s := range x {
		m[s.lo] = true
	}
	for _, s := range y {
		if m[s.lo] {
			return true
		}
	}
	return false
}

// clearModel clears the model: every number except the gadget and other parameters.
func clearModel(v reflect.Value) {
	v = writable(v)
	switch v.Kind() {
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(0)
	case reflect.Float64:
		v.SetFloat(0)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			clearModel(v.Index(i))
		}
	case reflect.Struct:
		if n := typeName(v.Type()); n == "Parameters" || n == "GadgetParameters" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			clearModel(v.Field(i))
		}
	}
}

// regadget gives an object other gadget parameters of the same levels, as a
// ciphertext of the same shape made for another base has.
func regadget[T tfhe.TorusInt](c *Ctx, o any) {
	repl := map[uint64]tfhe.GadgetParameters[T]{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		v = writable(v)
		switch v.Kind() {
		case reflect.Slice, reflect.Array:
			if k := v.Type().Elem().Kind(); k == reflect.Struct || k == reflect.Slice || k == reflect.Array {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case reflect.Struct:
			if g, ok := v.Interface().(tfhe.GadgetParameters[T]); ok {
				d := digest(v)
				if _, ok := repl[d]; !ok {
					repl[d] = gad[T](1+c.Int(sizeT[T]()/g.Level()-1), g.Level()).Compile()
				}
				v.Set(reflect.ValueOf(repl[d]))
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(o).Elem())
}

type value struct {
	id    string
	o     any // pointer
	model any
	gone  bool // replaced
}

func snapshot(o any) any {
	out := reflect.New(reflect.TypeOf(o).Elem())
	cloneInto(out.Elem(), reflect.ValueOf(o).Elem())
	return out.Interface()
}

// scribble changes an object in place: all of it, or single slots.
func scribble(o any, seed uint64) {
	r := simrt.NewRng(seed)
	if r.Intn(2) == 0 {
		extremes(reflect.ValueOf(o).Elem(), r, 1+r.Intn(3))
		return
	}
	var l []reflect.Value
	leafSlices(reflect.ValueOf(o).Elem(), func(s reflect.Value) {
		if s.Len() > 0 {
			l = append(l, s)
		}
	})
	for k := 0; k < 3 && len(l) > 0; k++ {
		s := l[r.Intn(len(l))]
		e := writable(s.Index([]int{0, s.Len() - 1, r.Intn(s.Len())}[r.Intn(3)]))
		switch e.Kind() {
		case reflect.Float64:
			e.SetFloat(e.Float() + float64(1+r.Intn(1000)))
		case reflect.Uint32, reflect.Uint64:
			e.SetUint((e.Uint() + 1 + uint64(r.Intn(1000))) & (1<<uint(e.Type().Bits()-1)<<1 - 1))
		}
	}
}

func s04[T tfhe.TorusInt](c *Ctx) {
	kinds := 1 + c.Int(2)
	workers := []int{1, 2, 3}[c.Int(3)]
	ops := 4 + c.Int(20)
	type group struct {
		k      valueKind
		shared []*value
	}
	var gs []*group
	var names []string
	for i := 0; i < kinds; i++ {
		g := &group{k: drawValueKind[T](c)}
		for j := 0; j <= c.Int(2); j++ {
			o := g.k.mk()
			if j > 0 && c.Int(2) == 1 {
				regadget[T](c, o)
			}
			fillAny(o, c.DataSeed())
			g.shared = append(g.shared, &value{id: fmt.Sprintf("shared %s %d", g.k.name, j), o: o, model: snapshot(o)})
		}
		gs = append(gs, g)
		names = append(names, g.k.name)
	}
	c.Desc("%d-bit values %v, %d threads, %d operations each", sizeT[T](), names, workers, ops)
	c.nontrivial = true

	type step struct {
		op, g, a, b int
		seed        uint64
		ch          *chunker
	}
	plans := make([][]step, workers)
	for w := range plans {
		for i := 0; i < ops; i++ {
			plans[w] = append(plans[w], step{op: []int{0, 0, 1, 1, 2, 3, 3, 4}[c.Int(8)], g: c.Int(kinds), a: c.Int(1 << 16), b: c.Int(1 << 16), seed: c.DataSeed(), ch: drawChunker(c)})
		}
	}
	check := func(vs []*value, after string) {
		for _, v := range vs {
			a, b := reflect.ValueOf(v.o).Elem(), reflect.ValueOf(v.model).Elem()
			if digest(a) != digest(b) {
				c.Failf("value:"+typeName(a.Type()), "%s is wrong after %s: differs at %s", v.id, after, where(a, b))
			}
		}
	}
	run := func(w int) []*value {
		own := make([][]*value, kinds)
		var all []*value
		for _, s := range plans[w] {
			g := gs[s.g]
			pool := append(append([]*value{}, g.shared...), own[s.g]...)
			src := pool[s.a%len(pool)]
			op := s.op
			if len(own[s.g]) == 0 && op > 0 {
				op = 0
			}
			var dst *value
			if op > 0 {
				dst = own[s.g][s.b%len(own[s.g])]
			}
			what := ""
			switch op {
			case 0:
				if len(own[s.g]) >= 4 {
					continue
				}
				d := &value{id: fmt.Sprintf("thread %d's %s %d", w, g.k.name, len(own[s.g]))}
				what = fmt.Sprintf("copying %s to %s", src.id, d.id)
				r := reflect.ValueOf(src.o).MethodByName("Copy").Call(nil)[0]
				p := reflect.New(r.Type())
				p.Elem().Set(r)
				d.o, d.model = p.Interface(), snapshot(src.model)
				if reflect.TypeOf(d.o) != reflect.TypeOf(src.o) {
					c.Failf("type:"+g.k.name, "the copy of %s is a %T", src.id, d.o)
				}
				if overlap(d.o, src.o) {
					c.Failf("shared:"+g.k.name, "%s shares memory with its copy", src.id)
				}
				own[s.g] = append(own[s.g], d)
				all = append(all, d)
			case 1:
				what = fmt.Sprintf("copying %s into %s", src.id, dst.id)
				reflect.ValueOf(dst.o).MethodByName("CopyFrom").Call([]reflect.Value{reflect.ValueOf(src.o).Elem()})
				dst.model = snapshot(src.model)
			case 2:
				m := reflect.ValueOf(dst.o).MethodByName("Clear")
				if !m.IsValid() {
					continue
				}
				what = "clearing " + dst.id
				m.Call(nil)
				dst.model = snapshot(dst.model)
				clearModel(reflect.ValueOf(dst.model).Elem())
			case 3:
				what = "changing " + dst.id
				scribble(dst.o, s.seed)
				dst.model = snapshot(dst.o)
			case 4:
				wr, ok := src.o.(storable)
				if !ok {
					continue
				}
				what = fmt.Sprintf("storing %s and loading it into %s", src.id, dst.id)
				var b bytes.Buffer
				if _, err := wr.WriteTo(&b); err != nil {
					c.Failf("write:"+g.k.name, "%s cannot be written: %v", src.id, err)
				}
				rd := &simReader{data: b.Bytes(), limit: -1, ch: s.ch}
				if _, err := dst.o.(storable).ReadFrom(rd); err != nil {
					c.Failf("read:"+g.k.name, "%s cannot be read back: %v", src.id, err)
				}
				dst.model = snapshot(src.model)
			}
			c.Count([]string{"copies", "copies into an existing object", "objects cleared", "objects changed", "objects reloaded"}[op])
			c.Cover(g.k.name, op, src == dst, len(own[s.g]))
			check(all, what)
		}
		return all
	}
	res := make([][]*value, workers)
	c.Sim(SimOpts{Name: "copies", Est: int64(workers*ops) * 2000}, func() {
		var fs []func()
		for w := range plans {
			w := w
			fs = append(fs, func() { res[w] = run(w) })
		}
		threads(fs...)
	})
	for _, l := range res {
		check(l, "all operations")
		for _, v := range l {
			c.Note(digestOf(v.o))
		}
	}
	for _, g := range gs {
		check(g.shared, "all operations")
	}
}
