//go:build go1.22

package main

import (
	"encoding/json"
	"os"
	"reflect"
	"strings"

	"SIMMODULE/simrt"
)

// genAlias finds, on the current sources, which destinations may coincide with
// which input without changing the result.
func genAlias() {
	tried, bad := map[string]int{}, map[string]int{}
	for seed := uint64(1); seed <= 300; seed++ {
		for ki, kind := range worldKinds {
			c := newCtx("alias", seed*16+uint64(ki))
			simrt.Run(simrt.Config{Seed: seed}, func() {
				w := newWorld(c, kind)
				for _, name := range w.actors {
					a := w.actor(name)
					for _, op := range a.ops() {
						cl, ok := a.prepareCall(c, op)
						if !ok || cl.destIdx < 0 || cl.mode == destInOut {
							continue
						}
						for j := range cl.args {
							if j == cl.destIdx || !aliasable(cl.args[cl.destIdx], cl.args[j]) {
								continue
							}
							ref, got := aliasRun(w, name, cl, j)
							if ref.panicked != "" {
								continue
							}
							k := aliasKey(name, op, j)
							tried[k]++
							if got.panicked != "" || digest(got.dest) != digest(ref.dest) {
								bad[k]++
							}
						}
					}
				}
			})
		}
	}
	out := map[string]bool{}
	for k, n := range tried {
		if n >= 10 {
			out[k] = bad[k] == 0
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"ok": out, "bad": bad})
}

func aliasKey(name string, op opDesc, j int) string {
	return name + "/" + op.String() + "/" + string(rune('0'+j))
}

// aliasable says whether two arguments can be the same object.
func aliasable(d, x reflect.Value) bool {
	if d.Type() != x.Type() || plainKind(d.Kind()) || d.Kind() == reflect.Func {
		return false
	}
	return sameShape(d, x)
}

func sameShape(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		return a.Len() == 0 || sameShape(a.Index(0), b.Index(0))
	case reflect.Struct:
		if strings.HasSuffix(typeName(a.Type()), "Parameters") {
			return digest(a) == digest(b)
		}
		for i := 0; i < a.NumField(); i++ {
			if !sameShape(a.Field(i), b.Field(i)) {
				return false
			}
		}
	}
	return true
}

// aliasRun executes a call with a separate destination and with the destination
// being argument j, on fresh objects.
func aliasRun(w *world, name string, cl *call, j int) (ref, got outcome) {
	d := clone(cl.args[j])
	ref = w.actor(name).exec(cl, d, false)
	x := clone(cl.args[j])
	al := *cl
	al.args = append([]reflect.Value(nil), cl.args...)
	al.args[j] = x
	b := w.actor(name)
	got = b.execAlias(&al, x, j)
	return
}

// execAlias runs the call with argument j and the destination being x.
func (a *actor) execAlias(cl *call, x reflect.Value, j int) outcome {
	m, ok := a.method(cl.op)
	if !ok {
		return outcome{panicked: "missing"}
	}
	var o outcome
	for i, t := range cl.args {
		switch {
		case i == cl.destIdx || i == j:
			o.args = append(o.args, x)
		case t.Kind() == reflect.Func || plainKind(t.Kind()):
			o.args = append(o.args, t)
		default:
			o.args = append(o.args, clone(t))
		}
	}
	o.dest = x
	if p := catch(func() { o.rets = m.Call(o.args) }); p != nil {
		o.panicked = "panic"
		o.hash = simrt.MixString(1, "panic")
		return o
	}
	o.hash = o.result()
	return o
}
