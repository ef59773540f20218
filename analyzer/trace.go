package main

import (
	"fmt"
	"strings"
)

// The trace of a build is the ordered list of everything the code asks of the constraint-system
// builder, operands named by the call that produced them. Builds with equal traces give equal
// constraint systems: the builder sees the same calls.
type trace struct {
	on      bool
	entries []string
	pos     []string
	name    map[*VarInst]string
	saved   map[string]*trace
}

func (it *Interp) traceRef(v V, depth int) string {
	if depth > 12 {
		return "…"
	}
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return it.traceRef(x.v, depth+1)
	case *VarInst:
		if n, ok := it.tr.name[x]; ok {
			return n
		}
		return fmt.Sprintf("t%d", x.t.id)
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case *Agg:
		var l []string
		for _, e := range x.e {
			l = append(l, it.traceRef(e, depth+1))
		}
		return "{" + strings.Join(l, " ") + "}"
	case Slice:
		if x.arr == nil {
			return "[]"
		}
		var l []string
		for _, e := range it.sliceVals(x) {
			l = append(l, it.traceRef(e, depth+1))
		}
		return "[" + strings.Join(l, " ") + "]"
	case Tuple:
		var l []string
		for _, e := range x {
			l = append(l, it.traceRef(e, depth+1))
		}
		return "(" + strings.Join(l, ", ") + ")"
	case I:
		return fmt.Sprint(uint64(x))
	case GlV:
		return fmt.Sprint(uint64(x))
	case string, bool, float64:
		return fmt.Sprint(x)
	case BigV:
		if x.k != nil {
			return x.k.String()
		}
		return fmt.Sprintf("t%d", x.t.id)
	case *FuncV:
		if x == nil {
			return "nil"
		}
		return "func " + x.name
	case Ptr:
		if x.c == nil {
			return "nil"
		}
		if b, ok := x.c.val.(BigV); ok {
			return it.traceRef(b, depth+1)
		}
		return "ptr"
	case *Merged:
		return fmt.Sprintf("if t%d %s %s", x.c.id, it.traceRef(x.a, depth+1), it.traceRef(x.b, depth+1))
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

func (it *Interp) traceName(v V, name string) {
	switch x := v.(type) {
	case Iface:
		if x.t != nil {
			it.traceName(x.v, name)
		}
	case *VarInst:
		if _, ok := it.tr.name[x]; !ok {
			it.tr.name[x] = name
		}
	case *Agg:
		for i, e := range x.e {
			it.traceName(e, fmt.Sprint(name, ".", i))
		}
	case Tuple:
		for i, e := range x {
			it.traceName(e, fmt.Sprint(name, ".", i))
		}
	case Slice:
		if x.arr != nil {
			for i, e := range it.sliceVals(x) {
				it.traceName(e, fmt.Sprint(name, ".", i))
			}
		}
	}
}

// traced runs one call of the builder (or of a gadget replaced by its contract).
func (it *Interp) traced(name string, c *callCtx, f func() V) V {
	if !it.tr.on {
		return f()
	}
	switch name {
	case "api.Compiler", "api.Field", "api.FieldBitLen":
		return f()
	}
	var l []string
	for _, a := range c.args {
		if i, ok := a.(Iface); ok {
			if o, ok := i.v.(*Opaque); ok && o != nil && o.kind == "api" {
				continue
			}
		}
		l = append(l, it.traceRef(a, 0))
	}
	k := len(it.tr.entries)
	it.tr.entries = append(it.tr.entries, name+"("+strings.Join(l, ", ")+")")
	it.tr.pos = append(it.tr.pos, "")
	it.tr.pos[k] = it.where()
	it.tr.on = false // what happens inside is the builder's business
	r := f()
	it.tr.on = true
	it.traceName(r, fmt.Sprint("v", k))
	return r
}

func (it *Interp) traceStart() {
	it.tr = trace{on: true, name: map[*VarInst]string{}, saved: it.tr.saved}
}

// traceCheck ends the trace and compares it with the one stored under key.
func (it *Interp) traceCheck(tag, what, key string) {
	t := it.tr
	it.tr = trace{saved: t.saved}
	if it.tr.saved == nil {
		it.tr.saved = map[string]*trace{}
	}
	t.name = nil
	old := it.tr.saved[key]
	if old == nil {
		it.tr.saved[key] = &t
		return
	}
	n := len(old.entries)
	if len(t.entries) < n {
		n = len(t.entries)
	}
	it.run.checks += n
	for i := 0; i < n; i++ {
		if t.entries[i] != old.entries[i] {
			it.violateAt(tag, fmt.Sprintf("%s: step %d of the build is %s instead of %s at %s", what, i, clip(t.entries[i]), clip(old.entries[i]), old.pos[i]), t.pos[i])
			return
		}
	}
	if len(t.entries) != len(old.entries) {
		it.violate(tag, "%s: the build has %d steps instead of %d", what, len(t.entries), len(old.entries))
	}
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}
