package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Models of library facilities a rewrite of the repository might reasonably use.

// withString is an integer whose type has a String method: %d prints the number, everything else the text.
type withString struct {
	n interface{}
	s string
}

func (w withString) Format(f fmt.State, verb rune) {
	switch verb {
	case 's', 'v', 'q':
		if f.Flag('#') {
			break
		}
		fmt.Fprintf(f, fmt.FormatString(f, verb), w.s)
		return
	}
	fmt.Fprintf(f, fmt.FormatString(f, verb), w.n)
}

// stringer calls the String or Error method of a repository type.
func (it *Interp) stringer(i Iface) (string, bool) {
	for _, n := range []string{"Error", "String"} {
		obj, _, _ := types.LookupFieldOrMethod(i.t, false, nil, n)
		m, ok := obj.(*types.Func)
		if !ok {
			continue
		}
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || sig.Results().At(0).Type() != types.Typ[types.String] {
			continue
		}
		if src := it.w.Decls[m.Origin()]; src == nil || !src.Pkg.Repo {
			continue
		}
		v := it.dispatch(&FuncV{obj: m, recv: i, bound: true, name: m.FullName()}, nil, nil)
		if s, ok := v.(string); ok {
			return s, true
		}
		return describe(v), true
	}
	return "", false
}

func (it *Interp) textCell(v V) *Cell {
	i, ok := v.(Iface)
	if ok {
		v = i.v
	}
	p, ok := v.(Ptr)
	if !ok || p.c == nil {
		return nil
	}
	switch namedPath(p.c.t) {
	case "strings.Builder", "bytes.Buffer":
		return p.c
	}
	return nil
}

// appendText adds text to a strings.Builder or bytes.Buffer.
func (it *Interp) appendText(c *Cell, s string) {
	old := ""
	if o, _ := it.load(c).(*Opaque); o != nil {
		t, ok := o.data.(string)
		if !ok {
			it.undecided("buffer content of kind %T", o.data)
		}
		old = t
	}
	it.store(c, &Opaque{kind: "ext", data: old + s})
}

func (it *Interp) textOf(v V) string {
	s, ok := v.(Slice)
	if !ok {
		if t, ok := v.(string); ok {
			return t
		}
		it.undecided("bytes of kind %T", v)
	}
	b := make([]byte, s.len)
	for i := range b {
		n, ok := it.load(s.arr.kids[s.off+i]).(I)
		if !ok {
			it.undecided("byte that is not a shape constant")
		}
		b[i] = byte(n)
	}
	return string(b)
}

func (it *Interp) mkBytes(s string) V {
	var vals []V
	for i := 0; i < len(s); i++ {
		vals = append(vals, I(s[i]))
	}
	return it.mkSlice(types.Typ[types.Uint8], vals)
}

func (it *Interp) initStd2() {
	// ---- fmt to a buffer, and scanning
	fp := func(c *callCtx) V {
		cell := it.textCell(c.args[0])
		if cell == nil {
			if it.run.logPrint {
				var vals []V
				for _, a := range c.args[1:] {
					if s, ok := a.(Slice); ok {
						vals = append(vals, it.sliceVals(s)...)
					} else {
						vals = append(vals, a)
					}
				}
				it.printed(vals)
			}
			return Tuple{I(0), Iface{}}
		}
		rest := c.args[len(c.args)-1]
		if anySymbolic(it, rest) {
			it.undecided("%s of a value that is not a shape constant", c.fn.Name())
		}
		var s string
		switch c.fn.Name() {
		case "Fprintf":
			f, ok := c.args[1].(string)
			if !ok {
				it.undecided("format is not constant")
			}
			s = fmt.Sprintf(f, it.plainArgs(rest)...)
		case "Fprintln":
			s = fmt.Sprintln(it.plainArgs(rest)...)
		default:
			s = fmt.Sprint(it.plainArgs(rest)...)
		}
		it.appendText(cell, s)
		return Tuple{I(len(s)), Iface{}}
	}
	it.addStd("fmt.Fprintf fmt.Fprintln fmt.Fprint", fp)
	it.addStd("fmt.Sscanf fmt.Sscan fmt.Sscanln", func(c *callCtx) V {
		in, ok := c.args[0].(string)
		if !ok {
			it.undecided("%s of text that is not a shape constant", c.fn.Name())
		}
		var cells []*Cell
		var gop []interface{}
		var back []func()
		for _, a := range it.sliceVals(c.args[len(c.args)-1]) {
			if i, ok := a.(Iface); ok {
				a = i.v
			}
			p, ok := a.(Ptr)
			if !ok {
				it.undecided("scan target of kind %T", a)
			}
			cell := p.c
			cells = append(cells, cell)
			b, ok := cell.t.Underlying().(*types.Basic)
			if !ok {
				it.undecided("scan target of type %s", cell.t)
			}
			switch {
			case b.Info()&types.IsString != 0:
				s := new(string)
				gop = append(gop, s)
				back = append(back, func() { it.store(cell, *s) })
			case b.Info()&types.IsBoolean != 0:
				s := new(bool)
				gop = append(gop, s)
				back = append(back, func() { it.store(cell, *s) })
			case b.Info()&types.IsInteger != 0:
				_, signed, _ := intInfo(cell.t)
				if signed {
					s := new(int64)
					gop = append(gop, s)
					back = append(back, func() { it.store(cell, normInt(uint64(*s), cell.t)) })
				} else {
					s := new(uint64)
					gop = append(gop, s)
					back = append(back, func() { it.store(cell, normInt(*s, cell.t)) })
				}
				if w := it.w.Sizes.Sizeof(b); w < 8 {
					it.undecided("scan into a narrow integer")
				}
			default:
				it.undecided("scan target of type %s", cell.t)
			}
		}
		var n int
		var err error
		switch c.fn.Name() {
		case "Sscanf":
			f, ok := c.args[1].(string)
			if !ok {
				it.undecided("format is not constant")
			}
			n, err = fmt.Sscanf(in, f, gop...)
		case "Sscan":
			n, err = fmt.Sscan(in, gop...)
		default:
			n, err = fmt.Sscanln(in, gop...)
		}
		for i := 0; i < n && i < len(back); i++ {
			back[i]()
		}
		if err != nil {
			return Tuple{I(n), it.mkErr(err.Error())}
		}
		return Tuple{I(n), Iface{}}
	})
	it.addStd("fmt.Append fmt.Appendf fmt.Appendln", func(c *callCtx) V {
		it.undecided("%s", c.fn.Name())
		return nil
	})
	// ---- buffers
	both := func(names string) string {
		var l []string
		for _, n := range strings.Fields(names) {
			l = append(l, "(*strings.Builder)."+n, "(*bytes.Buffer)."+n)
		}
		return strings.Join(l, " ")
	}
	text := func(c *callCtx) string {
		if o, _ := it.load(it.ptrCell(c.recv)).(*Opaque); o != nil {
			if s, ok := o.data.(string); ok {
				return s
			}
			it.undecided("buffer content of kind %T", o.data)
		}
		return ""
	}
	it.addStd(both("WriteString"), func(c *callCtx) V {
		s, ok := c.args[0].(string)
		if !ok {
			it.undecided("text %s is not a shape constant", describe(c.args[0]))
		}
		it.appendText(it.ptrCell(c.recv), s)
		return Tuple{I(len(s)), Iface{}}
	})
	it.addStd(both("Write"), func(c *callCtx) V {
		s := it.textOf(c.args[0])
		it.appendText(it.ptrCell(c.recv), s)
		return Tuple{I(len(s)), Iface{}}
	})
	it.addStd(both("WriteByte"), func(c *callCtx) V {
		n, ok := c.args[0].(I)
		if !ok {
			it.undecided("byte is not a shape constant")
		}
		it.appendText(it.ptrCell(c.recv), string([]byte{byte(n)}))
		return Iface{}
	})
	it.addStd(both("WriteRune"), func(c *callCtx) V {
		n, ok := c.args[0].(I)
		if !ok {
			it.undecided("rune is not a shape constant")
		}
		s := string(rune(int32(n)))
		it.appendText(it.ptrCell(c.recv), s)
		return Tuple{I(len(s)), Iface{}}
	})
	it.addStd(both("String"), func(c *callCtx) V {
		if p, ok := c.recv.(Ptr); ok && p.c == nil {
			return "<nil>"
		}
		return text(c)
	})
	it.addStd(both("Len"), func(c *callCtx) V { return I(len(text(c))) })
	it.addStd(both("Grow"), func(c *callCtx) V { return nil })
	it.addStd(both("Reset"), func(c *callCtx) V { it.store(it.ptrCell(c.recv), (*Opaque)(nil)); return nil })
	it.addStd("(*bytes.Buffer).Bytes", func(c *callCtx) V {
		if o, _ := it.load(it.ptrCell(c.recv)).(*Opaque); o != nil {
			if b, ok := o.data.(*rawBytes); ok {
				return it.rawSlice(b)
			}
		}
		return it.mkBytes(text(c))
	})
	it.addStd("bytes.NewBufferString", func(c *callCtx) V {
		s, ok := c.args[0].(string)
		if !ok {
			it.undecided("text is not a shape constant")
		}
		return it.ptrTo(it.libType("bytes", "Buffer"), &Opaque{kind: "ext", data: s})
	})
	it.addStd("io.WriteString", func(c *callCtx) V {
		s, _ := c.args[1].(string)
		if cell := it.textCell(c.args[0]); cell != nil {
			it.appendText(cell, s)
		} else if i, ok := c.args[0].(Iface); ok && i.t != nil {
			if p, ok := i.v.(Ptr); ok && namedPath(p.c.t) == "os.File" {
				it.undecided("io.WriteString to a file")
			}
		}
		return Tuple{I(len(s)), Iface{}}
	})
	// ---- strings.Replacer
	it.addStd("strings.NewReplacer", func(c *callCtx) V {
		var l []string
		for _, v := range it.sliceVals(c.args[0]) {
			s, ok := v.(string)
			if !ok {
				it.undecided("replacement is not a shape constant")
			}
			l = append(l, s)
		}
		if len(l)%2 == 1 {
			it.gopanic("strings.NewReplacer: odd argument count")
		}
		return it.ptrTo(it.libType("strings", "Replacer"), &Opaque{kind: "ext", data: strings.NewReplacer(l...)})
	})
	it.addStd("(*strings.Replacer).Replace", func(c *callCtx) V {
		o, _ := it.load(it.ptrCell(c.recv)).(*Opaque)
		s, ok := c.args[0].(string)
		if o == nil || !ok {
			it.undecided("replacement is not a shape constant")
		}
		return o.data.(*strings.Replacer).Replace(s)
	})
	// ---- sort.Slice: the library's own algorithm runs on these two primitives
	it.addStd("internal/reflectlite.ValueOf", func(c *callCtx) V {
		i, _ := c.args[0].(Iface)
		s, ok := i.v.(Slice)
		if !ok {
			it.undecided("reflection on %T", i.v)
		}
		return &Opaque{kind: "ext", data: s}
	})
	it.addStd("(internal/reflectlite.Value).Len", func(c *callCtx) V {
		o, ok := c.recv.(*Opaque)
		if !ok || o == nil {
			it.undecided("reflection")
		}
		return I(o.data.(Slice).len)
	})
	it.addStd("internal/reflectlite.Swapper", func(c *callCtx) V {
		i, _ := c.args[0].(Iface)
		s, ok := i.v.(Slice)
		if !ok {
			it.undecided("reflection on %T", i.v)
		}
		return &FuncV{name: "swap", nat: func(c *callCtx) V {
			a, ok1 := c.args[0].(I)
			b, ok2 := c.args[1].(I)
			if !ok1 || !ok2 || int64(a) < 0 || int64(b) < 0 || int(a) >= s.len || int(b) >= s.len {
				it.gopanic("reflect: slice index out of range")
			}
			ca, cb := s.arr.kids[s.off+int(a)], s.arr.kids[s.off+int(b)]
			x, y := it.load(ca), it.load(cb)
			it.store(ca, y)
			it.store(cb, x)
			return nil
		}}
	})
	// ---- atomics: sequentially consistent cells; not accesses that need a lock
	atomicCell := func(v V) *Cell { return it.ptrCell(v) }
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		it.addStd("sync/atomic.Load"+w, func(c *callCtx) V { return atomicCell(c.args[0]).val })
		it.addStd("sync/atomic.Store"+w, func(c *callCtx) V { it.setLeaf(atomicCell(c.args[0]), c.args[1]); return nil })
		it.addStd("sync/atomic.Swap"+w, func(c *callCtx) V {
			k := atomicCell(c.args[0])
			old := k.val
			it.setLeaf(k, c.args[1])
			return old
		})
		it.addStd("sync/atomic.Add"+w, func(c *callCtx) V {
			k := atomicCell(c.args[0])
			a, ok1 := k.val.(I)
			b, ok2 := c.args[1].(I)
			if !ok1 || !ok2 {
				it.undecided("atomic addition of values that are not shape constants")
			}
			n := normInt(uint64(a)+uint64(b), k.t)
			it.setLeaf(k, n)
			return n
		})
		it.addStd("sync/atomic.CompareAndSwap"+w, func(c *callCtx) V {
			k := atomicCell(c.args[0])
			a, ok1 := k.val.(I)
			b, ok2 := c.args[1].(I)
			if !ok1 || !ok2 {
				it.undecided("atomic comparison of values that are not shape constants")
			}
			if a != b {
				return false
			}
			it.setLeaf(k, c.args[2])
			return true
		})
	}
	ptr := func(v V) V {
		if p, ok := v.(Ptr); ok {
			return p
		}
		return Ptr{}
	}
	it.addStd("(*sync/atomic.Pointer).Load (*sync/atomic.Pointer[T]).Load", func(c *callCtx) V { return ptr(it.ptrCell(c.recv).val) })
	it.addStd("(*sync/atomic.Pointer).Store (*sync/atomic.Pointer[T]).Store", func(c *callCtx) V { it.setLeaf(it.ptrCell(c.recv), c.args[0]); return nil })
	it.addStd("(*sync/atomic.Pointer).Swap (*sync/atomic.Pointer[T]).Swap", func(c *callCtx) V {
		k := it.ptrCell(c.recv)
		old := ptr(k.val)
		it.setLeaf(k, c.args[0])
		return old
	})
	it.addStd("(*sync/atomic.Pointer).CompareAndSwap (*sync/atomic.Pointer[T]).CompareAndSwap", func(c *callCtx) V {
		k := it.ptrCell(c.recv)
		if ptr(k.val) != ptr(c.args[0]) {
			return false
		}
		it.setLeaf(k, c.args[1])
		return true
	})
	it.addStd("(*sync/atomic.Value).Load", func(c *callCtx) V {
		if i, ok := it.ptrCell(c.recv).val.(Iface); ok {
			return i
		}
		return Iface{}
	})
	it.addStd("(*sync/atomic.Value).Store", func(c *callCtx) V {
		if i, ok := c.args[0].(Iface); ok && i.t == nil {
			it.gopanic("sync/atomic: store of nil value into Value")
		}
		it.setLeaf(it.ptrCell(c.recv), c.args[0])
		return nil
	})
	it.addStd("(*sync.WaitGroup).Add (*sync.WaitGroup).Done", func(c *callCtx) V { return nil })
	it.addStd("(*sync.WaitGroup).Wait", func(c *callCtx) V { it.joinAll(); return nil })
	it.addStd("(*sync.Map).LoadAndDelete", func(c *callCtx) V {
		cell := it.ptrCell(c.recv)
		m, ok := cell.val.(*MapRef)
		if !ok {
			return Tuple{Iface{}, false}
		}
		v, ok := it.mapGet(m, c.args[0])
		if !ok {
			return Tuple{Iface{}, false}
		}
		it.mapDelete(m, c.args[0])
		return Tuple{v, true}
	})
	// ---- the clock: a value that may be printed but not otherwise used
	clock := func(c *callCtx) V { return &Opaque{kind: "ext", data: "clock"} }
	it.addStd("time.Now time.Since time.Until (time.Time).Sub (time.Time).String (time.Time).Format (time.Time).Unix (time.Time).UnixNano (time.Duration).Seconds (time.Duration).Milliseconds (time.Duration).Round (time.Duration).Truncate (time.Duration).String", clock)
	// ---- errors
	it.addStd("errors.Unwrap", func(c *callCtx) V {
		it.undecided("errors.Unwrap")
		return nil
	})
	_ = big.NewInt
}
