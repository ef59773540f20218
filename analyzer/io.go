package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"reflect"
	"strings"
)

// fault decides whether the current fallible external call fails in this scenario.
func (it *Interp) fault(what string) bool {
	it.run.faultSeq++
	it.run.faultNames = append(it.run.faultNames, what+" at "+it.where())
	return it.run.faultSeq == it.run.faultAt
}

func (it *Interp) errOr(c *callCtx, what string, ok ...V) V {
	bad := it.fault(what)
	var e V = Iface{}
	if bad {
		e = it.mkErr(what + " failed")
	}
	if len(ok) == 0 {
		return e
	}
	r := Tuple{}
	for i, v := range ok {
		if bad {
			v = it.zero(c.sig.Results().At(i).Type())
		}
		r = append(r, v)
	}
	return append(r, e)
}

func (it *Interp) fileOf(v V) string {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	p, ok := v.(Ptr)
	if !ok {
		it.undecided("reader of kind %T", v)
	}
	o, _ := it.load(it.ptrCell(p)).(*Opaque)
	if o == nil {
		it.gopanic("use of a nil file")
	}
	s, ok := o.data.(string)
	if !ok {
		it.undecided("reader")
	}
	return s
}

// wrote records a write to w: at once, or when w is flushed.
func (it *Interp) wrote(w V, ev func()) {
	if i, ok := w.(Iface); ok {
		w = i.v
	}
	if p, ok := w.(Ptr); ok && p.c != nil && namedPath(p.c.t) == "bufio.Writer" {
		if it.run.unflushed == nil {
			it.run.unflushed = map[*Cell][]func(){}
		}
		it.run.unflushed[p.c] = append(it.run.unflushed[p.c], ev)
		return
	}
	ev()
}

func (it *Interp) jsonBytes(path string) V {
	et := types.Typ[types.Byte]
	s := it.ts.Sym(SInt, "byte:"+path, bigZero, big.NewInt(255))
	arr := it.newArr(et, []V{s})
	arr.name = "json:" + path
	return Slice{arr, 0, 1, 1}
}

func jsonName(n string) bool {
	return strings.HasPrefix(n, "json:") || strings.HasPrefix(n, "truncated:")
}

// execSrc interprets the library's own body of the function.
func (it *Interp) execSrc(c *callCtx) V {
	src := it.w.Decls[c.fn]
	if src == nil || src.Decl.Body == nil || src.Pkg.Info == nil {
		it.undecided("call of library function %s, which has no model", fullName(c.fn))
	}
	return it.exec(src.Pkg, fullName(c.fn), src.Obj.Type().(*types.Signature), src.Decl.Type, src.Decl.Recv, c.recv, src.Decl.Body, c.args, nil, c.tsub)
}

// bytesOf is what a reader with the given content yields.
func (it *Interp) bytesOf(name string) V {
	if rest, ok := strings.CutPrefix(name, "bytes:"); ok {
		p, tr := strings.CutPrefix(rest, "truncated:")
		b := it.jsonBytes(strings.TrimPrefix(p, "json:"))
		if tr {
			b.(Slice).arr.name = "truncated:" + p
		} else {
			b.(Slice).arr.name = rest
		}
		return b
	}
	return it.jsonBytes(name)
}

func (it *Interp) initIO() {
	file := func(path string) V {
		return it.ptrTo(it.libType("os", "File"), &Opaque{kind: "ext", data: path})
	}
	strArg := func(v V) string {
		s, ok := v.(string)
		if !ok {
			if t, ok := v.(*Term); ok {
				return t.String()
			}
			it.undecided("file name of kind %T", v)
		}
		return s
	}
	it.addStd("os.Open os.OpenFile", func(c *callCtx) V {
		p := strArg(c.args[0])
		if c.fn.Name() == "OpenFile" {
			fl, ok := c.args[1].(I)
			if !ok {
				it.undecided("flags that are not constant")
			}
			if n := int(fl); n&(os.O_WRONLY|os.O_RDWR) != 0 {
				if n&os.O_CREATE != 0 {
					it.event("create", p)
				}
				if n&(os.O_TRUNC|os.O_EXCL) == 0 {
					p = "older content and " + p
				}
				return it.errOr(c, "os.Open", file("out:"+p))
			}
		}
		return it.errOr(c, "os.Open", file(p))
	})
	it.addStd("os.Create", func(c *callCtx) V {
		p := strArg(c.args[0])
		it.event("create", p)
		return it.errOr(c, "os.Create", file("out:"+p))
	})
	it.addStd("os.WriteFile", func(c *callCtx) V {
		it.event("create", strArg(c.args[0]))
		return it.errOr(c, "os.WriteFile")
	})
	it.addStd("os.Rename", func(c *callCtx) V {
		if it.fault("os.WriteFile (rename)") {
			return it.mkErr("os.Rename failed")
		}
		from, to := strArg(c.args[0]), strArg(c.args[1])
		it.event("create", to)
		for _, e := range it.events {
			if n := len(e.args); (e.kind == "write" || e.kind == "save") && n > 0 {
				for i, a := range e.args {
					if s, ok := a.(string); ok && s == "out:"+from {
						e.args[i] = "out:" + to
					}
				}
			}
		}
		return Iface{}
	})
	it.addStd("os.CreateTemp", func(c *callCtx) V {
		it.opSeq++
		p := fmt.Sprintf("temporary file %d", it.opSeq)
		it.event("create", p)
		return it.errOr(c, "os.CreateTemp", file("out:"+p))
	})
	it.addStd("os.MkdirAll os.Mkdir", func(c *callCtx) V { return it.errOr(c, "os.MkdirAll") })
	it.addStd("os.Remove", func(c *callCtx) V { return it.errOr(c, "os.Remove") })
	it.addStd("os.Stat os.Lstat", func(c *callCtx) V {
		it.event("stat", strArg(c.args[0]))
		if it.fault("os.Stat") {
			e, _ := it.mkErr("os.Stat failed").(Iface)
			ev := e.v.(ErrV)
			ev.id.wraps = append(ev.id.wraps, it.notExist())
			return Tuple{Iface{}, Iface{e.t, ev}}
		}
		return Tuple{Iface{}, Iface{}}
	})
	it.addStd("(*os.File).Close (*os.File).Sync", func(c *callCtx) V {
		if p, ok := c.recv.(Ptr); ok && p.c == nil {
			return it.mkErr("invalid argument")
		}
		it.fileOf(c.recv)
		return Iface{}
	})
	it.addStd("(*os.File).Name", func(c *callCtx) V { return it.fileOf(c.recv) })
	it.addStd("io.ReadAll io/ioutil.ReadAll", func(c *callCtx) V {
		name := it.fileOf(c.args[0])
		if it.fault("io.ReadAll") {
			// what was read before the failure: an incomplete document
			b := it.jsonBytes(name)
			b.(Slice).arr.name = "truncated:" + name
			return Tuple{b, it.mkErr("io.ReadAll failed")}
		}
		return Tuple{it.jsonBytes(name), Iface{}}
	})
	it.addStd("os.ReadFile io/ioutil.ReadFile", func(c *callCtx) V {
		return it.errOr(c, "os.ReadFile", it.jsonBytes(strArg(c.args[0])))
	})
	it.addStd("encoding/json.Unmarshal", func(c *callCtx) V { return it.jsonUnmarshal(c.args[0], c.args[1]) })
	it.addStd("encoding/json.NewDecoder bufio.NewReader bufio.NewReaderSize io.NopCloser io.TeeReader io.LimitReader", func(c *callCtx) V {
		return it.ptrTo(it.libType("os", "File"), &Opaque{kind: "ext", data: it.fileOf(c.args[0])})
	})
	it.addStd("bufio.NewWriter bufio.NewWriterSize", func(c *callCtx) V {
		return it.ptrTo(it.libType("bufio", "Writer"), &Opaque{kind: "ext", data: it.fileOf(c.args[0])})
	})
	it.addStd("(*bufio.Writer).Flush", func(c *callCtx) V {
		k := it.ptrCell(c.recv)
		if it.fault("bufio.Writer.Flush") {
			return it.mkErr("write error")
		}
		for _, ev := range it.run.unflushed[k] {
			ev()
		}
		delete(it.run.unflushed, k)
		return Iface{}
	})
	it.addStd("bytes.NewReader bytes.NewBuffer", func(c *callCtx) V {
		s, ok := c.args[0].(Slice)
		if ok && c.fn.Name() == "NewReader" && (s.arr == nil || !jsonName(s.arr.name)) {
			return it.execSrc(c)
		}
		if !ok || s.arr == nil {
			it.undecided("reader of unknown bytes")
		}
		return it.ptrTo(it.libType("os", "File"), &Opaque{kind: "ext", data: "bytes:" + s.arr.name})
	})
	it.addStd("(*encoding/json.Decoder).DisallowUnknownFields (*encoding/json.Decoder).UseNumber", func(c *callCtx) V { return nil })
	eof := func() V {
		if p := it.w.Pkgs["io"]; p != nil && p.Types != nil {
			if o, ok := p.Types.Scope().Lookup("EOF").(*types.Var); ok {
				return it.load(it.varCell(&Frame{}, o))
			}
		}
		return it.mkErr("EOF")
	}
	// A decoder reads one document and leaves what follows it unread.
	it.addStd("(*encoding/json.Decoder).Decode", func(c *callCtx) V {
		k := it.ptrCell(c.recv)
		switch it.run.decoders[k] {
		case 1:
			return eof()
		case 2:
			return it.mkErr("invalid character after the document")
		}
		name := it.fileOf(c.recv)
		if !strings.HasPrefix(name, "bytes:") && it.fault("reading "+name) {
			return it.mkErr("read error")
		}
		if it.run.decoders == nil {
			it.run.decoders = map[*Cell]int{}
		}
		it.run.decoders[k] = 1
		if it.fault("json.Decode: the document is followed by other data") {
			it.run.decoders[k] = 2
		}
		return it.jsonUnmarshal(it.bytesOf(name), c.args[0])
	})
	it.addStd("(*encoding/json.Decoder).More", func(c *callCtx) V { return it.run.decoders[it.ptrCell(c.recv)] != 1 })
	it.addStd("(*encoding/json.Decoder).Token", func(c *callCtx) V {
		switch it.run.decoders[it.ptrCell(c.recv)] {
		case 1:
			return Tuple{Iface{}, eof()}
		case 2:
			return Tuple{Iface{}, it.mkErr("invalid character after the document")}
		}
		it.undecided("token of a JSON document")
		return nil
	})
	it.addStd("encoding/json.Valid", func(c *callCtx) V { return !it.fault("json.Valid") })

	// ---- trusted setup
	const ign = "github.com/consensys/gnark-ignition-verifier/ignition"
	const kzg = "github.com/consensys/gnark-crypto/ecc/bn254/kzg"
	it.addStd(ign+".NewManifest", func(c *callCtx) V {
		mt := it.libType(ign, "Manifest")
		pt := it.libType(ign, "Participant")
		m := it.zero(mt).(*Agg)
		st := mt.Underlying().(*types.Struct)
		pst := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "NumG1Points":
				m.e[i] = I(2)
			case "Participants":
				var ps []V
				for k := 0; k < it.run.participants; k++ {
					p := it.zero(pt).(*Agg)
					for j := 0; j < pst.NumFields(); j++ {
						if pst.Field(j).Name() == "Address" {
							p.e[j] = fmt.Sprintf("P%d", k)
						}
					}
					ps = append(ps, p)
				}
				m.e[i] = it.mkSlice(pt, ps)
			}
		}
		return it.errOr(c, "ignition.NewManifest", m)
	})
	it.addStd(ign+".NewContribution", func(c *callCtx) V {
		ct := it.libType(ign, "Contribution")
		v := it.zero(ct).(*Agg)
		g1 := ct.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Slice).Elem()
		v.e[0] = it.mkSlice(g1, []V{it.zero(g1), it.zero(g1)})
		return v
	})
	contentOf := func(v V) string {
		// identity of the point data reachable from v
		var f func(v V) string
		f = func(v V) string {
			switch x := v.(type) {
			case Ptr:
				if x.c == nil {
					return "nil"
				}
				return f(it.load(x.c))
			case *Agg:
				var l []string
				for _, e := range x.e {
					l = append(l, f(e))
				}
				return "{" + strings.Join(l, " ") + "}"
			case Slice:
				var l []string
				for i := 0; i < x.len; i++ {
					l = append(l, f(it.load(x.arr.kids[x.off+i])))
				}
				return "[" + strings.Join(l, " ") + "]"
			case *Term:
				return x.str(8)
			}
			return describe(v)
		}
		return f(v)
	}
	fillFelts := func(c *Cell, base string) {
		n := 0
		var f func(c *Cell)
		f = func(c *Cell) {
			if c.agg {
				for _, k := range c.kids {
					f(k)
				}
				return
			}
			if s, ok := c.val.(Slice); ok {
				for i := 0; i < s.len; i++ {
					f(s.arr.kids[s.off+i])
				}
				return
			}
			if opaqueKind(c.t) == "felt" {
				n++
				it.store(c, it.ts.Sym(SObj, fmt.Sprintf("%s.%d", base, n), nil, nil))
			}
		}
		f(c)
	}
	it.addStd("(*"+ign+".Contribution).Get", func(c *callCtx) V {
		p := contentOf(c.args[0])
		for i := it.run.participants - 1; i >= 0; i-- { // P17 contains P1
			if strings.Contains(p, fmt.Sprintf("P%d", i)) {
				p = fmt.Sprintf("P%d", i)
				break
			}
		}
		it.event("get", p)
		bad := it.fault("Contribution.Get " + p)
		if bad {
			return it.mkErr("Get failed")
		}
		fillFelts(it.ptrCell(c.recv), p)
		return Iface{}
	})
	it.addStd("(*"+ign+".Contribution).Follows", func(c *callCtx) V {
		it.event("follows", contentOf(c.recv)+" <- "+contentOf(c.args[0]))
		return !it.fault("Follows")
	})
	it.addStd("(*"+ign+".Contribution).IsValid", func(c *callCtx) V {
		it.event("isvalid", contentOf(c.recv))
		return !it.fault("IsValid")
	})
	it.addStd("github.com/consensys/gnark-crypto/ecc/bn254.Generators", func(c *callCtx) V {
		r := Tuple{}
		for i := 0; i < c.sig.Results().Len(); i++ {
			cell := it.newCell(c.sig.Results().At(i).Type(), it.zero(c.sig.Results().At(i).Type()))
			fillFelts(cell, fmt.Sprintf("gen%d", i))
			r = append(r, it.load(cell))
		}
		return r
	})
	fresh := func(t types.Type, base string) V {
		cell := it.newCell(t, it.zero(t))
		it.opSeq++
		fillFelts(cell, fmt.Sprintf("%s%d", base, it.opSeq))
		return it.load(cell)
	}
	it.addStd(kzg+".Commit", func(c *callCtx) V {
		d := fresh(c.sig.Results().At(0).Type(), "commit")
		it.event("commit", contentOf(c.args[1]), contentOf(c.args[0]), contentOf(d))
		return it.errOr(c, "kzg.Commit", d)
	})
	it.addStd(kzg+".Open", func(c *callCtx) V {
		d := fresh(c.sig.Results().At(0).Type(), "open")
		it.event("open", contentOf(c.args[2]), contentOf(c.args[0]), contentOf(c.args[1]), contentOf(d))
		return it.errOr(c, "kzg.Open", d)
	})
	it.addStd(kzg+".Verify", func(c *callCtx) V {
		it.event("verify", contentOf(c.args[3]), contentOf(c.args[0]), contentOf(c.args[2]), contentOf(c.args[1]))
		return it.errOr(c, "kzg.Verify")
	})
	wr := func(c *callCtx) V {
		content, f := contentOf(c.recv), it.fileOf(c.args[0])
		it.wrote(c.args[0], func() { it.event("write", content, f) })
		return it.errOr(c, "SRS.WriteTo", I(1))
	}
	it.addStd("(*"+kzg+".SRS).WriteTo (*"+kzg+".SRS).WriteRawTo", wr)
}

// ---- JSON

func (it *Interp) jsonUnmarshal(data, dst V) V {
	s, ok := data.(Slice)
	if ok && (s.arr == nil || strings.HasPrefix(s.arr.name, "truncated:")) {
		return it.mkErr("unexpected end of JSON input")
	}
	if !ok || !strings.HasPrefix(s.arr.name, "json:") {
		it.undecided("json.Unmarshal of bytes of unknown origin")
	}
	path := strings.TrimPrefix(s.arr.name, "json:")
	if it.fault("json.Unmarshal " + path) {
		return it.mkErr("malformed JSON")
	}
	i, ok := dst.(Iface)
	if !ok || i.t == nil {
		return it.mkErr("json: Unmarshal(nil)")
	}
	p, ok := i.v.(Ptr)
	if !ok || p.c == nil {
		return it.mkErr("json: Unmarshal(non-pointer)")
	}
	it.jsonTop++
	defer func() { it.jsonTop-- }()
	if it.jsonTop == 1 {
		return it.jsonFill(path, p.c, false)
	}
	return it.jsonFill(path, p.c, true)
}

// jsonFill decodes the document at path into c; skipCustom ignores UnmarshalJSON of the outermost
// type (its implementation is calling us).
func (it *Interp) jsonFill(path string, c *Cell, skipCustom bool) V {
	t := c.t
	if !skipCustom {
		if obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, "UnmarshalJSON"); obj != nil {
			if m, ok := obj.(*types.Func); ok && it.w.Decls[m] != nil {
				return it.callFn(&FuncV{obj: m, src: it.w.Decls[m], recv: Ptr{c}, bound: true, name: m.FullName()}, []V{it.jsonBytes(path)}, nil)
			}
		}
	}
	isErr := func(v V) bool { e, ok := v.(Iface); return ok && e.t != nil }
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			fl := u.Field(i)
			name := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
			if name == "-" {
				continue
			}
			sub := path
			if name == "" {
				if !fl.Exported() {
					continue
				}
				if fl.Embedded() {
					if e := it.jsonFill(path, c.kids[i], false); isErr(e) {
						return e
					}
					continue
				}
				name = fl.Name()
			}
			if !fl.Exported() {
				continue
			}
			sub = path + "." + strings.ToLower(name)
			if e := it.jsonFill(sub, c.kids[i], false); isErr(e) {
				return e
			}
		}
		return Iface{}
	case *types.Slice:
		old, _ := c.val.(Slice)
		n, ok := it.run.jsonLen[path]
		if !ok {
			n = 2
			if isIface(u.Elem()) {
				n = old.len
			}
		}
		s := old
		if s.cap < n || s.arr == nil {
			vals := make([]V, n)
			for i := range vals {
				if i < old.cap && old.arr != nil {
					vals[i] = it.load(old.arr.kids[old.off+i])
				} else {
					vals[i] = it.zero(u.Elem())
				}
			}
			s = Slice{it.newArr(u.Elem(), vals), 0, n, n}
		}
		s.len = n
		it.store(c, s)
		for i := 0; i < n; i++ {
			if e := it.jsonFill(fmt.Sprintf("%s[%d]", path, i), s.arr.kids[s.off+i], false); isErr(e) {
				return e
			}
		}
		return Iface{}
	case *types.Array:
		for i := range c.kids {
			if e := it.jsonFill(fmt.Sprintf("%s[%d]", path, i), c.kids[i], false); isErr(e) {
				return e
			}
		}
		return Iface{}
	case *types.Pointer:
		p, _ := c.val.(Ptr)
		if p.c == nil {
			p = Ptr{it.newCell(u.Elem(), it.zero(u.Elem()))}
			it.store(c, p)
		}
		return it.jsonFill(path, p.c, false)
	case *types.Interface:
		i, _ := it.load(c).(Iface)
		if p, ok := i.v.(Ptr); ok && p.c != nil {
			return it.jsonFill(path, p.c, false)
		}
		it.undecided("JSON value of dynamic type at %s", path)
	case *types.Basic:
		it.store(c, it.jsonScalar(path, t))
		return Iface{}
	}
	it.undecided("JSON decoding into %s", t)
	return nil
}

func (it *Interp) jsonScalar(path string, t types.Type) V {
	if v, ok := it.run.jsonVal[path]; ok {
		return v
	}
	b := t.Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsString != 0:
		return it.ts.Sym(SStr, "json:"+path, nil, nil)
	case b.Info()&types.IsBoolean != 0:
		return it.ts.Sym(SBool, "json:"+path, nil, nil)
	case b.Info()&types.IsInteger != 0:
		s := it.ts.Sym(SInt, "json:"+path, bigZero, new(big.Int).Sub(two64, bigOne))
		if bits, signed, _ := intInfo(t); bits != 64 || signed {
			return it.ts.UF(SInt, fmt.Sprintf("narrowed to %s", t), 0, nil, nil, s)
		}
		return s
	}
	it.undecided("JSON number decoded into %s", t)
	return nil
}
