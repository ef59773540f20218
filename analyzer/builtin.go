package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

func (it *Interp) builtin(f *Frame, name string, x *ast.CallExpr) V {
	switch name {
	case "len", "cap":
		v := it.eval(f, x.Args[0])
		it.setPos(x.Pos())
		switch s := v.(type) {
		case Slice:
			if name == "len" {
				return I(s.len)
			}
			return I(s.cap)
		case string:
			return I(len(s))
		case *Agg:
			return I(len(s.e))
		case *MapRef:
			if s == nil {
				return I(0)
			}
			return I(len(it.load(s.c).(*mapVal).keys))
		case Ptr:
			return I(len(it.ptrCell(s).kids))
		case *Term:
			if s.sort == SStr {
				return it.ts.Prim(SInt, "strlen", s)
			}
		case *Merged:
			it.undecided("length differs between branches")
		}
		it.undecided("len of %T", v)
	case "append":
		st := f.typeOf(x).Underlying().(*types.Slice)
		sv := it.evalTo(f, x.Args[0], f.typeOf(x))
		s, ok := sv.(Slice)
		if !ok {
			it.setPos(x.Pos())
			it.undecided("append to %T", sv)
		}
		var add []V
		if x.Ellipsis.IsValid() {
			v := it.eval(f, x.Args[1])
			switch o := v.(type) {
			case Slice:
				for i := 0; i < o.len; i++ {
					add = append(add, it.load(o.arr.kids[o.off+i]))
				}
			case string:
				for i := 0; i < len(o); i++ {
					add = append(add, I(o[i]))
				}
			case nil:
			default:
				it.setPos(x.Pos())
				it.undecided("append of %T", v)
			}
		} else {
			for _, a := range x.Args[1:] {
				add = append(add, it.evalTo(f, a, st.Elem()))
			}
		}
		it.setPos(x.Pos())
		return it.appendTo(s, add, st.Elem())
	case "copy":
		dv := it.eval(f, x.Args[0])
		sv := it.eval(f, x.Args[1])
		it.setPos(x.Pos())
		d, ok := dv.(Slice)
		if !ok {
			it.undecided("copy to %T", dv)
		}
		var vals []V
		switch s := sv.(type) {
		case Slice:
			for i := 0; i < s.len; i++ {
				vals = append(vals, it.load(s.arr.kids[s.off+i]))
			}
		case string:
			for i := 0; i < len(s); i++ {
				vals = append(vals, I(s[i]))
			}
		default:
			it.undecided("copy from %T", sv)
		}
		n := len(vals)
		if d.len < n {
			n = d.len
		}
		for i := 0; i < n; i++ {
			it.store(d.arr.kids[d.off+i], vals[i])
		}
		return I(n)
	case "make":
		t := f.typeOf(x)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := it.indexVal(f, x.Args[1])
			c := n
			if len(x.Args) > 2 {
				c = it.indexVal(f, x.Args[2])
			}
			it.setPos(x.Pos())
			if n < 0 || c < n {
				it.gopanic("makeslice: len out of range")
			}
			if c > 1<<20 {
				it.undecided("very large allocation")
			}
			vals := make([]V, c)
			for i := range vals {
				vals[i] = it.zero(u.Elem())
			}
			return Slice{it.newArr(u.Elem(), vals), 0, n, c}
		case *types.Map:
			return it.newMap(false)
		case *types.Chan:
			it.setPos(x.Pos())
			it.undecided("channel")
		}
	case "new":
		t := f.T(f.pkg.Info.Types[x.Args[0]].Type)
		return Ptr{it.newCell(t, it.zero(t))}
	case "panic":
		v := it.eval(f, x.Args[0])
		it.setPos(x.Pos())
		panic(goPanic{describe(v), it.where(), it.conv(v, f.typeOf(x.Args[0]), types.Universe.Lookup("any").Type())})
	case "recover":
		// only the function that was deferred itself recovers
		if n := len(it.panics); n > 0 {
			if r := it.panics[n-1]; !r.recovered && len(it.stack) == r.depth+1 {
				r.recovered = true
				if r.gp.val != nil {
					return r.gp.val
				}
				return it.mkErr(r.gp.msg)
			}
		}
		return Iface{}
	case "delete":
		mt := f.typeOf(x.Args[0]).Underlying().(*types.Map)
		m := it.eval(f, x.Args[0])
		k := it.evalTo(f, x.Args[1], mt.Key())
		it.mapDelete(m, k)
		return nil
	case "print", "println":
		var vals []V
		for _, a := range x.Args {
			vals = append(vals, it.eval(f, a))
		}
		it.printed(vals)
		return nil
	case "min", "max":
		v := it.eval(f, x.Args[0])
		t := f.typeOf(x)
		for _, a := range x.Args[1:] {
			w := it.eval(f, a)
			less := it.binop(token.LSS, w, v, t, nil)
			b, ok := less.(bool)
			if !ok {
				lt := less.(*Term)
				if name == "min" {
					v = it.merge(lt, w, v)
				} else {
					v = it.merge(lt, v, w)
				}
				continue
			}
			if b == (name == "min") {
				v = w
			}
		}
		return v
	case "clear":
		v := it.eval(f, x.Args[0])
		switch s := v.(type) {
		case *MapRef:
			if s != nil {
				it.store(s.c, &mapVal{})
			}
		case Slice:
			et := f.typeOf(x.Args[0]).Underlying().(*types.Slice).Elem()
			for i := 0; i < s.len; i++ {
				it.store(s.arr.kids[s.off+i], it.zero(et))
			}
		}
		return nil
	}
	it.setPos(x.Pos())
	it.undecided("builtin %s", name)
	return nil
}

// appendTo implements append with the growth policy of the runtime, so that sharing of backing
// arrays between slices is the real one.
func (it *Interp) appendTo(s Slice, add []V, elem types.Type) V {
	if len(add) == 0 {
		return s
	}
	n := s.len + len(add)
	if n <= s.cap && s.arr != nil {
		for i, v := range add {
			it.store(s.arr.kids[s.off+s.len+i], v)
		}
		return Slice{s.arr, s.off, n, s.cap}
	}
	c := it.growCap(s.cap, n, int(it.w.Sizes.Sizeof(elem)))
	vals := make([]V, c)
	for i := 0; i < s.len; i++ {
		vals[i] = it.load(s.arr.kids[s.off+i])
	}
	copy(vals[s.len:], add)
	for i := n; i < c; i++ {
		vals[i] = it.zero(elem)
	}
	return Slice{it.newArr(elem, vals), 0, n, c}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func (it *Interp) growCap(oldCap, newLen, size int) int {
	c := newLen
	double := oldCap * 2
	if newLen <= double {
		if oldCap < 256 {
			c = double
		} else {
			c = oldCap
			for c < newLen {
				c += (c + 3*256) >> 2
			}
		}
	}
	if size == 0 {
		return c
	}
	b := c * size
	if b <= 32768 {
		i := sort.SearchInts(sizeClasses, b)
		b = sizeClasses[i]
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	return b / size
}

// ---------------------------------------------------------------- library functions

// pure library functions whose behaviour is applied to constants
var natives = map[string]interface{}{
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.TrimSpace": strings.TrimSpace,
	"strings.Join": strings.Join, "strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix,
	"strings.HasSuffix": strings.HasSuffix, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Index": strings.Index,
	"strings.LastIndex": strings.LastIndex, "strings.Fields": strings.Fields, "strings.ToLower": strings.ToLower,
	"strings.ToUpper": strings.ToUpper, "strings.Repeat": strings.Repeat, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.EqualFold": strings.EqualFold,
	"strings.Cut": strings.Cut, "strings.Count": strings.Count, "strings.IndexByte": strings.IndexByte,
	"strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune, "strings.Compare": strings.Compare,
	"strconv.Atoi": strconv.Atoi, "strconv.Itoa": strconv.Itoa, "strconv.ParseUint": strconv.ParseUint,
	"strconv.ParseInt": strconv.ParseInt, "strconv.FormatUint": strconv.FormatUint, "strconv.FormatInt": strconv.FormatInt,
	"strconv.ParseBool": strconv.ParseBool, "strconv.Quote": strconv.Quote,
	"math.Pow": math.Pow, "math.Log2": math.Log2, "math.Ceil": math.Ceil, "math.Floor": math.Floor, "math.Sqrt": math.Sqrt,
	"math.Max": math.Max, "math.Min": math.Min, "math.Abs": math.Abs, "math.Exp2": math.Exp2, "math.Log": math.Log,
	"math.Log10": math.Log10, "math.Round": math.Round, "math.Trunc": math.Trunc, "math.Pow10": math.Pow10,
	"math/bits.Len64": bits.Len64, "math/bits.Len": bits.Len, "math/bits.Len32": bits.Len32, "math/bits.Len16": bits.Len16,
	"math/bits.Len8": bits.Len8, "math/bits.Reverse8": bits.Reverse8, "math/bits.Reverse16": bits.Reverse16,
	"math/bits.Reverse32": bits.Reverse32, "math/bits.Reverse64": bits.Reverse64, "math/bits.Reverse": bits.Reverse,
	"math/bits.TrailingZeros": bits.TrailingZeros, "math/bits.TrailingZeros64": bits.TrailingZeros64,
	"math/bits.TrailingZeros8": bits.TrailingZeros8, "math/bits.TrailingZeros32": bits.TrailingZeros32,
	"math/bits.LeadingZeros": bits.LeadingZeros, "math/bits.LeadingZeros64": bits.LeadingZeros64,
	"math/bits.LeadingZeros8": bits.LeadingZeros8, "math/bits.LeadingZeros32": bits.LeadingZeros32,
	"math/bits.OnesCount": bits.OnesCount, "math/bits.OnesCount64": bits.OnesCount64,
	"math/bits.Add64": bits.Add64, "math/bits.Sub64": bits.Sub64, "math/bits.Mul64": bits.Mul64,
	"math/bits.RotateLeft64": bits.RotateLeft64,
	"unicode.IsDigit":        unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter,
	"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
}

func (it *Interp) toGo(v V, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n, ok := v.(I); ok {
			return reflect.ValueOf(int64(n)).Convert(t), true
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n, ok := v.(I); ok {
			return reflect.ValueOf(uint64(n)).Convert(t), true
		}
	case reflect.String:
		if s, ok := v.(string); ok {
			return reflect.ValueOf(s), true
		}
	case reflect.Bool:
		if s, ok := v.(bool); ok {
			return reflect.ValueOf(s), true
		}
	case reflect.Float64:
		if s, ok := v.(float64); ok {
			return reflect.ValueOf(s), true
		}
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		r := reflect.MakeSlice(t, s.len, s.len)
		for i := 0; i < s.len; i++ {
			e, ok := it.toGo(it.load(s.arr.kids[s.off+i]), t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (it *Interp) fromGo(r reflect.Value, t types.Type) V {
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return I(uint64(r.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return I(r.Uint())
	case reflect.String:
		return r.String()
	case reflect.Bool:
		return r.Bool()
	case reflect.Float64:
		return r.Float()
	case reflect.Slice:
		if r.IsNil() {
			return Slice{}
		}
		et := t.Underlying().(*types.Slice).Elem()
		var vals []V
		for i := 0; i < r.Len(); i++ {
			vals = append(vals, it.fromGo(r.Index(i), et))
		}
		return Slice{it.newArr(et, vals), 0, len(vals), len(vals)}
	case reflect.Interface:
		if r.IsNil() {
			return Iface{}
		}
		if e, ok := r.Interface().(error); ok {
			return it.mkErr(e.Error())
		}
	}
	it.undecided("library result %s", r.Type())
	return nil
}

var errT = types.NewNamed(types.NewTypeName(0, types.NewPackage("model", "model"), "error", nil), types.NewStruct(nil, nil), nil)

func (it *Interp) mkErr(msg V, wraps ...V) V {
	id := &errID{}
	for _, w := range wraps {
		if i, ok := w.(Iface); ok {
			if e, ok := i.v.(ErrV); ok {
				id.wraps = append(id.wraps, e.id)
			}
		}
	}
	return Iface{errT, ErrV{msg, id}}
}

func (it *Interp) nativeCall(name string, c *callCtx) (V, bool) {
	fn, ok := natives[name]
	if !ok {
		return it.nativeByName(name, c)
	}
	rv := reflect.ValueOf(fn)
	rt := rv.Type()
	var in []reflect.Value
	for i := 0; i < rt.NumIn(); i++ {
		g, ok := it.toGo(c.args[i], rt.In(i))
		if !ok {
			if c.inl {
				return nil, false
			}
			it.undecided("%s applied to a value that is not a shape constant (%s)", name, describe(c.args[i]))
		}
		in = append(in, g)
	}
	call := rv.Call
	if rt.IsVariadic() {
		call = rv.CallSlice
	}
	var out []reflect.Value
	if msg := func() (msg string) {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprint(r)
			}
		}()
		out = call(in)
		return ""
	}(); msg != "" {
		it.gopanic("%s: %s", name, msg)
	}
	var res []V
	for i, o := range out {
		res = append(res, it.fromGo(o, c.sig.Results().At(i).Type()))
	}
	return packResults(res), true
}

// plain converts a value to something fmt can print.
func (it *Interp) plain(v V) interface{} {
	i, ok := v.(Iface)
	if !ok {
		return describe(v)
	}
	if i.t == nil {
		return nil
	}
	if s, ok := it.stringer(i); ok {
		switch x := i.v.(type) {
		case I:
			if _, signed, ok := intInfo(i.t); ok && signed {
				return withString{int64(x), s}
			}
			return withString{uint64(x), s}
		case float64:
			return withString{x, s}
		}
		return s
	}
	switch x := i.v.(type) {
	case I:
		if _, signed, ok := intInfo(i.t); ok && signed {
			return int64(x)
		}
		return uint64(x)
	case string:
		return x
	case bool:
		return x
	case float64:
		return x
	case ErrV:
		return errors.New(describe(x.msg))
	case Ptr:
		if x.c != nil {
			if b, ok := x.c.val.(BigV); ok && b.k != nil {
				return b.k
			}
			if x.c.agg {
				return "&" + describe(it.load(x.c))
			}
		}
	case GlV:
		return uint64(x)
	case Slice:
		var l []interface{}
		st, _ := i.t.Underlying().(*types.Slice)
		if st != nil {
			for k := 0; k < x.len; k++ {
				e := it.load(x.arr.kids[x.off+k])
				if !isIface(st.Elem()) {
					e = Iface{st.Elem(), e}
				}
				l = append(l, it.plain(e))
			}
			return l
		}
	case *Agg:
		var l []string
		if u, ok := i.t.Underlying().(*types.Struct); ok {
			for k := range x.e {
				e := x.e[k]
				if !isIface(u.Field(k).Type()) {
					e = Iface{u.Field(k).Type(), e}
				}
				l = append(l, fmt.Sprint(it.plain(e)))
			}
			return rawString("{" + strings.Join(l, " ") + "}")
		}
	}
	return describe(i.v)
}

type rawString string

func (it *Interp) sprintf(c *callCtx) (string, bool) {
	f, ok := c.args[0].(string)
	if !ok {
		return "", false
	}
	return fmt.Sprintf(f, it.plainArgs(c.args[1])...), true
}

func (it *Interp) plainArgs(v V) []interface{} {
	var l []interface{}
	s, _ := v.(Slice)
	for i := 0; i < s.len; i++ {
		l = append(l, it.plain(it.load(s.arr.kids[s.off+i])))
	}
	return l
}

func anySymbolic(it *Interp, v V) bool {
	s, _ := v.(Slice)
	for i := 0; i < s.len; i++ {
		e := it.load(s.arr.kids[s.off+i])
		if isSymbolic(e) {
			return true
		}
	}
	return false
}
