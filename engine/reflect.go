package main

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func (in *Interp) rtypeIface(t types.Type) *Iface {
	return &Iface{in.rtypeT, &RType{in.T.canonT(t)}, nil}
}

func rtypeOf(v Value) types.Type {
	f, _ := v.(*Iface)
	if f == nil {
		return nil
	}
	if r, ok := f.v.(*RType); ok {
		return r.t
	}
	return nil
}

func (in *Interp) kindVal(k reflect.Kind) *Term { return in.P.BV(64, uint64(k)) }

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (in *Interp) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pp := ""
	if !f.Exported() && f.Pkg() != nil {
		pp = f.Pkg().Path()
	}
	off := in.T.offsets(st)[i]
	// Name, PkgPath, Type, Tag, Offset, Index, Anonymous
	return Agg{in.mkStr(f.Name()), in.mkStr(pp), in.rtypeIface(f.Type()), in.mkStr(st.Tag(i)), in.P.BV(64, uint64(off)),
		in.mkSlice(types.Typ[types.Int], []Value{in.iv(int64(i))}), in.P.Bool(f.Embedded())}
}

func (in *Interp) rtypeMethod(rt *RType, name string, args []Value) Value {
	t := rt.t
	switch name {
	case "Kind":
		return in.kindVal(kindOf(t))
	case "Elem":
		e := elemOf(t)
		if e == nil {
			in.panicRT("reflect: Elem of invalid type " + t.String())
		}
		return in.rtypeIface(e)
	case "NumField":
		return in.iv(int64(t.Underlying().(*types.Struct).NumFields()))
	case "Field":
		i := in.concretize(in.term(args[0]))
		return in.structField(t.Underlying().(*types.Struct), int(i))
	case "Size":
		return in.P.BV(64, uint64(in.T.sizeof(t)))
	case "Align":
		return in.iv(gcSizes.Alignof(t))
	case "String":
		return in.mkStr(typeStr(t))
	case "Name":
		switch n := t.(type) {
		case *types.Named:
			return in.mkStr(n.Obj().Name())
		case *types.Basic:
			return in.mkStr(n.Name())
		}
		return emptyStr
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return in.mkStr(n.Obj().Pkg().Path())
		}
		return emptyStr
	case "Comparable":
		return in.P.Bool(types.Comparable(t))
	case "Implements":
		it := rtypeOf(args[0])
		return in.P.Bool(in.implements(t, it))
	case "AssignableTo":
		return in.P.Bool(types.AssignableTo(t, rtypeOf(args[0])))
	case "ConvertibleTo":
		return in.P.Bool(types.ConvertibleTo(t, rtypeOf(args[0])))
	case "Len":
		return in.iv(t.Underlying().(*types.Array).Len())
	case "Key":
		return in.rtypeIface(t.Underlying().(*types.Map).Key())
	case "NumMethod":
		progMu.Lock()
		n := in.prog.MethodSets.MethodSet(t).Len()
		progMu.Unlock()
		return in.iv(int64(n))
	case "Bits":
		return in.iv(in.T.sizeof(t) * 8)
	}
	panic(unsupported("reflect.Type." + name))
}

func (in *Interp) rvGet(r *RVal) Value {
	if r == nil {
		in.panicRT("reflect: call on zero Value")
	}
	if r.addr {
		return in.load(r.p, r.t)
	}
	return r.v
}

func rv(in *Interp, v Value) *RVal {
	r, ok := v.(*RVal)
	if !ok {
		panic(unsupported(fmt.Sprintf("reflect.Value is %T", v)))
	}
	if r == nil {
		panic(goPanic{in.mkErrStr("reflect: call of method on zero Value"), "reflect: call of method on zero Value"})
	}
	return r
}

func (in *Interp) toIface(t types.Type, v Value) *Iface {
	if types.IsInterface(t) {
		f, _ := v.(*Iface)
		return f
	}
	return &Iface{in.T.canonT(t), v, nil}
}

func regReflect() {
	typeOf := func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, _ := a[0].(*Iface)
		if f == nil {
			return (*Iface)(nil)
		}
		return in.rtypeIface(f.t)
	}
	regs(typeOf, "reflect.TypeOf", "internal/reflectlite.TypeOf")
	reg("reflect.ValueOf", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, _ := a[0].(*Iface)
		if f == nil {
			return (*RVal)(nil)
		}
		return &RVal{t: f.t, v: f.v}
	})
	reg("reflect.New", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := rtypeOf(a[0])
		return &RVal{t: in.T.canonT(types.NewPointer(t)), v: Ptr{in.newObj(t, 1, "reflect.New"), 0}}
	})
	reg("reflect.NewAt", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := rtypeOf(a[0])
		return &RVal{t: in.T.canonT(types.NewPointer(t)), v: a[1]}
	})
	reg("reflect.Zero", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := rtypeOf(a[0])
		return &RVal{t: t, v: in.zero(t)}
	})
	reg("reflect.Indirect", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := rv(in, a[0])
		if pt, ok := r.t.Underlying().(*types.Pointer); ok {
			p, _ := in.rvGet(r).(Ptr)
			if p.obj == nil {
				return (*RVal)(nil)
			}
			return &RVal{t: in.T.canonT(pt.Elem()), p: p, addr: true}
		}
		return r
	})
	reg("reflect.SliceOf", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.rtypeIface(types.NewSlice(rtypeOf(a[0])))
	})
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.rtypeIface(types.NewPointer(rtypeOf(a[0])))
	}, "reflect.PointerTo", "reflect.PtrTo")
	reg("reflect.MakeSlice", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := rtypeOf(a[0])
		n, c := in.term(a[1]), in.term(a[2])
		if in.branch(in.P.Slt(n, in.iv(0))) {
			panic(goPanic{in.mkErrStr("reflect.MakeSlice: negative len"), "reflect.MakeSlice: negative len"})
		}
		if in.branch(in.P.Slt(c, in.iv(0))) {
			panic(goPanic{in.mkErrStr("reflect.MakeSlice: negative cap"), "reflect.MakeSlice: negative cap"})
		}
		return &RVal{t: t, v: in.makeSlice(t.Underlying().(*types.Slice).Elem(), n, c)}
	})
	reg("reflect.DeepEqual", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, _ := a[0].(*Iface)
		y, _ := a[1].(*Iface)
		if x == nil || y == nil {
			return in.P.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return in.P.False
		}
		return in.deepEq(x.t, x.v, y.v, 0)
	})
	m := func(name string, f func(in *Interp, r *RVal, a []Value) Value) {
		reg("(reflect.Value)."+name, func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			return f(in, rv(in, a[0]), a[1:])
		})
	}
	reg("(reflect.Value).Kind", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		r, _ := a[0].(*RVal)
		if r == nil {
			return in.kindVal(reflect.Invalid)
		}
		return in.kindVal(kindOf(r.t))
	})
	reg("(reflect.Value).IsValid", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		r, _ := a[0].(*RVal)
		return in.P.Bool(r != nil)
	})
	m("Type", func(in *Interp, r *RVal, a []Value) Value { return in.rtypeIface(r.t) })
	m("CanInterface", func(in *Interp, r *RVal, a []Value) Value { return in.P.True })
	m("CanAddr", func(in *Interp, r *RVal, a []Value) Value { return in.P.Bool(r.addr) })
	m("CanSet", func(in *Interp, r *RVal, a []Value) Value { return in.P.Bool(r.addr) })
	m("Interface", func(in *Interp, r *RVal, a []Value) Value { return in.toIface(r.t, in.rvGet(r)) })
	m("Elem", func(in *Interp, r *RVal, a []Value) Value {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p, ok := in.rvGet(r).(Ptr)
			if !ok {
				panic(unsupported("reflect Elem of symbolic pointer"))
			}
			if p.obj == nil {
				return (*RVal)(nil)
			}
			return &RVal{t: in.T.canonT(u.Elem()), p: p, addr: true}
		case *types.Interface:
			f, _ := in.rvGet(r).(*Iface)
			if f == nil {
				return (*RVal)(nil)
			}
			return &RVal{t: f.t, v: f.v}
		}
		panic(unsupported("reflect.Value.Elem"))
	})
	m("NumField", func(in *Interp, r *RVal, a []Value) Value {
		return in.iv(int64(r.t.Underlying().(*types.Struct).NumFields()))
	})
	m("Field", func(in *Interp, r *RVal, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		i := int(in.concretize(in.term(a[0])))
		ft := in.T.canonT(st.Field(i).Type())
		if r.addr {
			return &RVal{t: ft, p: Ptr{r.p.obj, r.p.off + in.T.offsets(st)[i]}, addr: true}
		}
		return &RVal{t: ft, v: r.v.(Agg)[i]}
	})
	kindPanic := func(in *Interp, name string, r *RVal) {
		s := "reflect: call of reflect.Value." + name + " on " + kindOf(r.t).String() + " Value"
		panic(goPanic{in.mkErrStr(s), s})
	}
	m("FieldByName", func(in *Interp, r *RVal, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		name := mustStr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != name {
				continue
			}
			ft := in.T.canonT(st.Field(i).Type())
			if r.addr {
				return &RVal{t: ft, p: Ptr{r.p.obj, r.p.off + in.T.offsets(st)[i]}, addr: true}
			}
			return &RVal{t: ft, v: r.v.(Agg)[i]}
		}
		return &RVal{}
	})
	setInt := func(in *Interp, r *RVal, a []Value) Value {
		var w int
		switch kindOf(r.t) {
		case reflect.Int8, reflect.Uint8:
			w = 8
		case reflect.Int16, reflect.Uint16:
			w = 16
		case reflect.Int32, reflect.Uint32:
			w = 32
		case reflect.Int, reflect.Uint, reflect.Int64, reflect.Uint64:
			w = 64
		default:
			kindPanic(in, "SetInt", r)
		}
		in.store(r.p, r.t, in.P.Extract(in.term(a[0]), w-1, 0))
		return nil
	}
	m("OverflowInt", func(in *Interp, r *RVal, a []Value) Value {
		w := int(in.T.sizeof(r.t)) * 8
		x := in.term(a[0])
		if w >= 64 {
			return in.P.False
		}
		return in.P.Not(in.P.Eq(in.P.Sext(in.P.Extract(x, w-1, 0), 64), x))
	})
	m("OverflowUint", func(in *Interp, r *RVal, a []Value) Value {
		w := int(in.T.sizeof(r.t)) * 8
		x := in.term(a[0])
		if w >= 64 {
			return in.P.False
		}
		return in.P.Not(in.P.Eq(in.P.Zext(in.P.Extract(x, w-1, 0), 64), x))
	})
	m("SetInt", setInt)
	m("SetString", func(in *Interp, r *RVal, a []Value) Value {
		if kindOf(r.t) != reflect.String {
			kindPanic(in, "SetString", r)
		}
		in.store(r.p, r.t, a[0])
		return nil
	})
	m("SetUint", setInt)
	m("Len", func(in *Interp, r *RVal, a []Value) Value {
		switch v := in.rvGet(r).(type) {
		case *Str:
			return in.iv(int64(v.Len()))
		case *SliceV:
			return v.len
		case *MapV:
			if v == nil {
				return in.iv(0)
			}
			return in.iv(int64(v.n))
		case Agg:
			return in.iv(int64(len(v)))
		}
		panic(unsupported("reflect Len"))
	})
	m("Index", func(in *Interp, r *RVal, a []Value) Value {
		i := in.term(a[0])
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := in.rvGet(r).(*SliceV)
			in.boundsCheck(i, s.len)
			k := int64(in.concretize(i))
			return &RVal{t: in.T.canonT(u.Elem()), p: Ptr{s.obj, s.off + k*in.T.sizeof(u.Elem())}, addr: true}
		case *types.Array:
			k := int64(in.concretize(i))
			if r.addr {
				return &RVal{t: in.T.canonT(u.Elem()), p: Ptr{r.p.obj, r.p.off + k*in.T.sizeof(u.Elem())}, addr: true}
			}
			return &RVal{t: in.T.canonT(u.Elem()), v: r.v.(Agg)[k]}
		case *types.Basic:
			return &RVal{t: byteType, v: in.strIndex(in.rvGet(r).(*Str), i)}
		}
		panic(unsupported("reflect Index"))
	})
	m("Slice", func(in *Interp, r *RVal, a []Value) Value {
		u, ok := r.t.Underlying().(*types.Slice)
		if !ok {
			panic(unsupported("reflect Slice of " + r.t.String()))
		}
		s := in.rvGet(r).(*SliceV)
		i, j := int64(in.concretize(in.term(a[0]))), int64(in.concretize(in.term(a[1])))
		if i < 0 || j < i || j > int64(in.concretize(s.cap)) {
			panic(goPanic{in.mkErrStr("reflect.Value.Slice: slice index out of bounds"), "reflect.Value.Slice: slice index out of bounds"})
		}
		return &RVal{t: r.t, v: &SliceV{obj: s.obj, off: s.off + i*in.T.sizeof(u.Elem()), len: in.iv(j - i), cap: in.iv(int64(in.concretize(s.cap)) - i)}}
	})
	m("IsNil", func(in *Interp, r *RVal, a []Value) Value {
		switch v := in.rvGet(r).(type) {
		case Ptr:
			return in.P.Bool(v.obj == nil)
		case *SliceV:
			return in.P.Bool(v.obj == nil)
		case *Iface:
			return in.P.Bool(v == nil)
		case *MapV:
			return in.P.Bool(v == nil)
		case *ChanV:
			return in.P.Bool(v == nil)
		case *Closure:
			return in.P.Bool(v == nil)
		}
		panic(goPanic{in.mkErrStr("reflect: IsNil"), "reflect: call of reflect.Value.IsNil on " + r.t.String() + " Value"})
	})
	m("Int", func(in *Interp, r *RVal, a []Value) Value {
		switch kindOf(r.t) {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return in.P.Sext(in.term(in.rvGet(r)), 64)
		}
		kindPanic(in, "Int", r)
		return nil
	})
	m("Uint", func(in *Interp, r *RVal, a []Value) Value {
		switch kindOf(r.t) {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return in.P.Zext(in.term(in.rvGet(r)), 64)
		}
		kindPanic(in, "Uint", r)
		return nil
	})
	m("Float", func(in *Interp, r *RVal, a []Value) Value {
		switch kindOf(r.t) {
		case reflect.Float32, reflect.Float64:
			return in.P.FpToFp(in.term(in.rvGet(r)), SFP64)
		}
		kindPanic(in, "Float", r)
		return nil
	})
	m("Bool", func(in *Interp, r *RVal, a []Value) Value { return in.rvGet(r) })
	m("String", func(in *Interp, r *RVal, a []Value) Value {
		if s, ok := in.rvGet(r).(*Str); ok {
			return s
		}
		return in.mkStr("<" + typeStr(r.t) + " Value>")
	})
	m("Bytes", func(in *Interp, r *RVal, a []Value) Value { return in.rvGet(r) })
	m("Set", func(in *Interp, r *RVal, a []Value) Value {
		x := rv(in, a[0])
		if !r.addr {
			panic(goPanic{in.mkErrStr("reflect: Set using unaddressable value"), "reflect: reflect.Value.Set using unaddressable value"})
		}
		v := in.rvGet(x)
		if types.IsInterface(r.t) && !types.IsInterface(x.t) {
			v = &Iface{in.T.canonT(x.t), v, nil}
		} else if !types.AssignableTo(x.t, r.t) {
			s := "reflect.Set: value of type " + x.t.String() + " is not assignable to type " + r.t.String()
			panic(goPanic{in.mkErrStr(s), s})
		}
		in.store(r.p, r.t, v)
		return nil
	})
	m("Addr", func(in *Interp, r *RVal, a []Value) Value {
		return &RVal{t: in.T.canonT(types.NewPointer(r.t)), v: r.p}
	})
	ptr := func(in *Interp, r *RVal, a []Value) Value {
		switch v := in.rvGet(r).(type) {
		case Ptr:
			return v
		case *SliceV:
			return Ptr{v.obj, v.off}
		}
		panic(unsupported("reflect Pointer"))
	}
	m("Pointer", ptr)
	m("UnsafePointer", ptr)
	m("IsZero", func(in *Interp, r *RVal, a []Value) Value { return in.equal(r.t, in.rvGet(r), in.zero(r.t)) })
	m("NumMethod", func(in *Interp, r *RVal, a []Value) Value {
		progMu.Lock()
		n := in.prog.MethodSets.MethodSet(r.t).Len()
		progMu.Unlock()
		return in.iv(int64(n))
	})
	reg("reflect.TypeFor", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.rtypeIface(fn.TypeArgs()[0])
	})
}

func (in *Interp) deepEq(t types.Type, a, b Value, depth int) *Term {
	P := in.P
	if depth > 30 {
		panic(unsupported("deepEq depth"))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x, y := a.(Ptr), b.(Ptr)
		if x == y {
			return P.True
		}
		if x.obj == nil || y.obj == nil {
			return P.False
		}
		return in.deepEq(u.Elem(), in.load(x, u.Elem()), in.load(y, u.Elem()), depth+1)
	case *types.Slice:
		x, y := a.(*SliceV), b.(*SliceV)
		if (x.obj == nil) != (y.obj == nil) {
			return P.False
		}
		le := P.Eq(x.len, y.len)
		if !in.branch(le) {
			return P.False
		}
		xs, ys := in.sliceVals(x, u.Elem()), in.sliceVals(y, u.Elem())
		r := P.True
		for i := range xs {
			r = P.And(r, in.deepEq(u.Elem(), xs[i], ys[i], depth+1))
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		r := P.True
		for i := range x {
			r = P.And(r, in.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		r := P.True
		for i := range x {
			r = P.And(r, in.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Interface:
		x, y := a.(*Iface), b.(*Iface)
		if x == nil || y == nil {
			return P.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return P.False
		}
		return in.deepEq(x.t, x.v, y.v, depth+1)
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if (x == nil) != (y == nil) {
			return P.False
		}
		if x == nil || x == y {
			return P.True
		}
		if x.n != y.n {
			return P.False
		}
		r := P.True
		for _, e := range x.entries {
			if !e.live {
				continue
			}
			v, ok := in.mapGet(y, e.k)
			if !ok {
				return P.False
			}
			r = P.And(r, in.deepEq(u.Elem(), e.v, v, depth+1))
		}
		return r
	case *types.Signature:
		x, y := a.(*Closure), b.(*Closure)
		return P.Bool(x == nil && y == nil)
	}
	return in.equal(t, a, b)
}
