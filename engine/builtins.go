package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, es int64) int64 {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return newLen
	}
	sz := nc * es
	if sz <= 32768-8 || sz <= 32768 {
		for _, c := range sizeClasses {
			if c >= sz {
				return c / es
			}
		}
	}
	pg := int64(8192)
	sz = (sz + pg - 1) / pg * pg
	return sz / es
}

func (in *Interp) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	P := in.P
	for _, a := range args {
		if pz, ok := a.(Poison); ok {
			panic(unsupported("builtin on poison: " + pz.why))
		}
	}
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *Str:
			return P.BV(64, uint64(v.Len()))
		case *SliceV:
			return v.len
		case *MapV:
			if v == nil {
				return P.BV(64, 0)
			}
			return P.BV(64, uint64(v.n))
		case *ChanV:
			if v == nil {
				return P.BV(64, 0)
			}
			return P.BV(64, uint64(len(v.buf)))
		case Agg:
			return P.BV(64, uint64(len(v)))
		case Ptr:
			return P.BV(64, uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch v := args[0].(type) {
		case *SliceV:
			return v.cap
		case *ChanV:
			if v == nil {
				return P.BV(64, 0)
			}
			return P.BV(64, uint64(v.cap))
		case Agg:
			return P.BV(64, uint64(len(v)))
		case Ptr:
			return P.BV(64, uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		return in.doAppend(c.Args[0].Type().Underlying().(*types.Slice).Elem(), args[0].(*SliceV), args[1])
	case "copy":
		return in.doCopy(c.Args[0].Type().Underlying().(*types.Slice).Elem(), args[0].(*SliceV), args[1])
	case "delete":
		in.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "close":
		in.chanClose(args[0].(*ChanV))
		return nil
	case "print", "println":
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			if v != nil {
				for _, e := range append([]*mapEntry{}, v.entries...) {
					if e.live {
						in.mapDelete(v, e.k)
					}
				}
			}
		case *SliceV:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			n := in.concLen(v.len)
			es := in.T.sizeof(et)
			for i := 0; i < n; i++ {
				in.store(Ptr{v.obj, v.off + int64(i)*es}, et, in.zero(et))
			}
		}
		return nil
	case "min", "max":
		acc := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			x, ok1 := acc.(*Term)
			y, ok2 := a.(*Term)
			if !ok1 || !ok2 {
				panic(unsupported("min/max"))
			}
			var lt *Term
			if x.sort.isFP() {
				lt = P.FpCmp(OFpLt, x, y)
			} else if isSigned(t) {
				lt = P.Slt(x, y)
			} else {
				lt = P.Ult(x, y)
			}
			if b.Name() == "min" {
				acc = P.Ite(lt, x, y)
			} else {
				acc = P.Ite(lt, y, x)
			}
		}
		return acc
	case "recover":
		g := in.cur
		if fr.isDefer && fr.panFor != nil && !fr.panFor.recovered {
			_ = g
			fr.panFor.recovered = true
			v := fr.panFor.v
			if v == nil {
				return in.mkErrStr(fr.panFor.msg)
			}
			return v
		}
		return (*Iface)(nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == nil {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := in.idx64(c.Args[1].Type(), args[1])
		p := args[0].(Ptr)
		if n.op == OConst && n.val == 0 {
			return emptyStr
		}
		return in.bytesToStr(&SliceV{p.obj, p.off, n, n})
	case "StringData":
		return in.strData(args[0].(*Str))
	case "Slice":
		n := in.idx64(c.Args[1].Type(), args[1])
		p := args[0].(Ptr)
		return &SliceV{p.obj, p.off, n, n}
	case "SliceData":
		s := args[0].(*SliceV)
		return Ptr{s.obj, s.off}
	case "Add":
		p := args[0].(Ptr)
		n := in.idx64(c.Args[1].Type(), args[1])
		return Ptr{p.obj, p.off + int64(in.concretize(n))}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (in *Interp) doAppend(et types.Type, s *SliceV, more Value) Value {
	es := in.T.sizeof(et)
	P := in.P
	var src []Value
	var srcSl *SliceV
	switch m := more.(type) {
	case *Str:
		for _, t := range in.strTerms(m) {
			src = append(src, t)
		}
	case *SliceV:
		srcSl = m
		k := in.concLen(m.len)
		src = make([]Value, k)
		for i := range src {
			src[i] = in.load(Ptr{m.obj, m.off + int64(i)*es}, et)
		}
	}
	_ = srcSl
	if len(src) == 0 {
		return s
	}
	n := int64(in.concLen(s.len))
	var c int64
	if s.cap.op == OConst {
		c = int64(s.cap.val)
	} else {
		c = int64(in.concretize(s.cap))
	}
	nl := n + int64(len(src))
	if nl <= c {
		for i, v := range src {
			in.store(Ptr{s.obj, s.off + (n+int64(i))*es}, et, v)
		}
		return &SliceV{s.obj, s.off, P.BV(64, uint64(nl)), s.cap}
	}
	nc := growCap(c, nl, es)
	o := in.newObj1(et, nc, "append")
	in.copyElems(et, es, Ptr{o, 0}, Ptr{s.obj, s.off}, n)
	for i, v := range src {
		in.store(Ptr{o, (n + int64(i)) * es}, et, v)
	}
	return &SliceV{o, 0, P.BV(64, uint64(nl)), P.BV(64, uint64(nc))}
}

func (in *Interp) copyElems(et types.Type, es int64, dst, src Ptr, n int64) {
	if n == 0 {
		return
	}
	// fast path: same leaf structure
	if dst.obj.lay == src.obj.lay && es == dst.obj.lay.size && dst.off%es == 0 && src.off%es == 0 {
		nl := int64(len(dst.obj.lay.leaves))
		ds, ss := dst.off/es*nl, src.off/es*nl
		if dst.obj == src.obj && ds > ss {
			for i := n*nl - 1; i >= 0; i-- {
				in.setSlot(dst.obj, ds+i, src.obj.get(ss+i))
			}
			return
		}
		for i := int64(0); i < n*nl; i++ {
			in.setSlot(dst.obj, ds+i, src.obj.get(ss+i))
		}
		return
	}
	tmp := make([]Value, n)
	for i := range tmp {
		tmp[i] = in.load(Ptr{src.obj, src.off + int64(i)*es}, et)
	}
	for i := range tmp {
		in.store(Ptr{dst.obj, dst.off + int64(i)*es}, et, tmp[i])
	}
}

func (in *Interp) doCopy(et types.Type, d *SliceV, sv Value) Value {
	P := in.P
	var sl *Term
	var s *SliceV
	switch x := sv.(type) {
	case *Str:
		s = in.strBytes(x)
	case *SliceV:
		s = x
	default:
		panic(unsupported(fmt.Sprintf("copy from %T", sv)))
	}
	sl = s.len
	dl := d.len
	var n int64
	switch {
	case dl.op == OConst && sl.op == OConst:
		n = int64(dl.val)
		if int64(sl.val) < n {
			n = int64(sl.val)
		}
	case sl.op == OConst:
		if in.branch(P.Sle(sl, dl)) {
			n = int64(sl.val)
		} else {
			n = int64(in.concretize(dl))
		}
	case dl.op == OConst:
		if in.branch(P.Sle(dl, sl)) {
			n = int64(dl.val)
		} else {
			n = int64(in.concretize(sl))
		}
	default:
		if in.branch(P.Sle(sl, dl)) {
			n = int64(in.concretize(sl))
		} else {
			n = int64(in.concretize(dl))
		}
	}
	in.copyElems(et, in.T.sizeof(et), Ptr{d.obj, d.off}, Ptr{s.obj, s.off}, n)
	return P.BV(64, uint64(n))
}
