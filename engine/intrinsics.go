package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "os": true, "net": true, "syscall": true, "internal/poll": true, "log": true,
	"internal/godebug": true, "internal/godebugs": true, "net/http": true, "crypto/tls": true, "internal/syscall/unix": true, "testing": true, "flag": true,
	"crypto/internal/fips140": true, "crypto/internal/fips140/check": true, "reflect": true, "sync": true,
}

var intr = map[string]Intrinsic{}

func reg(name string, f Intrinsic) {
	intr[name] = f
}
func regs(f Intrinsic, names ...string) {
	for _, n := range names {
		reg(n, f)
	}
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.String()
	return s
}

func findIntrinsic(fn *ssa.Function) Intrinsic {
	k := fnKey(fn)
	if f, ok := intr[k]; ok {
		return f
	}
	if i := strings.Index(k, "/verifvp."); i >= 0 {
		if f, ok := intr["vp."+k[i+9:]]; ok {
			return f
		}
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "log":
			return func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
				return in.zeroResults(fn)
			}
		}
	}
	return nil
}

// retErr builds an error interface holding an errors.errorString with the given text.
func (in *Interp) mkError(msg string) *Iface {
	pkg := in.prog.ImportedPackage("errors")
	t := pkg.Type("errorString").Type()
	o := in.newObj(t, 1, "error")
	in.store(Ptr{o, 0}, t, Agg{in.mkStr(msg)})
	return &Iface{in.T.canonT(types.NewPointer(t)), Ptr{o, 0}, nil}
}

func (in *Interp) auxGet(p Ptr) interface{} {
	if p.obj == nil {
		in.panicRT("invalid memory address or nil pointer dereference")
	}
	if p.obj.aux == nil {
		return nil
	}
	return p.obj.aux[p.off]
}
func (in *Interp) auxSet(p Ptr, v interface{}) {
	if p.obj.aux == nil {
		p.obj.aux = map[int64]interface{}{}
	}
	if p.obj.base && in.initDepth == 0 {
		o, off := p.obj, p.off
		old, had := o.aux[off]
		in.onUndo(func() {
			if had {
				o.aux[off] = old
			} else {
				delete(o.aux, off)
			}
		})
	}
	p.obj.aux[p.off] = v
}

func isConcStr(v Value) (string, bool) {
	s, ok := v.(*Str)
	if !ok || s.b != nil {
		return "", false
	}
	return s.s, true
}
func constOf(v Value) (uint64, bool) {
	t, ok := v.(*Term)
	if !ok || t.op != OConst {
		return 0, false
	}
	return t.val, true
}

func (in *Interp) iv(n int64) *Term { return in.P.BV(64, uint64(n)) }

func (in *Interp) fresh(name string, s Sort) *Term {
	v := in.P.Var(name, s)
	in.varList = append(in.varList, v)
	if in.pendModel != nil {
		if x, ok := in.pendModel[v.name]; ok {
			in.model[v] = x
		}
	}
	return v
}

func (in *Interp) inputName(v Value) string {
	n, ok := isConcStr(v)
	if !ok {
		panic(unsupported("symbolic input name"))
	}
	return in.uniq(n)
}
func (in *Interp) uniq(n string) string {
	k := in.inNames[n]
	in.inNames[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (in *Interp) newInput(name, kind string, s Sort) *Term {
	t := in.fresh(name, s)
	in.inputs = append(in.inputs, Input{Name: name, Kind: kind, T: t})
	return t
}

type mutexState struct {
	w bool
	r int
}

func (in *Interp) vpInit() {}

func init() {
	// ------------------------------------------------------------ harness API
	num := func(kind string, s Sort) Intrinsic {
		return func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			return in.newInput(in.inputName(a[0]), kind, s)
		}
	}
	reg("vp.Bool", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := in.newInput(in.inputName(a[0]), "bool", 1)
		return in.P.Eq(t, in.P.BV(1, 1))
	})
	reg("vp.U8", num("u", 8))
	reg("vp.U16", num("u", 16))
	reg("vp.U32", num("u", 32))
	reg("vp.U64", num("u", 64))
	reg("vp.I8", num("i", 8))
	reg("vp.I16", num("i", 16))
	reg("vp.I32", num("i", 32))
	reg("vp.I64", num("i", 64))
	reg("vp.Int", num("i", 64))
	reg("vp.F32", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.P.FpOfBv(in.newInput(in.inputName(a[0]), "f32", 32), SFP32)
	})
	reg("vp.F64", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.P.FpOfBv(in.newInput(in.inputName(a[0]), "f64", 64), SFP64)
	})
	mkB := func(in *Interp, a []Value) []*Term {
		name := in.inputName(a[0])
		n := in.concretize(in.term(a[1]))
		b := make([]*Term, n)
		for i := range b {
			b[i] = in.newInput(fmt.Sprintf("%s[%d]", name, i), "u", 8)
		}
		return b
	}
	reg("vp.Bytes", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.mkBytes(mkB(in, a)) })
	reg("vp.Str", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return normStr(mkB(in, a)) })
	reg("vp.Choice", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		name := in.inputName(a[0])
		n := in.concretize(in.term(a[1]))
		c := in.choice(int(n))
		in.inputs = append(in.inputs, Input{Name: name, Kind: "c", Conc: int64(c)})
		return in.iv(int64(c))
	})
	reg("vp.Range", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := in.newInput(in.inputName(a[0]), "i", 64)
		lo, hi := in.term(a[1]), in.term(a[2])
		in.assume(in.P.And(in.P.Sle(lo, t), in.P.Sle(t, hi)))
		return t
	})
	reg("vp.Assume", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		in.assume(in.term(a[0]))
		return nil
	})
	reg("vp.Assert", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		l, _ := isConcStr(a[1])
		in.assertT(in.term(a[0]), l, "assert")
		return nil
	})
	reg("vp.Reach", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		l, _ := isConcStr(a[0])
		in.reached[l]++
		return nil
	})
	reg("vp.Observe", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		l, _ := isConcStr(a[0])
		in.observed = append(in.observed, obs{label: l, t: []*Term{in.idx64(types.Typ[types.Uint64], a[1])}})
		return nil
	})
	reg("vp.Concretize", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.P.BV(64, in.concretize(in.term(a[0])))
	})
	reg("vp.Symbolic", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.P.True })
	reg("vp.Stop", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { panic(pathEnd{"ok", ""}) })
	reg("vp.Drain", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		in.drain(in.cur)
		return nil
	})
	reg("vp.Limit", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		l, _ := isConcStr(a[0])
		v, _ := constOf(a[1])
		switch l {
		case "steps":
			in.maxSteps = int64(v)
		case "conc":
			in.maxConc = int(v)
		case "rand":
			in.randConc = v != 0
		}
		return nil
	})
	// If(c, a, b) merge helper
	reg("vp.Ite", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.P.Ite(in.term(a[0]), in.term(a[1]), in.term(a[2]))
	})
	reg("vp.And", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.P.And(in.term(a[0]), in.term(a[1]))
	})
	reg("vp.Or", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.P.Or(in.term(a[0]), in.term(a[1]))
	})
	reg("vp.EqBytes", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.bytesEq(a[0].(*SliceV), a[1].(*SliceV))
	})

	noop := func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.zeroResults(fn) }
	ident := func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] }

	// ------------------------------------------------------------ sync
	getM := func(in *Interp, v Value) (Ptr, mutexState) {
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported("mutex pointer"))
		}
		s, _ := in.auxGet(p).(mutexState)
		return p, s
	}
	lock := func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, s := getM(in, a[0])
		if s.w || s.r > 0 {
			panic(blockedSig{"mutex lock"})
		}
		s.w = true
		in.auxSet(p, s)
		return nil
	}
	unlock := func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, s := getM(in, a[0])
		if !s.w {
			panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex\x00" + in.trace()})
		}
		s.w = false
		in.auxSet(p, s)
		return nil
	}
	regs(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	regs(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, s := getM(in, a[0])
		if s.w || s.r > 0 {
			return in.P.False
		}
		s.w = true
		in.auxSet(p, s)
		return in.P.True
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*internal/sync.Mutex).TryLock")
	reg("(*sync.RWMutex).RLock", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, s := getM(in, a[0])
		if s.w {
			panic(blockedSig{"rwmutex rlock"})
		}
		s.r++
		in.auxSet(p, s)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, s := getM(in, a[0])
		if s.r <= 0 {
			panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex\x00" + in.trace()})
		}
		s.r--
		in.auxSet(p, s)
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		n, _ := in.auxGet(p).(int64)
		n += int64(in.concretize(in.term(a[1])))
		if n < 0 {
			panic(goPanic{in.mkErrStr("sync: negative WaitGroup counter"), "sync: negative WaitGroup counter"})
		}
		in.auxSet(p, n)
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		n, _ := in.auxGet(p).(int64)
		n--
		if n < 0 {
			panic(goPanic{in.mkErrStr("sync: negative WaitGroup counter"), "sync: negative WaitGroup counter"})
		}
		in.auxSet(p, n)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, _ := in.auxGet(a[0].(Ptr)).(int64)
		if n > 0 {
			panic(blockedSig{"waitgroup wait"})
		}
		return nil
	})
	reg("(*sync.Once).Do", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		if d, _ := in.auxGet(p).(bool); d {
			return nil
		}
		in.auxSet(p, true)
		in.callSync(a[1], nil)
		return nil
	})
	// Pool: LIFO free list
	reg("(*sync.Pool).Get", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		l, _ := in.auxGet(p).([]Value)
		if len(l) > 0 {
			v := l[len(l)-1]
			in.auxSet(p, l[:len(l)-1:len(l)-1])
			return v
		}
		pt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := in.load(Ptr{p.obj, p.off + in.T.offsets(st)[i]}, st.Field(i).Type())
				if c, ok := f.(*Closure); ok && c != nil {
					return in.callSync(c, nil)
				}
			}
		}
		return (*Iface)(nil)
	})
	reg("(*sync.Pool).Put", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		l, _ := in.auxGet(p).([]Value)
		if f, ok := a[1].(*Iface); ok && f == nil {
			return nil
		}
		in.auxSet(p, append(l[:len(l):len(l)], a[1]))
		return nil
	})
	// sync.Map
	anyT := types.Universe.Lookup("any").Type()
	smap := func(in *Interp, v Value) *MapV {
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported("sync.Map pointer"))
		}
		if m, ok := in.auxGet(p).(*MapV); ok {
			return m
		}
		m := in.newMap(anyT, anyT)
		in.auxSet(p, m)
		return m
	}
	reg("(*sync.Map).Load", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		v, ok := in.mapGet(smap(in, a[0]), a[1])
		if !ok {
			return Tuple{(*Iface)(nil), in.P.False}
		}
		return Tuple{v, in.P.True}
	})
	reg("(*sync.Map).Store", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		in.mapSet(smap(in, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		v, ok := in.mapGet(m, a[1])
		if ok {
			return Tuple{v, in.P.True}
		}
		in.mapSet(m, a[1], a[2])
		return Tuple{a[2], in.P.False}
	})
	reg("(*sync.Map).LoadAndDelete", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		v, ok := in.mapGet(m, a[1])
		if !ok {
			return Tuple{(*Iface)(nil), in.P.False}
		}
		in.mapDelete(m, a[1])
		return Tuple{v, in.P.True}
	})
	reg("(*sync.Map).Delete", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		in.mapDelete(smap(in, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		for i := 0; i < len(m.entries); i++ {
			e := m.entries[i]
			if !e.live {
				continue
			}
			r := in.callSync(a[1], []Value{e.k, e.v})
			if !in.branch(in.term(r)) {
				break
			}
		}
		return nil
	})

	// ------------------------------------------------------------ atomic
	for _, k := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]}} {
		t := k.t
		reg("sync/atomic.Load"+k.n, func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.loadAny(a[0], t) })
		reg("sync/atomic.Store"+k.n, func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			in.storeAny(a[0], t, a[1])
			return nil
		})
		reg("sync/atomic.Swap"+k.n, func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			o := in.loadAny(a[0], t)
			in.storeAny(a[0], t, a[1])
			return o
		})
		reg("sync/atomic.Add"+k.n, func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			o := in.P.BvAdd(in.term(in.loadAny(a[0], t)), in.term(a[1]))
			in.storeAny(a[0], t, o)
			return o
		})
		reg("sync/atomic.And"+k.n, func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			o := in.term(in.loadAny(a[0], t))
			in.storeAny(a[0], t, in.P.BvAnd(o, in.term(a[1])))
			return o
		})
		reg("sync/atomic.Or"+k.n, func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			o := in.term(in.loadAny(a[0], t))
			in.storeAny(a[0], t, in.P.BvOr(o, in.term(a[1])))
			return o
		})
		reg("sync/atomic.CompareAndSwap"+k.n, func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			o := in.loadAny(a[0], t)
			if in.branch(in.equal(t, o, a[1])) {
				in.storeAny(a[0], t, a[2])
				return in.P.True
			}
			return in.P.False
		})
	}
	reg("(*sync/atomic.Value).Load", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.loadAny(a[0], anyT) })
	reg("(*sync/atomic.Value).Store", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		in.storeAny(a[0], anyT, a[1])
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		o := in.loadAny(a[0], anyT)
		in.storeAny(a[0], anyT, a[1])
		return o
	})

	// ------------------------------------------------------------ runtime & misc
	regs(noop, "runtime.Callers", "runtime.Caller", "runtime.GC", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.NumGoroutine", "runtime.FuncForPC", "runtime.CallersFrames",
		"runtime.fastrand", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value", "runtime/debug.SetGCPercent", "runtime.AddCleanup",
		"internal/msan.Read", "internal/asan.Read", "internal/msan.Write", "internal/asan.Write", "os.Getenv", "runtime/debug.PrintStack", "runtime/debug.Stack",
		"crypto/internal/boring.Unreachable", "crypto/internal/boring.UnreachableExceptTests", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved", "crypto/internal/fips140only.Enforced",
		"crypto/internal/fips140only.ApprovedHash")
	reg("internal/godebug.New", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Ptr{in.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), 1, "godebug"), 0}
	})
	reg("runtime.Gosched", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return nil })
	regs(ident, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/stringslite.Clone", "strings.Clone", "internal/runtime/sys.Prefetch")
	reg("reflect.escapes", noop)

	// ------------------------------------------------------------ time
	reg("time.Now", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.timeNow() })
	reg("time.Since", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.callMethod(fn, "Sub", in.timeNow(), a[0])
	})
	reg("time.Until", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.callMethod(fn, "Sub", a[0], in.timeNow())
	})
	reg("time.runtimeNano", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		in.timeSeq++
		return in.iv(in.timeSeq * 1000)
	})
	reg("time.Sleep", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		in.drain(in.cur)
		return nil
	})
	mkTimer := func(in *Interp, fn *ssa.Function) Value {
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		o := in.newObj(pt, 1, "timer")
		in.objSeq++
		ch := &ChanV{id: in.objSeq, cap: 1, elem: in.timeType()}
		st := pt.Underlying().(*types.Struct)
		in.store(Ptr{o, 0}, st.Field(0).Type(), ch)
		return Ptr{o, 0}
	}
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return mkTimer(in, fn) }, "time.NewTimer", "time.NewTicker", "time.AfterFunc")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		in.objSeq++
		return &ChanV{id: in.objSeq, cap: 1, elem: in.timeType()}
	}, "time.After", "time.Tick")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.P.True }, "(*time.Timer).Stop", "(*time.Timer).Reset")
	regs(noop, "(*time.Ticker).Stop", "(*time.Ticker).Reset")

	// ------------------------------------------------------------ bytes / strings
	bEq := func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.bytesEq(a[0].(*SliceV), a[1].(*SliceV))
	}
	regs(bEq, "bytes.Equal", "internal/bytealg.Equal", "crypto/hmac.Equal")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		e := in.bytesEq(a[0].(*SliceV), a[1].(*SliceV))
		return in.P.Ite(e, in.iv(1), in.iv(0))
	}, "crypto/subtle.ConstantTimeCompare")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		d := a[0].(*SliceV)
		x, y := in.sliceBytes(a[1].(*SliceV)), in.sliceBytes(a[2].(*SliceV))
		n := min(len(x), len(y))
		if n > int(in.concLen(d.len)) {
			in.panicRT("subtle.XORBytes: dst too short")
		}
		for i := 0; i < n; i++ {
			in.store(Ptr{d.obj, d.off + int64(i)}, byteType, in.P.BvXor(x[i], y[i]))
		}
		return in.iv(int64(n))
	}, "crypto/subtle.XORBytes", "crypto/internal/fips140/subtle.XORBytes")
	// the text of an unknown status code is only logged; a symbolic code is given a fixed text instead of forking over every code
	reg("(github.com/awcullen/opcua/ua.StatusCode).Error", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if _, ok := constOf(a[0]); ok {
			return in.runBody(fn, a)
		}
		return in.mkStr("(a status code)")
	})
	idxB := func(in *Interp, bs []*Term, c *Term, last bool) Value {
		n := len(bs)
		for k := 0; k < n; k++ {
			i := k
			if last {
				i = n - 1 - k
			}
			if in.branch(in.P.Eq(bs[i], c)) {
				return in.iv(int64(i))
			}
		}
		return in.iv(-1)
	}
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return idxB(in, in.sliceBytes(a[0].(*SliceV)), in.term(a[1]), false)
	}, "internal/bytealg.IndexByte", "bytes.IndexByte")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(*Str)
		if c, ok := constOf(a[1]); ok && s.b == nil {
			return in.iv(int64(strings.IndexByte(s.s, byte(c))))
		}
		return idxB(in, in.strTerms(s), in.term(a[1]), false)
	}, "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return idxB(in, in.strTerms(a[0].(*Str)), in.term(a[1]), true)
	}, "internal/bytealg.LastIndexByteString", "strings.LastIndexByte")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, t := a[0].(*Str), a[1].(*Str)
		if s.b == nil && t.b == nil {
			return in.iv(int64(strings.Index(s.s, t.s)))
		}
		for i := 0; i+t.Len() <= s.Len(); i++ {
			if in.branch(in.strEq(in.strSub(s, i, i+t.Len()), t)) {
				return in.iv(int64(i))
			}
		}
		return in.iv(-1)
	}, "strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := in.term(a[1])
		n := in.iv(0)
		for _, b := range in.strTerms(a[0].(*Str)) {
			if in.branch(in.P.Eq(b, c)) {
				n = in.P.BvAdd(n, in.iv(1))
			}
		}
		return n
	}, "internal/bytealg.CountString")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := in.term(a[1])
		n := in.iv(0)
		for _, b := range in.sliceBytes(a[0].(*SliceV)) {
			if in.branch(in.P.Eq(b, c)) {
				n = in.P.BvAdd(n, in.iv(1))
			}
		}
		return n
	}, "internal/bytealg.Count")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := in.bytesToStr(a[0].(*SliceV)), in.bytesToStr(a[1].(*SliceV))
		if in.branch(in.strEq(x, y)) {
			return in.iv(0)
		}
		if in.branch(in.strLess(x, y)) {
			return in.iv(-1)
		}
		return in.iv(1)
	}, "internal/bytealg.Compare", "bytes.Compare")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Str), a[1].(*Str)
		if in.branch(in.strEq(x, y)) {
			return in.iv(0)
		}
		if in.branch(in.strLess(x, y)) {
			return in.iv(-1)
		}
		return in.iv(1)
	}, "internal/bytealg.CompareString", "strings.Compare")
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := in.term(a[0])
		return in.makeSlice(byteType, n, n)
	})
	reg("strings.Split", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := isConcStr(a[0]); ok {
			if t, ok := isConcStr(a[1]); ok {
				var vs []Value
				for _, x := range strings.Split(s, t) {
					vs = append(vs, in.mkStr(x))
				}
				return in.mkSlice(types.Typ[types.String], vs)
			}
		}
		return in.runBody(fn, a)
	})

	// ------------------------------------------------------------ strconv (native when concrete)
	concretes := func(a []Value) bool {
		for _, v := range a {
			switch x := v.(type) {
			case *Term:
				if x.op != OConst {
					return false
				}
			case *Str:
				if x.b != nil {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	reg("strconv.Itoa", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if concretes(a) {
			return in.mkStr(strconv.Itoa(int(int64(a[0].(*Term).val))))
		}
		return in.runBody(fn, a)
	})
	reg("strconv.FormatInt", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if concretes(a) {
			return in.mkStr(strconv.FormatInt(int64(a[0].(*Term).val), int(a[1].(*Term).val)))
		}
		return in.runBody(fn, a)
	})
	reg("strconv.FormatUint", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if concretes(a) {
			return in.mkStr(strconv.FormatUint(a[0].(*Term).val, int(a[1].(*Term).val)))
		}
		if b, ok := constOf(a[1]); ok && b == 10 {
			return in.decimal(in.term(a[0]))
		}
		return in.runBody(fn, a)
	})
	reg("strconv.FormatFloat", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if concretes(a) {
			return in.mkStr(strconv.FormatFloat(math.Float64frombits(a[0].(*Term).val), byte(a[1].(*Term).val), int(int64(a[2].(*Term).val)), int(a[3].(*Term).val)))
		}
		panic(unsupported("FormatFloat symbolic"))
	})
	reg("strconv.ParseFloat", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if concretes(a) {
			f, err := strconv.ParseFloat(a[0].(*Str).s, int(a[1].(*Term).val))
			var e *Iface
			if err != nil {
				e = in.mkError(err.Error())
			}
			return Tuple{in.P.F64(f), e}
		}
		panic(unsupported("ParseFloat symbolic"))
	})

	// ------------------------------------------------------------ math
	reg("math.Float64bits", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.P.FpToBv(in.term(a[0])) })
	reg("math.Float32bits", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.P.FpToBv(in.term(a[0])) })
	reg("math.Float64frombits", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.P.FpOfBv(in.term(a[0]), SFP64)
	})
	reg("math.Float32frombits", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.P.FpOfBv(in.term(a[0]), SFP32)
	})
	reg("math.Abs", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.P.FpAbs(in.term(a[0])) })
	reg("math.IsNaN", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.P.FpIsNaN(in.term(a[0])) })
	rti := func(m uint64) Intrinsic {
		return func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.P.FpRti(in.term(a[0]), m) }
	}
	regs(rti(1), "math.Ceil", "math.ceil")
	regs(rti(2), "math.Floor", "math.floor")
	regs(rti(3), "math.Trunc", "math.trunc")
	regs(rti(0), "math.RoundToEven")
	natF := func(f func(float64) float64) Intrinsic {
		return func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			if v, ok := constOf(a[0]); ok {
				return in.P.F64(f(math.Float64frombits(v)))
			}
			panic(unsupported(fn.String() + " symbolic"))
		}
	}
	// the remainder of symbolic numbers is left open: more results than real ones
	reg("math.Mod", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := constOf(a[0])
		y, ok2 := constOf(a[1])
		if ok1 && ok2 {
			return in.P.F64(math.Mod(math.Float64frombits(x), math.Float64frombits(y)))
		}
		return in.P.FpOfBv(in.randTerm(64), SFP64)
	})
	reg("math.Sqrt", natF(math.Sqrt))
	reg("math.Log", natF(math.Log))
	reg("math.Exp", natF(math.Exp))
	reg("math.Sin", natF(math.Sin))
	reg("math.Cos", natF(math.Cos))

	// ------------------------------------------------------------ fmt
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{in.iv(0), (*Iface)(nil)}
	}, "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintln", "os.Stdout.Write")
	reg("fmt.Errorf", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, _ := isConcStr(a[0])
		// wrapped errors keep identity through %w
		if strings.Contains(f, "%w") {
			return in.runBody(fn, a)
		}
		return in.mkError("fmt.Errorf: " + f)
	})
	pkgErr := func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, _ := isConcStr(a[0])
		return in.mkError("errors.Errorf: " + f)
	}
	reg("github.com/pkg/errors.Errorf", pkgErr)
	reg("fmt.Sprintf", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return in.sprintf(fn, a) })

	// ------------------------------------------------------------ errors
	reg("errors.As", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		err, _ := a[0].(*Iface)
		tgt, _ := a[1].(*Iface)
		if tgt == nil {
			in.panicRT("errors: target cannot be nil")
		}
		et := tgt.t.Underlying().(*types.Pointer).Elem()
		for err != nil {
			ok := false
			if types.IsInterface(et) {
				ok = in.implements(err.t, et)
			} else {
				ok = types.Identical(err.t, et)
			}
			if ok {
				var v Value = err
				if !types.IsInterface(et) {
					v = err.v
				}
				in.store(tgt.v.(Ptr), et, v)
				return in.P.True
			}
			progMu.Lock()
			f := in.prog.LookupMethod(err.t, nil, "Unwrap")
			progMu.Unlock()
			if f == nil {
				break
			}
			r := in.callSync(&Closure{fn: f}, []Value{err.v})
			err, _ = r.(*Iface)
		}
		return in.P.False
	})

	// ------------------------------------------------------------ rand
	reg("crypto/rand.Read", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.randFill(a[0].(*SliceV))
	})
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.randFill(a[1].(*SliceV))
	}, "(*crypto/rand.reader).Read", "(crypto/rand.reader).Read", "(*crypto/internal/rand.reader).Read")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		in.randFill(a[0].(*SliceV))
		return nil
	}, "crypto/internal/sysrand.Read", "crypto/internal/fips140/drbg.Read")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.randTerm(64)
	}, "math/rand.Int63", "math/rand.Uint64", "math/rand.Int", "math/rand/v2.Uint64")
	regs(func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return in.randTerm(32)
	}, "math/rand.Uint32", "math/rand/v2.Uint32")

	// ------------------------------------------------------------ sort
	reg("sort.Slice", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := a[0].(*Iface)
		et := f.t.Underlying().(*types.Slice).Elem()
		s := f.v.(*SliceV)
		n := in.concLen(s.len)
		es := in.T.sizeof(et)
		at := func(i int) Ptr { return Ptr{s.obj, s.off + int64(i)*es} }
		for i := 1; i < n; i++ {
			for j := i; j > 0; j-- {
				r := in.callSync(a[1], []Value{in.iv(int64(j)), in.iv(int64(j - 1))})
				if !in.branch(in.term(r)) {
					break
				}
				x, y := in.load(at(j), et), in.load(at(j-1), et)
				in.store(at(j), et, y)
				in.store(at(j-1), et, x)
			}
		}
		return nil
	})
	intr["sort.SliceStable"] = intr["sort.Slice"]

	// ------------------------------------------------------------ workerpool: each task is its own goroutine
	reg("github.com/gammazero/workerpool.New", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return Ptr{in.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), 1, "workerpool"), 0}
	})
	reg("(*github.com/gammazero/workerpool.WorkerPool).Submit", func(in *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if a[1].(*Closure) != nil {
			in.spawn(a[1], nil)
		}
		return nil
	})
	regs(noop, "(*github.com/gammazero/workerpool.WorkerPool).Stop", "(*github.com/gammazero/workerpool.WorkerPool).StopWait")

	regReflect()
	regCrypto()
}

func (in *Interp) runBody(fn *ssa.Function, args []Value) Value {
	// run the real body of an intercepted function
	body := in.bodyOf(fn)
	if body.intr != nil {
		panic(unsupported("no body for " + fn.String()))
	}
	g := in.cur
	n := len(g.stack)
	fr := &Frame{cf: body, env: make([]Value, body.nreg), prev: -1, dst: -1, base: true}
	copy(fr.env, args)
	if fn.Pkg != nil && in.inited[fn.Pkg] == 0 {
		in.ensureInit(fn.Pkg)
	}
	var ret Value
	fr.onRet = func(v Value) { ret = v }
	g.stack = append(g.stack, fr)
	in.runNested(g, n)
	return ret
}

func (in *Interp) bytesEq(x, y *SliceV) *Term {
	if x.len.op != OConst || y.len.op != OConst {
		if !in.branch(in.P.Eq(x.len, y.len)) {
			return in.P.False
		}
		n := in.concLen(x.len)
		x = &SliceV{x.obj, x.off, in.iv(int64(n)), x.cap}
		y = &SliceV{y.obj, y.off, in.iv(int64(n)), y.cap}
	}
	if x.len.val != y.len.val {
		return in.P.False
	}
	a, b := in.sliceBytes(x), in.sliceBytes(y)
	r := in.P.True
	for i := range a {
		r = in.P.And(r, in.P.Eq(a[i], b[i]))
		if r == in.P.False {
			break
		}
	}
	return r
}

func (in *Interp) timeType() types.Type { return in.prog.ImportedPackage("time").Type("Time").Type() }

// timeNow: a concrete, strictly increasing clock (2024-06-01T00:00:00Z + 1us per call) with a monotonic reading.
func (in *Interp) timeNow() Value {
	in.timeSeq++
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	const wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	sec := int64(1717200000) + unixToInternal - wallToInternal
	ns := in.timeSeq * 1000
	sec += ns / 1e9
	nsec := ns % 1e9
	wall := uint64(1)<<63 | uint64(sec)<<30 | uint64(nsec)
	tp := in.prog.ImportedPackage("time")
	loc := Ptr{in.global(tp.Var("localLoc")), 0}
	return Agg{in.P.BV(64, wall), in.iv(ns + 1), loc}
}

func (in *Interp) callMethod(fn *ssa.Function, name string, recv Value, args ...Value) Value {
	t := in.timeType()
	progMu.Lock()
	m := in.prog.LookupMethod(t, nil, name)
	progMu.Unlock()
	return in.callSync(&Closure{fn: m}, append([]Value{recv}, args...))
}

func (in *Interp) randTerm(w int) *Term {
	in.randSeq++
	return in.fresh(fmt.Sprintf("rand!%d", in.randSeq), Sort(w))
}

func (in *Interp) randFill(s *SliceV) Value {
	n := in.concLen(s.len)
	if in.randConc {
		in.randSeq++
		for i, c := range rsaTag(n, "random", fmt.Sprint(in.randSeq)) {
			in.store(Ptr{s.obj, s.off + int64(i)}, byteType, in.P.BV(8, uint64(c)))
		}
		return Tuple{in.iv(int64(n)), (*Iface)(nil)}
	}
	for i := 0; i < n; i++ {
		var v *Term
		if in.initDepth > 0 {
			v = in.P.BV(8, uint64(i*7+1))
		} else {
			v = in.randTerm(8)
		}
		in.store(Ptr{s.obj, s.off + int64(i)}, byteType, v)
	}
	return Tuple{in.iv(int64(n)), (*Iface)(nil)}
}

// sprintf handles the common verbs on basic values; anything else falls back to interpreting fmt itself.
func (in *Interp) sprintf(fn *ssa.Function, a []Value) Value {
	f, ok := isConcStr(a[0])
	if !ok {
		return in.runBody(fn, a)
	}
	anyT := types.Universe.Lookup("any").Type()
	args := in.sliceVals(a[1].(*SliceV), anyT)
	var parts []Value
	lit := func(s string) { parts = append(parts, in.mkStr(s)) }
	ai := 0
	simple := true
	var buf bytes.Buffer
	for i := 0; i < len(f) && simple; i++ {
		if f[i] != '%' {
			buf.WriteByte(f[i])
			continue
		}
		i++
		if i >= len(f) {
			simple = false
			break
		}
		if f[i] == '%' {
			buf.WriteByte('%')
			continue
		}
		if ai >= len(args) {
			simple = false
			break
		}
		av, _ := args[ai].(*Iface)
		ai++
		if av == nil {
			simple = false
			break
		}
		bt, isB := av.t.Underlying().(*types.Basic)
		if !isB {
			simple = false
			break
		}
		_, named := av.t.(*types.Named)
		switch f[i] {
		case 'd', 'v':
			if f[i] == 'v' && named {
				simple = false
				break
			}
			if bt.Info()&types.IsString != 0 && f[i] == 'v' {
				lit(buf.String())
				buf.Reset()
				parts = append(parts, av.v)
				break
			}
			if !isIntKind(bt) {
				simple = false
				break
			}
			lit(buf.String())
			buf.Reset()
			t := in.idx64(av.t, av.v)
			name := "FormatInt"
			if !isSigned(av.t) {
				name = "FormatUint"
			}
			sf := in.prog.ImportedPackage("strconv").Func(name)
			parts = append(parts, in.callSync(&Closure{fn: sf}, []Value{t, in.iv(10)}))
		case 's':
			if bt.Info()&types.IsString == 0 || named {
				simple = false
				break
			}
			lit(buf.String())
			buf.Reset()
			parts = append(parts, av.v)
		default:
			simple = false
		}
	}
	if !simple || ai != len(args) {
		return in.runBody(fn, a)
	}
	lit(buf.String())
	r := emptyStr
	for _, p := range parts {
		r = in.strCat(r, p.(*Str))
	}
	return r
}

func regCrypto() {}

// decimal is the base-10 text of an unsigned 64-bit term: it forks over the number of digits.
func (in *Interp) decimal(x *Term) Value {
	P := in.P
	n, pow := 1, uint64(10)
	for n < 20 && !in.branch(P.Ult(x, P.BV(64, pow))) {
		n++
		if n < 20 {
			pow *= 10
		}
	}
	w := 64
	if n <= 9 {
		w = 32
	}
	if n <= 4 {
		w = 16
	}
	y := P.Extract(x, w-1, 0)
	b := make([]*Term, n)
	p := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := P.BvUrem(P.BvUdiv(y, P.BV(w, p)), P.BV(w, 10))
		b[i] = P.BvAdd(P.Extract(d, 7, 0), P.BV(8, '0'))
		p *= 10
	}
	return &Str{b: b}
}
