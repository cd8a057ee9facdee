package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of: *Term, Ptr, *SymPtr, *Str, *SliceV, *Iface, *Closure, *MapV, *ChanV, Agg (struct/array), Tuple,
// *RType, *RVal, Poison, nil (= zero value of its leaf type inside memory slots only).
type Value interface{}

type Agg []Value
type Tuple []Value

type Ptr struct {
	obj *Obj
	off int64
}

// SymPtr: element address with symbolic index (already bounds-checked).
type SymPtr struct {
	obj   *Obj
	off   int64
	idx   *Term
	esize int64
	n     int64
	sub   int64 // byte offset inside the element
}

type Str struct {
	s string
	b []*Term // non-nil => symbolic
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type SliceV struct {
	obj *Obj
	off int64
	len *Term
	cap *Term
}

type Iface struct {
	t   types.Type
	v   Value
	box *Obj // the data word once its address has been taken
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	nat  func(in *Interp, args []Value) Value // native closure
	name string
}

type Poison struct{ why string }

type RType struct{ t types.Type }

type RVal struct {
	t    types.Type
	v    Value // value when not addressable
	p    Ptr   // address when addressable
	addr bool
}

type mapEntry struct {
	k, v Value
	live bool
}

type MapV struct {
	id      int
	kt, vt  types.Type
	entries []*mapEntry
	idx     map[string]int // concrete key -> entry index
	n       int
	symKeys int
	base    bool
}

type ChanV struct {
	id     int
	buf    []Value
	cap    int
	closed bool
	base   bool
	elem   types.Type
	recvq  int
	unbuf  []*Gor
}

// ---------------------------------------------------------------- layout

type leafT struct {
	off int64
	t   types.Type // underlying leaf type
	sz  int64
}

type Layout struct {
	t      types.Type
	size   int64
	leaves []leafT
	idx    map[int64]int
}

type Obj struct {
	owner  *Iface
	id     int
	lay    *Layout
	n      int64
	vals   []Value
	sparse map[int64]Value
	base   bool
	name   string
	native interface{} // attached native state (sync.Map, mutex ...)
	aux    map[int64]interface{}
}

var gcSizes = types.SizesFor("gc", "amd64")

type TypeEnv struct {
	layouts typeutil.Map
	canon   typeutil.Map
	sizeC   map[types.Type]int64
	offsC   map[*types.Struct][]int64
	dispC   map[dispKey]*ssa.Function
	implC   map[implKey]bool
}

type dispKey struct {
	t types.Type
	m *types.Func
}
type implKey struct {
	t types.Type
	i types.Type
}

func newTypeEnv() *TypeEnv {
	return &TypeEnv{sizeC: map[types.Type]int64{}, offsC: map[*types.Struct][]int64{}, dispC: map[dispKey]*ssa.Function{}, implC: map[implKey]bool{}}
}

func (e *TypeEnv) sizeof(t types.Type) int64 {
	if s, ok := e.sizeC[t]; ok {
		return s
	}
	s := gcSizes.Sizeof(t)
	e.sizeC[t] = s
	return s
}

func (e *TypeEnv) offsets(st *types.Struct) []int64 {
	if o, ok := e.offsC[st]; ok {
		return o
	}
	fs := make([]*types.Var, st.NumFields())
	for i := range fs {
		fs[i] = st.Field(i)
	}
	o := gcSizes.Offsetsof(fs)
	e.offsC[st] = o
	return o
}

func (e *TypeEnv) layout(t types.Type) *Layout {
	if l := e.layouts.At(t); l != nil {
		return l.(*Layout)
	}
	l := &Layout{t: t, size: e.sizeof(t), idx: map[int64]int{}}
	e.flatten(t, 0, l)
	for i, lf := range l.leaves {
		if _, dup := l.idx[lf.off]; !dup {
			l.idx[lf.off] = i
		}
	}
	e.layouts.Set(t, l)
	return l
}

// isOpaque reports types whose values are native (reflect.Value).
func isOpaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

func (e *TypeEnv) flatten(t types.Type, off int64, l *Layout) {
	if isOpaque(t) {
		l.leaves = append(l.leaves, leafT{off, t, e.sizeof(t)})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := e.offsets(u)
		for i := 0; i < u.NumFields(); i++ {
			e.flatten(u.Field(i).Type(), off+o[i], l)
		}
	case *types.Array:
		es := e.sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			e.flatten(u.Elem(), off+i*es, l)
		}
	default:
		l.leaves = append(l.leaves, leafT{off, t, e.sizeof(t)})
	}
}

// canonical type pointer
func (e *TypeEnv) canonT(t types.Type) types.Type {
	t = types.Unalias(t)
	if c := e.canon.At(t); c != nil {
		return c.(types.Type)
	}
	e.canon.Set(t, t)
	return t
}

func isIntKind(b *types.Basic) bool { return b.Info()&types.IsInteger != 0 }

func basicWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func typeWidth(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return basicWidth(b)
	}
	return 0
}

func fpSort(t types.Type) Sort {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Float32:
			return SFP32
		case types.Float64, types.UntypedFloat:
			return SFP64
		}
	}
	return 0
}

// zero returns the zero value of type t.
func (in *Interp) zero(t types.Type) Value {
	if isOpaque(t) {
		return (*RVal)(nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.P.False
		case isIntKind(u):
			return in.P.BV(basicWidth(u), 0)
		case u.Info()&types.IsString != 0:
			return emptyStr
		case u.Kind() == types.Float32:
			return in.P.FP(SFP32, 0)
		case u.Kind() == types.Float64, u.Kind() == types.UntypedFloat:
			return in.P.FP(SFP64, 0)
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		return Poison{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return in.nilSlice
	case *types.Interface:
		return (*Iface)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = in.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = in.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = in.zero(u.At(i).Type())
		}
		return a
	}
	panic(unsupported("zero of " + t.String()))
}

var emptyStr = &Str{}

// ---------------------------------------------------------------- memory

func (in *Interp) newObj(t types.Type, n int64, name string) *Obj {
	in.objSeq++
	// objects of array type are stored as n*len elements of the element type
	if at, ok := t.Underlying().(*types.Array); ok && n == 1 {
		t = at.Elem()
		n = at.Len()
	}
	lay := in.T.layout(t)
	o := &Obj{id: in.objSeq, lay: lay, n: n, name: name, base: in.initDepth > 0}
	total := n * int64(len(lay.leaves))
	if n >= 0 && total <= 4096 {
		o.vals = make([]Value, total)
	} else {
		o.sparse = map[int64]Value{}
	}
	return o
}

func (o *Obj) get(slot int64) Value {
	if o.sparse != nil {
		return o.sparse[slot]
	}
	return o.vals[slot]
}

func (in *Interp) setSlot(o *Obj, slot int64, v Value) {
	if o.base && in.initDepth == 0 {
		in.journal = append(in.journal, jent{o: o, slot: slot, old: o.get(slot)})
	}
	if o.sparse != nil {
		o.sparse[slot] = v
	} else {
		o.vals[slot] = v
	}
	if o.owner != nil {
		o.owner.v = in.load(Ptr{o, 0}, o.owner.t)
	}
}

type jent struct {
	o    *Obj
	slot int64
	old  Value
	undo func()
}

func (in *Interp) rollback() {
	for i := len(in.journal) - 1; i >= 0; i-- {
		j := in.journal[i]
		if j.undo != nil {
			j.undo()
			continue
		}
		if j.o.sparse != nil {
			if j.old == nil {
				delete(j.o.sparse, j.slot)
			} else {
				j.o.sparse[j.slot] = j.old
			}
		} else {
			j.o.vals[j.slot] = j.old
		}
	}
	in.journal = in.journal[:0]
}

func (in *Interp) onUndo(f func()) {
	if in.initDepth == 0 {
		in.journal = append(in.journal, jent{undo: f})
	}
}

// slotOf finds the leaf slot containing byte offset off; delta = off - leaf start.
func (o *Obj) slotOf(off int64) (slot int64, lf *leafT, delta int64, ok bool) {
	sz := o.lay.size
	if sz == 0 || len(o.lay.leaves) == 0 {
		return 0, nil, 0, false
	}
	e := off / sz
	r := off % sz
	if off < 0 || (o.n >= 0 && e >= o.n) {
		return 0, nil, 0, false
	}
	if i, ok := o.lay.idx[r]; ok {
		return e*int64(len(o.lay.leaves)) + int64(i), &o.lay.leaves[i], 0, true
	}
	ls := o.lay.leaves
	i := sort.Search(len(ls), func(i int) bool { return ls[i].off > r }) - 1
	if i < 0 || r >= ls[i].off+ls[i].sz {
		return 0, nil, 0, false
	}
	return e*int64(len(ls)) + int64(i), &ls[i], r - ls[i].off, true
}

func (in *Interp) load(p Ptr, t types.Type) Value {
	if p.obj == nil {
		in.panicRT("invalid memory address or nil pointer dereference")
	}
	if isOpaque(t) {
		return in.loadLeaf(p, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := in.T.offsets(u)
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = in.load(Ptr{p.obj, p.off + o[i]}, u.Field(i).Type())
		}
		return a
	case *types.Array:
		es := in.T.sizeof(u.Elem())
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = in.load(Ptr{p.obj, p.off + int64(i)*es}, u.Elem())
		}
		return a
	}
	return in.loadLeaf(p, t)
}

func leafClass(t types.Type) int {
	if isOpaque(t) {
		return 11
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return 1
		case u.Kind() == types.Uintptr:
			return 2
		case isIntKind(u):
			return 2
		case u.Info()&types.IsFloat != 0:
			return 3
		case u.Info()&types.IsString != 0:
			return 4
		case u.Kind() == types.UnsafePointer:
			return 5
		}
	case *types.Pointer:
		return 5
	case *types.Slice:
		return 6
	case *types.Interface:
		return 7
	case *types.Map:
		return 8
	case *types.Chan:
		return 9
	case *types.Signature:
		return 10
	}
	return 0
}

func (in *Interp) loadLeaf(p Ptr, t types.Type) Value {
	slot, lf, delta, ok := p.obj.slotOf(p.off)
	if !ok {
		if in.T.sizeof(t) == 0 {
			return in.zero(t)
		}
		panic(unsupported(fmt.Sprintf("load %s at %s+%d (layout %s n=%d)", t, p.obj.name, p.off, p.obj.lay.t, p.obj.n)))
	}
	v := p.obj.get(slot)
	if v == nil {
		v = in.zero(lf.t)
	}
	lc, tc := leafClass(lf.t), leafClass(t)
	if delta == 0 && lc == tc && (lc != 2 && lc != 3 || lf.sz == in.T.sizeof(t)) {
		return v
	}
	if pz, ok := v.(Poison); ok {
		return pz
	}
	sz := in.T.sizeof(t)
	// header punning
	switch lc {
	case 4: // string
		s := v.(*Str)
		switch delta {
		case 0:
			if tc == 5 {
				return in.strData(s)
			}
			if tc == 6 { // string viewed as slice: data,len; cap unknown
				return in.strBytes(s)
			}
		case 8:
			return in.P.BV(64, uint64(s.Len()))
		}
	case 6:
		s := v.(*SliceV)
		switch delta {
		case 0:
			if tc == 5 || tc == 2 {
				return Ptr{s.obj, s.off}
			}
			if tc == 4 {
				return in.bytesToStr(s)
			}
		case 8:
			return s.len
		case 16:
			return s.cap
		}
	case 7:
		f := v.(*Iface)
		switch delta {
		case 0:
			if f == nil {
				return Ptr{}
			}
		case 8:
			if f == nil {
				return Ptr{}
			}
			switch x := f.v.(type) {
			case Ptr:
				return x
			case *MapV, *ChanV, *Closure:
				return x
			}
			if f.box == nil {
				o := in.newObj(f.t, 1, "ifacebox")
				in.store(Ptr{o, 0}, f.t, f.v)
				o.owner = f
				old := f.v
				in.onUndo(func() { f.box, f.v = nil, old })
				f.box = o
			}
			return Ptr{f.box, 0}
		}
	case 5:
		if tc == 2 && delta == 0 { // pointer as uintptr
			return v
		}
		if tc >= 8 && delta == 0 {
			return v
		}
	case 2, 3, 1:
		if tc == 4 && delta == 0 { // a {ptr,len} header object viewed as string
			break
		}
		if tc == 5 && delta == 0 && lf.sz == 8 {
			if q, ok := v.(Ptr); ok {
				return q
			}
		}
		return in.fromBits(in.loadBits(p, sz), t)
	}
	if delta == 0 && lc == 5 && (tc == 6 || tc == 4) {
		// header struct {data,len[,cap]} viewed as slice/string
		d, _ := v.(Ptr)
		ln := in.loadLeaf(Ptr{p.obj, p.off + 8}, types.Typ[types.Int]).(*Term)
		if tc == 6 {
			cp := in.loadLeaf(Ptr{p.obj, p.off + 16}, types.Typ[types.Int]).(*Term)
			return &SliceV{d.obj, d.off, ln, cp}
		}
		return in.bytesToStr(&SliceV{d.obj, d.off, ln, ln})
	}
	panic(unsupported(fmt.Sprintf("pun load %s from leaf %s delta %d", t, lf.t, delta)))
}

func (in *Interp) toBits(v Value) *Term {
	t := v.(*Term)
	switch {
	case t.sort == SBool:
		return in.P.Ite(t, in.P.BV(8, 1), in.P.BV(8, 0))
	case t.sort.isFP():
		return in.P.FpToBv(t)
	}
	return t
}
func (in *Interp) fromBits(b *Term, t types.Type) Value {
	switch leafClass(t) {
	case 1:
		return in.P.Not(in.P.Eq(b, in.P.BV(b.w(), 0)))
	case 2:
		return b
	case 3:
		return in.P.FpOfBv(b, fpSort(t))
	}
	panic(unsupported("fromBits " + t.String()))
}

// loadBits reads sz bytes little-endian from numeric leaves.
func (in *Interp) loadBits(p Ptr, sz int64) *Term {
	var acc *Term
	for got := int64(0); got < sz; {
		slot, lf, delta, ok := p.obj.slotOf(p.off + got)
		if !ok {
			panic(unsupported("loadBits"))
		}
		v := p.obj.get(slot)
		if v == nil {
			v = in.zero(lf.t)
		}
		if _, isT := v.(*Term); !isT {
			panic(unsupported("loadBits of non-scalar"))
		}
		b := in.toBits(v)
		take := lf.sz - delta
		if take > sz-got {
			take = sz - got
		}
		part := in.P.Extract(b, int((delta+take)*8-1), int(delta*8))
		if acc == nil {
			acc = part
		} else {
			acc = in.P.Concat(part, acc)
		}
		got += take
	}
	return acc
}

func (in *Interp) store(p Ptr, t types.Type, v Value) {
	if p.obj == nil {
		in.panicRT("invalid memory address or nil pointer dereference")
	}
	if isOpaque(t) {
		in.storeLeaf(p, t, v)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := in.T.offsets(u)
		a, ok := v.(Agg)
		if !ok {
			if pz, isP := v.(Poison); isP {
				for i := 0; i < u.NumFields(); i++ {
					in.store(Ptr{p.obj, p.off + o[i]}, u.Field(i).Type(), pz)
				}
				return
			}
			panic(unsupported(fmt.Sprintf("store struct %s value %T", t, v)))
		}
		for i := range a {
			in.store(Ptr{p.obj, p.off + o[i]}, u.Field(i).Type(), a[i])
		}
		return
	case *types.Array:
		es := in.T.sizeof(u.Elem())
		a, ok := v.(Agg)
		if !ok {
			if pz, isP := v.(Poison); isP {
				for i := int64(0); i < u.Len(); i++ {
					in.store(Ptr{p.obj, p.off + i*es}, u.Elem(), pz)
				}
				return
			}
			panic(unsupported(fmt.Sprintf("store array value %T", v)))
		}
		for i := range a {
			in.store(Ptr{p.obj, p.off + int64(i)*es}, u.Elem(), a[i])
		}
		return
	}
	in.storeLeaf(p, t, v)
}

func (in *Interp) storeLeaf(p Ptr, t types.Type, v Value) {
	slot, lf, delta, ok := p.obj.slotOf(p.off)
	if !ok {
		if in.T.sizeof(t) == 0 {
			return
		}
		panic(unsupported(fmt.Sprintf("store %s at %s+%d (layout %s n=%d)", t, p.obj.name, p.off, p.obj.lay.t, p.obj.n)))
	}
	lc, tc := leafClass(lf.t), leafClass(t)
	if delta == 0 && lc == tc && (lc != 2 && lc != 3 || lf.sz == in.T.sizeof(t)) {
		in.setSlot(p.obj, slot, v)
		return
	}
	if _, isP := v.(Poison); isP && delta == 0 {
		in.setSlot(p.obj, slot, v)
		return
	}
	old := p.obj.get(slot)
	if old == nil {
		old = in.zero(lf.t)
	}
	switch lc {
	case 6: // slice header parts
		s := *(old.(*SliceV))
		switch delta {
		case 0:
			if q, ok := v.(Ptr); ok {
				s.obj, s.off = q.obj, q.off
				in.setSlot(p.obj, slot, &s)
				return
			}
			if q, ok := v.(*Str); ok {
				in.setSlot(p.obj, slot, in.strBytes(q))
				return
			}
		case 8:
			s.len = v.(*Term)
			in.setSlot(p.obj, slot, &s)
			return
		case 16:
			s.cap = v.(*Term)
			in.setSlot(p.obj, slot, &s)
			return
		}
	case 5:
		if delta == 0 && (tc == 2 || tc >= 8) {
			in.setSlot(p.obj, slot, v)
			return
		}
		if delta == 0 && tc == 6 {
			s := v.(*SliceV)
			in.setSlot(p.obj, slot, Ptr{s.obj, s.off})
			in.storeLeaf(Ptr{p.obj, p.off + 8}, types.Typ[types.Int], s.len)
			in.storeLeaf(Ptr{p.obj, p.off + 16}, types.Typ[types.Int], s.cap)
			return
		}
	case 1, 2, 3:
		sz := in.T.sizeof(t)
		if tv, ok := v.(*Term); ok {
			b := in.toBits(tv)
			for done := int64(0); done < sz; {
				slot, lf, delta, ok := p.obj.slotOf(p.off + done)
				if !ok {
					panic(unsupported("storeBits"))
				}
				take := lf.sz - delta
				if take > sz-done {
					take = sz - done
				}
				part := in.P.Extract(b, int((done+take)*8-1), int(done*8))
				if take != lf.sz {
					ov := p.obj.get(slot)
					if ov == nil {
						ov = in.zero(lf.t)
					}
					ob := in.toBits(ov)
					if delta > 0 {
						part = in.P.Concat(part, in.P.Extract(ob, int(delta*8-1), 0))
					}
					if delta+take < lf.sz {
						part = in.P.Concat(in.P.Extract(ob, int(lf.sz*8-1), int((delta+take)*8)), part)
					}
				}
				in.setSlot(p.obj, slot, in.fromBits(part, lf.t))
				done += take
			}
			return
		}
		if q, ok := v.(Ptr); ok && delta == 0 && lf.sz == 8 {
			in.setSlot(p.obj, slot, q)
			return
		}
	}
	panic(unsupported(fmt.Sprintf("pun store %s into leaf %s delta %d", t, lf.t, delta)))
}

// ---------------------------------------------------------------- strings & slices

func (in *Interp) mkStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

func (in *Interp) strByte(s *Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return in.P.BV(8, uint64(s.s[i]))
}

func (in *Interp) strSub(s *Str, lo, hi int) *Str {
	if s.b != nil {
		return normStr(s.b[lo:hi])
	}
	return in.mkStr(s.s[lo:hi])
}

func normStr(b []*Term) *Str {
	for _, t := range b {
		if t.op != OConst {
			return &Str{b: b[:len(b):len(b)]}
		}
	}
	if len(b) == 0 {
		return emptyStr
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return &Str{s: string(bs)}
}

func (in *Interp) strTerms(s *Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = in.P.BV(8, uint64(s.s[i]))
	}
	return r
}

func (in *Interp) strCat(a, b *Str) *Str {
	if a.b == nil && b.b == nil {
		return in.mkStr(a.s + b.s)
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	x := append(append([]*Term{}, in.strTerms(a)...), in.strTerms(b)...)
	return normStr(x)
}

func (in *Interp) strEq(a, b *Str) *Term {
	if a == b {
		return in.P.True
	}
	if a.Len() != b.Len() {
		return in.P.False
	}
	if a.b == nil && b.b == nil {
		return in.P.Bool(a.s == b.s)
	}
	r := in.P.True
	for i := 0; i < a.Len(); i++ {
		r = in.P.And(r, in.P.Eq(in.strByte(a, i), in.strByte(b, i)))
		if r == in.P.False {
			return r
		}
	}
	return r
}

func (in *Interp) strLess(a, b *Str) *Term {
	if a.b == nil && b.b == nil {
		return in.P.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := in.P.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := in.strByte(a, i), in.strByte(b, i)
		r = in.P.Or(in.P.Ult(x, y), in.P.And(in.P.Eq(x, y), r))
	}
	return r
}

var byteType = types.Typ[types.Uint8]

// strBytes allocates a fresh byte object with the string's content.
func (in *Interp) strBytes(s *Str) *SliceV {
	n := s.Len()
	o := in.newObj(byteType, int64(n), "strbytes")
	for i := 0; i < n; i++ {
		v := in.strByte(s, i)
		if o.sparse != nil {
			o.sparse[int64(i)] = v
		} else {
			o.vals[i] = v
		}
	}
	l := in.P.BV(64, uint64(n))
	return &SliceV{o, 0, l, l}
}

func (in *Interp) strData(s *Str) Ptr {
	sl := in.strBytes(s)
	return Ptr{sl.obj, 0}
}

func (in *Interp) sliceBytes(s *SliceV) []*Term {
	n := in.concLen(s.len)
	r := make([]*Term, n)
	for i := range r {
		r[i] = in.loadLeaf(Ptr{s.obj, s.off + int64(i)}, byteType).(*Term)
	}
	return r
}

func (in *Interp) bytesToStr(s *SliceV) *Str {
	return normStr(in.sliceBytes(s))
}

func (in *Interp) mkBytes(b []*Term) *SliceV {
	o := in.newObj(byteType, int64(len(b)), "bytes")
	for i, v := range b {
		if o.sparse != nil {
			o.sparse[int64(i)] = v
		} else {
			o.vals[i] = v
		}
	}
	l := in.P.BV(64, uint64(len(b)))
	return &SliceV{o, 0, l, l}
}

// mkSlice builds a slice of given elem type from values.
func (in *Interp) mkSlice(et types.Type, vs []Value) *SliceV {
	o := in.newObj(et, int64(len(vs)), "slice")
	if _, isArr := et.Underlying().(*types.Array); isArr && len(vs) == 1 {
		// newObj flattens [n]T with n==1; offsets are unaffected
	}
	sz := in.T.sizeof(et)
	for i, v := range vs {
		in.store(Ptr{o, int64(i) * sz}, et, v)
	}
	l := in.P.BV(64, uint64(len(vs)))
	return &SliceV{o, 0, l, l}
}

func (in *Interp) sliceVals(s *SliceV, et types.Type) []Value {
	n := in.concLen(s.len)
	sz := in.T.sizeof(et)
	r := make([]Value, n)
	for i := range r {
		r[i] = in.load(Ptr{s.obj, s.off + int64(i)*sz}, et)
	}
	return r
}

// concLen concretises a length term.
func (in *Interp) concLen(t *Term) int {
	if t.op == OConst {
		return int(int64(t.val))
	}
	return int(int64(in.concretize(t)))
}

// ---------------------------------------------------------------- equality

func (in *Interp) equal(t types.Type, a, b Value) *Term {
	if pz, ok := a.(Poison); ok {
		panic(unsupported("poison compare: " + pz.why))
	}
	if pz, ok := b.(Poison); ok {
		panic(unsupported("poison compare: " + pz.why))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return in.strEq(a.(*Str), b.(*Str))
		}
		if u.Info()&types.IsFloat != 0 {
			return in.P.FpCmp(OFpEq, a.(*Term), b.(*Term))
		}
		x, ok1 := a.(*Term)
		y, ok2 := b.(*Term)
		if ok1 && ok2 {
			return in.P.Eq(x, y)
		}
		return in.P.Bool(in.ptrEq(a, b))
	case *types.Interface:
		x, y := a.(*Iface), b.(*Iface)
		if x == nil || y == nil {
			return in.P.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return in.P.False
		}
		if !types.Comparable(x.t) {
			in.panicRT("comparing uncomparable type " + x.t.String())
		}
		return in.equal(x.t, x.v, y.v)
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		r := in.P.True
		for i := range x {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = in.P.And(r, in.equal(u.Field(i).Type(), x[i], y[i]))
			if r == in.P.False {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		r := in.P.True
		for i := range x {
			r = in.P.And(r, in.equal(u.Elem(), x[i], y[i]))
			if r == in.P.False {
				return r
			}
		}
		return r
	case *types.Slice:
		x, y := a.(*SliceV), b.(*SliceV)
		return in.P.Bool(x.obj == nil && y.obj == nil || x == y)
	}
	return in.P.Bool(in.ptrEq(a, b))
}

func (in *Interp) ptrEq(a, b Value) bool {
	norm := func(v Value) Value {
		switch x := v.(type) {
		case *RType:
			return Ptr{obj: nil, off: 0}
		case *SymPtr:
			return in.concPtr(x)
		case Ptr:
			return x
		}
		return v
	}
	if x, ok := a.(*RType); ok {
		y, ok2 := b.(*RType)
		return ok2 && types.Identical(x.t, y.t)
	}
	if _, ok := b.(*RType); ok {
		return false
	}
	a, b = norm(a), norm(b)
	switch x := a.(type) {
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case *MapV:
		y, _ := b.(*MapV)
		return x == y
	case *ChanV:
		y, _ := b.(*ChanV)
		return x == y
	case *Closure:
		y, _ := b.(*Closure)
		return x == nil && y == nil || x == y
	}
	return a == b
}

// ---------------------------------------------------------------- map keys

// keyString returns a canonical key for fully concrete keys.
func (in *Interp) keyString(t types.Type, v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if x.op != OConst {
			return false
		}
		if x.sort.isFP() {
			return false
		}
		fmt.Fprintf(sb, "%x,", x.val)
		return true
	case *Str:
		if x.b != nil {
			return false
		}
		fmt.Fprintf(sb, "%q,", x.s)
		return true
	case *Iface:
		if x == nil {
			sb.WriteString("nil,")
			return true
		}
		if rt, ok := x.v.(*RType); ok {
			fmt.Fprintf(sb, "R%p,", in.T.canonT(rt.t))
			return true
		}
		if !types.Comparable(x.t) {
			in.panicRT("hash of unhashable type " + x.t.String())
		}
		fmt.Fprintf(sb, "I%p:", in.T.canonT(x.t))
		return in.keyString(x.t, x.v, sb)
	case Agg:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range x {
				if !in.keyString(u.Field(i).Type(), x[i], sb) {
					return false
				}
			}
			return true
		case *types.Array:
			for i := range x {
				if !in.keyString(u.Elem(), x[i], sb) {
					return false
				}
			}
			return true
		}
		return false
	case Ptr:
		if x.obj == nil {
			sb.WriteString("p0,")
		} else {
			fmt.Fprintf(sb, "p%d+%d,", x.obj.id, x.off)
		}
		return true
	case *RType:
		fmt.Fprintf(sb, "R%p,", in.T.canonT(x.t))
		return true
	case *ChanV:
		fmt.Fprintf(sb, "c%p,", x)
		return true
	case Poison:
		panic(unsupported("poison key: " + x.why))
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (in *Interp) newMap(kt, vt types.Type) *MapV {
	in.objSeq++
	return &MapV{id: in.objSeq, kt: kt, vt: vt, idx: map[string]int{}, base: in.initDepth > 0}
}

// mapFind returns the entry index or -1 (forking on symbolic equality).
func (in *Interp) mapFind(m *MapV, k Value) (int, string) {
	var sb strings.Builder
	if in.keyString(m.kt, k, &sb) {
		ks := sb.String()
		if i, ok := m.idx[ks]; ok {
			return i, ks
		}
		if m.symKeys == 0 {
			return -1, ks
		}
		for i, e := range m.entries {
			if !e.live {
				continue
			}
			var sb2 strings.Builder
			if in.keyString(m.kt, e.k, &sb2) {
				continue
			}
			if in.branch(in.equal(m.kt, e.k, k)) {
				return i, ks
			}
		}
		return -1, ks
	}
	for i, e := range m.entries {
		if !e.live {
			continue
		}
		if in.branch(in.equal(m.kt, e.k, k)) {
			return i, ""
		}
	}
	return -1, ""
}

func (in *Interp) mapGet(m *MapV, k Value) (Value, bool) {
	if m == nil {
		return nil, false
	}
	i, _ := in.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.entries[i].v, true
}

func (in *Interp) mapSet(m *MapV, k, v Value) {
	i, ks := in.mapFind(m, k)
	j := m.base && in.initDepth == 0
	if i >= 0 {
		e := m.entries[i]
		if j {
			old := e.v
			in.onUndo(func() { e.v = old })
		}
		e.v = v
		return
	}
	e := &mapEntry{k, v, true}
	m.entries = append(m.entries, e)
	n := len(m.entries) - 1
	if ks == "" {
		m.symKeys++
	} else {
		m.idx[ks] = n
	}
	m.n++
	if j {
		in.onUndo(func() {
			m.entries = m.entries[:n]
			if ks == "" {
				m.symKeys--
			} else {
				delete(m.idx, ks)
			}
			m.n--
		})
	}
}

func (in *Interp) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	i, _ := in.mapFind(m, k)
	if i < 0 {
		return
	}
	e := m.entries[i]
	e.live = false
	m.n--
	var sb strings.Builder
	ks := ""
	if in.keyString(m.kt, e.k, &sb) {
		ks = sb.String()
		delete(m.idx, ks)
	} else {
		m.symKeys--
	}
	if m.base && in.initDepth == 0 {
		in.onUndo(func() {
			e.live = true
			m.n++
			if ks != "" {
				m.idx[ks] = i
			} else {
				m.symKeys++
			}
		})
	}
}

// mustStr is the concrete string of v.
func mustStr(v Value) string {
	s := v.(*Str)
	if s.b != nil {
		panic(unsupported("symbolic string"))
	}
	return s.s
}
