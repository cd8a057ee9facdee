package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }
func unsupported(s string) unsupportedErr {
	return unsupportedErr{s}
}

type goPanic struct {
	v   Value // *Iface
	msg string
}
type pathEnd struct{ kind, msg string }
type blockedSig struct{ why string }
type mergeAbort struct{}

type Dec struct {
	V    uint64
	Kind byte // 'b' branch, 'c' concretize value, 'x' exclude list, 'n' choice
	Ex   []uint64
}

type Item struct {
	prefix []Dec
	model  map[string]uint64
}

type Interp struct {
	P         *TermPool
	S         *Solver
	T         *TypeEnv
	prog      *ssa.Program
	eng       *Engine
	nilSlice  *SliceV
	objSeq    int
	initDepth int
	journal   []jent
	globals   map[*ssa.Global]*Obj
	inited    map[*ssa.Package]int
	cfns      map[*ssa.Function]*CFn
	bodies    map[*ssa.Function]*CFn
	rtErrT    types.Type
	rtypeT    types.Type

	// path state
	pc         []*Term
	pcSet      map[*Term]bool
	prefix     []Dec
	dpos       int
	decs       []Dec
	model      map[*Term]uint64
	inputs     []Input
	inNames    map[string]int
	varList    []*Term
	gs         []*Gor
	active     []*Gor
	cur        *Gor
	gseq       int
	steps      int64
	maxSteps   int64
	maxConc    int
	newItems   []Item
	notes      map[string]int
	reached    map[string]int
	asserts    map[string]int
	observed   []obs
	viols      []Viol
	mergeMode  bool
	timeSeq    int64
	randSeq    int
	randConc   bool // random bytes are fixed and all different
	rsaCiphers []rsaCipher
	depthMax   int
	pathKnobs  map[string]int64
	fnsSeen    map[*ssa.Function]bool
	symFns     map[string]*Closure
	switches   int
	pendModel  map[string]uint64
	schedDec   int
}

type Input struct {
	Name string
	Kind string // bool u8 u16 u32 u64 f32 f64 int bytes choice
	T    *Term
	Conc int64
}
type obs struct {
	label string
	t     []*Term
	str   string
}

type Viol struct {
	Label  string
	Model  map[string]uint64
	Kind   string // assert | panic | hang | deadlock
	Inputs map[string]string
	Trace  string
}

type Gor struct {
	id    int
	stack []*Frame
	pan   *panicRec
	waits []waitCase
	done  *waitDone
	dead  bool
	why   string
}
type waitCase struct {
	ch   *ChanV
	send bool
	val  Value
	idx  int
}
type waitDone struct {
	idx int
	val Value
	ok  bool
}
type panicRec struct {
	v         *Iface
	msg       string
	recovered bool
	prev      *panicRec
	frame     *Frame
	trace     string
}

type deferred struct {
	fn   Value  // *Closure
	nat  func() // builtin
	args []Value
}

type Frame struct {
	cf      *CFn
	env     []Value
	blk     int
	pc      int
	prev    int
	dst     int
	defers  []deferred
	isDefer bool   // this frame is a deferred call
	ofFrame *Frame // frame whose defers are being run
	panFor  *panicRec
	base    bool // native boundary
	ret     Value
	initFn  bool
	onRet   func(Value)
}

type Opnd struct {
	r int
	v Value
	g *ssa.Global
}
type CIns struct {
	i   ssa.Instruction
	ops []Opnd
	dst int
	mrg *mergeInfo
}
type CBlock struct {
	ins  []CIns
	nphi int
}
type CFn struct {
	fn     *ssa.Function
	nreg   int
	blocks []CBlock
	intr   Intrinsic
	np     int
}

type Intrinsic func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value

type mergeInfo struct {
	region map[int]bool
	order  []int
	join   int
}

func NewInterp(e *Engine) *Interp {
	p := NewPool()
	in := &Interp{P: p, T: newTypeEnv(), prog: e.prog, eng: e, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]int{},
		cfns: map[*ssa.Function]*CFn{}, bodies: map[*ssa.Function]*CFn{}, fnsSeen: map[*ssa.Function]bool{}}
	in.S = NewSolver(p, &e.stats)
	z := p.BV(64, 0)
	in.nilSlice = &SliceV{nil, 0, z, z}
	if rp := e.prog.ImportedPackage("runtime"); rp != nil {
		in.rtErrT = rp.Type("errorString").Type()
	}
	if rp := e.prog.ImportedPackage("reflect"); rp != nil {
		in.rtypeT = types.NewPointer(rp.Type("rtype").Type())
	}
	return in
}

func (in *Interp) panicRT(msg string) {
	if in.mergeMode {
		panic(mergeAbort{})
	}
	var v *Iface
	if in.rtErrT != nil {
		v = &Iface{in.rtErrT, in.mkStr(msg), nil}
	}
	panic(goPanic{v, "runtime error: " + msg})
}

// ---------------------------------------------------------------- compile

func (in *Interp) compile(fn *ssa.Function) *CFn {
	if c, ok := in.cfns[fn]; ok {
		return c
	}
	c := &CFn{fn: fn}
	in.cfns[fn] = c
	c.intr = findIntrinsic(fn)
	if c.intr != nil {
		return c
	}
	in.compileBody(c)
	return c
}

func (in *Interp) bodyOf(fn *ssa.Function) *CFn {
	if c, ok := in.bodies[fn]; ok {
		return c
	}
	c := &CFn{fn: fn}
	in.bodies[fn] = c
	in.compileBody(c)
	return c
}

func (in *Interp) compileBody(c *CFn) {
	fn := c.fn
	in.eng.build(fn)
	if fn.Blocks == nil {
		name := fn.String()
		c.intr = func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
			panic(unsupported("no body: " + name))
		}
		return
	}
	num := map[ssa.Value]int{}
	for _, p := range fn.Params {
		num[p] = len(num)
	}
	c.np = len(num)
	for _, p := range fn.FreeVars {
		num[p] = len(num)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				num[v] = len(num)
			}
		}
	}
	c.nreg = len(num)
	c.blocks = make([]CBlock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.ins = make([]CIns, 0, len(b.Instrs))
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := CIns{i: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = num[v]
			}
			for _, op := range i.Operands(nil) {
				if op == nil || *op == nil {
					ci.ops = append(ci.ops, Opnd{r: -1})
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Const:
					ci.ops = append(ci.ops, Opnd{r: -1, v: in.constVal(v)})
				case *ssa.Global:
					ci.ops = append(ci.ops, Opnd{r: -1, g: v})
				case *ssa.Function:
					ci.ops = append(ci.ops, Opnd{r: -1, v: &Closure{fn: v}})
				case *ssa.Builtin:
					ci.ops = append(ci.ops, Opnd{r: -1})
				default:
					r, ok := num[v]
					if !ok {
						panic(fmt.Sprintf("no reg for %s in %s", v, fn))
					}
					ci.ops = append(ci.ops, Opnd{r: r})
				}
			}
			if _, ok := i.(*ssa.Phi); ok {
				cb.nphi++
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	in.computeMerges(c)
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.P.Bool(constant.BoolVal(c.Value))
		case isIntKind(u):
			w := basicWidth(u)
			v := constant.ToInt(c.Value)
			if x, ok := constant.Int64Val(v); ok {
				return in.P.BV(w, uint64(x))
			}
			if x, ok := constant.Uint64Val(v); ok {
				return in.P.BV(w, x)
			}
			return Poison{"const"}
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return in.mkStr(constant.StringVal(c.Value))
			}
			return Poison{"const str"}
		case u.Kind() == types.Float32:
			f, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return in.P.FP(SFP32, fbits(SFP32, float64(f)))
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return in.P.F64(f)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		}
	case *types.TypeParam:
		return Poison{"typeparam const"}
	}
	return Poison{"const " + c.String()}
}

// ipdom based merge regions
func pureInstr(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.BinOp:
		return x.Op != token.QUO && x.Op != token.REM
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Convert:
		return true
	case *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.Extract, *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.IndexAddr, *ssa.DebugRef, *ssa.Index, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max"
		}
	}
	return false
}

func (in *Interp) computeMerges(c *CFn) {
	fn := c.fn
	n := len(fn.Blocks)
	if n < 3 || n > 400 {
		return
	}
	pure := make([]bool, n)
	anyIf := false
	for i, b := range fn.Blocks {
		p := len(b.Instrs) <= 14
		if p {
			for _, x := range b.Instrs {
				if !pureInstr(x) {
					p = false
					break
				}
			}
		}
		pure[i] = p
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			anyIf = true
		}
	}
	if !anyIf {
		return
	}
	for bi, b := range fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
			continue
		}
		// grow a region of pure blocks; find join: try candidates
		region := map[int]bool{}
		var exits map[int]bool
		// iterative: start with succs; expand pure blocks whose all preds are in region or b
		exits = map[int]bool{}
		for _, s := range b.Succs {
			exits[s.Index] = true
		}
		for len(region) < 12 {
			if len(exits) == 1 {
				break
			}
			grew := false
			// choose a pure exit all of whose preds are in region+b
			best := -1
			for e := range exits {
				if !pure[e] || e == bi {
					continue
				}
				ok := true
				for _, p := range fn.Blocks[e].Preds {
					if p.Index != bi && !region[p.Index] {
						ok = false
						break
					}
				}
				if ok && (best < 0 || e < best) {
					best = e
				}
			}
			if best >= 0 {
				delete(exits, best)
				region[best] = true
				for _, s := range fn.Blocks[best].Succs {
					if !region[s.Index] {
						exits[s.Index] = true
					}
				}
				if exits[bi] {
					break
				}
				grew = true
			}
			if !grew {
				break
			}
		}
		if len(exits) != 1 || len(region) == 0 {
			continue
		}
		join := -1
		for e := range exits {
			join = e
		}
		if join == bi || region[join] {
			continue
		}
		// topological order of region
		var order []int
		seen := map[int]bool{}
		okk := true
		for len(order) < len(region) {
			prog := false
			for r := range region {
				if seen[r] {
					continue
				}
				ready := true
				for _, p := range fn.Blocks[r].Preds {
					if p.Index != bi && !seen[p.Index] {
						ready = false
					}
				}
				if ready {
					seen[r] = true
					order = append(order, r)
					prog = true
				}
			}
			if !prog {
				okk = false
				break
			}
		}
		if !okk {
			continue
		}
		cb := &c.blocks[bi]
		cb.ins[len(cb.ins)-1].mrg = &mergeInfo{region: region, order: order, join: join}
	}
}

// tryMerge executes the region after an If under guards; returns true on success (frame moved to join).
func (in *Interp) tryMergeIf(fr *Frame, mi *mergeInfo, cond *Term) (ok bool) {
	if in.mergeMode {
		return false
	}
	fn := fr.cf.fn
	saveEnv := map[int]Value{}
	pool := in.P
	type edge struct{ from, to int }
	guards := map[edge]*Term{}
	b := fn.Blocks[fr.blk]
	add := func(f, t int, g *Term) {
		e := edge{f, t}
		if o := guards[e]; o != nil {
			g = pool.Or(o, g)
		}
		guards[e] = g
	}
	add(fr.blk, b.Succs[0].Index, cond)
	add(fr.blk, b.Succs[1].Index, pool.Not(cond))
	set := func(dst int, v Value) {
		if _, s := saveEnv[dst]; !s {
			saveEnv[dst] = fr.env[dst]
		}
		fr.env[dst] = v
	}
	startBlk, startPc, startPrev := fr.blk, fr.pc, fr.prev
	in.mergeMode = true
	defer func() {
		in.mergeMode = false
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeAbort, unsupportedErr:
				for k, v := range saveEnv {
					fr.env[k] = v
				}
				fr.blk, fr.pc, fr.prev = startBlk, startPc, startPrev
				ok = false
				return
			}
			panic(r)
		}
	}()
	mergePhi := func(blk int) []Value {
		cb := &fr.cf.blocks[blk]
		preds := fn.Blocks[blk].Preds
		var vals []Value
		for k := 0; k < cb.nphi; k++ {
			ci := &cb.ins[k]
			var acc Value
			for pi, p := range preds {
				g := guards[edge{p.Index, blk}]
				if g == nil || g == pool.False {
					continue
				}
				v := in.get(fr, ci.ops[pi])
				if acc == nil {
					acc = v
				} else {
					acc = in.iteVal(g, v, acc)
				}
			}
			vals = append(vals, acc)
		}
		return vals
	}
	for _, r := range mi.order {
		var g *Term = pool.False
		for _, p := range fn.Blocks[r].Preds {
			if e := guards[edge{p.Index, r}]; e != nil {
				g = pool.Or(g, e)
			}
		}
		if g == pool.False {
			continue
		}
		cb := &fr.cf.blocks[r]
		vals := mergePhi(r)
		for k, v := range vals {
			set(cb.ins[k].dst, v)
		}
		blk := fn.Blocks[r]
		for k := cb.nphi; k < len(cb.ins); k++ {
			ci := &cb.ins[k]
			in.steps++
			switch x := ci.i.(type) {
			case *ssa.Jump:
				add(r, blk.Succs[0].Index, g)
			case *ssa.If:
				c := in.term(in.get(fr, ci.ops[0]))
				add(r, blk.Succs[0].Index, pool.And(g, c))
				add(r, blk.Succs[1].Index, pool.And(g, pool.Not(c)))
			default:
				_ = x
				v := in.evalPure(fr, ci)
				set(ci.dst, v)
			}
		}
	}
	jcb := &fr.cf.blocks[mi.join]
	// all edges into the join from outside the region are impossible here
	vals := mergePhi(mi.join)
	for k, v := range vals {
		if v == nil {
			panic(mergeAbort{})
		}
		set(jcb.ins[k].dst, v)
	}
	fr.prev = -2
	fr.blk = mi.join
	fr.pc = jcb.nphi
	return true
}

func (in *Interp) iteVal(g *Term, a, b Value) Value {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return in.P.Ite(g, x, y)
		}
	case *Str:
		if y, ok := b.(*Str); ok && x.Len() == y.Len() {
			if x.Len() == 0 {
				return x
			}
			bs := make([]*Term, x.Len())
			for i := range bs {
				bs[i] = in.P.Ite(g, in.strByte(x, i), in.strByte(y, i))
			}
			return normStr(bs)
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x == y {
			return a
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if x == y {
				return x
			}
			if x.obj == y.obj && x.off == y.off {
				return &SliceV{x.obj, x.off, in.P.Ite(g, x.len, y.len), in.P.Ite(g, x.cap, y.cap)}
			}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if x == y {
				return x
			}
			if x != nil && y != nil && types.Identical(x.t, y.t) {
				return &Iface{x.t, in.iteVal(g, x.v, y.v), nil}
			}
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && x == y {
			return a
		}
	case *ChanV:
		if y, ok := b.(*ChanV); ok && x == y {
			return a
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return a
		}
	case Agg:
		if y, ok := b.(Agg); ok && len(x) == len(y) {
			r := make(Agg, len(x))
			for i := range r {
				r[i] = in.iteVal(g, x[i], y[i])
			}
			return r
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range r {
				r[i] = in.iteVal(g, x[i], y[i])
			}
			return r
		}
	}
	panic(mergeAbort{})
}

// ---------------------------------------------------------------- decisions

func (in *Interp) assumeT(c *Term) {
	if c.op == OConst {
		return
	}
	if in.pcSet[c] {
		return
	}
	if c.op == OAnd {
		in.assumeT(c.a)
		in.assumeT(c.b)
		return
	}
	in.pcSet[c] = true
	in.pc = append(in.pc, c)
	in.P.learn(c)
}

func (in *Interp) setModel(m map[*Term]uint64) {
	in.model = m
	in.P.NewEval(m)
}

func (in *Interp) modelNames(m map[*Term]uint64) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for k, v := range m {
		r[k.name] = v
	}
	return r
}

func (in *Interp) pushAlt(d Dec, m map[*Term]uint64) {
	pf := make([]Dec, len(in.decs)+1)
	copy(pf, in.decs)
	pf[len(in.decs)] = d
	in.newItems = append(in.newItems, Item{pf, in.modelNames(m)})
	if forkLog {
		forkMu.Lock()
		forkCnt[in.where()]++
		forkMu.Unlock()
	}
}

var (
	forkLog = os.Getenv("GOSYM_FORKS") != ""
	forkMu  sync.Mutex
	forkCnt = map[string]int{}
)

func dumpForks() {
	if !forkLog {
		return
	}
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range forkCnt {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i < 25 {
			fmt.Println("FORK", x.n, x.k)
		}
	}
}

func (in *Interp) known(c *Term) (bool, bool) {
	if in.pcSet[c] {
		return true, true
	}
	if in.pcSet[in.P.Not(c)] {
		return false, true
	}
	return false, false
}

func (in *Interp) branch(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if in.initDepth > 0 {
		panic(unsupported("symbolic branch in init"))
	}
	if in.mergeMode {
		if v, ok := in.known(c); ok {
			return v
		}
		panic(mergeAbort{})
	}
	if v, ok := in.known(c); ok {
		return v
	}
	if len(in.decs) > 4000 {
		panic(pathEnd{"budget", in.where()})
	}
	nc := in.P.Not(c)
	if in.dpos < len(in.prefix) {
		d := in.prefix[in.dpos]
		if d.Kind != 'b' {
			panic(unsupported(fmt.Sprintf("decision mismatch: branch vs %c", d.Kind)))
		}
		in.dpos++
		in.decs = append(in.decs, d)
		if d.V != 0 {
			in.assumeT(c)
			return true
		}
		in.assumeT(nc)
		return false
	}
	mv := in.P.Eval(c) != 0
	other := c
	if mv {
		other = nc
	}
	r, m := in.S.Check(in.pc, other, in.varList)
	switch r {
	case Sat:
		o := uint64(1)
		if mv {
			o = 0
		}
		in.pushAlt(Dec{V: o, Kind: 'b'}, m)
	case Unknown:
		in.note("solver-unknown: branch side dropped")
	case Unsat:
		// implied; no decision recorded
		if mv {
			in.assumeT(c)
		} else {
			in.assumeT(nc)
		}
		// record so replays of longer prefixes stay aligned
		d := Dec{Kind: 'b'}
		if mv {
			d.V = 1
		}
		in.decs = append(in.decs, d)
		return mv
	}
	d := Dec{Kind: 'b'}
	if mv {
		d.V = 1
		in.assumeT(c)
	} else {
		in.assumeT(nc)
	}
	in.decs = append(in.decs, d)
	return mv
}

func (in *Interp) note(s string) {
	in.notes[s]++
}

// concretize picks a value for t, scheduling the remaining values as alternatives.
func (in *Interp) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if in.initDepth > 0 {
		panic(unsupported("symbolic concretize in init"))
	}
	if in.mergeMode {
		panic(mergeAbort{})
	}
	var ex []uint64
	if in.dpos < len(in.prefix) {
		d := in.prefix[in.dpos]
		in.dpos++
		switch d.Kind {
		case 'c':
			in.decs = append(in.decs, d)
			for _, v := range d.Ex {
				_ = v
			}
			in.assumeT(in.P.Eq(t, in.P.BV(t.w(), d.V)))
			return d.V
		case 'x':
			ex = d.Ex
			for _, v := range ex {
				in.assumeT(in.P.Not(in.P.Eq(t, in.P.BV(t.w(), v))))
			}
		default:
			panic(unsupported(fmt.Sprintf("decision mismatch: concretize vs %c", d.Kind)))
		}
	}
	v := in.P.Eval(t)
	eq := in.P.Eq(t, in.P.BV(t.w(), v))
	if eq.op != OConst {
		r, m := in.S.Check(in.pc, in.P.Not(eq), in.varList)
		if r == Sat {
			if len(ex)+1 >= in.maxConc {
				in.note(fmt.Sprintf("concretization bound %d hit in %s", in.maxConc, in.where()))
			} else {
				nx := append(append([]uint64{}, ex...), v)
				in.pushAlt(Dec{Kind: 'x', Ex: nx}, m)
			}
		} else if r == Unknown {
			in.note("solver-unknown: concretize alternatives dropped")
		}
	}
	in.assumeT(eq)
	in.decs = append(in.decs, Dec{Kind: 'c', V: v})
	return v
}

// choice forks over 0..n-1 without constraint.
func (in *Interp) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if in.initDepth > 0 {
		return 0
	}
	if in.dpos < len(in.prefix) {
		d := in.prefix[in.dpos]
		if d.Kind != 'n' {
			panic(unsupported("decision mismatch: choice"))
		}
		in.dpos++
		in.decs = append(in.decs, d)
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		in.pushAlt(Dec{Kind: 'n', V: uint64(i)}, in.model)
	}
	in.decs = append(in.decs, Dec{Kind: 'n', V: 0})
	return 0
}

func (in *Interp) where() string {
	if in.cur == nil || len(in.cur.stack) == 0 {
		return "?"
	}
	s := ""
	for i := len(in.cur.stack) - 1; i >= 0 && i >= len(in.cur.stack)-3; i-- {
		fr := in.cur.stack[i]
		pos := ""
		if fr.pc < len(fr.cf.blocks[fr.blk].ins) {
			p := in.prog.Fset.Position(fr.cf.blocks[fr.blk].ins[fr.pc].i.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf(":%d", p.Line)
			}
		}
		s += fr.cf.fn.String() + pos + " < "
	}
	return s
}

func (in *Interp) trace() string {
	if in.cur == nil {
		return ""
	}
	var sb strings.Builder
	for i := len(in.cur.stack) - 1; i >= 0 && i >= len(in.cur.stack)-12; i-- {
		fr := in.cur.stack[i]
		pos := ""
		if fr.pc < len(fr.cf.blocks[fr.blk].ins) {
			p := in.prog.Fset.Position(fr.cf.blocks[fr.blk].ins[fr.pc].i.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf(" %s:%d", p.Filename, p.Line)
			}
		}
		sb.WriteString(fr.cf.fn.String() + pos + "\n")
	}
	return sb.String()
}

func (in *Interp) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if v, ok := in.known(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if in.dpos < len(in.prefix) {
		// the item's model satisfies everything up to the end of the prefix
		in.assumeT(c)
		return
	}
	if in.P.Eval(c) != 0 {
		in.assumeT(c)
		return
	}
	r, m := in.S.Check(in.pc, c, in.varList)
	switch r {
	case Unsat:
		panic(pathEnd{"assume", ""})
	case Unknown:
		in.note("solver-unknown: assume")
		panic(pathEnd{"unknown", "assume"})
	}
	in.assumeT(c)
	in.setModel(m)
}

func (in *Interp) assertT(c *Term, label string, kind string) {
	in.asserts[label]++
	if in.dpos < len(in.prefix) {
		// already checked on the path that created this prefix
		if c.op == OConst {
			if c.val == 0 {
				panic(pathEnd{"violated-earlier", label})
			}
			return
		}
		in.assumeT(c)
		return
	}
	if c.op == OConst {
		if c.val != 0 {
			return
		}
		in.addViol(label, kind, in.model)
		panic(pathEnd{"violation", label})
	}
	if v, ok := in.known(c); ok && v {
		return
	}
	nc := in.P.Not(c)
	if in.P.Eval(c) == 0 {
		in.addViol(label, kind, in.model)
		// continue on the satisfying side if any
		r, m := in.S.Check(in.pc, c, in.varList)
		if r != Sat {
			panic(pathEnd{"violation", label})
		}
		in.assumeT(c)
		in.setModel(m)
		return
	}
	r, m := in.S.Check(in.pc, nc, in.varList)
	switch r {
	case Sat:
		in.addViol(label, kind, m)
	case Unknown:
		in.note("solver-unknown: assertion " + label)
	}
	in.assumeT(c)
}

func (in *Interp) addViol(label, kind string, m map[*Term]uint64) {
	mm := map[string]uint64{}
	for k, v := range m {
		mm[k.name] = v
	}
	in.viols = append(in.viols, Viol{Label: label, Kind: kind, Model: mm, Inputs: in.renderInputs(m), Trace: in.trace()})
}

func (in *Interp) renderInputs(m map[*Term]uint64) map[string]string {
	r := map[string]string{}
	for _, x := range in.inputs {
		v := uint64(x.Conc)
		if x.T != nil {
			v = m[x.T]
		}
		r[x.Name] = fmt.Sprintf("%s:%d", x.Kind, v)
	}
	return r
}

// ---------------------------------------------------------------- execution

func (in *Interp) get(fr *Frame, o Opnd) Value {
	if o.r >= 0 {
		v := fr.env[o.r]
		return v
	}
	if o.g != nil {
		return Ptr{in.global(o.g), 0}
	}
	return o.v
}

func (in *Interp) global(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		in.ensureInit(g.Pkg)
		return o
	}
	in.initDepth++
	o := in.newObj(g.Type().Underlying().(*types.Pointer).Elem(), 1, g.String())
	in.initDepth--
	o.base = true
	in.globals[g] = o
	in.ensureInit(g.Pkg)
	return o
}

func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] != 0 {
		return
	}
	in.inited[p] = 1
	if skipInit[p.Pkg.Path()] {
		return
	}
	if p.Pkg.Path() == "verifvp" || strings.HasSuffix(p.Pkg.Path(), "/verifvp") {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	in.eng.buildPkg(p)
	mm := in.mergeMode
	in.mergeMode = false
	in.initDepth++
	saveCur, saveSteps := in.cur, in.steps
	g := &Gor{id: -1}
	in.cur = g
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupportedErr, goPanic, blockedSig:
					in.eng.initNote(p.Pkg.Path(), fmt.Sprint(r))
				default:
					panic(r)
				}
			}
		}()
		cf := in.compile(f)
		fr := &Frame{cf: cf, env: make([]Value, cf.nreg), prev: -1, dst: -1, base: true, initFn: true}
		g.stack = append(g.stack, fr)
		in.runInit(g, p)
	}()
	in.cur, in.steps = saveCur, saveSteps
	in.initDepth--
	in.mergeMode = mm
	in.inited[p] = 2
	if p.Pkg.Path() == "crypto" {
		// these packages register their hashes
		for _, n := range []string{"crypto/md5", "crypto/sha1", "crypto/sha256", "crypto/sha512"} {
			in.ensureInit(in.prog.ImportedPackage(n))
		}
	}
}

// runInit runs a package init function, tolerating unsupported instructions.
func (in *Interp) runInit(g *Gor, p *ssa.Package) {
	fr := g.stack[0]
	for len(g.stack) > 0 {
		done := func() (done bool) {
			defer func() {
				if r := recover(); r != nil {
					var why string
					switch x := r.(type) {
					case unsupportedErr:
						why = x.msg
					case goPanic:
						why = "panic " + x.msg
					case blockedSig:
						why = "blocked"
					default:
						panic(r)
					}
					in.mergeMode = false
					in.eng.initNote(p.Pkg.Path(), why+" @ "+in.where())
					g.stack = g.stack[:1]
					g.pan = nil
					ci := &fr.cf.blocks[fr.blk].ins[fr.pc]
					switch ci.i.(type) {
					case *ssa.If, *ssa.Jump:
						g.stack = nil
						done = true
						return
					}
					if ci.dst >= 0 {
						fr.env[ci.dst] = Poison{why}
					}
					fr.pc++
				}
			}()
			for len(g.stack) > 0 {
				if len(g.stack) == 1 {
					ci := &fr.cf.blocks[fr.blk].ins[fr.pc]
					if c, ok := ci.i.(*ssa.Call); ok {
						if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != nil && f.Pkg != p && f.Synthetic != "" {
							if in.eng.isModule(f.Pkg.Pkg.Path()) {
								in.ensureInit(f.Pkg)
							}
							fr.pc++
							continue
						}
					}
					if s, ok := ci.i.(*ssa.Store); ok {
						_ = s
					}
				}
				in.step(g)
			}
			return true
		}()
		if done {
			break
		}
	}
}

func (in *Interp) call(g *Gor, fnv Value, args []Value, dst int) {
	c, ok := fnv.(*Closure)
	if !ok {
		if pz, isP := fnv.(Poison); isP {
			panic(unsupported("call of poison: " + pz.why))
		}
		panic(unsupported(fmt.Sprintf("call of %T", fnv)))
	}
	if c == nil {
		in.panicRT("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		v := c.nat(in, args)
		if dst >= 0 {
			g.stack[len(g.stack)-1].env[dst] = v
		}
		return
	}
	in.callFn(g, c.fn, args, c.bind, dst)
}

func (in *Interp) callFn(g *Gor, fn *ssa.Function, args []Value, bind []Value, dst int) *Frame {
	cf := in.compile(fn)
	if cf.intr != nil {
		var fr *Frame
		if len(g.stack) > 0 {
			fr = g.stack[len(g.stack)-1]
		}
		v := cf.intr(in, fr, fn, args)
		if dst >= 0 && fr != nil {
			fr.env[dst] = v
		}
		return nil
	}
	if in.initDepth == 0 && !in.fnsSeen[fn] {
		in.fnsSeen[fn] = true
	}
	if fn.Pkg != nil && in.inited[fn.Pkg] == 0 {
		in.ensureInit(fn.Pkg)
	}
	fr := &Frame{cf: cf, env: make([]Value, cf.nreg), prev: -1, dst: dst}
	copy(fr.env, args)
	copy(fr.env[cf.np:], bind)
	g.stack = append(g.stack, fr)
	if len(g.stack) > 4000 {
		panic(pathEnd{"stack", "stack overflow (depth 4000)"})
	}
	return fr
}

// callSync runs a function to completion on the current goroutine (native boundary).
func (in *Interp) callSync(fnv Value, args []Value) Value {
	c, ok := fnv.(*Closure)
	if !ok || c == nil {
		if ok {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		panic(unsupported("callSync"))
	}
	if c.nat != nil {
		return c.nat(in, args)
	}
	cf := in.compile(c.fn)
	if cf.intr != nil {
		return cf.intr(in, nil, c.fn, args)
	}
	g := in.cur
	if g == nil {
		panic(unsupported("callSync without goroutine"))
	}
	var ret Value
	n := len(g.stack)
	fr := in.callFn(g, c.fn, args, c.bind, -1)
	fr.base = true
	got := false
	fr.onRet = func(v Value) { ret = v; got = true }
	in.runNested(g, n)
	if !got {
		panic(unsupported("callSync did not return"))
	}
	return ret
}

func (in *Interp) runNested(g *Gor, depth int) {
	for len(g.stack) > depth {
		st := in.runG(g, depth)
		if st == stBlocked {
			// let other goroutines run
			in.cur = g
			if !in.runOthers(g) {
				panic(unsupported("blocked inside native callback: " + g.why))
			}
			in.cur = g
		}
	}
}

const (
	stDone = iota
	stBlocked
)

// runG executes g until its stack is at depth or it blocks.
func (in *Interp) runG(g *Gor, depth int) (st int) {
	in.cur = g
	for {
		st, again := in.runG1(g, depth)
		if !again {
			return st
		}
	}
}

func (in *Interp) runG1(g *Gor, depth int) (st int, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				if len(g.stack) <= depth {
					panic(r)
				}
				in.startPanic(g, x, depth)
				st, again = stDone, true
			case blockedSig:
				if len(g.stack) <= depth {
					panic(r)
				}
				g.why = x.why
				st, again = stBlocked, false
			default:
				panic(r)
			}
		}
	}()
	for len(g.stack) > depth {
		in.step(g)
	}
	return stDone, false
}

func (in *Interp) startPanic(g *Gor, p goPanic, depth int) {
	pv, _ := p.v.(*Iface)
	g.pan = &panicRec{v: pv, msg: p.msg, prev: g.pan, trace: in.trace()}
	in.unwind(g, depth)
}

func (in *Interp) unwind(g *Gor, depth int) {
	for {
		if len(g.stack) == 0 {
			p := g.pan
			panic(pathEnd{"panic", p.msg + "\x00" + p.trace})
		}
		fr := g.stack[len(g.stack)-1]
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			in.runDefer(g, fr, d, g.pan)
			if len(g.stack) > 0 && g.stack[len(g.stack)-1] != fr {
				return // deferred frame will continue unwinding when it returns
			}
			if in.afterDefer(g, fr, g.pan) {
				return
			}
			continue
		}
		// pop
		if fr.isDefer && fr.panFor != nil && fr.panFor != g.pan {
			// a deferred call panicked: new panic replaces the old one
		}
		g.stack = g.stack[:len(g.stack)-1]
		if fr.base {
			p := g.pan
			g.pan = p.prev
			if len(g.stack) == 0 {
				panic(pathEnd{"panic", p.msg + "\x00" + p.trace})
			}
			panic(goPanic{p.v, p.msg})
		}
	}
}

func (in *Interp) runDefer(g *Gor, fr *Frame, d deferred, p *panicRec) {
	if d.nat != nil {
		d.nat()
		return
	}
	n := len(g.stack)
	in.call(g, d.fn, d.args, -1)
	if len(g.stack) > n {
		nf := g.stack[len(g.stack)-1]
		nf.isDefer = true
		nf.ofFrame = fr
		nf.panFor = p
	}
}

// afterDefer: called when a deferred call of fr returned while panicking p. Returns true when execution continues normally.
func (in *Interp) afterDefer(g *Gor, fr *Frame, p *panicRec) bool {
	if p != nil && p.recovered {
		g.pan = p.prev
		// run the remaining defers then return through the recover block
		if fr.cf.fn.Recover != nil {
			fr.prev = fr.blk
			fr.blk = fr.cf.fn.Recover.Index
			fr.pc = 0
			// remaining defers must run first
			in.drainDefers(g, fr)
			return true
		}
		in.drainDefers(g, fr)
		in.ret(g, fr, in.zeroResults(fr.cf.fn))
		return true
	}
	return false
}

func (in *Interp) drainDefers(g *Gor, fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.nat != nil {
			d.nat()
			continue
		}
		in.callSync(d.fn, d.args)
	}
}

func (in *Interp) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

func (in *Interp) ret(g *Gor, fr *Frame, v Value) {
	g.stack = g.stack[:len(g.stack)-1]
	if fr.onRet != nil {
		fr.onRet(v)
	}
	if fr.isDefer {
		of := fr.ofFrame
		if fr.panFor != nil {
			if in.afterDefer(g, of, fr.panFor) {
				return
			}
			in.unwindCont(g)
		}
		return
	}
	if fr.dst >= 0 && len(g.stack) > 0 && !fr.base {
		g.stack[len(g.stack)-1].env[fr.dst] = v
	}
}

func (in *Interp) unwindCont(g *Gor) { in.unwind(g, 0) }

func (in *Interp) term(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Poison:
		panic(unsupported("poison: " + x.why))
	case Ptr:
		if x.obj == nil {
			return in.P.BV(64, uint64(x.off))
		}
		return in.P.BV(64, uint64(0xc000000000)+uint64(x.obj.id)<<20+uint64(x.off))
	}
	panic(unsupported(fmt.Sprintf("term of %T", v)))
}

func (in *Interp) jump(fr *Frame, from *ssa.BasicBlock, to int) {
	fn := fr.cf.fn
	fb := from.Index
	cb := &fr.cf.blocks[to]
	if cb.nphi > 0 {
		pi := -1
		for i, p := range fn.Blocks[to].Preds {
			if p.Index == fb {
				pi = i
				break
			}
		}
		var tmp [8]Value
		vals := tmp[:0]
		for k := 0; k < cb.nphi; k++ {
			vals = append(vals, in.get(fr, cb.ins[k].ops[pi]))
		}
		for k := 0; k < cb.nphi; k++ {
			fr.env[cb.ins[k].dst] = vals[k]
		}
	}
	fr.prev = fb
	fr.blk = to
	fr.pc = cb.nphi
}

func (in *Interp) step(g *Gor) {
	fr := g.stack[len(g.stack)-1]
	ci := &fr.cf.blocks[fr.blk].ins[fr.pc]
	in.steps++
	if in.steps > in.maxSteps && in.initDepth == 0 {
		panic(pathEnd{"budget", in.where()})
	}
	switch x := ci.i.(type) {
	case *ssa.Jump:
		in.jump(fr, x.Block(), x.Block().Succs[0].Index)
		return
	case *ssa.If:
		c := in.term(in.get(fr, ci.ops[0]))
		if c.op != OConst {
			if _, kn := in.known(c); !kn && ci.mrg != nil && in.initDepth == 0 {
				if in.tryMergeIf(fr, ci.mrg, c) {
					return
				}
			}
		}
		if in.branch(c) {
			in.jump(fr, x.Block(), x.Block().Succs[0].Index)
		} else {
			in.jump(fr, x.Block(), x.Block().Succs[1].Index)
		}
		return
	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = in.get(fr, ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i, o := range ci.ops {
				t[i] = in.get(fr, o)
			}
			v = t
		}
		in.ret(g, fr, v)
		return
	case *ssa.Panic:
		v, _ := in.get(fr, ci.ops[0]).(*Iface)
		panic(goPanic{v, in.panicMsg(v)})
	case *ssa.Store:
		in.storeAny(in.get(fr, ci.ops[0]), x.Val.Type(), in.get(fr, ci.ops[1]))
	case *ssa.Call:
		in.doCall(g, fr, ci, &x.Call, ci.dst)
		return
	case *ssa.Defer:
		fr.pc++
		in.doDefer(g, fr, ci, x)
		return
	case *ssa.Go:
		in.doGo(g, fr, ci, x)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			in.runDefer(g, fr, d, nil)
			return // re-executed until empty
		}
	case *ssa.MapUpdate:
		m, _ := in.get(fr, ci.ops[0]).(*MapV)
		if pz, ok := in.get(fr, ci.ops[0]).(Poison); ok {
			panic(unsupported("map update on poison: " + pz.why))
		}
		if m == nil {
			panic(goPanic{in.mkErrStr("assignment to entry in nil map"), "assignment to entry in nil map"})
		}
		in.mapSet(m, in.get(fr, ci.ops[1]), in.get(fr, ci.ops[2]))
	case *ssa.Send:
		ch, _ := in.get(fr, ci.ops[0]).(*ChanV)
		in.chanSend(g, ch, in.get(fr, ci.ops[1]))
	case *ssa.Select:
		fr.env[ci.dst] = in.doSelect(g, fr, ci, x)
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			ch, _ := in.get(fr, ci.ops[0]).(*ChanV)
			v, ok := in.chanRecv(g, ch)
			if v == nil {
				v = in.zero(x.X.Type().Underlying().(*types.Chan).Elem())
			}
			if x.CommaOk {
				fr.env[ci.dst] = Tuple{v, in.P.Bool(ok)}
			} else {
				fr.env[ci.dst] = v
			}
		} else {
			fr.env[ci.dst] = in.evalPure(fr, ci)
		}
	default:
		fr.env[ci.dst] = in.evalPure(fr, ci)
	}
	fr.pc++
}

func (in *Interp) mkErrStr(s string) *Iface {
	if in.rtErrT != nil {
		return &Iface{in.rtErrT, in.mkStr(s), nil}
	}
	return nil
}

func (in *Interp) panicMsg(v *Iface) string {
	if v == nil {
		return "panic(nil)"
	}
	if s, ok := v.v.(*Str); ok {
		if s.b == nil {
			return s.s
		}
		return "<symbolic string>"
	}
	if t, ok := v.v.(*Term); ok && t.op == OConst {
		return fmt.Sprintf("%s(%d)", v.t, t.val)
	}
	return "panic of " + v.t.String()
}

func (in *Interp) storeAny(p Value, t types.Type, v Value) {
	switch q := p.(type) {
	case Ptr:
		in.store(q, t, v)
	case *SymPtr:
		tv, ok := v.(*Term)
		if ok && q.n <= 64 {
			for i := int64(0); i < q.n; i++ {
				pp := Ptr{q.obj, q.off + i*q.esize + q.sub}
				old, ok2 := in.loadLeaf(pp, t).(*Term)
				if !ok2 {
					panic(unsupported("symstore"))
				}
				in.storeLeaf(pp, t, in.P.Ite(in.P.Eq(q.idx, in.P.BV(64, uint64(i))), tv, old))
			}
			return
		}
		in.store(in.concPtr(q), t, v)
	case Poison:
		panic(unsupported("store to poison: " + q.why))
	default:
		panic(unsupported(fmt.Sprintf("store to %T", p)))
	}
}

func (in *Interp) concPtr(q *SymPtr) Ptr {
	i := in.concretize(q.idx)
	return Ptr{q.obj, q.off + int64(i)*q.esize + q.sub}
}

func (in *Interp) loadAny(p Value, t types.Type) Value {
	switch q := p.(type) {
	case Ptr:
		return in.load(q, t)
	case *SymPtr:
		if q.n <= 256 && q.n > 0 {
			ok := true
			var acc Value
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(mergeAbort); is {
							ok = false
							return
						}
						panic(r)
					}
				}()
				for i := q.n - 1; i >= 0; i-- {
					v := in.load(Ptr{q.obj, q.off + i*q.esize + q.sub}, t)
					if acc == nil {
						acc = v
					} else {
						acc = in.iteVal(in.P.Eq(q.idx, in.P.BV(64, uint64(i))), v, acc)
					}
				}
			}()
			if ok {
				return acc
			}
		}
		return in.load(in.concPtr(q), t)
	case *RType:
		panic(unsupported("load through rtype"))
	case Poison:
		panic(unsupported("load from poison: " + q.why))
	}
	panic(unsupported(fmt.Sprintf("load from %T", p)))
}

func (in *Interp) evalPure(fr *Frame, ci *CIns) Value {
	switch x := ci.i.(type) {
	case *ssa.BinOp:
		return in.binop(x.Op, x.X.Type(), x.Y.Type(), in.get(fr, ci.ops[0]), in.get(fr, ci.ops[1]))
	case *ssa.UnOp:
		v := in.get(fr, ci.ops[0])
		switch x.Op {
		case token.MUL:
			return in.loadAny(v, x.Type())
		case token.NOT:
			return in.P.Not(in.term(v))
		case token.SUB:
			t := in.term(v)
			if t.sort.isFP() {
				return in.P.FpNeg(t)
			}
			return in.P.BvNeg(t)
		case token.XOR:
			return in.P.BvNot(in.term(v))
		}
		panic(unsupported("unop " + x.Op.String()))
	case *ssa.Alloc:
		return Ptr{in.newObj(x.Type().Underlying().(*types.Pointer).Elem(), 1, x.Comment), 0}
	case *ssa.FieldAddr:
		v := in.get(fr, ci.ops[0])
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := in.T.offsets(st)[x.Field]
		switch p := v.(type) {
		case Ptr:
			if p.obj == nil {
				in.panicRT("invalid memory address or nil pointer dereference")
			}
			return Ptr{p.obj, p.off + off}
		case *SymPtr:
			q := *p
			q.sub += off
			return &q
		case Poison:
			panic(unsupported("poison: " + p.why))
		}
		panic(unsupported(fmt.Sprintf("fieldaddr of %T", v)))
	case *ssa.Field:
		switch a := in.get(fr, ci.ops[0]).(type) {
		case Agg:
			return a[x.Field]
		case Poison:
			panic(unsupported("poison: " + a.why))
		}
		panic(unsupported("field"))
	case *ssa.IndexAddr:
		return in.indexAddr(x.X.Type(), in.get(fr, ci.ops[0]), in.idx64(x.Index.Type(), in.get(fr, ci.ops[1])))
	case *ssa.Index:
		v := in.get(fr, ci.ops[0])
		i := in.idx64(x.Index.Type(), in.get(fr, ci.ops[1]))
		switch a := v.(type) {
		case Agg:
			in.boundsCheck(i, in.P.BV(64, uint64(len(a))))
			if i.op == OConst {
				return a[i.val]
			}
			acc := a[len(a)-1]
			for k := len(a) - 2; k >= 0; k-- {
				acc = in.iteVal(in.P.Eq(i, in.P.BV(64, uint64(k))), a[k], acc)
			}
			return acc
		case *Str:
			return in.strIndex(a, i)
		}
		panic(unsupported(fmt.Sprintf("index of %T", v)))
	case *ssa.Lookup:
		v := in.get(fr, ci.ops[0])
		if s, ok := v.(*Str); ok {
			return in.strIndex(s, in.idx64(x.Index.Type(), in.get(fr, ci.ops[1])))
		}
		if pz, ok := v.(Poison); ok {
			panic(unsupported("poison: " + pz.why))
		}
		m := v.(*MapV)
		r, ok := in.mapGet(m, in.get(fr, ci.ops[1]))
		if !ok {
			r = in.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{r, in.P.Bool(ok)}
		}
		return r
	case *ssa.Extract:
		switch a := in.get(fr, ci.ops[0]).(type) {
		case Tuple:
			return a[x.Index]
		case Poison:
			return a
		default:
			panic(unsupported(fmt.Sprintf("extract of %T", a)))
		}
	case *ssa.Convert:
		return in.convert(x.X.Type(), x.Type(), in.get(fr, ci.ops[0]))
	case *ssa.MultiConvert:
		return in.convert(x.X.Type(), x.Type(), in.get(fr, ci.ops[0]))
	case *ssa.ChangeType:
		return in.get(fr, ci.ops[0])
	case *ssa.ChangeInterface:
		return in.get(fr, ci.ops[0])
	case *ssa.MakeInterface:
		v := in.get(fr, ci.ops[0])
		if pz, ok := v.(Poison); ok {
			return pz
		}
		return &Iface{in.T.canonT(x.X.Type()), v, nil}
	case *ssa.MakeClosure:
		b := make([]Value, len(ci.ops)-1)
		for i := range b {
			b[i] = in.get(fr, ci.ops[i+1])
		}
		return &Closure{fn: x.Fn.(*ssa.Function), bind: b}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return in.newMap(mt.Key(), mt.Elem())
	case *ssa.MakeChan:
		n := in.concretize(in.idx64(x.Size.Type(), in.get(fr, ci.ops[0])))
		in.objSeq++
		return &ChanV{id: in.objSeq, cap: int(n), elem: x.Type().Underlying().(*types.Chan).Elem(), base: in.initDepth > 0}
	case *ssa.MakeSlice:
		return in.makeSlice(x.Type().Underlying().(*types.Slice).Elem(), in.idx64(x.Len.Type(), in.get(fr, ci.ops[0])), in.idx64(x.Cap.Type(), in.get(fr, ci.ops[1])))
	case *ssa.Slice:
		return in.doSlice(fr, ci, x)
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, ci.ops[0]).(*SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if in.branch(in.P.Slt(s.len, in.P.BV(64, uint64(n)))) {
			in.panicRT("cannot convert slice to array pointer: length too short")
		}
		return Ptr{s.obj, s.off}
	case *ssa.TypeAssert:
		return in.typeAssert(x, in.get(fr, ci.ops[0]))
	case *ssa.Range:
		switch v := in.get(fr, ci.ops[0]).(type) {
		case *Str:
			return &strIter{s: v}
		case *MapV:
			it := &mapIter{}
			if v != nil {
				it.m = v
			}
			return it
		case Poison:
			panic(unsupported("poison: " + v.why))
		}
		panic(unsupported("range"))
	case *ssa.Next:
		return in.next(x, in.get(fr, ci.ops[0]))
	case *ssa.Call:
		// merge mode builtins
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			args := make([]Value, len(x.Call.Args))
			for i := range args {
				args[i] = in.get(fr, ci.ops[i+1])
			}
			return in.builtin(fr, b, &x.Call, args)
		}
	case *ssa.Phi:
		panic("phi reached")
	}
	panic(unsupported(fmt.Sprintf("instr %T", ci.i)))
}

type strIter struct {
	s   *Str
	pos int
}
type mapIter struct {
	m   *MapV
	pos int
}

func (in *Interp) next(x *ssa.Next, it Value) Value {
	switch i := it.(type) {
	case *strIter:
		if i.pos >= i.s.Len() {
			return Tuple{in.P.False, in.P.BV(64, 0), in.P.BV(32, 0)}
		}
		p := i.pos
		b := in.strByte(i.s, p)
		if in.branch(in.P.Ult(b, in.P.BV(8, 0x80))) {
			i.pos++
			return Tuple{in.P.True, in.P.BV(64, uint64(p)), in.P.Zext(b, 32)}
		}
		f := in.prog.ImportedPackage("unicode/utf8").Func("DecodeRuneInString")
		r := in.callSync(&Closure{fn: f}, []Value{in.strSub(i.s, p, i.s.Len())}).(Tuple)
		n := in.concretize(r[1].(*Term))
		i.pos += int(n)
		return Tuple{in.P.True, in.P.BV(64, uint64(p)), r[0]}
	case *mapIter:
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if i.m != nil {
			for i.pos < len(i.m.entries) {
				e := i.m.entries[i.pos]
				i.pos++
				if e.live {
					return Tuple{in.P.True, e.k, e.v}
				}
			}
		}
		return Tuple{in.P.False, in.zero(mt.Key()), in.zero(mt.Elem())}
	}
	panic(unsupported("next"))
}

func (in *Interp) idx64(t types.Type, v Value) *Term {
	x := in.term(v)
	if x.w() == 64 {
		return x
	}
	if isSigned(t) {
		return in.P.Sext(x, 64)
	}
	return in.P.Zext(x, 64)
}

func (in *Interp) boundsCheck(i, n *Term) {
	c := in.P.Ult(i, n)
	if c.op == OConst && c.val != 0 {
		return
	}
	if !in.branch(c) {
		if i.op == OConst && n.op == OConst {
			in.panicRT(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), int64(n.val)))
		}
		in.panicRT("index out of range")
	}
}

func (in *Interp) strIndex(s *Str, i *Term) Value {
	in.boundsCheck(i, in.P.BV(64, uint64(s.Len())))
	if i.op == OConst {
		return in.strByte(s, int(i.val))
	}
	n := s.Len()
	acc := in.strByte(s, n-1)
	for k := n - 2; k >= 0; k-- {
		acc = in.P.Ite(in.P.Eq(i, in.P.BV(64, uint64(k))), in.strByte(s, k), acc)
	}
	return acc
}

func (in *Interp) indexAddr(xt types.Type, v Value, i *Term) Value {
	switch u := xt.Underlying().(type) {
	case *types.Pointer: // *array
		at := u.Elem().Underlying().(*types.Array)
		if sp, ok := v.(*SymPtr); ok {
			v = in.concPtr(sp)
		}
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported("indexaddr"))
		}
		if p.obj == nil {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		in.boundsCheck(i, in.P.BV(64, uint64(at.Len())))
		es := in.T.sizeof(at.Elem())
		if i.op == OConst {
			return Ptr{p.obj, p.off + int64(i.val)*es}
		}
		return &SymPtr{p.obj, p.off, i, es, at.Len(), 0}
	case *types.Slice:
		s, ok := v.(*SliceV)
		if !ok {
			if pz, isP := v.(Poison); isP {
				panic(unsupported("poison: " + pz.why))
			}
			panic(unsupported(fmt.Sprintf("indexaddr of %T", v)))
		}
		in.boundsCheck(i, s.len)
		es := in.T.sizeof(u.Elem())
		if i.op == OConst {
			return Ptr{s.obj, s.off + int64(i.val)*es}
		}
		if s.len.op == OConst && s.len.val <= 4096 {
			return &SymPtr{s.obj, s.off, i, es, int64(s.len.val), 0}
		}
		k := in.concretize(i)
		return Ptr{s.obj, s.off + int64(k)*es}
	}
	panic(unsupported("indexaddr " + xt.String()))
}

func (in *Interp) makeSlice(et types.Type, n, c *Term) Value {
	bad := in.P.Or(in.P.Slt(n, in.P.BV(64, 0)), in.P.Slt(in.P.BV(64, 1<<47), n))
	if in.branch(bad) {
		in.panicRT("makeslice: len out of range")
	}
	bad = in.P.Or(in.P.Slt(c, n), in.P.Slt(in.P.BV(64, 1<<47), c))
	if in.branch(bad) {
		in.panicRT("makeslice: cap out of range")
	}
	if c.op == OConst {
		return &SliceV{in.newObj1(et, int64(c.val), "makeslice"), 0, n, c}
	}
	o := in.newObj1(et, -1, "makeslice?")
	return &SliceV{o, 0, n, c}
}

// newObj1 allocates n elements of et (et may itself be an array type).
func (in *Interp) newObj1(et types.Type, n int64, name string) *Obj {
	if n == 1 {
		if _, ok := et.Underlying().(*types.Array); ok {
			return in.newObj(et, 1, name)
		}
	}
	return in.newObj(et, n, name)
}

func (in *Interp) doSlice(fr *Frame, ci *CIns, x *ssa.Slice) Value {
	v := in.get(fr, ci.ops[0])
	opt := func(k int, val ssa.Value) *Term {
		if val == nil {
			return nil
		}
		return in.idx64(val.Type(), in.get(fr, ci.ops[k]))
	}
	lo, hi, max := opt(1, x.Low), opt(2, x.High), opt(3, x.Max)
	return in.slice3(x.X.Type(), v, lo, hi, max)
}

func (in *Interp) slice3(xt types.Type, v Value, lo, hi, max *Term) Value {
	P := in.P
	if lo == nil {
		lo = P.BV(64, 0)
	}
	switch s := v.(type) {
	case *Str:
		n := P.BV(64, uint64(s.Len()))
		if hi == nil {
			hi = n
		}
		if in.branch(P.Or(P.Ult(n, hi), P.Ult(hi, lo))) {
			in.panicRT("slice bounds out of range")
		}
		l, h := int(in.concretize(lo)), int(in.concretize(hi))
		return in.strSub(s, l, h)
	case *SliceV:
		es := in.T.sizeof(xt.Underlying().(*types.Slice).Elem())
		c := s.cap
		if hi == nil {
			hi = s.len
		}
		bad := P.Or(P.Ult(c, hi), P.Ult(hi, lo))
		nc := c
		if max != nil {
			bad = P.Or(bad, P.Or(P.Ult(c, max), P.Ult(max, hi)))
			nc = max
		}
		if in.branch(bad) {
			in.panicRT(fmt.Sprintf("slice bounds out of range [%s:%s] cap %s", cs(lo), cs(hi), cs(c)))
		}
		l := int64(in.concretize(lo))
		off := s.off + l*es
		return &SliceV{s.obj, off, P.BvSub(hi, P.BV(64, uint64(l))), P.BvSub(nc, P.BV(64, uint64(l)))}
	case Ptr, *SymPtr:
		if sp, ok := v.(*SymPtr); ok {
			v = in.concPtr(sp)
		}
		p := v.(Ptr)
		if p.obj == nil {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		at := xt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		es := in.T.sizeof(at.Elem())
		n := P.BV(64, uint64(at.Len()))
		c := n
		if hi == nil {
			hi = n
		}
		bad := P.Or(P.Ult(n, hi), P.Ult(hi, lo))
		if max != nil {
			bad = P.Or(bad, P.Or(P.Ult(n, max), P.Ult(max, hi)))
			c = max
		}
		if in.branch(bad) {
			in.panicRT("slice bounds out of range")
		}
		l := int64(in.concretize(lo))
		return &SliceV{p.obj, p.off + l*es, P.BvSub(hi, P.BV(64, uint64(l))), P.BvSub(c, P.BV(64, uint64(l)))}
	case Poison:
		panic(unsupported("poison: " + s.why))
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

func cs(t *Term) string {
	if t.op == OConst {
		return fmt.Sprint(int64(t.val))
	}
	return "sym"
}

func (in *Interp) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if r, ok := in.T.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	in.T.implC[k] = r
	return r
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	if pz, ok := v.(Poison); ok {
		panic(unsupported("poison: " + pz.why))
	}
	f, _ := v.(*Iface)
	ok := false
	var r Value
	if types.IsInterface(x.AssertedType) {
		if f != nil {
			ok = in.implements(f.t, x.AssertedType)
		}
		r = f
	} else if f != nil {
		ok = f.t == x.AssertedType || types.Identical(f.t, x.AssertedType)
		r = f.v
	}
	if x.CommaOk {
		if !ok {
			r = in.zero(x.AssertedType)
		}
		return Tuple{r, in.P.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if f != nil {
			d = f.t.String()
		}
		in.panicRT(fmt.Sprintf("interface conversion: interface is %s, not %s", d, x.AssertedType))
	}
	return r
}

func (in *Interp) convert(from, to types.Type, v Value) Value {
	if pz, ok := v.(Poison); ok {
		panic(unsupported("poison: " + pz.why))
	}
	fu, tu := from.Underlying(), to.Underlying()
	tb, tIsB := tu.(*types.Basic)
	fb, fIsB := fu.(*types.Basic)
	switch {
	case tIsB && tb.Kind() == types.UnsafePointer:
		switch p := v.(type) {
		case Ptr, *SymPtr, *RType:
			return p
		case *Term:
			if p.op == OConst && p.val == 0 {
				return Ptr{}
			}
		case *MapV, *ChanV, *Closure:
			return p
		}
		panic(unsupported(fmt.Sprintf("convert %T to unsafe.Pointer", v)))
	case fIsB && fb.Kind() == types.UnsafePointer:
		if tIsB && tb.Kind() == types.Uintptr {
			return v
		}
		return v
	case tIsB && fIsB && fb.Info()&types.IsString == 0 && tb.Info()&types.IsString == 0:
		if q, ok := v.(Ptr); ok { // uintptr holding pointer
			return q
		}
		t := in.term(v)
		return in.numConv(fb, tb, t)
	case tIsB && tb.Info()&types.IsString != 0:
		if fIsB {
			if fb.Info()&types.IsString != 0 {
				return v
			}
			// rune -> string
			t := in.idx64(from, v)
			if t.op == OConst {
				return in.mkStr(string(rune(int32(t.val))))
			}
			if in.branch(in.P.Ult(t, in.P.BV(64, 0x80))) {
				return normStr([]*Term{in.P.Extract(t, 7, 0)})
			}
			f := in.prog.ImportedPackage("unicode/utf8").Func("AppendRune")
			r := in.callSync(&Closure{fn: f}, []Value{in.nilSlice, in.P.Extract(t, 31, 0)})
			return in.bytesToStr(r.(*SliceV))
		}
		if st, ok := fu.(*types.Slice); ok {
			s := v.(*SliceV)
			if typeWidth(st.Elem()) == 8 {
				return in.bytesToStr(s)
			}
			f := in.prog.ImportedPackage("unicode/utf8").Func("AppendRune")
			var acc Value = in.nilSlice
			for _, r := range in.sliceVals(s, st.Elem()) {
				acc = in.callSync(&Closure{fn: f}, []Value{acc, r})
			}
			return in.bytesToStr(acc.(*SliceV))
		}
	case fIsB && fb.Info()&types.IsString != 0:
		s := v.(*Str)
		st := tu.(*types.Slice)
		if typeWidth(st.Elem()) == 8 {
			return in.strBytes(s)
		}
		it := &strIter{s: s}
		var rs []Value
		f := in.prog.ImportedPackage("unicode/utf8").Func("DecodeRuneInString")
		for it.pos < s.Len() {
			b := in.strByte(s, it.pos)
			if in.branch(in.P.Ult(b, in.P.BV(8, 0x80))) {
				it.pos++
				rs = append(rs, in.P.Zext(b, 32))
				continue
			}
			r := in.callSync(&Closure{fn: f}, []Value{in.strSub(s, it.pos, s.Len())}).(Tuple)
			it.pos += int(in.concretize(r[1].(*Term)))
			rs = append(rs, r[0])
		}
		return in.mkSlice(st.Elem(), rs)
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Struct, *types.Map, *types.Chan, *types.Signature, *types.Interface, *types.Array:
		if st, ok := fu.(*types.Slice); ok {
			if at, ok := tu.(*types.Array); ok { // slice to array
				s := v.(*SliceV)
				if in.branch(in.P.Slt(s.len, in.P.BV(64, uint64(at.Len())))) {
					in.panicRT("cannot convert slice to array: length too short")
				}
				es := in.T.sizeof(st.Elem())
				a := make(Agg, at.Len())
				for i := range a {
					a[i] = in.load(Ptr{s.obj, s.off + int64(i)*es}, at.Elem())
				}
				return a
			}
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s", from, to)))
}

func (in *Interp) numConv(fb, tb *types.Basic, t *Term) Value {
	P := in.P
	fs, ts := fpSort(fb), fpSort(tb)
	switch {
	case fs != 0 && ts != 0:
		return P.FpToFp(t, ts)
	case fs == 0 && ts != 0:
		return P.FpFromInt(t, fb.Info()&types.IsUnsigned == 0, ts)
	case fs != 0:
		w := basicWidth(tb)
		if tb.Kind() == types.Uint64 || tb.Kind() == types.Uint || tb.Kind() == types.Uintptr {
			// amd64: x < 2^63 ? cvttsd2si(x) : cvttsd2si(x-2^63) ^ 1<<63
			if t.sort == SFP32 {
				t = P.FpToFp(t, SFP64)
			}
			two63 := P.F64(9223372036854775808.0)
			return P.Ite(P.FpCmp(OFpLt, t, two63), P.FpToI64(t), P.BvXor(P.FpToI64(P.FpBin(OFpSub, t, two63)), P.BV(64, 1<<63)))
		}
		if w == 32 && tb.Info()&types.IsUnsigned == 0 || w < 32 {
			// CVTTSD2SL: 32-bit conversion, out of range -> 0x80000000
			v := P.FpToI64(t)
			if w == 32 {
				inr := P.Eq(P.Sext(P.Extract(v, 31, 0), 64), v)
				return P.Ite(inr, P.Extract(v, 31, 0), P.BV(32, 1<<31))
			}
			inr := P.Eq(P.Sext(P.Extract(v, 31, 0), 64), v)
			r := P.Ite(inr, P.Extract(v, 31, 0), P.BV(32, 1<<31))
			return P.Extract(r, w-1, 0)
		}
		v := P.FpToI64(t)
		if w < 64 {
			return P.Extract(v, w-1, 0)
		}
		return v
	}
	w := basicWidth(tb)
	if t.w() == w {
		return t
	}
	if t.w() > w {
		return P.Extract(t, w-1, 0)
	}
	if fb.Info()&types.IsUnsigned == 0 {
		return P.Sext(t, w)
	}
	return P.Zext(t, w)
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, a, b Value) Value {
	P := in.P
	switch op {
	case token.EQL:
		return in.equal2(xt, yt, a, b)
	case token.NEQ:
		return P.Not(in.equal2(xt, yt, a, b))
	}
	if pz, ok := a.(Poison); ok {
		panic(unsupported("poison: " + pz.why))
	}
	if pz, ok := b.(Poison); ok {
		panic(unsupported("poison: " + pz.why))
	}
	if s, ok := a.(*Str); ok {
		t := b.(*Str)
		switch op {
		case token.ADD:
			return in.strCat(s, t)
		case token.LSS:
			return in.strLess(s, t)
		case token.GTR:
			return in.strLess(t, s)
		case token.LEQ:
			return P.Not(in.strLess(t, s))
		case token.GEQ:
			return P.Not(in.strLess(s, t))
		}
	}
	// pointer arithmetic through uintptr
	if p, ok := a.(Ptr); ok && p.obj != nil {
		if y, ok := b.(*Term); ok && y.op == OConst {
			switch op {
			case token.ADD:
				return Ptr{p.obj, p.off + int64(y.val)}
			case token.SUB:
				return Ptr{p.obj, p.off - int64(y.val)}
			}
		}
	}
	x, y := in.term(a), in.term(b)
	if x.sort.isFP() {
		switch op {
		case token.ADD:
			return P.FpBin(OFpAdd, x, y)
		case token.SUB:
			return P.FpBin(OFpSub, x, y)
		case token.MUL:
			return P.FpBin(OFpMul, x, y)
		case token.QUO:
			return P.FpBin(OFpDiv, x, y)
		case token.LSS:
			return P.FpCmp(OFpLt, x, y)
		case token.LEQ:
			return P.FpCmp(OFpLe, x, y)
		case token.GTR:
			return P.FpCmp(OFpLt, y, x)
		case token.GEQ:
			return P.FpCmp(OFpLe, y, x)
		}
		panic(unsupported("fp binop " + op.String()))
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return P.And(x, y)
		case token.OR, token.LOR:
			return P.Or(x, y)
		}
		panic(unsupported("bool binop " + op.String()))
	}
	sg := isSigned(xt)
	switch op {
	case token.ADD:
		return P.BvAdd(x, y)
	case token.SUB:
		return P.BvSub(x, y)
	case token.MUL:
		return P.BvMul(x, y)
	case token.QUO, token.REM:
		z := P.Eq(y, P.BV(y.w(), 0))
		if in.branch(z) {
			in.panicRT("integer divide by zero")
		}
		if op == token.QUO {
			if sg {
				return P.BvSdiv(x, y)
			}
			return P.BvUdiv(x, y)
		}
		if sg {
			return P.BvSrem(x, y)
		}
		return P.BvUrem(x, y)
	case token.AND:
		return P.BvAnd(x, y)
	case token.OR:
		return P.BvOr(x, y)
	case token.XOR:
		return P.BvXor(x, y)
	case token.AND_NOT:
		return P.BvAnd(x, P.BvNot(y))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if in.branch(P.Slt(y, P.BV(y.w(), 0))) {
				in.panicRT("negative shift amount")
			}
		}
		w := x.w()
		var big *Term = P.False
		if y.w() > w {
			big = P.Not(P.Ult(y, P.BV(y.w(), uint64(w))))
			y = P.Extract(y, w-1, 0)
		} else if y.w() < w {
			y = P.Zext(y, w)
		}
		if op == token.SHL {
			return P.Ite(big, P.BV(w, 0), P.BvShl(x, y))
		}
		if sg {
			return P.Ite(big, P.BvAshr(x, P.BV(w, uint64(w-1))), P.BvAshr(x, y))
		}
		return P.Ite(big, P.BV(w, 0), P.BvLshr(x, y))
	case token.LSS:
		if sg {
			return P.Slt(x, y)
		}
		return P.Ult(x, y)
	case token.GTR:
		if sg {
			return P.Slt(y, x)
		}
		return P.Ult(y, x)
	case token.LEQ:
		if sg {
			return P.Sle(x, y)
		}
		return P.Ule(x, y)
	case token.GEQ:
		if sg {
			return P.Sle(y, x)
		}
		return P.Ule(y, x)
	}
	panic(unsupported("binop " + op.String()))
}

func (in *Interp) equal2(xt, yt types.Type, a, b Value) *Term {
	// mixed interface / concrete comparison
	xi, yi := types.IsInterface(xt), types.IsInterface(yt)
	if xi && !yi {
		b = &Iface{in.T.canonT(yt), b, nil}
		yt = xt
	} else if yi && !xi {
		a = &Iface{in.T.canonT(xt), a, nil}
		xt = yt
	}
	if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Kind() == types.UntypedNil {
		xt = yt
	}
	if s, ok := xt.Underlying().(*types.Slice); ok {
		_ = s
		x, ok1 := a.(*SliceV)
		y, ok2 := b.(*SliceV)
		if ok1 && ok2 {
			return in.P.Bool(x.obj == nil && y.obj == nil)
		}
	}
	return in.equal(xt, a, b)
}

// ---------------------------------------------------------------- calls

func (in *Interp) doCall(g *Gor, fr *Frame, ci *CIns, c *ssa.CallCommon, dst int) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(c.Args))
		for i := range args {
			args[i] = in.get(fr, ci.ops[i+1])
		}
		v := in.builtin(fr, b, c, args)
		if dst >= 0 {
			fr.env[dst] = v
		}
		fr.pc++
		return
	}
	fnv, args := in.callee(fr, ci, c)
	// pc is advanced before the call so the callee returns to the next instruction; blocking intrinsics rewind.
	fr.pc++
	defer func() {
		if r := recover(); r != nil {
			fr.pc--
			panic(r)
		}
	}()
	in.call(g, fnv, args, dst)
}

func (in *Interp) callee(fr *Frame, ci *CIns, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		recv := in.get(fr, ci.ops[0])
		if pz, ok := recv.(Poison); ok {
			panic(unsupported("invoke on poison: " + pz.why))
		}
		f, _ := recv.(*Iface)
		if f == nil {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, len(c.Args)+1)
		for i := range c.Args {
			args[i+1] = in.get(fr, ci.ops[i+1])
		}
		if rt, ok := f.v.(*RType); ok {
			name := c.Method.Name()
			rest := args[1:]
			return &Closure{nat: func(in *Interp, _ []Value) Value { return in.rtypeMethod(rt, name, rest) }}, nil
		}
		args[0] = f.v
		fn := in.dispatch(f.t, c.Method)
		if fn == nil {
			panic(unsupported("no method " + c.Method.Name() + " on " + f.t.String()))
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, len(c.Args))
	for i := range args {
		args[i] = in.get(fr, ci.ops[i+1])
	}
	return in.get(fr, ci.ops[0]), args
}

var progMu sync.Mutex

func (in *Interp) dispatch(t types.Type, m *types.Func) *ssa.Function {
	k := dispKey{t, m}
	if f, ok := in.T.dispC[k]; ok {
		return f
	}
	progMu.Lock()
	f := in.prog.LookupMethod(t, m.Pkg(), m.Name())
	progMu.Unlock()
	in.T.dispC[k] = f
	return f
}

func (in *Interp) doDefer(g *Gor, fr *Frame, ci *CIns, x *ssa.Defer) {
	c := &x.Call
	target := fr
	if x.DeferStack != nil {
		panic(unsupported("defer stack"))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(c.Args))
		for i := range args {
			args[i] = in.get(fr, ci.ops[i+1])
		}
		target.defers = append(target.defers, deferred{nat: func() { in.builtin(fr, b, c, args) }})
		return
	}
	fnv, args := in.callee(fr, ci, c)
	target.defers = append(target.defers, deferred{fn: fnv, args: args})
}

func (in *Interp) doGo(g *Gor, fr *Frame, ci *CIns, x *ssa.Go) {
	if _, ok := x.Call.Value.(*ssa.Builtin); ok {
		panic(unsupported("go builtin"))
	}
	fnv, args := in.callee(fr, ci, &x.Call)
	if in.initDepth > 0 {
		return // goroutines started by package initialisers are not modelled
	}
	in.spawn(fnv, args)
}

func (in *Interp) spawn(fnv Value, args []Value) {
	in.gseq++
	ng := &Gor{id: in.gseq}
	save := in.cur
	in.cur = ng
	in.call(ng, fnv, args, -1)
	in.cur = save
	if len(ng.stack) > 0 {
		in.gs = append(in.gs, ng)
	}
}

// runOthers runs every other runnable goroutine once (until it blocks); returns whether any made progress.
func (in *Interp) runOthers(self *Gor) bool {
	progress := false
	for i := 0; i < len(in.gs); i++ {
		g := in.gs[i]
		if g == self || g.dead || g == nil {
			continue
		}
		if in.onStack(g) {
			continue
		}
		if in.tryRun(g) {
			progress = true
		}
	}
	return progress
}

func (in *Interp) onStack(g *Gor) bool {
	for _, s := range in.runStack() {
		if s == g {
			return true
		}
	}
	return false
}

func (in *Interp) runStack() []*Gor { return in.active }

func (in *Interp) tryRun(g *Gor) bool {
	s0 := in.steps
	b0 := len(g.stack)
	pc0, bl0 := -1, -1
	var f0 *Frame
	if b0 > 0 {
		f0 = g.stack[b0-1]
		pc0, bl0 = f0.pc, f0.blk
	}
	in.active = append(in.active, g)
	save := in.cur
	st := in.runG(g, 0)
	in.cur = save
	in.active = in.active[:len(in.active)-1]
	if st == stDone {
		g.dead = true
		return true
	}
	if len(g.stack) != b0 || g.stack[len(g.stack)-1] != f0 || f0.pc != pc0 || f0.blk != bl0 {
		return true
	}
	return in.steps-s0 > 1
}

// drain runs other goroutines until none can progress.
func (in *Interp) drain(self *Gor) {
	for k := 0; k < 10000; k++ {
		if !in.runOthers(self) {
			return
		}
	}
	panic(pathEnd{"budget", "drain"})
}

// runMain runs the harness goroutine to completion.
func (in *Interp) runMain(g *Gor) {
	for {
		in.active = append(in.active[:0], g)
		st := in.runG(g, 0)
		if st == stDone {
			return
		}
		in.cur = g
		if !in.runOthers(g) {
			// one more retry of main: something may have been unblocked without progress being visible
			s0 := in.steps
			in.active = append(in.active[:0], g)
			st := in.runG(g, 0)
			if st == stDone {
				return
			}
			if in.steps-s0 <= 1 {
				panic(pathEnd{"deadlock", g.why + " at " + in.where()})
			}
		}
	}
}

// ---------------------------------------------------------------- channels

func (in *Interp) chanUndo(ch *ChanV) {
	if ch.base && in.initDepth == 0 {
		b := append([]Value{}, ch.buf...)
		c := ch.closed
		in.onUndo(func() { ch.buf = b; ch.closed = c })
	}
}

func (in *Interp) findWaiter(ch *ChanV, send bool, self *Gor) (*Gor, *waitCase) {
	for _, g := range in.gs {
		if g == self || g.dead || g.done != nil {
			continue
		}
		for i := range g.waits {
			w := &g.waits[i]
			if w.ch == ch && w.send == send {
				return g, w
			}
		}
	}
	return nil, nil
}

func (in *Interp) trySend(g *Gor, ch *ChanV, v Value) bool {
	if ch == nil {
		return false
	}
	if ch.closed {
		panic(goPanic{in.mkErrStr("send on closed channel"), "send on closed channel"})
	}
	if w, c := in.findWaiter(ch, false, g); w != nil && len(ch.buf) == 0 {
		w.done = &waitDone{idx: c.idx, val: v, ok: true}
		return true
	}
	if len(ch.buf) < ch.cap {
		in.chanUndo(ch)
		ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], v)
		return true
	}
	return false
}

func (in *Interp) tryRecv(g *Gor, ch *ChanV) (Value, bool, bool) {
	if ch == nil {
		return nil, false, false
	}
	if len(ch.buf) > 0 {
		in.chanUndo(ch)
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if w, c := in.findWaiter(ch, true, g); w != nil {
			ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], c.val)
			w.done = &waitDone{idx: c.idx}
		}
		return v, true, true
	}
	if w, c := in.findWaiter(ch, true, g); w != nil {
		w.done = &waitDone{idx: c.idx}
		return c.val, true, true
	}
	if ch.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (in *Interp) takeDone(g *Gor) *waitDone {
	d := g.done
	if d != nil {
		g.done = nil
		g.waits = nil
	}
	return d
}

func (in *Interp) chanSend(g *Gor, ch *ChanV, v Value) {
	if in.takeDone(g) != nil {
		return
	}
	g.waits = nil
	if in.trySend(g, ch, v) {
		return
	}
	if ch != nil {
		g.waits = []waitCase{{ch, true, v, 0}}
	}
	panic(blockedSig{"chan send"})
}

func (in *Interp) chanRecv(g *Gor, ch *ChanV) (Value, bool) {
	if d := in.takeDone(g); d != nil {
		return d.val, d.ok
	}
	g.waits = nil
	v, ok, ready := in.tryRecv(g, ch)
	if ready {
		return v, ok
	}
	if ch != nil {
		g.waits = []waitCase{{ch, false, nil, 0}}
	}
	panic(blockedSig{"chan receive"})
}

func (in *Interp) chanClose(ch *ChanV) {
	if ch == nil {
		panic(goPanic{in.mkErrStr("close of nil channel"), "close of nil channel"})
	}
	if ch.closed {
		panic(goPanic{in.mkErrStr("close of closed channel"), "close of closed channel"})
	}
	in.chanUndo(ch)
	ch.closed = true
	if len(ch.buf) == 0 {
		for {
			w, c := in.findWaiter(ch, false, nil)
			if w == nil {
				break
			}
			w.done = &waitDone{idx: c.idx}
		}
	}
}

func (in *Interp) doSelect(g *Gor, fr *Frame, ci *CIns, x *ssa.Select) Value {
	n := len(x.States)
	mkRes := func(idx int, recvOk bool, val Value) Value {
		t := Tuple{in.P.BV(64, uint64(int64(idx))), in.P.Bool(recvOk)}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == idx && val != nil {
					t = append(t, val)
				} else {
					t = append(t, in.zero(et))
				}
			}
		}
		return t
	}
	chans := make([]*ChanV, n)
	sends := make([]Value, n)
	for i, s := range x.States {
		chans[i], _ = in.get(fr, ci.ops[2*i]).(*ChanV)
		if s.Dir == types.SendOnly {
			sends[i] = in.get(fr, ci.ops[2*i+1])
		}
	}
	if d := in.takeDone(g); d != nil {
		return mkRes(d.idx, d.ok, d.val)
	}
	g.waits = nil
	var ready []int
	for i, s := range x.States {
		ch := chans[i]
		if ch == nil {
			continue
		}
		if s.Dir == types.SendOnly {
			w, _ := in.findWaiter(ch, false, g)
			if ch.closed || len(ch.buf) < ch.cap || w != nil {
				ready = append(ready, i)
			}
		} else {
			w, _ := in.findWaiter(ch, true, g)
			if ch.closed || len(ch.buf) > 0 || w != nil {
				ready = append(ready, i)
			}
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[in.choice(len(ready))]
		}
		if x.States[i].Dir == types.SendOnly {
			in.trySend(g, chans[i], sends[i])
			return mkRes(i, false, nil)
		}
		v, ok, _ := in.tryRecv(g, chans[i])
		return mkRes(i, ok, v)
	}
	if !x.Blocking {
		return mkRes(-1, false, nil)
	}
	for i, s := range x.States {
		if chans[i] != nil {
			g.waits = append(g.waits, waitCase{chans[i], s.Dir == types.SendOnly, sends[i], i})
		}
	}
	panic(blockedSig{"select"})
}
