package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	stats     SolverStats
	buildMu   sync.Mutex
	built     map[*ssa.Package]bool
	module    string
	notesMu   sync.Mutex
	initNotes map[string]map[string]int
	workers   []*Interp
	nWorkers  int
	verbose   bool
}

func (e *Engine) isModule(path string) bool {
	return path == e.module || strings.HasPrefix(path, e.module+"/")
}

func (e *Engine) initNote(pkg, why string) {
	e.notesMu.Lock()
	defer e.notesMu.Unlock()
	if e.initNotes[pkg] == nil {
		e.initNotes[pkg] = map[string]int{}
	}
	e.initNotes[pkg][why]++
}

func (e *Engine) buildPkg(p *ssa.Package) {
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	if !e.built[p] {
		p.Build()
		e.built[p] = true
	}
}

// build makes sure fn has a body.
func (e *Engine) build(fn *ssa.Function) {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		if o.Pkg != nil {
			e.buildPkg(o.Pkg)
		}
	}
	if f.Pkg != nil {
		e.buildPkg(f.Pkg)
	}
}

func loadProgram(repo string, overlay map[string][]byte, patterns []string, module string) (*Engine, []string, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, errs, nil
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: pkgs, built: map[*ssa.Package]bool{}, module: module, initNotes: map[string]map[string]int{}, nWorkers: 8}
	return e, nil, nil
}

type EntryResult struct {
	Name      string
	Paths     int64
	OkPaths   int64
	AssumeEnd int64
	Steps     int64
	Viols     []Viol
	ViolCount map[string]int
	Notes     map[string]int
	Unsup     map[string]int
	Reached   map[string]int
	Asserts   map[string]int
	Complete  bool
	Left      int
	Wall      float64
	Samples   []Sample
	MaxSteps  int64
	Decisions int64
}

type Sample struct {
	Inputs  map[string]uint64
	Obs     []string
	Reached []string
}

func (in *Interp) ensureSolver() {
	if in.S == nil {
		in.S = NewSolver(in.P, &in.eng.stats)
	}
}

// resetPool drops accumulated terms (base heap holds constants only).
func (in *Interp) resetPool() {
	old := in.P
	in.S.Close()
	p := NewPool()
	p.True, p.False = old.True, old.False
	p.nextID = old.nextID
	*old = *p
	in.S = NewSolver(old, &in.eng.stats)
}

func (in *Interp) runPath(fn *ssa.Function, it Item, steps int64, conc int) (end pathEnd) {
	in.pc = in.pc[:0]
	in.pcSet = map[*Term]bool{}
	in.P.bnd = nil
	in.prefix = it.prefix
	in.dpos = 0
	in.decs = in.decs[:0:0]
	in.inputs = nil
	in.inNames = map[string]int{}
	in.varList = nil
	in.gs = nil
	in.gseq = 0
	in.steps = 0
	in.maxSteps = steps
	in.maxConc = conc
	in.newItems = nil
	in.notes = map[string]int{}
	in.reached = map[string]int{}
	in.asserts = map[string]int{}
	in.observed = nil
	in.viols = nil
	in.mergeMode = false
	in.timeSeq = 0
	in.randSeq = 0
	in.randConc = false
	in.rsaCiphers = nil
	in.initDepth = 0
	in.active = nil
	seq := in.objSeq
	m := map[*Term]uint64{}
	if it.model != nil {
		// variables are re-created with the same names
		for k, v := range it.model {
			if t, ok := in.P.vars[k]; ok {
				m[t] = v
			}
		}
	}
	in.setModel(m)
	in.pendModel = it.model
	defer func() {
		in.rollback()
		if in.inited[nil] == 0 {
			_ = seq
		}
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
			case unsupportedErr:
				end = pathEnd{"unsupported", x.msg + " @ " + in.where()}
			case goPanic:
				end = pathEnd{"panic", x.msg + "\x00" + in.trace()}
			case blockedSig:
				end = pathEnd{"unsupported", "blocked " + x.why}
			default:
				if os.Getenv("GOSYM_CRASH") != "" {
					panic(r)
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine error: %v @ %s", r, in.where())}
			}
		}
	}()
	g := &Gor{id: 0}
	in.cur = g
	in.gs = append(in.gs, g)
	in.callFn(g, fn, nil, nil, -1)
	in.runMain(g)
	return pathEnd{"ok", ""}
}

type queue struct {
	mu    sync.Mutex
	cond  *sync.Cond
	items []Item
	idle  int
	n     int
	stop  bool
}

func (e *Engine) explore(fn *ssa.Function, budget time.Duration, maxPaths int64, steps int64, conc int, sampleN int) *EntryResult {
	res := &EntryResult{Name: fn.Name(), ViolCount: map[string]int{}, Notes: map[string]int{}, Unsup: map[string]int{}, Reached: map[string]int{}, Asserts: map[string]int{}}
	t0 := time.Now()
	q := &queue{n: e.nWorkers}
	q.cond = sync.NewCond(&q.mu)
	q.items = []Item{{}}
	var rmu sync.Mutex
	var wg sync.WaitGroup
	deadline := t0.Add(budget)
	timer := time.AfterFunc(budget+2*time.Second, func() { q.mu.Lock(); q.stop = true; q.cond.Broadcast(); q.mu.Unlock() })
	defer timer.Stop()
	left := 0
	for w := 0; w < e.nWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			if e.workers[w] == nil {
				e.workers[w] = NewInterp(e)
			}
			in := e.workers[w]
			if in.S != nil && len(in.P.vars) > 0 {
				in.resetPool()
			}
			var local []Item
			for {
				var it Item
				if len(local) > 0 {
					it = local[len(local)-1]
					local = local[:len(local)-1]
					// donate
					q.mu.Lock()
					if q.idle > 0 && len(local) > 0 && len(q.items) < q.idle {
						k := (len(local) + 1) / 2
						if k > 16 {
							k = 16
						}
						q.items = append(q.items, local[:k]...)
						local = append([]Item{}, local[k:]...)
						q.cond.Broadcast()
					}
					stop := q.stop
					q.mu.Unlock()
					if stop {
						rmu.Lock()
						left += len(local) + 1
						rmu.Unlock()
						return
					}
				} else {
					q.mu.Lock()
					q.idle++
					for len(q.items) == 0 && !q.stop && q.idle < q.n {
						q.cond.Wait()
					}
					if q.stop || len(q.items) == 0 {
						q.stop = true
						q.cond.Broadcast()
						q.mu.Unlock()
						return
					}
					q.idle--
					it = q.items[len(q.items)-1]
					q.items = q.items[:len(q.items)-1]
					q.mu.Unlock()
				}
				if len(in.P.tab) > 1500000 {
					in.resetPool()
				}
				end := in.runPath(fn, it, steps, conc)
				for i := len(in.newItems) - 1; i >= 0; i-- {
					local = append(local, in.newItems[i])
				}
				rmu.Lock()
				res.Paths++
				res.Steps += in.steps
				res.Decisions += int64(len(in.decs))
				if in.steps > res.MaxSteps {
					res.MaxSteps = in.steps
				}
				for k, v := range in.notes {
					res.Notes[k] += v
				}
				for k, v := range in.reached {
					res.Reached[k] += v
				}
				for k, v := range in.asserts {
					res.Asserts[k] += v
				}
				viols := in.viols
				switch end.kind {
				case "ok":
					res.OkPaths++
				case "assume":
					res.AssumeEnd++
				case "violation", "violated-earlier":
				case "panic":
					msg, tr, _ := strings.Cut(end.msg, "\x00")
					in.addViol("panic: "+msg, "panic", in.model)
					viols = in.viols
					viols[len(viols)-1].Trace = tr
				case "stack":
					in.addViol("panic: stack overflow", "panic", in.model)
					viols = in.viols
				case "budget":
					in.addViol("hang: step budget exceeded", "hang", in.model)
					viols = in.viols
				case "deadlock":
					in.addViol("deadlock", "hang", in.model)
					viols = in.viols
				default:
					res.Unsup[end.kind+": "+end.msg]++
				}
				for _, v := range viols {
					key := v.Label
					if v.Kind == "panic" {
						key += " @ " + firstLine(v.Trace)
					}
					res.ViolCount[key]++
					if res.ViolCount[key] <= 4 {
						res.Viols = append(res.Viols, v)
					}
				}
				if end.kind == "ok" && len(in.viols) == 0 && sampleN > 0 {
					if len(res.Samples) < sampleN || res.OkPaths%int64(1+res.OkPaths/int64(sampleN)) == 0 {
						s := in.sample()
						if len(res.Samples) < sampleN {
							res.Samples = append(res.Samples, s)
						} else {
							res.Samples[int(res.OkPaths)%sampleN] = s
						}
					}
				}
				over := time.Now().After(deadline) || res.Paths >= maxPaths || memHigh.Load()
				rmu.Unlock()
				if over {
					q.mu.Lock()
					q.stop = true
					q.cond.Broadcast()
					q.mu.Unlock()
				}
			}
		}(w)
	}
	wg.Wait()
	left += len(q.items)
	res.Left = left
	res.Complete = left == 0 && len(res.Unsup) == 0 && len(res.Notes) == 0
	res.Wall = time.Since(t0).Seconds()
	return res
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func (in *Interp) sample() Sample {
	s := Sample{Inputs: map[string]uint64{}}
	for _, x := range in.inputs {
		if x.T != nil {
			s.Inputs[x.Name] = in.model[x.T]
		} else {
			s.Inputs[x.Name] = uint64(x.Conc)
		}
	}
	for _, o := range in.observed {
		s.Obs = append(s.Obs, fmt.Sprintf("%s=%d", o.label, in.P.Eval(o.t[0])))
	}
	for k := range in.reached {
		s.Reached = append(s.Reached, k)
	}
	sort.Strings(s.Reached)
	return s
}

func (v Viol) inputMap() map[string]uint64 {
	r := map[string]uint64{}
	for k, s := range v.Inputs {
		i := strings.LastIndexByte(s, ':')
		var x uint64
		fmt.Sscanf(s[i+1:], "%d", &x)
		r[k] = x
	}
	return r
}

func (e *Engine) entries(prefix string) []*ssa.Function {
	var r []*ssa.Function
	for _, p := range e.pkgs {
		sp := e.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for name, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if ok && strings.HasPrefix(name, prefix) && f.Signature.Params().Len() == 0 {
				r = append(r, f)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (e *Engine) functionsSeen() []string {
	m := map[string]bool{}
	for _, w := range e.workers {
		if w == nil {
			continue
		}
		for f := range w.fnsSeen {
			if f.Pkg != nil && e.isModule(f.Pkg.Pkg.Path()) && !strings.Contains(f.String(), "VP_") && !strings.Contains(f.Pkg.Pkg.Path(), "verif") {
				pos := e.prog.Fset.Position(f.Pos())
				if strings.Contains(pos.Filename, "zz_verif") {
					continue
				}
				m[strings.TrimPrefix(f.RelString(nil), e.module+"/")] = true
			}
		}
	}
	var r []string
	for k := range m {
		r = append(r, strings.ReplaceAll(k, e.module+"/", ""))
	}
	sort.Strings(r)
	return r
}

var _ = types.Universe

// memHigh stops the exploration (recorded as incomplete) before the sandbox runs out of memory.
var memHigh atomic.Bool

func watchMemory() {
	for {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 20<<30 {
			debug.FreeOSMemory()
			runtime.ReadMemStats(&m)
			memHigh.Store(m.HeapAlloc > 20<<30)
		}
		time.Sleep(2 * time.Second)
	}
}
