package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick|thorough")
	fRepo    = flag.String("repo", "/repo", "repository")
	fVerif   = flag.String("verif", "/verif", "verification dir")
	fEntry   = flag.String("entry", "", "only entries containing this")
	fBudget  = flag.Int("budget", 0, "seconds for the whole exploration")
	fVerbose = flag.Bool("v", false, "verbose")
	fProf    = flag.String("cpuprofile", "", "")
	fWorkers = flag.Int("workers", 8, "")
	fNoEv    = flag.Bool("noevidence", false, "")
	fNoNat   = flag.Bool("nonative", false, "")
	fDbg     = flag.Bool("dbg", false, "")
)

const modulePath = "github.com/awcullen/opcua"

type nativeCase struct {
	Entry  string
	Inputs map[string]uint64
	Tier   int
}
type nativeResult struct {
	Entry   string
	Failed  []string
	Panic   string
	Stack   string
	Assume  bool
	Obs     []string
	Reached []string
	Missing []string
	Done    bool
	// set by the parent
	Hang  bool
	Crash string
}

type knownFinding struct {
	Property string `json:"property"`
	Entry    string `json:"entry"`
	Label    string `json:"label"` // regexp on the violation label
	Where    string `json:"where"` // regexp on the native stack / trace ("" = any)
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

type harness struct {
	pkg     string
	file    string // on disk
	overlay string // path in repo
}

func findHarness(prop string) []harness {
	var hs []harness
	for _, pkg := range []string{"ua", "server", "client"} {
		d := filepath.Join(*fVerif, "harness", pkg)
		fs, _ := filepath.Glob(filepath.Join(d, prop+"*.go"))
		if len(fs) == 0 {
			continue
		}
		// shared helper files are named common_*.go; a harness names the ones it needs in a "//vp:use a b" line
		use := map[string]bool{}
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, m := range regexp.MustCompile(`(?m)^//vp:use (.*)$`).FindAllStringSubmatch(string(b), -1) {
				for _, u := range strings.Fields(m[1]) {
					use[u] = true
				}
			}
		}
		for u := range use {
			fs = append(fs, filepath.Join(d, "common_"+u+".go"))
		}
		sort.Strings(fs)
		for _, f := range fs {
			hs = append(hs, harness{pkg, f, filepath.Join(*fRepo, pkg, "zz_verif_"+strings.ToLower(filepath.Base(f)))})
		}
	}
	return hs
}

func main() {
	flag.Parse()
	go watchMemory()
	os.Exit(realMain())
}

func realMain() int {
	t0 := time.Now()
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	hs := findHarness(*fProp)
	if len(hs) == 0 {
		fmt.Println("no harness for", *fProp)
		return 2
	}
	scratch, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)

	ev := newEvidence(*fProp, *fTier)
	vpFile := filepath.Join(*fVerif, "harness/verifvp/vp.go")
	var eng *Engine
	dropped := []string{}
	for attempt := 0; attempt < 4; attempt++ {
		ov := map[string][]byte{}
		b, _ := os.ReadFile(vpFile)
		ov[filepath.Join(*fRepo, "verifvp/vp.go")] = b
		pats := map[string]bool{}
		for _, h := range hs {
			b, err := os.ReadFile(h.file)
			if err != nil {
				fmt.Println(err)
				return 2
			}
			ov[h.overlay] = b
			pats[modulePath+"/"+h.pkg] = true
		}
		var pl []string
		for p := range pats {
			pl = append(pl, p)
		}
		sort.Strings(pl)
		e, errs, err := loadProgram(*fRepo, ov, append(pl, modulePath+"/verifvp", "runtime", "reflect", "strconv", "unicode/utf8", "errors", "time"), modulePath)
		if err != nil {
			fmt.Println("load:", err)
			return 2
		}
		if len(errs) == 0 {
			eng = e
			break
		}
		// drop harness files that no longer compile against the tree
		var keep []harness
		bad := false
		for _, h := range hs {
			hit := false
			for _, m := range errs {
				if strings.Contains(m, filepath.Base(h.overlay)) {
					hit = true
				}
			}
			if hit {
				bad = true
				dropped = append(dropped, h.file+": "+strings.Join(errs, "; "))
			} else {
				keep = append(keep, h)
			}
		}
		if !bad {
			fmt.Println("the tree does not load:")
			for _, m := range errs {
				fmt.Println(" ", m)
			}
			return 2
		}
		hs = keep
		anyEntry := false
		for _, h := range hs {
			if strings.HasPrefix(filepath.Base(h.file), *fProp) {
				anyEntry = true
			}
		}
		if !anyEntry {
			fmt.Println("NOT EXPLORED: no harness of this property compiles against the current tree:")
			for _, d := range dropped {
				fmt.Println(" ", d)
			}
			ev.Notes = append(ev.Notes, dropped...)
			ev.Assumptions = append(ev.Assumptions, "nothing was explored: the harness does not compile against this tree")
			ev.write(time.Since(t0))
			return 0
		}
	}
	if eng == nil {
		fmt.Println("could not load")
		return 2
	}
	ev.Notes = append(ev.Notes, dropped...)
	eng.verbose = *fVerbose
	eng.nWorkers = *fWorkers
	eng.workers = make([]*Interp, eng.nWorkers)
	tier := 0
	if *fTier == "thorough" {
		tier = 1
	}
	regTier(tier)
	loadT := time.Since(t0)
	entries := eng.entries("VP_" + *fProp + "_")
	if *fEntry != "" {
		k := entries[:0]
		for _, f := range entries {
			if strings.Contains(f.Name(), *fEntry) {
				k = append(k, f)
			}
		}
		entries = k
	}
	if len(entries) == 0 {
		fmt.Println("no entries")
		return 2
	}
	// native binary builds concurrently
	natCh := make(chan string, 1)
	var natErr string
	go func() {
		if *fNoNat {
			natCh <- ""
			return
		}
		bin, err := buildNative(scratch, hs, eng)
		if err != nil {
			natErr = err.Error()
		}
		natCh <- bin
	}()
	total := time.Duration(*fBudget) * time.Second
	if total == 0 {
		total = 420 * time.Second
		if tier == 1 {
			total = 3000 * time.Second
		}
	}
	start := time.Now()
	var results []*EntryResult
	for i, f := range entries {
		remain := total - time.Since(start)
		share := remain / time.Duration(len(entries)-i)
		// unused time of earlier entries is available to later ones; allow twice the fair share
		b := share * 2
		if b > remain {
			b = remain
		}
		if b < 5*time.Second {
			b = 5 * time.Second
		}
		r := eng.explore(f, b, 2000000, 4000000, 300, 12)
		r.Name = f.Pkg.Pkg.Name() + "." + f.Name()
		results = append(results, r)
		fmt.Printf("%-46s paths=%d ok=%d assume=%d asserts=%d complete=%v left=%d steps=%d (max %d) %.1fs viol=%d\n", r.Name, r.Paths, r.OkPaths, r.AssumeEnd, sum(r.Asserts), r.Complete, r.Left, r.Steps, r.MaxSteps, r.Wall, len(r.ViolCount))
		if *fVerbose {
			dumpMap("  note", r.Notes)
			dumpMap("  reach", r.Reached)
			dumpMap("  assert", r.Asserts)
			dumpMap("  viol", r.ViolCount)
		}
		dumpMap("  unsupported", r.Unsup)
	}
	if *fVerbose {
		for p, m := range eng.initNotes {
			if eng.isModule(p) || *fDbg {
				dumpMap("  init "+p, m)
			}
		}
	}
	exploreT := time.Since(start)
	for _, w := range eng.workers {
		if w != nil {
			w.S.Close()
		}
	}
	bin := <-natCh
	if bin == "" && !*fNoNat {
		fmt.Println("native replay binary did not build:", natErr)
		ev.Notes = append(ev.Notes, "native replay binary did not build: "+natErr)
	}
	known := loadKnown(*fProp)
	code := 0
	confirmed := 0
	unconfirmed := 0
	validated := 0
	mismatches := []string{}
	printed := map[string]bool{}
	for _, r := range results {
		// group by label
		byLabel := map[string][]Viol{}
		var order []string
		for _, v := range r.Viols {
			k := v.Label
			if v.Kind == "panic" {
				k += " @ " + firstLine(v.Trace)
			}
			if byLabel[k] == nil {
				order = append(order, k)
			}
			byLabel[k] = append(byLabel[k], v)
		}
		for _, k := range order {
			vs := byLabel[k]
			ok := false
			var nr *nativeResult
			var rv Viol
			if bin != "" {
				for _, v := range vs {
					x := replay(bin, scratch, r.Name, v.inputMap(), tier)
					if reproduces(v, x) {
						ok, nr, rv = true, x, v
						break
					}
					if nr == nil {
						nr, rv = x, v
					}
				}
			}
			if !ok {
				unconfirmed++
				why := ""
				if nr != nil {
					j, _ := json.Marshal(nr)
					why = string(j)
					if len(why) > 600 {
						why = why[:600]
					}
				}
				msg := fmt.Sprintf("candidate not reproduced natively: %s: %s (native: %s) inputs=%v", r.Name, k, why, compact(vs[0].inputMap()))
				fmt.Println("UNCONFIRMED", msg)
				if *fVerbose {
					fmt.Println(vs[0].Trace)
				}
				if rv.Kind == "hang" {
					msg = "reduced bound: " + msg
				}
				ev.Notes = append(ev.Notes, trunc(msg, 1500))
				continue
			}
			where := rv.Trace + "\n" + nr.Stack + "\n" + nr.Crash
			if kf := matchKnown(known, r.Name, rv.Label, where); kf != nil {
				key := kf.What
				if !printed[key] {
					printed[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, kf.What)
					ev.Known = append(ev.Known, kf.What)
				}
				continue
			}
			confirmed++
			code = 1
			rp := writeReplay(*fProp, r.Name, k, rv, nr)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, rp)
			fmt.Printf("  entry %s: %s\n  inputs: %v\n", r.Name, k, compact(rv.inputMap()))
			if nr.Panic != "" {
				fmt.Printf("  native panic: %s\n", nr.Panic)
			}
			if len(nr.Failed) > 0 {
				fmt.Printf("  native assertion failed: %v\n", nr.Failed)
			}
			if nr.Hang {
				fmt.Println("  native run hangs")
			}
			if nr.Crash != "" {
				fmt.Printf("  native crash: %s\n", trunc(nr.Crash, 400))
			}
			ev.Violations = append(ev.Violations, map[string]interface{}{"entry": r.Name, "what": k, "replay": rp})
		}
		// validate sampled traces
		if bin != "" && len(r.Samples) > 0 {
			ok, bad := validate(bin, scratch, r, tier)
			validated += ok
			for _, b := range bad {
				fmt.Println("MISMATCH", r.Name, b)
			}
			mismatches = append(mismatches, bad...)
		}
	}
	ev.fill(eng, results, validated, mismatches, loadT, exploreT, hs)
	ev.Unconfirmed = unconfirmed
	ev.Confirmed = confirmed
	if !*fNoEv {
		ev.write(time.Since(t0))
	}
	st := &eng.stats
	dumpForks()
	fmt.Printf("property=%s tier=%s entries=%d queries=%d (sat %d unsat %d unknown %d fallback %d) solver=%.1fs traces_validated=%d mismatches=%d wall=%.1fs\n", *fProp, *fTier, len(results), st.Queries, st.Sat, st.Unsat, st.Unknown, st.Fallback, float64(st.TimeNS)/1e9, validated, len(mismatches), time.Since(t0).Seconds())
	return code
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func compact(m map[string]uint64) string {
	// fold byte arrays
	type arr struct{ v map[int]uint64 }
	arrs := map[string]*arr{}
	var ks []string
	out := map[string]string{}
	for k, v := range m {
		if i := strings.LastIndexByte(k, '['); i > 0 && strings.HasSuffix(k, "]") {
			var n int
			fmt.Sscanf(k[i+1:], "%d", &n)
			a := arrs[k[:i]]
			if a == nil {
				a = &arr{map[int]uint64{}}
				arrs[k[:i]] = a
			}
			a.v[n] = v
			continue
		}
		out[k] = fmt.Sprint(v)
	}
	for k, a := range arrs {
		s := ""
		for i := 0; i < len(a.v); i++ {
			s += fmt.Sprintf("%02x", a.v[i])
		}
		out[k] = "0x" + s
	}
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k + "=" + out[k] + " ")
	}
	return sb.String()
}

func dumpMap(pfx string, m map[string]int) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	for i, k := range ks {
		if i > 5 && !*fDbg {
			break
		}
		fmt.Printf("%s [%d] %s\n", pfx, m[k], k)
	}
}

func regTier(t int) {
	reg("vp.Tier", func(in *Interp, fr *Frame, fn *ssaFunction, a []Value) Value { return in.iv(int64(t)) })
}

func buildNative(scratch string, hs []harness, eng *Engine) (string, error) {
	ov := map[string]string{}
	ov[filepath.Join(*fRepo, "verifvp/vp.go")] = filepath.Join(*fVerif, "harness/verifvp/vp.go")
	pk := map[string]bool{}
	for _, h := range hs {
		ov[h.overlay] = h.file
		pk[h.pkg] = true
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\tvp \"" + modulePath + "/verifvp\"\n")
	for p := range pk {
		sb.WriteString("\t\"" + modulePath + "/" + p + "\"\n")
	}
	sb.WriteString(")\n\nfunc main() {\n\tvp.Main(map[string]func(){\n")
	for _, f := range eng.entries("VP_" + *fProp + "_") {
		n := f.Pkg.Pkg.Name() + "." + f.Name()
		sb.WriteString("\t\t\"" + n + "\": " + n + ",\n")
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(scratch, "main.go")
	os.WriteFile(mf, []byte(sb.String()), 0644)
	ov[filepath.Join(*fRepo, "verifcmd/main.go")] = mf
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(scratch, "overlay.json")
	os.WriteFile(of, j, 0644)
	bin := filepath.Join(scratch, "native")
	c := exec.Command("go", "build", "-overlay", of, "-o", bin, "./verifcmd")
	c.Dir = *fRepo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

func runCases(bin, scratch string, cases []nativeCase, timeout time.Duration) ([]*nativeResult, bool, string) {
	f, _ := os.CreateTemp(scratch, "case-*.json")
	b, _ := json.Marshal(cases)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 12000000; exec "$0" "$1"`, bin, f.Name())
	c.Dir = scratch
	c.Env = append(os.Environ(), "GOMEMLIMIT=6GiB", "GOTRACEBACK=all")
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	err := c.Run()
	var rs []*nativeResult
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "VPRESULT ") {
			r := &nativeResult{}
			if json.Unmarshal([]byte(l[9:]), r) == nil {
				rs = append(rs, r)
			}
		}
	}
	hang := ctx.Err() != nil
	crash := ""
	if err != nil && !hang {
		crash = errb.String()
		if crash == "" {
			crash = err.Error()
		}
	}
	return rs, hang, crash
}

func replay(bin, scratch, entry string, inputs map[string]uint64, tier int) *nativeResult {
	rs, hang, crash := runCases(bin, scratch, []nativeCase{{entry, inputs, tier}}, 10*time.Second)
	r := &nativeResult{}
	if len(rs) > 0 {
		r = rs[0]
	}
	r.Hang = hang
	r.Crash = trunc(crash, 6000)
	return r
}

func reproduces(v Viol, r *nativeResult) bool {
	if r.Assume {
		return false
	}
	switch v.Kind {
	case "assert":
		for _, f := range r.Failed {
			if f == v.Label {
				return true
			}
		}
		return false
	case "panic":
		return r.Panic != "" && r.Panic != "no entry" || strings.Contains(r.Crash, "panic:") || strings.Contains(r.Crash, "fatal error:")
	case "hang":
		return r.Hang || strings.Contains(r.Crash, "all goroutines are asleep") || strings.Contains(r.Crash, "fatal error:")
	}
	return false
}

func validate(bin, scratch string, r *EntryResult, tier int) (int, []string) {
	var cases []nativeCase
	for _, s := range r.Samples {
		cases = append(cases, nativeCase{r.Name, s.Inputs, tier})
	}
	rs, hang, crash := runCases(bin, scratch, cases, 60*time.Second)
	ok := 0
	var bad []string
	for i, s := range r.Samples {
		if i >= len(rs) {
			bad = append(bad, fmt.Sprintf("native run missing for sample %d (hang=%v crash=%s) inputs %s", i, hang, trunc(crash, 300), compact(s.Inputs)))
			break
		}
		n := rs[i]
		switch {
		case len(n.Failed) > 0 || n.Panic != "" || n.Assume || len(n.Missing) > 0:
			bad = append(bad, fmt.Sprintf("sample passed symbolically but natively failed=%v panic=%q assume=%v missing=%v inputs %s", n.Failed, n.Panic, n.Assume, n.Missing, compact(s.Inputs)))
		case strings.Join(n.Obs, ",") != strings.Join(s.Obs, ","):
			bad = append(bad, fmt.Sprintf("observations differ: native %v engine %v inputs %s", n.Obs, s.Obs, compact(s.Inputs)))
		case strings.Join(n.Reached, ",") != strings.Join(s.Reached, ","):
			bad = append(bad, fmt.Sprintf("reach differs: native %v engine %v inputs %s", n.Reached, s.Reached, compact(s.Inputs)))
		default:
			ok++
		}
	}
	return ok, bad
}

func loadKnown(prop string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var all, r []knownFinding
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Println("known_findings.json:", err)
		return nil
	}
	for _, k := range all {
		if k.Property == prop && k.Status == "known" {
			r = append(r, k)
		}
	}
	return r
}

func matchKnown(ks []knownFinding, entry, label, where string) *knownFinding {
	for i := range ks {
		k := &ks[i]
		if k.Entry != "" && k.Entry != entry {
			continue
		}
		if m, err := regexp.MatchString("^(?:"+k.Label+")$", label); err != nil || !m {
			continue
		}
		if k.Where != "" {
			if m, err := regexp.MatchString(k.Where, where); err != nil || !m {
				continue
			}
		}
		return k
	}
	return nil
}

func writeReplay(prop, entry, what string, v Viol, nr *nativeResult) string {
	d := filepath.Join(*fVerif, "replays")
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, fmt.Sprintf("%s_%s_%08x.json", prop, strings.TrimPrefix(entry, "server."), fnv(what)))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "entry": entry, "what": what, "inputs": v.inputMap(), "engine_trace": strings.Split(v.Trace, "\n"), "native": nr,
		"how": "bin/gosym -prop " + prop + " re-derives it; the inputs are fed to the harness entry compiled natively against /repo (see engine/main.go replay)"}, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func fnv(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}
