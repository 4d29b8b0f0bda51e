package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

type ObligOut struct {
	Target string `json:"target"`
	Name   string `json:"name"`
	Pos    string `json:"pos,omitempty"`
	Status string `json:"status"`
	Solver string `json:"solver,omitempty"`
	MS     int64  `json:"ms"`
	Detail string `json:"detail,omitempty"`
}

type Output struct {
	Targets    []string          `json:"targets"`
	Lemmas     []string          `json:"lemmas"`
	Obligs     []ObligOut        `json:"obligations"`
	Inlined    []string          `json:"inlined"`
	Used       []string          `json:"contracts_used"`
	Trusted    []string          `json:"trusted_externals"`
	Notes      []string          `json:"notes"`
	NoTerm     []string          `json:"termination_not_proved"`
	Unsup      map[string]string `json:"unsupported"`
	Assume     []string          `json:"assumptions"`
	SolverMS   int64             `json:"solver_ms"`
	Queries    int               `json:"queries"`
	CacheHits  int               `json:"cache_hits"`
	WallMS     int64             `json:"wall_ms"`
	Total      int               `json:"total"`
	Discharged int               `json:"discharged"`
}

func newVC(p *Prog, cs *Contracts, s *Solver, target string) *VC {
	return &VC{p: p, cs: cs, solver: s, target: target, declared: map[string]int{}, sorts: map[string]bool{"Slice": true, "Str": true},
		sortInfo: map[string]*structInfo{}, strLits: map[string]Term{}, nameCount: map[string]int{}, inlined: map[string]bool{}, assumed: map[string]bool{},
		trusted: map[string]bool{}, imm: map[string]bool{}, axDone: map[string]bool{}, specDone: map[string]string{}, specMacro: map[string]bool{}, ghosts: map[string]*types.Var{},
		enumOf: map[ast.Node]enumInfo{}, modsCache: map[modKey]*loopMods{}, dropped: map[modKey]map[string]bool{}, noterm: map[string]bool{}, seqElems: map[string]string{}}
}

// autoLemmas adds the proven lemmas with triggers as axioms.
func (v *VC) autoLemmas(upto string) {
	for _, n := range v.cs.LemOrd {
		if n == upto {
			return
		}
		l := v.cs.Lemmas[n]
		if !l.Auto {
			continue
		}
		env := &specEnv{v: v, st: v.specState(), names: map[string]Val{}}
		var decl []string
		for i, p := range l.Params {
			s, gt := env.resolveSort(l.Sorts[i])
			q := "l_" + sanitize(p)
			env.names[p] = Val{t: Term{q, s}, gt: gt}
			decl = append(decl, fmt.Sprintf("(%s %s)", q, s))
		}
		var hs, cc []Term
		for _, h := range l.Hyps {
			hs = append(hs, env.boolExpr(h.E))
		}
		if l.Induct != "" {
			hs = append(hs, tLe(tInt(0), env.names[l.Induct].t))
		}
		for _, c := range l.Concl {
			cc = append(cc, env.boolExpr(c.E))
		}
		var pats []string
		for _, t := range l.Trigger {
			pats = append(pats, env.eval(t).t.S)
		}
		v.axiom(fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", strings.Join(decl, " "), tImp(tAnd(hs...), tAnd(cc...)).S, strings.Join(pats, " ")))
	}
}

func (v *VC) usesLemmas() bool { return true }

func verifyLemma(p *Prog, cs *Contracts, s *Solver, l *Lemma) (v *VC, err error) {
	v = newVC(p, cs, s, "lemma "+l.Name)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	for _, x := range cs.Smt {
		v.gitem(x)
	}
	v.autoLemmas(l.Name)
	st := v.specState()
	v.entry = st
	v.frames = []*frameCtx{{}}
	env := &specEnv{v: v, st: st, old: st, names: map[string]Val{}, guard: l.Name}
	for i, n := range l.Params {
		so, gt := env.resolveSort(l.Sorts[i])
		env.names[n] = Val{t: v.fresh(n, so), gt: gt}
	}
	for _, h := range l.Hyps {
		v.assume(st, env.boolExpr(h.E))
	}
	if l.Induct != "" {
		v.assume(st, tLe(tInt(0), env.names[l.Induct].t))
	}
	v.cover(st, "hypotheses are satisfiable")
	for i, u := range l.Uses {
		v.hintIn(st, env, u, i)
	}
	for i, c := range l.Concl {
		for _, x := range conjuncts(c.E) {
			v.oblig(st, "lemma "+l.Name+": "+c.label(i), token.NoPos, env.boolExpr(x))
		}
	}
	return v, nil
}

func verifyFunc(p *Prog, cs *Contracts, s *Solver, c *Contract) (v *VC, err error) {
	v = newVC(p, cs, s, c.Key)
	v.cur = c
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	src := p.ByKey[c.Key]
	if src == nil {
		if c.IfMissing {
			return v, nil
		}
		return v, unsupported{"function not found in the current source"}
	}
	if c.Values {
		v.imm["*"] = true
	}
	for _, x := range cs.Smt {
		v.gitem(x)
	}
	st := &State{vars: map[types.Object]Val{}, heap: map[string]Term{}, pc: tTrue}
	v.declFun("alloc0", "", "Int")
	v.axiom("(< 0 alloc0)")
	st.alloc = Term{"alloc0", "Int"}
	fr := &frameCtx{src: src, pkg: src.Pkg, sig: src.Obj.Type().(*types.Signature)}
	v.frames = []*frameCtx{fr}
	v.snaps = map[string]snap{}
	v.catTails = map[string]catTail{}
	if len(c.Inst) > 0 {
		v.typeArgs = map[*types.TypeParam]types.Type{}
		sg := src.Obj.Type().(*types.Signature)
		for _, in := range c.Inst {
			f := strings.Fields(in)
			ok := false
			for _, l := range []*types.TypeParamList{sg.TypeParams(), sg.RecvTypeParams()} {
				for k := 0; l != nil && k < l.Len(); k++ {
					if l.At(k).Obj().Name() == f[0] {
						v.typeArgs[l.At(k)] = v.lookupType(f[1])
						ok = true
					}
				}
			}
			if !ok {
				return v, unsupported{"no type parameter " + f[0]}
			}
		}
	}
	v.autoLemmas("")
	i := 0
	var objs []types.Object
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			if len(f.Names) == 0 {
				i++
				objs = append(objs, nil)
			}
			for _, nm := range f.Names {
				o := src.Pkg.Info.Defs[nm]
				if o != nil && nm.Name != "_" {
					gt := v.tsub(o.Type())
					t := Term{"par_" + sanitize(nm.Name), v.sortOf(gt)}
					v.declFun(t.S, "", t.Sort)
					st.vars[o] = Val{t: t, gt: gt}
					objs = append(objs, o)
				} else {
					objs = append(objs, nil)
				}
				i++
			}
		}
	}
	add(src.Decl.Recv)
	add(src.Decl.Type.Params)
	if len(c.Params) != len(objs) {
		return v, unsupported{fmt.Sprintf("contract names %d parameters, the function has %d", len(c.Params), len(objs))}
	}
	v.entry = st // heaps first used later are recorded here as well
	for _, o := range objs {
		if o != nil {
			v.assume(st, v.tinv(st, st.vars[o].t, o.Type(), 2))
			if el, ok := deref(v.tsub(o.Type())); ok {
				el = v.tsub(el)
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupported); !ok {
								panic(r)
							}
						}
					}()
					t := tSel(v.ptrHeap(st, el), st.vars[o].t)
					v.assume(st, tImp(tNot(tEq(st.vars[o].t, tInt(0))), v.tinv(st, t, el, 1)))
				}()
			}
		}
	}
	env := &specEnv{v: v, st: st, old: st, names: map[string]Val{}, fr: fr, con: c, pkg: src.Pkg, params: v.paramObjs(c)}
	for _, r := range c.Requires {
		v.assume(st, env.boolExpr(r.E))
	}
	v.entry = st.clone()
	v.cover(st, "precondition is satisfiable")
	for k, h := range c.Hints {
		v.hintIn(st, env.with(st), h, k)
	}
	run := st.clone()
	v.tails = map[ast.Stmt]bool{}
	paths := v.execPaths(run, fr, src.Decl.Type, src.Decl.Body, true)
	if len(paths) == 1 && paths[0].st.dead {
		if len(c.Ensures) > 0 && !c.NoReturn {
			return v, unsupported{"the function never returns"}
		}
		return v, nil
	}
	var pcs []Term
	for _, p := range paths {
		pcs = append(pcs, p.st.pc)
	}
	any := paths[0].st.clone()
	any.pc = tOr(pcs...)
	v.cover(any, "a normal return is reachable")
	for pi, p := range paths {
		suffix := ""
		if len(paths) > 1 {
			suffix = fmt.Sprintf(" (return path %d)", pi+1)
		}
		v.checkReturn(p.st, p.vals, fr, c, src, objs, suffix)
	}
	return v, nil
}

// checkReturn: postconditions and frame at one return.
func (v *VC) checkReturn(run *State, vals []Val, fr *frameCtx, c *Contract, src *FuncSrc, objs []types.Object, suffix string) {
	// postconditions: parameters denote their entry values
	penv := &specEnv{v: v, st: run, old: v.entry, names: map[string]Val{}, fr: fr, con: c, pkg: src.Pkg}
	for k, o := range objs {
		if o != nil {
			penv.names[c.Params[k]] = v.entry.vars[o]
		}
	}
	for k := range vals {
		nm := fmt.Sprintf("res%d", k)
		if k < len(c.Results) {
			nm = c.Results[k]
		}
		x := vals[k]
		if x.list != nil {
			x = v.materialise(run, x)
		}
		if !x.t.ok() || x.lv != nil {
			x = Val{t: v.term(run, x), gt: x.gt}
		}
		x.gt = v.tsub(fr.results[k].Type())
		penv.names[nm] = x
	}
	for k, h := range c.EndHints {
		v.hintIn(run, penv, h, k)
	}
	end := src.Decl.End()
	for k, e := range c.Ensures {
		for _, x := range conjuncts(e.E) {
			v.oblig(run, "postcondition "+e.label(k)+suffix, end, penv.boolExpr(x))
		}
	}
	if !c.NoFrame {
		v.checkFrame(run, penv.with(v.entry), c, end)
	}
}

// checkFrame: everything allocated before the call and not listed under modifies is unchanged.
func (v *VC) checkFrame(run *State, env *specEnv, c *Contract, pos token.Pos) {
	env.old = v.entry
	var ts []modT
	for _, m := range c.Modifies {
		ts = append(ts, env.targets(m)...)
	}
	for _, k := range sortedKeys(run.heap) {
		h1 := run.heap[k]
		h0, ok := v.entry.heap[k]
		if !ok {
			h0 = Term{"H0_" + k, h1.Sort}
			if _, ok := v.declared[h0.S]; !ok {
				continue
			}
		}
		if h0.S == h1.S {
			continue
		}
		r := v.fresh("fr", "Int")
		conds := []Term{tLe(tInt(1), r), tLt(r, v.entry.alloc)}
		all := false
		for _, t := range ts {
			if t.heap != k {
				continue
			}
			if t.all {
				all = true
			}
			if t.lo.ok() {
				// inside the row, only [lo,hi) may change
				ix := v.fresh("ix", "Int")
				v.oblig(run, fmt.Sprintf("frame of %s: only the listed range is modified", k), pos,
					tImp(tAnd(tNot(tEq(t.base, tInt(0))), tNot(tAnd(tLe(t.lo, ix), tLt(ix, t.hi))), tNot(v.otherTarget(ts, t, k, ix))), tEqRaw(tSel(tSel(h1, t.base), ix), tSel(tSel(h0, t.base), ix))))
			}
			if t.field >= 0 {
				exp := v.setField(tSel(h0, t.base), t.gt, t.field, v.getField(tSel(h1, t.base), t.gt, t.field).t)
				single := true
				for _, u := range ts {
					if u.heap == k && u.base.S == t.base.S && u.field >= 0 && u.field != t.field {
						single = false
						exp = v.setField(exp, t.gt, u.field, v.getField(tSel(h1, t.base), t.gt, u.field).t)
					}
					if u.heap == k && u.base.S == t.base.S && u.field < 0 {
						exp = tSel(h1, t.base)
					}
				}
				_ = single
				v.oblig(run, fmt.Sprintf("frame of %s: only the listed fields are modified", k), pos, tEqRaw(tSel(h1, t.base), exp))
			}
			conds = append(conds, tNot(tEq(r, t.base)))
		}
		if all {
			continue
		}
		v.oblig(run, "frame of "+k+": nothing else is modified", pos, tImp(tAnd(conds...), tEqRaw(tSel(h1, r), tSel(h0, r))))
	}
}

func tEqRaw(a, b Term) Term {
	if a.S == b.S {
		return tTrue
	}
	return app("Bool", "=", a, b)
}

func (v *VC) otherTarget(ts []modT, t modT, k string, ix Term) Term {
	var os []Term
	for _, u := range ts {
		if u.heap != k || (u.base.S == t.base.S && u.lo.S == t.lo.S && u.hi.S == t.hi.S) {
			continue
		}
		c := tEq(u.base, t.base)
		if u.lo.ok() {
			c = tAnd(c, tLe(u.lo, ix), tLt(ix, u.hi))
		}
		os = append(os, c)
	}
	return tOr(os...)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cache := flag.String("cache", "", "query cache directory")
	out := flag.String("json", "", "write the result here")
	only := flag.String("func", "", "only targets containing this")
	prop := flag.String("prop", "", "only targets serving this property")
	timeout := flag.Int("timeout", 12, "seconds per hard obligation")
	dump := flag.String("dump", "", "dump failed queries to this directory")
	verbose := flag.Bool("v", false, "list all obligations")
	flag.Parse()
	t0 := time.Now()
	cs, err := loadContracts(flag.Args())
	if err != nil {
		fmt.Fprintln(os.Stderr, "gocv: contracts:", err)
		os.Exit(2)
	}
	sel := func(key string, props []string) bool {
		if *only != "" && !strings.Contains(key, *only) {
			return false
		}
		if *prop == "" {
			return true
		}
		for _, x := range props {
			if x == *prop {
				return true
			}
		}
		return false
	}
	pk := map[string]bool{}
	for _, k := range cs.Order {
		c := cs.By[k]
		if !c.Extern && strings.HasPrefix(k, modPath) {
			i := strings.LastIndex(k, "/")
			j := strings.Index(k[i:], ".")
			pk["./"+strings.TrimPrefix(k[:i+j], modPath)] = true
		}
	}
	var pats []string
	for k := range pk {
		pats = append(pats, k)
	}
	sort.Strings(pats)
	p, err := loadProg(*repo, pats)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gocv: loading:", err)
		os.Exit(3)
	}
	o := &Output{Unsup: map[string]string{}, Assume: cs.Assume}
	s := newSolver(*cache)
	s.timeout = *timeout
	s.dump = *dump
	type job struct {
		name string
		f    func() (*VC, error)
	}
	var jobs []job
	for _, n := range cs.LemOrd {
		l := cs.Lemmas[n]
		if sel("lemma "+n, nil) || (*only == "" && *prop != "") {
			jobs = append(jobs, job{"lemma " + n, func() (*VC, error) { return verifyLemma(p, cs, s, l) }})
			o.Lemmas = append(o.Lemmas, n)
		}
	}
	for _, k := range cs.Order {
		c := cs.By[k]
		if c.Extern || c.InlineOnly || !sel(k, c.Props) {
			continue
		}
		jobs = append(jobs, job{k, func() (*VC, error) { return verifyFunc(p, cs, s, c) }})
		o.Targets = append(o.Targets, strings.TrimPrefix(k, modPath))
	}
	type result struct {
		name string
		v    *VC
		err  error
	}
	results := make([]result, len(jobs))
	done := make(chan int)
	gate := make(chan struct{}, 8)
	for i, j := range jobs {
		i, j := i, j
		go func() {
			gate <- struct{}{}
			v, err := j.f()
			if err == nil {
				s.discharge(v)
			}
			results[i] = result{j.name, v, err}
			<-gate
			done <- i
		}()
	}
	for range jobs {
		<-done
	}
	inl, used, tru, notes, nt := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, r := range results {
		name := strings.TrimPrefix(r.name, modPath)
		if r.err != nil {
			o.Unsup[name] = r.err.Error()
			o.Obligs = append(o.Obligs, ObligOut{Target: name, Name: "within the verifier's reach", Status: "failed", Detail: r.err.Error()})
			o.Total++
			continue
		}
		for k := range r.v.inlined {
			inl[strings.TrimPrefix(k, modPath)] = true
		}
		for k := range r.v.assumed {
			used[strings.TrimPrefix(k, modPath)] = true
		}
		for k := range r.v.trusted {
			tru[k] = true
		}
		for _, n := range r.v.notes {
			notes[n] = true
		}
		for k := range r.v.noterm {
			nt[name+": "+k] = true
		}
		for _, ob := range r.v.obls {
			o.Total++
			if ob.Status == "proved" {
				o.Discharged++
			}
			o.Obligs = append(o.Obligs, ObligOut{Target: name, Name: ob.Name, Pos: ob.Pos, Status: ob.Status, Solver: ob.Solver, MS: ob.MS, Detail: ob.Detail})
		}
	}
	o.Inlined, o.Used, o.Trusted, o.Notes, o.NoTerm = sortedKeys(inl), sortedKeys(used), sortedKeys(tru), sortedKeys(notes), sortedKeys(nt)
	o.SolverMS, o.Queries, o.CacheHits, o.WallMS = s.ms, s.queries, s.hits, time.Since(t0).Milliseconds()
	if *out != "" {
		b, _ := json.MarshalIndent(o, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	for _, ob := range o.Obligs {
		if *verbose || ob.Status != "proved" {
			fmt.Printf("%-8s %s: %s [%s] %s %s\n", ob.Status, ob.Target, ob.Name, ob.Pos, ob.Solver, ob.Detail)
		}
	}
	fmt.Printf("gocv: %d targets, %d lemmas, %d/%d obligations discharged, %d queries (%d cached), solver %d ms, wall %d ms\n",
		len(o.Targets), len(o.Lemmas), o.Discharged, o.Total, s.queries, s.hits, s.ms, o.WallMS)
	if o.Discharged != o.Total {
		os.Exit(1)
	}
}
