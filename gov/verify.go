package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Result struct {
	Func    string
	Con     *Contract
	Obls    []*Obligation
	Err     string // out of reach / unsupported
	Used    []string
	Inlined []string
	Models  []string
	Assump  []string
	Paths   int
	Ms      int64
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (r *Result) ok() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Result != "proved" {
			return false
		}
	}
	return true
}

func (r *Result) print(v bool) {
	n := 0
	for _, o := range r.Obls {
		if o.Result == "proved" {
			n++
		}
	}
	s := "OK"
	if !r.ok() {
		s = "FAIL"
	}
	fmt.Printf("%s %s: %d/%d obligations, %d paths\n", s, r.Func, n, len(r.Obls), r.Paths)
	if r.Err != "" {
		fmt.Printf("   ERR %s\n", r.Err)
	}
	seen := map[string]int{}
	for _, o := range r.Obls {
		if o.Result != "proved" {
			k := o.Name + o.Pos
			seen[k]++
			if seen[k] > 2 && !v {
				continue
			}
			fmt.Printf("   %s %s %s @%s (%dms)\n", strings.ToUpper(o.Result), o.Kind, o.Name, o.Pos, o.Ms)
			if v {
				fmt.Println("     ", strings.ReplaceAll(trunc(o.Detail, 1500), "\n", "\n      "))
				if o.query != nil {
					dumpN++
					fn := fmt.Sprintf("/tmp/gov_q%d.smt2", dumpN)
					writeFile(fn, o.query.text+"(check-sat)\n")
					fmt.Println("      query:", fn)
				}
			}
		}
	}
}

var dumpN int

func newExec(P *Program, f *ssa.Function, c *Contract, budget time.Duration) *Exec {
	return &Exec{prog: P, fn: f, con: c, usedCon: map[string]bool{}, inlined: map[string]bool{}, models: map[string]bool{},
		assump: map[string]bool{}, qcache: map[string]string{}, dryVis: map[string]int{}, deadline: time.Now().Add(budget), entryVals: map[string]sval{}}
}

// verify checks one function. Loop invariant templates that did not hold in an
// earlier analysis of the same loop (on another path) are not tried again; when
// an obligation then stays open, the function is analysed once more with all
// templates everywhere.
func (P *Program) verify(c *Contract, budget time.Duration) *Result {
	t0 := time.Now()
	res, hits := P.verify1(c, budget, true)
	if hits == 0 || res.Err != "" {
		return res
	}
	open := false
	for _, o := range res.Obls {
		if o.Result != "proved" {
			open = true
		}
	}
	rest := budget - time.Since(t0) - 5*time.Second
	if !open || rest < 10*time.Second {
		return res
	}
	r2, _ := P.verify1(c, rest, false)
	r2.Ms += res.Ms
	if strings.Contains(r2.Err, "time budget") {
		return res
	}
	return r2
}

func (P *Program) verify1(c *Contract, budget time.Duration, memo bool) (res *Result, hits int) {
	t0 := time.Now()
	res = &Result{Func: c.Func, Con: c}
	f := P.byName[strings.SplitN(c.Func, "@", 2)[0]] // NAME@CASE: another contract of the same function
	if c.Trusted {
		return
	}
	if f == nil {
		res.Err = "function not found in the current source"
		return
	}
	x := newExec(P, f, c, budget)
	if memo {
		x.memoDrop = map[string]bool{}
	}
	defer func() {
		hits = x.memoHits
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.Err = "out of the verifier's reach: " + string(e)
			case specErr:
				res.Err = "specification does not apply to the current source: " + string(e)
			default:
				res.Err = fmt.Sprintf("internal: %v\n%s", r, trunc(string(debug.Stack()), 3000))
			}
		}
		x.wg.Wait()
		res.Obls = x.obls
		res.Used = keysOf(x.usedCon)
		res.Inlined = keysOf(x.inlined)
		res.Models = keysOf(x.models)
		res.Assump = keysOf(x.assump)
		res.Paths = x.paths
		res.Ms = time.Since(t0).Milliseconds()
	}()
	st := &State{heap: map[string]*Mem{}, iters: map[string]*Term{}}
	al := mkFresh("al", SInt)
	epochVar.Store(al, 0)
	tmu.Lock()
	epochTerms[0] = nil
	tmu.Unlock()
	x.al0 = al
	st.al = al
	st.assume(mkGe0(al))
	sig := f.Signature
	var args []Value
	for i, p := range f.Params {
		n := p.Name()
		v := x.paramValue(st, n, p.Type())
		args = append(args, v)
		if i == 0 && sig.Recv() != nil {
			if t, ok := v.(*Term); ok && t.sort == SRef {
				st.assume(mkNot(mkEq(t, tNil)))
			}
		}
	}
	vars := bindParams(c, sig, args)
	env := &specEnv{x: x, st: st, old: st, vars: vars, pkg: f.Pkg.Pkg}
	// typeis(param, T) preconditions fix the dynamic type
	for _, r := range c.Requires {
		for _, cj := range conjuncts(r.E) {
			if call, ok := cj.(*ast.CallExpr); ok && identName(call.Fun) == "typeis" {
				nm := identName(call.Args[0])
				tv := asTerm(env.eval(call.Args[1])).str
				old := vars[nm]
				iv := old.v.(IfaceV)
				nv := IfaceV{mkInt(int64(internName("type:" + tv))), iv.val}
				st.assume(mkNot(mkEq(iv.val, tNil)))
				vars[nm] = sval{nv, old.t}
				for i, pn := range c.Params {
					if pn == nm {
						args[i] = nv
					}
				}
				continue
			}
		}
	}
	x.bindGhosts(c, vars, env, st)
	for _, r := range c.Requires {
		st.assume(env.boolean(r.E))
	}
	x.entryVals = vars
	x.entrySt = st.clone()
	x.entrySt.entry = nil
	env.old = x.entrySt
	// vacuity: the precondition must be satisfiable
	if x.holds(st, tFalse) {
		res.Err = "vacuous precondition"
		return
	}
	pre := &specEnv{x: x, st: x.entrySt, old: x.entrySt, vars: vars, pkg: f.Pkg.Pkg}
	var mods []modLoc
	for _, m := range c.Modifies {
		mods = append(mods, x.modLocs(pre, m.E)...)
	}
	if os.Getenv("GOV_MODS") != "" {
		for _, m := range mods {
			fmt.Fprintln(os.Stderr, "MOD", m.comp, m.ref)
		}
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*LoopRun{}}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	x.mode = modeReal
	base := st.wlog
	x.enterBlock(fr, f.Blocks[0], nil, st, func(s *State, rs []Value) {
		if x.mode != modeReal {
			return
		}
		vs := map[string]sval{}
		for k, v := range vars {
			vs[k] = v
		}
		for i, rn := range c.Results {
			if i < len(rs) {
				vs[rn] = sval{rs[i], sig.Results().At(i).Type()}
			}
		}
		e := &specEnv{x: x, st: s, old: x.entrySt, vars: vs, pkg: f.Pkg.Pkg}
		for _, l := range c.Lemmas {
			g := e.boolean(l.E)
			x.oblige(s, "lemma", l.Name, g, "", l.Props)
		}
		for _, en := range c.Ensures {
			for i, cj := range conjuncts(en.E) {
				g := e.boolean(cj)
				nm := en.Name
				if i > 0 {
					nm = fmt.Sprintf("%s.%d", en.Name, i)
				}
				x.record(s, "ensures", nm, g, en.Line, en.Props)
			}
		}
		// frame
		seen := map[string]bool{}
		for w := s.wlog; w != nil && w != base; w = w.up {
			if w.comp == "" {
				continue
			}
			var goal *Term
			if w.ref == nil {
				goal = tFalse
				for _, m := range mods {
					if m.comp == w.comp && m.all {
						goal = tTrue
					}
				}
			} else {
				goal = tTrue
				for _, gl := range w.leaves() {
					r := gl.t
					if freshSince(r, al) || throughNil(r) {
						continue // (a write through nil does not happen)
					}
					k := fmt.Sprintf("%s|%d|%d", w.comp, r.id, gl.g.id)
					if seen[k] {
						continue
					}
					seen[k] = true
					g := mkOr(mkGe(mkRid(r), al), mkEq(r, tNil))
					for _, m := range mods {
						if m.comp == w.comp {
							if m.all {
								g = tTrue
							}
							g = mkOr(g, mkEq(r, m.ref))
						}
					}
					goal = mkAnd(goal, mkImp(gl.g, g))
				}
			}
			if goal != tTrue {
				x.record(s, "frame", "modifies "+compName(w.comp), goal, "", nil)
			}
		}
	})
	x.wg.Wait()
	if x.paths == 0 {
		res.Err = "no path reaches a return"
	}
	return
}

func compName(c string) string {
	if strings.HasPrefix(c, "F") || strings.HasPrefix(c, "E.f") {
		s := c
		for k, v := range nameIds {
			if strings.HasPrefix(k, "field:") {
				id := fmt.Sprintf("%d", v)
				if s == "F"+id || strings.HasPrefix(s, "F"+id+".") || strings.HasPrefix(s, "E.f"+id) {
					return c + "(" + k + ")"
				}
			}
		}
	}
	return c
}

func (x *Exec) paramValue(st *State, n string, t types.Type) Value {
	return st.symValue(n, t)
}
