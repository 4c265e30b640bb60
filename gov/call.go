package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type site struct {
	x    *Exec
	fr   *Frame
	in   ssa.Instruction
	pos  string
	call *ssa.CallCommon
}

func (x *Exec) call(fr *Frame, in *ssa.Call, st *State, k Cont) {
	x.callCommon(fr, in, &in.Call, st, k)
}

func (x *Exec) callCommon(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, st *State, k Cont) {
	pos := x.posOf(in)
	sc := &site{x, fr, in, pos, c}
	var args []Value
	if c.IsInvoke() {
		iv, ok := x.val(fr, c.Value).(IfaceV)
		if !ok {
			panic(unsupported("invoke on non-interface"))
		}
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
		}
		x.invoke(sc, iv, c.Method, args, st, k)
		return
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		x.builtin(sc, f, args, st, k)
		return
	case *ssa.Function:
		x.callFn(sc, f, args, nil, st, k)
		return
	}
	fv, ok := x.val(fr, c.Value).(FuncV)
	if ok {
		fv = fv.resolve()
		if fv.fn != nil {
			x.callFn(sc, fv.fn, args, fv.bind, st, k)
			return
		}
	}
	// unknown function value: caller-supplied callback
	x.note("callback: a caller-supplied function value does not modify library state and its result depends on its arguments only")
	x.oblige(st, "safety", "nil-func-call", mkNot(mkEq(funcRef(fv), tNil)), pos, nil)
	k(st, x.ufResults(st, "cb", c.Signature(), append([]*Term{funcRef(fv)}, x.flatArgs(c.Signature(), args)...)))
}

func (x *Exec) note(s string) {
	x.mu.Lock()
	x.assump[s] = true
	x.mu.Unlock()
}

func (x *Exec) flatArgs(sig *types.Signature, args []Value) []*Term {
	var out []*Term
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		for _, t := range flatten(sig.Params().At(i).Type(), args[i]) {
			if !t.sort.isArr() {
				out = append(out, t)
			}
		}
	}
	return out
}

// cbApp names result i of a caller-supplied function value.
func cbApp(i int, s Sort, args []*Term) *Term {
	n := fmt.Sprintf("cb%d_%s", i, s)
	for _, a := range args {
		n += "_" + string(a.sort)
	}
	n = strings.NewReplacer("(", "", ")", "", " ", "").Replace(n)
	return mkApp(n, s, args...)
}

// ufResults: results as uninterpreted functions of the arguments (deterministic callee).
func (x *Exec) ufResults(st *State, name string, sig *types.Signature, args []*Term) []Value {
	var out []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := st.symValue(fmt.Sprintf("%s.r%d", name, i), t)
		if b, ok := v.(*Term); ok {
			v = cbApp(i, b.sort, args)
			st.assumeTyped(t, v)
		}
		out = append(out, v)
	}
	return out
}

func (x *Exec) invoke(sc *site, iv IfaceV, m *types.Func, args []Value, st *State, k Cont) {
	x.oblige(st, "safety", "nil-iface-call", mkNot(mkEq(iv.tag, mkInt(0))), sc.pos, nil)
	if st.dead {
		return
	}
	// model on interface methods
	key := "iface:" + m.FullName()
	if n, ok := constInt(iv.tag); ok {
		tn := nameOfID(int(n))
		if strings.HasPrefix(tn, "type:") {
			if t := x.prog.typeByKey(tn[5:]); t != nil {
				var recv Value = iv.val
				switch t.Underlying().(type) {
				case *types.Pointer, *types.Map:
				default:
					boxMu.Lock()
					bv, have := boxes[iv.val]
					boxMu.Unlock()
					if !have {
						panic(unsupported("method on unboxed value"))
					}
					recv = bv
				}
				f := x.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
				if f == nil {
					panic(unsupported("no method " + m.Name() + " on " + tn))
				}
				x.callFn(sc, f, append([]Value{recv}, args...), nil, st, k)
				return
			}
			// known standard library dynamic type without SSA type
			if mf, ok := models[tn[5:]+"."+m.Name()]; ok {
				x.runModel(sc, tn[5:]+"."+m.Name(), mf, append([]Value{iv.val}, args...), st, k)
				return
			}
		}
	}
	if c := x.prog.contracts[key]; c != nil {
		x.applyContract(sc, c, m.Type().(*types.Signature), append([]Value{iv}, args...), st, k)
		return
	}
	if mf, ok := models[key]; ok {
		x.runModel(sc, key, mf, append([]Value{iv}, args...), st, k)
		return
	}
	panic(unsupported("dynamic dispatch " + m.FullName() + " at " + sc.pos))
}

func nameOfID(n int) string {
	nameIdMu.Lock()
	defer nameIdMu.Unlock()
	for k, v := range nameIds {
		if v == n {
			return k
		}
	}
	return ""
}

func (P *Program) typeByKey(k string) types.Type {
	ptr := false
	s := k
	if strings.HasPrefix(s, "*") {
		ptr = true
		s = s[1:]
	}
	i := strings.IndexByte(s, '.')
	if i < 0 {
		return nil
	}
	for _, p := range P.prog.AllPackages() {
		if p.Pkg.Name() == s[:i] {
			if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
				if ptr {
					return types.NewPointer(o.Type())
				}
				return o.Type()
			}
		}
	}
	return nil
}

func (x *Exec) runModel(sc *site, name string, mf modelFn, args []Value, st *State, k Cont) {
	x.mu.Lock()
	x.models[name] = true
	x.mu.Unlock()
	res := mf(sc, st, args)
	if st.dead {
		return
	}
	k(st, res)
}

func (x *Exec) callFn(sc *site, f *ssa.Function, args, bind []Value, st *State, k Cont) {
	name := shortFn(f)
	if c := x.prog.contracts[name]; c != nil && !(x.con != nil && contains(x.con.Opaque, "-"+name)) {
		x.applyContract(sc, c, f.Signature, args, st, k)
		return
	}
	if mf, ok := models[f.String()]; ok {
		x.runModel(sc, f.String(), mf, args, st, k)
		return
	}
	if !x.prog.isRepo(f) {
		if f.Synthetic != "" && len(f.Blocks) > 0 {
			x.inline(sc, f, args, bind, st, k)
			return
		}
		panic(unsupported("library function " + f.String() + " at " + sc.pos))
	}
	x.inline(sc, f, args, bind, st, k)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (x *Exec) inline(sc *site, f *ssa.Function, args, bind []Value, st *State, k Cont) {
	for p := sc.fr; p != nil; p = p.parent {
		if p.fn == f {
			panic(unsupported("recursion without contract: " + f.String()))
		}
	}
	if sc.fr.depth > 25 {
		panic(unsupported("inlining too deep"))
	}
	x.mu.Lock()
	x.inlined[shortFn(f)] = true
	x.mu.Unlock()
	if len(f.Blocks) == 0 {
		panic(unsupported("no body: " + f.String()))
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Value{}, bind: bind, loops: map[*ssa.BasicBlock]*LoopRun{}, depth: sc.fr.depth + 1, parent: sc.fr}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range f.FreeVars {
		fr.env[fv] = bind[i]
	}
	x.enterBlock(fr, f.Blocks[0], nil, st, k)
}

// ---------- builtins ----------

func (x *Exec) builtin(sc *site, b *ssa.Builtin, args []Value, st *State, k Cont) {
	c := sc.call
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case SliceV:
			k(st, []Value{v.len})
		case *Term:
			if v.sort == SStr {
				k(st, []Value{mkSlen(v)})
				return
			}
			if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				_, _, _, ln := mapComps(mt)
				n := mkIte(mkEq(v, tNil), mkInt(0), st.readComp(ln, SInt, v))
				st.assume(mkGe0(n))
				k(st, []Value{n})
				return
			}
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				k(st, []Value{mkInt(p.Elem().Underlying().(*types.Array).Len())})
				return
			}
			panic(unsupported("len"))
		case ArrayV:
			k(st, []Value{mkInt(v.n)})
		default:
			panic(unsupported("len"))
		}
	case "cap":
		k(st, []Value{args[0].(SliceV).cap})
	case "append":
		k(st, []Value{x.appendOp(st, c.Args[0].Type().Underlying().(*types.Slice).Elem(), args[0].(SliceV), args[1])})
	case "copy":
		dst := args[0].(SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var srcs []*Term
		var so, sn *Term
		switch v := args[1].(type) {
		case SliceV:
			srcs, so, sn = st.sliceLeaves(et, v), v.off, v.len
		case *Term:
			srcs, so, sn = []*Term{mkArrOf(v)}, mkInt(0), mkSlen(v)
		}
		n := mkIte(mkLe(dst.len, sn), dst.len, sn)
		for i, p := range elemComps(et) {
			srt := ArrS(SInt, p.sort)
			st.writeComp(p.comp, srt, dst.arr, mkAWrite(st.readComp(p.comp, srt, dst.arr), dst.off, srcs[i], so, n))
		}
		k(st, []Value{n})
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m, key := args[0].(*Term), args[1].(*Term)
		dom, kS, _, ln := mapComps(mt)
		d := st.readComp(dom, ArrS(kS, SBool), m)
		has := mkSelect(d, key)
		l := st.readComp(ln, SInt, m)
		st.writeComp(ln, SInt, m, mkIte(has, mkAddI(l, -1), l))
		st.writeComp(dom, ArrS(kS, SBool), m, mkStore(d, key, tFalse))
		st.logTyped(m, mt)
		k(st, nil)
	case "print", "println":
		k(st, nil)
	case "ssa:wrapnilchk":
		k(st, []Value{args[0]})
	default:
		panic(unsupported("builtin " + b.Name()))
	}
}

func (x *Exec) appendOp(st *State, et types.Type, s SliceV, arg Value) Value {
	var srcs []*Term
	var so, n *Term
	switch v := arg.(type) {
	case SliceV:
		so, n = v.off, v.len
		if !isInt(n, 0) {
			srcs = st.sliceLeaves(et, v)
		}
	case *Term:
		srcs, so, n = []*Term{mkArrOf(v)}, mkInt(0), mkSlen(v)
	}
	if isInt(n, 0) {
		return s
	}
	newLen := mkAdd(s.len, n)
	fits := mkLe(newLen, s.cap)
	if s.arr == tNil {
		if k, ok := constInt(n); ok && k > 0 {
			fits = tFalse
		} else {
			fits = mkEq(n, mkInt(0))
		}
	}
	if st.known(fits) {
		fits = tTrue
	} else if st.known(mkNot(fits)) {
		fits = tFalse
	}
	r := st.alloc()
	ncap := mkFresh("cap", SInt)
	setBounds(ncap, pow2(0).SetInt64(0), pow2(62))
	st.assume(mkGe(ncap, newLen))
	for i, p := range elemComps(et) {
		srt := ArrS(SInt, p.sort)
		var A *Term
		if s.arr == tNil {
			A = mkConstArr(srt, zeroOfSort(p.sort))
		} else {
			A = st.readComp(p.comp, srt, s.arr)
		}
		W := mkAWrite(A, mkAdd(s.off, s.len), srcs[i], so, n)
		if fits != tTrue {
			st.writeComp(p.comp, srt, r, W)
		}
		if fits != tFalse && s.arr != tNil {
			st.writeCompG(p.comp, srt, s.arr, mkIte(fits, W, A), fits)
		}
	}
	return SliceV{mkIte(fits, s.arr, r), s.off, newLen, mkIte(fits, s.cap, ncap)}
}

// ---------- contracts ----------

var epochMu = make(chan int, 1)

func init() { epochMu <- 1 }

func newEpoch() int {
	n := <-epochMu
	epochMu <- n + 1
	return n
}

var epochTerms = map[int]*Term{}

func newAl(n string) *Term {
	t := mkFresh(n, SInt)
	e := newEpoch()
	tmu.Lock()
	epochTerms[e] = t
	tmu.Unlock()
	epochVar.Store(t, e)
	return t
}

func bindParams(c *Contract, sig *types.Signature, args []Value) map[string]sval {
	vars := map[string]sval{}
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(c.Params) != len(ts) || len(args) != len(ts) {
		sfail("contract %s: %d parameters declared, function has %d (args %d)", c.Func, len(c.Params), len(ts), len(args))
	}
	for i, n := range c.Params {
		vars[n] = sval{args[i], ts[i]}
	}
	return vars
}

// bindGhosts introduces the ghost values of a contract; their definitions hold by construction.
func (x *Exec) bindGhosts(c *Contract, vars map[string]sval, env *specEnv, st *State) {
	for i, g := range c.Ghosts {
		vars[g] = sval{mkFresh("g_"+g, c.GSorts[i]), typeOfSort(c.GSorts[i])}
	}
	for _, d := range c.Defs {
		st.assume(env.boolean(d.E))
	}
}

// passGhosts: at a call, a ghost that the function under proof also declares (same name and sort) is
// passed to the callee, and the callee's definitions become obligations; without such a ghost the
// callee's are introduced afresh.
func (x *Exec) passGhosts(sc *site, c *Contract, vars map[string]sval, env *specEnv, st *State) {
	if x.con == nil || len(c.Ghosts) == 0 {
		x.bindGhosts(c, vars, env, st)
		return
	}
	for i, g := range c.Ghosts {
		found := false
		for j, h := range x.con.Ghosts {
			if h == g && x.con.GSorts[j] == c.GSorts[i] {
				vars[g] = x.entryVals[g]
				found = true
			}
		}
		if !found {
			x.bindGhosts(c, vars, env, st)
			return
		}
	}
	for _, d := range c.Defs {
		x.oblige(st, "ghost", shortName(c.Func)+":ghost", env.boolean(d.E), sc.pos, nil)
		if st.dead {
			return
		}
	}
}

func (x *Exec) applyContract(sc *site, c *Contract, sig *types.Signature, args []Value, st *State, k Cont) {
	x.mu.Lock()
	x.usedCon[c.Func] = true
	x.mu.Unlock()
	vars := bindParams(c, sig, args)
	env := &specEnv{x: x, st: st, old: st, vars: vars, pkg: x.pkgOf(c)}
	if sig.Recv() != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			if t, ok := args[0].(*Term); ok {
				x.nilCheck(st, t, sc.in)
			}
		}
	}
	x.passGhosts(sc, c, vars, env, st)
	if st.dead {
		return
	}
	for _, r := range c.Requires {
		x.oblige(st, "requires", shortName(c.Func)+":"+r.Name, env.boolean(r.E), sc.pos, r.Props)
		if st.dead {
			return
		}
	}
	old := st.clone()
	env.old = old
	// new allocations
	al0 := st.al
	al := newAl("al")
	st.assume(mkGe(al, al0))
	st.al = al
	// havoc the frame (addresses evaluated in the pre-state)
	pre := &specEnv{x: x, st: old, old: old, vars: vars, pkg: env.pkg}
	for _, m := range c.Modifies {
		x.havocLoc(pre, m.E, st)
	}
	// results
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := st.symValue(shortName(c.Func)+".r", t)
		res = append(res, v)
		if i < len(c.Results) {
			vars[c.Results[i]] = sval{v, t}
		}
	}
	bound := map[string]bool{}
	var rest []ast.Expr
	for _, e := range c.Ensures {
		for _, cj := range conjuncts(e.E) {
			if b, ok := cj.(*ast.BinaryExpr); ok && b.Op == token.EQL {
				if x.tryBind(env, c, b, bound, res) {
					continue
				}
			}
			rest = append(rest, cj)
		}
	}
	for i := range res {
		if i < len(c.Results) {
			res[i] = vars[c.Results[i]].v
		}
	}
	for i := range res {
		if i >= len(c.Results) || bound[c.Results[i]] {
			continue
		}
		if _, ok := sig.Results().At(i).Type().Underlying().(*types.Pointer); ok && !saysFresh(rest, c.Results[i]) {
			panic(unsupported("the contract of " + c.Func + " does not say where the pointer " + c.Results[i] + " comes from"))
		}
	}
	for _, cj := range rest {
		st.assume(env.boolean(cj))
		if st.dead {
			return
		}
	}
	for _, a := range c.Assumes {
		st.assume(env.boolean(a.E))
	}
	k(st, res)
}

// saysFresh: some postcondition is about fresh(r)
func saysFresh(es []ast.Expr, r string) bool {
	f := false
	for _, e := range es {
		ast.Inspect(e, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 1 {
				id, ok1 := c.Fun.(*ast.Ident)
				a, ok2 := c.Args[0].(*ast.Ident)
				if ok1 && ok2 && id.Name == "fresh" && a.Name == r {
					f = true
				}
			}
			return true
		})
	}
	return f
}

func shortName(f string) string {
	i := strings.LastIndexByte(f, '.')
	return f[i+1:]
}

func (x *Exec) pkgOf(c *Contract) *types.Package {
	if f := x.prog.byName[strings.SplitN(c.Func, "@", 2)[0]]; f != nil && f.Pkg != nil {
		return f.Pkg.Pkg
	}
	return nil
}

func conjuncts(e ast.Expr) []ast.Expr {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return conjuncts(n.X)
	case *ast.BinaryExpr:
		if n.Op == token.LAND {
			return append(conjuncts(n.X), conjuncts(n.Y)...)
		}
	}
	return []ast.Expr{e}
}

func mentions(e ast.Expr, names map[string]bool) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			f = true
		}
		return true
	})
	return f
}

// tryBind turns "result == E" and "cell == E" postconditions into direct definitions.
func (x *Exec) tryBind(env *specEnv, c *Contract, b *ast.BinaryExpr, bound map[string]bool, res []Value) bool {
	switch l := b.X.(type) {
	case *ast.Ident:
		idx := -1
		for i, r := range c.Results {
			if r == l.Name {
				idx = i
			}
		}
		if idx < 0 || bound[l.Name] || mentions(b.Y, map[string]bool{l.Name: true}) {
			return false
		}
		// only bind to expressions over already known values
		un := map[string]bool{}
		for _, r := range c.Results {
			if !bound[r] {
				un[r] = true
			}
		}
		if mentions(b.Y, un) {
			return false
		}
		v := env.eval(b.Y)
		cur := env.vars[l.Name]
		switch cur.v.(type) {
		case *Term:
			t, ok := v.v.(*Term)
			if !ok {
				return false
			}
			if t.sort == SInt && cur.v.(*Term).sort == SReal {
				t = mkToReal(t)
			}
			if t.sort != cur.v.(*Term).sort {
				return false
			}
			env.vars[l.Name] = sval{t, cur.t}
		case IfaceV:
			iv, ok := v.v.(IfaceV)
			if !ok {
				if t, isT := v.v.(*Term); isT && t == tNil {
					iv = IfaceV{mkInt(0), tNil}
				} else {
					return false
				}
			}
			env.vars[l.Name] = sval{iv, cur.t}
		case SliceV:
			sv, ok := v.v.(SliceV)
			if !ok {
				return false
			}
			env.vars[l.Name] = sval{sv, cur.t}
		default:
			return false
		}
		bound[l.Name] = true
		return true
	case *ast.CallExpr:
		if id, ok := l.Fun.(*ast.Ident); ok && id.Name == "pos" && len(l.Args) == 1 {
			key := exprKey(l)
			if bound[key] || mentions(b.Y, unbound(c, bound)) || mentions(l, unbound(c, bound)) || !x.isModified(env, c, l) {
				return false
			}
			v := env.eval(l.Args[0])
			storePos(env.st, asTerm(v), deref(v.t), env.term(b.Y))
			bound[key] = true
			return true
		}
		// str(buf) == E
		if id, ok := l.Fun.(*ast.Ident); ok && id.Name == "str" && len(l.Args) == 1 {
			key := exprKey(l)
			if bound[key] || mentions(b.Y, unbound(c, bound)) || mentions(l, unbound(c, bound)) {
				return false
			}
			v := env.eval(l.Args[0])
			if v.t == nil {
				return false
			}
			if p, ok := v.t.Underlying().(*types.Pointer); ok && isBufferT(p.Elem()) && x.isModified(env, c, l.Args[0]) {
				t := env.term(b.Y)
				x.rawStore(env.st, asTerm(v), p.Elem(), t)
				bound[key] = true
				return true
			}
		}
	case *ast.SelectorExpr:
		key := exprKey(l)
		if bound[key] || mentions(b.Y, unbound(c, bound)) || mentions(l, unbound(c, bound)) {
			return false
		}
		if !x.isModified(env, c, l) {
			return false
		}
		a, t := env.addr(l)
		v := env.eval(b.Y)
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return false
		}
		cur := env.st.load(a, t)
		if ct, ok := cur.(*Term); ok {
			vt, ok := v.v.(*Term)
			if !ok {
				return false
			}
			if ct.sort == SReal && vt.sort == SInt {
				vt = mkToReal(vt)
			}
			if vt.sort != ct.sort {
				return false
			}
			x.rawStore(env.st, a, t, vt)
			bound[key] = true
			return true
		}
		if _, ok := cur.(SliceV); ok {
			if sv, ok := v.v.(SliceV); ok {
				x.rawStore(env.st, a, t, sv)
				bound[key] = true
				return true
			}
		}
	}
	return false
}

func unbound(c *Contract, bound map[string]bool) map[string]bool {
	un := map[string]bool{}
	for _, r := range c.Results {
		if !bound[r] {
			un[r] = true
		}
	}
	return un
}

// rawStore replaces a havocked cell by a definition (already logged by the havoc).
func (x *Exec) rawStore(st *State, a *Term, t types.Type, v Value) {
	w := st.wlog
	st.store(a, t, v)
	st.wlog = w
}

func exprKey(e ast.Expr) string {
	switch n := e.(type) {
	case *ast.Ident:
		return n.Name
	case *ast.SelectorExpr:
		return exprKey(n.X) + "." + n.Sel.Name
	case *ast.ParenExpr:
		return exprKey(n.X)
	case *ast.StarExpr:
		return "*" + exprKey(n.X)
	case *ast.CallExpr:
		s := exprKey(n.Fun) + "("
		for _, a := range n.Args {
			s += exprKey(a) + ","
		}
		return s + ")"
	case *ast.IndexExpr:
		return exprKey(n.X) + "[" + exprKey(n.Index) + "]"
	}
	return fmt.Sprintf("%T", e)
}

func (x *Exec) isModified(env *specEnv, c *Contract, e ast.Expr) bool {
	k := exprKey(e)
	for _, m := range c.Modifies {
		mk := exprKey(m.E)
		if mk == k || mk == "*"+k {
			return true
		}
	}
	return false
}

// locs lists the (component, ref) pairs of a modifies expression.
type modLoc struct {
	comp string
	sort Sort
	ref  *Term
	typ  types.Type
	all  bool
}

func (x *Exec) modLocs(env *specEnv, e ast.Expr) []modLoc {
	if call, ok := e.(*ast.CallExpr); ok {
		fn := identName(call.Fun)
		switch fn {
		case "elems":
			v := env.eval(call.Args[0])
			sv := v.v.(SliceV)
			var out []modLoc
			for _, p := range elemComps(v.t.Underlying().(*types.Slice).Elem()) {
				for _, r := range modLeaves(sv.arr) {
					out = append(out, modLoc{comp: p.comp, sort: ArrS(SInt, p.sort), ref: r})
				}
			}
			return out
		case "content":
			v := env.eval(call.Args[0])
			mt := v.t.Underlying().(*types.Map)
			dom, kS, vals, ln := mapComps(mt)
			var out []modLoc
			for _, m := range modLeaves(asTerm(v)) {
				out = append(out, modLoc{comp: dom, sort: ArrS(kS, SBool), ref: m}, modLoc{comp: ln, sort: SInt, ref: m})
				for _, p := range vals {
					out = append(out, modLoc{comp: p.comp, sort: ArrS(kS, p.sort), ref: m})
				}
			}
			return out
		case "allof": // allof("pkg.Type"): any cell of any object of the struct type
			t := x.prog.findType(asTerm(env.eval(call.Args[0])).str)
			var out []modLoc
			r := mkVar("anyobj", SRef)
			x.cellLocs(r, t, &out)
			for i := range out {
				out[i].all = true
			}
			// element form
			for _, p := range elemComps(t) {
				out = append(out, modLoc{comp: p.comp, sort: ArrS(SInt, p.sort), ref: r, all: true})
			}
			return out
		case "pos": // the position of a bytes.Reader
			v := env.eval(call.Args[0])
			var all, out []modLoc
			x.cellLocs(asTerm(v), deref(v.t), &all)
			for _, l := range all {
				if strings.HasSuffix(l.comp, ".pos") {
					out = append(out, l)
				}
			}
			return out
		case "cell": // cell(ptr): the pointee of an interface's pointer etc.
			v := env.eval(call.Args[0])
			var out []modLoc
			x.cellLocs(asTerm(v), deref(v.t), &out)
			return out
		case "allelems": // every array of the given slice's element type
			v := env.eval(call.Args[0])
			var out []modLoc
			for _, p := range elemComps(v.t.Underlying().(*types.Slice).Elem()) {
				out = append(out, modLoc{comp: p.comp, sort: ArrS(SInt, p.sort), ref: v.v.(SliceV).arr, all: true})
			}
			return out
		}
	}
	a, t := env.addr(e)
	var out []modLoc
	for _, l := range modLeaves(a) {
		x.cellLocs(l, t, &out)
	}
	return out
}

// modLeaves: the places a location expression can stand for, without those
// reached through nil.
func modLeaves(r *Term) []*Term {
	ls := iteLeaves(r)
	if len(ls) == 1 {
		return ls
	}
	var out []*Term
	for _, l := range ls {
		if !throughNil(l) {
			out = append(out, l)
		}
	}
	return out
}

func throughNil(t *Term) bool {
	if t == tNil {
		return true
	}
	if t.op != "app" || t.sort != SRef {
		return false
	}
	for _, a := range t.args {
		if a.sort == SRef && throughNil(a) {
			return true
		}
	}
	return false
}

func iteLeaves(r *Term) []*Term {
	if r.op == "ite" {
		return append(iteLeaves(r.args[1]), iteLeaves(r.args[2])...)
	}
	return []*Term{r}
}

type gleaf struct{ g, t *Term }

func (w *Write) leaves() []gleaf {
	ls := guardedLeaves(w.ref)
	if w.g != nil {
		for i := range ls {
			ls[i].g = mkAnd(w.g, ls[i].g)
		}
	}
	return ls
}

func guardedLeaves(r *Term) []gleaf {
	if r.op == "ite" {
		var out []gleaf
		for _, l := range guardedLeaves(r.args[1]) {
			out = append(out, gleaf{mkAnd(r.args[0], l.g), l.t})
		}
		for _, l := range guardedLeaves(r.args[2]) {
			out = append(out, gleaf{mkAnd(mkNot(r.args[0]), l.g), l.t})
		}
		return out
	}
	return []gleaf{{tTrue, r}}
}

func (x *Exec) cellLocs(a *Term, t types.Type, out *[]modLoc) {
	if !isLeafy(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				x.cellLocs(mkFld(a, fieldID(t, i)), u.Field(i).Type(), out)
			}
			return
		case *types.Array:
			for _, p := range elemComps(u.Elem()) {
				*out = append(*out, modLoc{comp: p.comp, sort: ArrS(SInt, p.sort), ref: a})
			}
			return
		}
	}
	for _, l := range leavesOf(t) {
		comp, outer, idx := route(a, t, l.suffix)
		s := l.sort
		if idx != nil {
			s = ArrS(SInt, l.sort)
		}
		*out = append(*out, modLoc{comp: comp, sort: s, ref: outer, typ: l.typ})
	}
}

func (x *Exec) havocLoc(pre *specEnv, e ast.Expr, st *State) {
	// single-cell havoc of elements must not destroy the neighbours
	if _, ok := e.(*ast.CallExpr); !ok {
		a, t := pre.addr(e)
		x.havocCell(st, a, t)
		return
	}
	for _, l := range x.modLocs(pre, e) {
		if l.all {
			st.havocComp(l.comp, l.sort)
			continue
		}
		n := freshName("hv")
		s, _ := stampOfAl(st.al)
		setBirth(n, s)
		v := mkVar(n, l.sort)
		hintType(v, l.typ)
		st.writeComp(l.comp, l.sort, l.ref, v)
	}
}

func (x *Exec) havocCell(st *State, a *Term, t types.Type) {
	if !isLeafy(t) {
		if u, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				x.havocCell(st, mkFld(a, fieldID(t, i)), u.Field(i).Type())
			}
			return
		}
	}
	st.store(a, t, st.symValue("hv", t))
}

func (s *State) havocComp(comp string, sort Sort) {
	m := s.mem(comp, sort)
	nm := freshName("HV_" + comp)
	b, _ := stampOfAl(s.al)
	setBirth(nm, b)
	s.heap[comp] = &Mem{kind: 2, prev: m, name: nm, sort: sort, al: s.al, al0: s.al, noFr: true, depth: m.depth + 1}
	n := 0
	if s.wlog != nil {
		n = s.wlog.n
	}
	s.wlog = &Write{comp: comp, ref: nil, up: s.wlog, n: n + 1}
}

func isLeafy(t types.Type) bool { return isBufferT(t) || isReaderT(t) || isCipherT(t) }
