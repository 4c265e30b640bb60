package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Func   string
	Name   string // stable clause name
	Kind   string // ensures requires safety frame loop
	Props  []string
	Result string // proved refuted unknown
	Solver string
	Detail string
	Pos    string
	Ms     int64
	hyps   []*Term
	goal   *Term
	query  *Query
	syntac bool
}

type Mode int

const (
	modeReal Mode = iota
	modeDry
	modeHoudini
)

type Exec struct {
	prog      *Program
	fn        *ssa.Function // function under verification
	con       *Contract
	mode      Mode
	obls      []*Obligation
	mu        sync.Mutex
	wg        sync.WaitGroup
	paths     int
	maxPath   int
	recs      map[string]*recDef
	usedCon   map[string]bool
	inlined   map[string]bool
	models    map[string]bool
	assump    map[string]bool
	qcache    map[string]string
	unsup     []string
	dryVis    map[string]int
	deadline  time.Time
	memoDrop  map[string]bool // loop invariant templates dropped earlier
	memoHits  int
	stack     []*ssa.Function
	entryVals map[string]sval
	loopNotes []string
	entrySt   *State
	al0       *Term
	dryConds  []*Term
}

type pathLimit struct{}

type LoopRun struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	onBack func(st *State, fr *Frame, prev *ssa.BasicBlock)
	cut    bool // do not follow exits
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	bind   []Value
	loops  map[*ssa.BasicBlock]*LoopRun
	defers []*ssa.Defer
	depth  int
	id     int
	parent *Frame
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*LoopRun, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

type Cont func(st *State, res []Value)

var dbg = os.Getenv("GOV_DEBUG") != ""

// ---------- loops ----------

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	idx  int
}

var loopCacheMu sync.Mutex
var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loopCacheMu.Lock()
	defer loopCacheMu.Unlock()
	if l, ok := loopCache[f]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := res[s]
				if li == nil {
					li = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = li
				}
				// natural loop
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.body[x] {
						continue
					}
					li.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range res {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		res[h].idx = i
	}
	loopCache[f] = res
	return res
}

// ---------- running ----------

func (x *Exec) enterBlock(fr *Frame, b, prev *ssa.BasicBlock, st *State, k Cont) {
	if st.dead {
		return
	}
	if time.Now().After(x.deadline) {
		panic(unsupported("time budget exceeded"))
	}
	// loop exit cut
	for h, lr := range fr.loops {
		if lr != nil && !lr.body[b] {
			if lr.cut {
				return
			}
			delete(fr.loops, h)
		}
	}
	loops := loopsOf(fr.fn)
	if li, ok := loops[b]; ok {
		if prev != nil && li.body[prev] {
			lr := fr.loops[b]
			if lr == nil {
				panic(unsupported("back edge without loop context"))
			}
			lr.onBack(st, fr, prev)
			return
		}
		x.enterLoop(fr, li, prev, st, k)
		return
	}
	x.assignPhis(fr, b, prev)
	x.runInstrs(fr, b, 0, st, k)
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (x *Exec) phiVals(fr *Frame, b, prev *ssa.BasicBlock) []Value {
	i := predIndex(b, prev)
	var vals []Value
	for _, p := range phisOf(b) {
		vals = append(vals, x.val(fr, p.Edges[i]))
	}
	return vals
}

func (x *Exec) assignPhis(fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	vals := x.phiVals(fr, b, prev)
	for i, p := range phisOf(b) {
		fr.env[p] = vals[i]
	}
}

func (x *Exec) val(fr *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return constValue(c)
	case *ssa.Function:
		return FuncV{fn: c}
	case *ssa.Global:
		return x.globalAddr(c)
	case *ssa.Builtin:
		return c
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s (%T) not available in %s", v.Name(), v, fr.fn)))
	}
	return r
}

func (x *Exec) term(fr *Frame, v ssa.Value) *Term {
	r := x.val(fr, v)
	if t, ok := r.(*Term); ok {
		return t
	}
	if f, ok := r.(FuncV); ok {
		return funcRef(f)
	}
	panic(unsupported(fmt.Sprintf("scalar expected for %s: %T", v, r)))
}

func (x *Exec) posOf(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		return in.Parent().Name()
	}
	pos := x.prog.fset.Position(p)
	i := strings.LastIndexByte(pos.Filename, '/')
	return fmt.Sprintf("%s:%d", pos.Filename[i+1:], pos.Line)
}

// oblige records an obligation (in real mode) and assumes it afterwards.
func (x *Exec) oblige(st *State, kind, name string, goal *Term, pos string, props []string) {
	if x.mode == modeReal {
		x.record(st, kind, name, goal, pos, props)
	}
	if goal != tFalse {
		st.assume(goal)
	} else {
		st.dead = true
	}
}

func (x *Exec) record(st *State, kind, name string, goal *Term, pos string, props []string) {
	if st.dead {
		return
	}
	o := &Obligation{Func: shortFn(x.fn), Name: name, Kind: kind, Props: props, Pos: pos}
	x.obls = append(x.obls, o)
	if goal == tTrue || st.known(goal) {
		o.Result, o.Solver, o.syntac = "proved", "syntactic", true
		return
	}
	hyps := st.pcs()
	if goal = knownConds(st, goal); goal == tTrue || st.known(goal) {
		o.Result, o.Solver, o.syntac = "proved", "syntactic", true
		return
	}
	tr := st.trace
	x.wg.Add(1)
	go func() {
		defer x.wg.Done()
		oblSem <- struct{}{}
		defer func() { <-oblSem }()
		t0 := time.Now()
		q := x.mkQuery(hyps, goal)
		r, out, sv := prove(q, 3)
		if r != "unsat" {
			h2, g2, ok := x.resolveConds(hyps, goal, false)
			var q2 *Query
			if ok {
				q2 = x.mkQuery(h2, g2)
				if r2, out2, sv2 := prove(q2, 3); r2 == "unsat" {
					q, r, out, sv = q2, r2, out2, sv2
				}
			}
			if r != "unsat" {
				r, out, sv = prove(q, 2)
			}
			if r != "unsat" && ok {
				if r2, out2, sv2 := prove(q2, 2); r2 == "unsat" || os.Getenv("GOV_RESOLVED") != "" {
					q, r, out, sv = q2, r2, out2, sv2
					goal = g2
				}
			}
		}
		o.Ms = time.Since(t0).Milliseconds()
		o.Solver = sv
		switch r {
		case "unsat":
			o.Result = "proved"
		case "sat":
			o.Result = "refuted"
		default:
			o.Result = "unknown"
		}
		if o.Result != "proved" {
			o.query = q
			o.Detail = fmt.Sprintf("solver %s: %s\ngoal: %s\ntrace: %s\n%s", sv, r, goal, strings.Join(tr, " "), trunc(out, 4000))
		}
	}()
}

var oblSem = make(chan struct{}, 8)

func (x *Exec) mkQuery(hyps []*Term, goal *Term) *Query {
	return buildQuery(hyps, goal, x.lemmas)
}

// holds asks (quickly) whether the path condition implies t.
func (x *Exec) holds(st *State, t *Term) bool {
	if t == tTrue || st.known(t) {
		return true
	}
	if t == tFalse && st.pc == nil {
		return false
	}
	q := x.mkQuery(st.pcs(), t)
	x.mu.Lock()
	c, ok := x.qcache[q.text]
	x.mu.Unlock()
	if ok {
		return c == "unsat"
	}
	r, _, _ := prove(q, 0)
	x.mu.Lock()
	x.qcache[q.text] = r
	x.mu.Unlock()
	return r == "unsat"
}

// holdsT: like holds, with a larger budget (user-written invariants).
func (x *Exec) holdsT(st *State, t *Term) bool {
	if x.holds(st, t) {
		return true
	}
	q := x.mkQuery(st.pcs(), t)
	key := "T" + q.text
	x.mu.Lock()
	c, ok := x.qcache[key]
	x.mu.Unlock()
	if ok {
		return c == "unsat"
	}
	r := ""
	if h2, g2, ok := x.resolveConds(st.pcs(), knownConds(st, t), true); ok {
		r, _, _ = prove(x.mkQuery(h2, g2), 1)
	} else {
		r, _, _ = prove(q, 1)
	}
	x.mu.Lock()
	x.qcache[key] = r
	x.mu.Unlock()
	return r == "unsat"
}

func (x *Exec) runInstrs(fr *Frame, b *ssa.BasicBlock, i int, st *State, k Cont) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.enterBlock(fr, b.Succs[0], b, st, k)
			return
		case *ssa.If:
			x.branch(fr, b, x.term(fr, in.Cond), st, k)
			return
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				res = append(res, x.val(fr, r))
			}
			if fr.depth == 0 {
				x.paths++
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.oblige(st, "safety", "no-panic", tFalse, x.posOf(in), nil)
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			x.runDefers(fr, ds, st, func(st2 *State) { x.runInstrs(fr, b, i+1, st2, k) })
			return
		case *ssa.Defer:
			fr.defers = append(fr.defers, in)
		case *ssa.Call:
			rest := i + 1
			x.call(fr, in, st, func(st2 *State, res []Value) {
				fr2 := fr
				fr2 = fr.clone()
				fr2.env[in] = packResults(in.Type(), res)
				x.runInstrs(fr2, b, rest, st2, k)
			})
			return
		default:
			x.step(fr, in, st)
		}
	}
	panic("block fell through")
}

func packResults(t types.Type, res []Value) Value {
	if tup, ok := t.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return nil
		}
		return TupleV(res)
	}
	return res[0]
}

func (x *Exec) runDefers(fr *Frame, ds []*ssa.Defer, st *State, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	x.callCommon(fr, d, &d.Call, st, func(st2 *State, _ []Value) {
		x.runDefers(fr, ds[:len(ds)-1], st2, k)
	})
}

func (x *Exec) branch(fr *Frame, b *ssa.BasicBlock, c *Term, st *State, k Cont) {
	if c == tTrue {
		x.enterBlock(fr, b.Succs[0], b, st, k)
		return
	}
	if c == tFalse {
		x.enterBlock(fr, b.Succs[1], b, st, k)
		return
	}
	if x.mode == modeDry {
		x.dryConds = append(x.dryConds, c)
		key := fmt.Sprintf("%p/%d", b, fr.depth)
		x.dryVis[key]++
		if x.dryVis[key] > 12 {
			return
		}
	}
	x.maxPath++
	if x.maxPath > 20000 {
		panic(unsupported("too many paths"))
	}
	tOK, fOK := true, true
	if x.mode != modeDry {
		if st.known(c) {
			fOK = false
		} else if st.known(mkNot(c)) {
			tOK = false
		} else {
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); tOK = !x.holds(st, mkNot(c)) }()
			go func() { defer wg.Done(); fOK = !x.holds(st, c) }()
			wg.Wait()
		}
	}
	pos := ""
	if len(b.Instrs) > 0 {
		pos = x.posOf(b.Instrs[len(b.Instrs)-1])
		if in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if ci, ok := in.Cond.(ssa.Instruction); ok {
				pos = x.posOf(ci)
			}
		}
	}
	if tOK {
		s2 := st.clone()
		s2.assume(c)
		if !fOK {
			// implied: no information added
		} else {
			s2.trace = append(s2.trace, pos+"+")
		}
		x.enterBlock(fr.clone(), b.Succs[0], b, s2, k)
	}
	if fOK {
		s2 := st.clone()
		s2.assume(mkNot(c))
		s2.trace = append(s2.trace, pos+"-")
		x.enterBlock(fr.clone(), b.Succs[1], b, s2, k)
	}
}

// ---------- instructions ----------

func (x *Exec) nilCheck(st *State, p *Term, in ssa.Instruction) {
	if isCtor(p, "obj") || isCtor(p, "fld") || isCtor(p, "elem") {
		return
	}
	x.oblige(st, "safety", "nil-deref", mkNot(mkEq(p, tNil)), x.posOf(in), nil)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) step(fr *Frame, in ssa.Instruction, st *State) {
	set := func(v ssa.Value, r Value) { fr.env[v] = r }
	switch in := in.(type) {
	case *ssa.Alloc:
		// a local that does not escape the iteration is a fresh object every time
		r := st.alloc()
		set(in, r)
	case *ssa.BinOp:
		set(in, x.binop(fr, in, st))
	case *ssa.UnOp:
		x.unop(fr, in, st)
	case *ssa.ChangeType:
		set(in, x.val(fr, in.X))
	case *ssa.Convert:
		set(in, x.convert(st, x.val(fr, in.X), in.X.Type(), in.Type(), in))
	case *ssa.ChangeInterface:
		set(in, x.val(fr, in.X))
	case *ssa.MakeInterface:
		set(in, x.mkIface(st, x.val(fr, in.X), in.X.Type()))
	case *ssa.Extract:
		tv := x.val(fr, in.Tuple)
		set(in, tv.(TupleV)[in.Index])
	case *ssa.FieldAddr:
		p := x.term(fr, in.X)
		x.nilCheck(st, p, in)
		set(in, mkFld(p, fieldID(deref(in.X.Type()), in.Field)))
	case *ssa.Field:
		set(in, x.val(fr, in.X).(StructV).f[in.Field])
	case *ssa.IndexAddr:
		i := x.term(fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			sv := x.val(fr, in.X).(SliceV)
			x.oblige(st, "safety", "index-in-range", mkAnd(mkGe0(i), mkLt(i, sv.len)), x.posOf(in), nil)
			set(in, mkElem2(sv.arr, mkAdd(sv.off, i)))
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			p := x.term(fr, in.X)
			x.nilCheck(st, p, in)
			x.oblige(st, "safety", "index-in-range", mkAnd(mkGe0(i), mkLt(i, mkInt(arr.Len()))), x.posOf(in), nil)
			set(in, mkElem2(p, i))
		default:
			panic(unsupported("IndexAddr " + in.X.Type().String()))
		}
	case *ssa.Index:
		i := x.term(fr, in.Index)
		switch xv := x.val(fr, in.X).(type) {
		case ArrayV:
			x.oblige(st, "safety", "index-in-range", mkAnd(mkGe0(i), mkLt(i, mkInt(xv.n))), x.posOf(in), nil)
			set(in, arrIndex(xv, in.Type(), i))
		case *Term:
			x.oblige(st, "safety", "index-in-range", mkAnd(mkGe0(i), mkLt(i, mkSlen(xv))), x.posOf(in), nil)
			set(in, mkSat(xv, i))
		default:
			panic(unsupported("Index"))
		}
	case *ssa.Lookup:
		x.lookup(fr, in, st)
	case *ssa.MapUpdate:
		m := x.term(fr, in.Map)
		mt := in.Map.Type().Underlying().(*types.Map)
		x.oblige(st, "safety", "nil-map-write", mkNot(mkEq(m, tNil)), x.posOf(in), nil)
		x.mapStore(st, mt, m, x.term(fr, in.Key), x.val(fr, in.Value))
	case *ssa.MakeMap:
		r := st.alloc()
		set(in, r)
	case *ssa.MakeSlice:
		n := x.term(fr, in.Len)
		c := x.term(fr, in.Cap)
		x.oblige(st, "safety", "makeslice-len", mkAnd(mkGe0(n), mkLe(n, c)), x.posOf(in), nil)
		r := st.alloc()
		set(in, SliceV{r, mkInt(0), n, c})
	case *ssa.Slice:
		x.sliceOp(fr, in, st)
	case *ssa.Store:
		p := x.term(fr, in.Addr)
		x.nilCheck(st, p, in)
		st.store(p, deref(in.Addr.Type()), x.val(fr, in.Val))
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		fv := FuncV{fn: in.Fn.(*ssa.Function), bind: bs}
		fv.sym = funcRef(fv)
		set(in, fv)
	case *ssa.Range:
		x.rangeInit(fr, in, st)
	case *ssa.Next:
		x.rangeNext(fr, in, st)
	case *ssa.TypeAssert:
		x.typeAssert(fr, in, st)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func mkElem2(arr, i *Term) *Term {
	return mapIteRef(arr, func(a *Term) *Term { return mkElem(a, i) })
}

func arrIndex(av ArrayV, elem types.Type, i *Term) Value {
	var ts []*Term
	for _, l := range av.leaves {
		ts = append(ts, mkSelect(l, i))
	}
	v, _ := unflatten(elem, ts)
	return v
}

func (x *Exec) unop(fr *Frame, in *ssa.UnOp, st *State) {
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if v, ok := x.globalConst(g, st); ok {
				fr.env[in] = v
				return
			}
		}
		p := x.term(fr, in.X)
		x.nilCheck(st, p, in)
		fr.env[in] = st.load(p, in.Type())
	case token.NOT:
		fr.env[in] = mkNot(x.term(fr, in.X))
	case token.SUB:
		fr.env[in] = wrapInt(in.Type(), mkNeg(x.term(fr, in.X)))
	case token.XOR:
		lo, _, bits, signed, ok := intRange(in.Type())
		_ = lo
		if !ok {
			panic(unsupported("xor"))
		}
		if signed {
			fr.env[in] = mkSub(mkInt(-1), x.term(fr, in.X))
		} else {
			fr.env[in] = mkSub(mkRatS(new(big.Rat).SetInt(new(big.Int).Sub(pow2(bits), big.NewInt(1))), SInt), x.term(fr, in.X))
		}
	default:
		panic(unsupported("unop " + in.Op.String()))
	}
}

func wrapInt(t types.Type, v *Term) *Term {
	lo, hi, bits, signed, ok := intRange(t)
	if !ok || v.sort != SInt {
		return v
	}
	if l, h, k := bounds(v); k && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return v
	}
	if bits == 64 {
		return v // mathematical (stated assumption)
	}
	m := mkRatS(new(big.Rat).SetInt(pow2(bits)), SInt)
	if !signed {
		return mkModI(v, m)
	}
	h := mkRatS(new(big.Rat).SetInt(pow2(bits-1)), SInt)
	return mkSub(mkModI(mkAdd(v, h), m), h)
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) binop(fr *Frame, in *ssa.BinOp, st *State) Value {
	switch in.Op {
	case token.EQL, token.NEQ:
		e := x.valEq(st, x.val(fr, in.X), x.val(fr, in.Y), in.X.Type())
		if in.Op == token.NEQ {
			e = mkNot(e)
		}
		return e
	}
	a, b := x.term(fr, in.X), x.term(fr, in.Y)
	return x.arith(st, in.Op, a, b, in.X.Type(), in.Type(), x.posOf(in))
}

func (x *Exec) valEq(st *State, a, b Value, t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Slice:
		// only comparison with nil is legal
		av, bv := a.(SliceV), b.(SliceV)
		if bv.arr == tNil {
			return mkEq(av.arr, tNil)
		}
		return mkEq(bv.arr, tNil)
	case *types.Interface:
		av, aok := a.(IfaceV)
		bv, bok := b.(IfaceV)
		if !aok || !bok {
			panic(unsupported("iface eq"))
		}
		if bv.tag == mkInt(0) {
			return mkEq(av.tag, mkInt(0))
		}
		if av.tag == mkInt(0) {
			return mkEq(bv.tag, mkInt(0))
		}
		return mkAnd(mkEq(av.tag, bv.tag), mkEq(av.val, bv.val))
	}
	fa, fb := flatten(t, a), flatten(t, b)
	var cs []*Term
	for i := range fa {
		if fa[i].sort.isArr() {
			panic(unsupported("array equality"))
		}
		cs = append(cs, mkEq(fa[i], fb[i]))
	}
	return mkAnd(cs...)
}

func trailingZeros(t *Term) uint {
	l := toLin(t)
	tz := uint(64)
	upd := func(c *big.Rat) {
		if c.Sign() == 0 {
			return
		}
		if !c.IsInt() {
			tz = 0
			return
		}
		z := c.Num().TrailingZeroBits()
		if z < tz {
			tz = z
		}
	}
	upd(l.k)
	for _, c := range l.m {
		upd(c)
	}
	return tz
}

func mkBitAnd(a, b *Term) *Term {
	if isConst(a) {
		a, b = b, a
	}
	if isConst(a) && isConst(b) {
		return mkRatS(new(big.Rat).SetInt(new(big.Int).And(a.r.Num(), b.r.Num())), SInt)
	}
	if isConst(b) && b.r.Sign() >= 0 {
		c := b.r.Num()
		res := mkInt(0)
		i := 0
		n := c.BitLen()
		for i < n {
			if c.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n && c.Bit(j) == 1 {
				j++
			}
			p := mkModI(mkDivI(a, mkRatS(new(big.Rat).SetInt(pow2(uint(i))), SInt)), mkRatS(new(big.Rat).SetInt(pow2(uint(j-i))), SInt))
			res = mkAdd(res, mkScale(new(big.Rat).SetInt(pow2(uint(i))), p))
			i = j
		}
		return res
	}
	if isConst(b) { // two's complement: a & b == a - (a & ^b)
		c := new(big.Int).Not(b.r.Num())
		return mkSub(a, mkBitAnd(a, mkRatS(new(big.Rat).SetInt(c), SInt)))
	}
	return mkApp("bitand", SInt, a, b)
}

func mkBitOr(a, b *Term) *Term {
	if isConst(a) {
		a, b = b, a
	}
	if isConst(a) && isConst(b) {
		return mkRatS(new(big.Rat).SetInt(new(big.Int).Or(a.r.Num(), b.r.Num())), SInt)
	}
	dis := func(a, b *Term) bool {
		lo, hi, ok := bounds(b)
		if !ok || lo.Sign() < 0 {
			return false
		}
		la, _, ok := bounds(a)
		if !ok || la.Sign() < 0 {
			return false
		}
		return uint(hi.BitLen()) <= trailingZeros(a)
	}
	if dis(a, b) || dis(b, a) {
		return mkAdd(a, b)
	}
	if isConst(b) && b.r.Sign() >= 0 {
		return mkSub(mkAdd(a, b), mkBitAnd(a, b))
	}
	return mkApp("bitor", SInt, a, b)
}

func (x *Exec) arith(st *State, op token.Token, a, b *Term, xt, rt types.Type, pos string) *Term {
	if isStringT(xt) {
		switch op {
		case token.ADD:
			return mkCat(a, b)
		case token.LSS:
			return mkApp("str_lt", SBool, a, b)
		case token.GTR:
			return mkApp("str_lt", SBool, b, a)
		case token.LEQ:
			return mkNot(mkApp("str_lt", SBool, b, a))
		case token.GEQ:
			return mkNot(mkApp("str_lt", SBool, a, b))
		}
	}
	switch op {
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLe(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.GEQ:
		return mkLe(b, a)
	case token.ADD:
		return wrapInt(rt, mkAdd(a, b))
	case token.SUB:
		d := mkSub(a, b)
		if lo, _, bits, signed, ok := intRange(rt); ok && !signed && bits == 64 {
			_ = lo
			if l, _, k := bounds(d); k && l.Sign() >= 0 {
				return d
			}
			if st.known(mkGe0(d)) {
				return d
			}
			return mkIte(mkGe0(d), d, mkAdd(d, mkRatS(new(big.Rat).SetInt(pow2(64)), SInt)))
		}
		return wrapInt(rt, d)
	case token.MUL:
		return wrapInt(rt, mkMul(a, b))
	case token.QUO:
		if isFloatT(xt) {
			return mkRDiv(a, b)
		}
		x.oblige(st, "safety", "div-by-zero", mkNot(mkEq(b, mkInt(0))), pos, nil)
		return goDiv(a, b, xt)
	case token.REM:
		x.oblige(st, "safety", "div-by-zero", mkNot(mkEq(b, mkInt(0))), pos, nil)
		if nonNeg(a, xt) && nonNeg(b, xt) {
			return mkModI(a, b)
		}
		return mkSub(a, mkMul(b, goDiv(a, b, xt)))
	case token.AND:
		if a.sort == SBool {
			return mkAnd(a, b)
		}
		return mkBitAnd(a, b)
	case token.OR:
		if a.sort == SBool {
			return mkOr(a, b)
		}
		return mkBitOr(a, b)
	case token.XOR:
		if isConst(a) {
			a, b = b, a
		}
		return mkSub(mkAdd(a, b), mkScale(ratI(2), mkBitAnd(a, b)))
	case token.AND_NOT:
		return mkSub(a, mkBitAnd(a, b))
	case token.SHL:
		if n, ok := constInt(b); ok && n >= 0 && n < 64 {
			return wrapInt(rt, mkScale(new(big.Rat).SetInt(pow2(uint(n))), a))
		}
		return wrapInt(rt, mkMul(a, mkApp("pow2", SInt, b)))
	case token.SHR:
		if n, ok := constInt(b); ok && n >= 0 {
			return mkDivI(a, mkRatS(new(big.Rat).SetInt(pow2(uint(n))), SInt))
		}
		return mkDivI(a, mkApp("pow2", SInt, b))
	}
	panic(unsupported("binop " + op.String()))
}

func nonNeg(t *Term, typ types.Type) bool {
	if lo, _, ok := bounds(t); ok && lo.Sign() >= 0 {
		return true
	}
	_, _, _, signed, ok := intRange(typ)
	return ok && !signed
}

func goDiv(a, b *Term, t types.Type) *Term {
	if nonNeg(a, t) && nonNeg(b, t) {
		return mkDivI(a, b)
	}
	if isConst(b) && b.r.Sign() > 0 {
		return mkIte(mkGe0(a), mkDivI(a, b), mkNeg(mkDivI(mkNeg(a), b)))
	}
	return mkIte(mkGt0(b),
		mkIte(mkGe0(a), mkDivI(a, b), mkNeg(mkDivI(mkNeg(a), b))),
		mkIte(mkGe0(a), mkNeg(mkDivI(a, mkNeg(b))), mkDivI(mkNeg(a), mkNeg(b))))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func mkRuneStr(r *Term) *Term {
	if n, ok := constInt(r); ok {
		return mkLit(string(rune(n)))
	}
	return mkApp("rune_str", SStr, r)
}

func (x *Exec) convert(st *State, v Value, from, to types.Type, in ssa.Instruction) Value {
	switch {
	case isIntT(from) && isIntT(to):
		t := v.(*Term)
		lo, hi, bits, signed, _ := intRange(to)
		flo, fhi, _, _, _ := intRange(from)
		if l, h, ok := bounds(t); ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return t
		}
		if flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
			return t
		}
		if bits == 64 && signed {
			return t // uint64 -> int: mathematical (assumption: < 2^63)
		}
		if bits == 64 { // signed -> uint64
			if st.known(mkGe0(t)) {
				return t
			}
			return mkIte(mkGe0(t), t, mkAdd(t, mkRatS(new(big.Rat).SetInt(pow2(64)), SInt)))
		}
		return wrapInt(to, t)
	case isIntT(from) && isFloatT(to):
		return mkToReal(v.(*Term))
	case isFloatT(from) && isFloatT(to):
		return v
	case isFloatT(from) && isIntT(to):
		t := v.(*Term)
		if t.op == "real" {
			q := new(big.Int).Quo(t.r.Num(), t.r.Denom())
			return mkRatS(new(big.Rat).SetInt(q), SInt)
		}
		return wrapInt(to, mkFtoi(t))
	case isStringT(from) && isByteSlice(to):
		return st.newBytes(v.(*Term))
	case isByteSlice(from) && isStringT(to):
		return st.strOfSlice(v.(SliceV))
	case isStringT(from) && isRuneSlice(to):
		s := v.(*Term)
		r := st.alloc()
		st.writeComp("E:int32", ArrS(SInt, SInt), r, mkApp("runes_of", ArrS(SInt, SInt), s))
		n := mkNRunes(s)
		st.assume(mkGe0(n))
		return SliceV{r, mkInt(0), n, n}
	case isRuneSlice(from) && isStringT(to):
		sv := v.(SliceV)
		a := st.readComp("E:int32", ArrS(SInt, SInt), sv.arr)
		return mkApp("str_of_runes", SStr, a, sv.off, sv.len)
	case isIntT(from) && isStringT(to):
		return mkRuneStr(v.(*Term))
	case isStringT(from) && isStringT(to):
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s", from, to)))
}

func mkFtoi(t *Term) *Term {
	if t.op == "app" && t.name == "to_real" {
		return t.args[0]
	}
	if t.op == "real" {
		q := new(big.Int).Quo(t.r.Num(), t.r.Denom())
		return mkRatS(new(big.Rat).SetInt(q), SInt)
	}
	return mkApp("ftoi", SInt, t)
}

func mkNRunes(s *Term) *Term {
	if s.op == "lit" {
		return mkInt(int64(len([]rune(s.str))))
	}
	return mkApp("nrunes", SInt, s)
}

var boxMu sync.Mutex
var boxes = map[*Term]Value{}

func (x *Exec) mkIface(st *State, v Value, t types.Type) Value {
	tag := typeTag(t)
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return IfaceV{tag, v.(*Term)}
	}
	r := st.alloc()
	b := mkFld(r, internName("box")) // boxed value: keep opaque but recoverable
	boxMu.Lock()
	boxes[b] = v
	boxTypes[b] = t
	boxMu.Unlock()
	return IfaceV{tag, b}
}

func (x *Exec) sliceOp(fr *Frame, in *ssa.Slice, st *State) {
	lo := mkInt(0)
	if in.Low != nil {
		lo = x.term(fr, in.Low)
	}
	pos := x.posOf(in)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.term(fr, in.X)
		hi := mkSlen(s)
		if in.High != nil {
			hi = x.term(fr, in.High)
		}
		x.oblige(st, "safety", "slice-in-range", mkAnd(mkGe0(lo), mkLe(lo, hi), mkLe(hi, mkSlen(s))), pos, nil)
		fr.env[in] = mkSsub(s, lo, hi)
	case *types.Slice:
		sv := x.val(fr, in.X).(SliceV)
		hi := sv.len
		if in.High != nil {
			hi = x.term(fr, in.High)
		}
		cp := sv.cap
		if in.Max != nil {
			cp = x.term(fr, in.Max)
		}
		x.oblige(st, "safety", "slice-in-range", mkAnd(mkGe0(lo), mkLe(lo, hi), mkLe(hi, cp), mkLe(cp, sv.cap)), pos, nil)
		fr.env[in] = SliceV{sv.arr, mkAdd(sv.off, lo), mkSub(hi, lo), mkSub(cp, lo)}
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		p := x.term(fr, in.X)
		x.nilCheck(st, p, in)
		n := mkInt(arr.Len())
		hi := n
		if in.High != nil {
			hi = x.term(fr, in.High)
		}
		x.oblige(st, "safety", "slice-in-range", mkAnd(mkGe0(lo), mkLe(lo, hi), mkLe(hi, n)), pos, nil)
		fr.env[in] = SliceV{p, lo, mkSub(hi, lo), mkSub(n, lo)}
	default:
		panic(unsupported("slice of " + in.X.Type().String()))
	}
}

// ---- maps ----

func mapComps(mt *types.Map) (dom string, kS Sort, vals []ecomp, ln string) {
	k := typeKey(mt)
	kl := leavesOf(mt.Key())
	if len(kl) != 1 {
		panic(unsupported("map key " + mt.Key().String()))
	}
	kS = kl[0].sort
	dom = "M:" + k + ":dom"
	ln = "M:" + k + ":len"
	for _, l := range leavesOf(mt.Elem()) {
		vals = append(vals, ecomp{"M:" + k + ":val" + l.suffix, l.sort, l.typ})
	}
	return
}

func (x *Exec) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	if m == tNil {
		return tFalse
	}
	dom, kS, _, _ := mapComps(mt)
	d := st.readComp(dom, ArrS(kS, SBool), m)
	c := mkSelect(d, k)
	if isCtor(m, "obj") {
		return c
	}
	return mkAnd(mkNot(mkEq(m, tNil)), c)
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (Value, *Term) {
	ok := x.mapHas(st, mt, m, k)
	_, kS, vals, _ := mapComps(mt)
	var ts []*Term
	for _, v := range vals {
		a := st.readComp(v.comp, ArrS(kS, v.sort), m)
		t := mkSelect(a, k)
		hintType(t, v.typ)
		ts = append(ts, mkIte(ok, t, zeroOfSort(v.sort)))
	}
	v, _ := unflatten(mt.Elem(), ts)
	st.assumeTyped(mt.Elem(), v)
	return v, ok
}

func (x *Exec) mapStore(st *State, mt *types.Map, m, k *Term, v Value) {
	dom, kS, vals, ln := mapComps(mt)
	d := st.readComp(dom, ArrS(kS, SBool), m)
	has := mkSelect(d, k)
	l := st.readComp(ln, SInt, m)
	st.writeComp(ln, SInt, m, mkIte(has, l, mkAddI(l, 1)))
	st.writeComp(dom, ArrS(kS, SBool), m, mkStore(d, k, tTrue))
	ts := flatten(mt.Elem(), v)
	for i, c := range vals {
		a := st.readComp(c.comp, ArrS(kS, c.sort), m)
		st.writeComp(c.comp, ArrS(kS, c.sort), m, mkStore(a, k, ts[i]))
	}
	st.logTyped(m, mt)
}

func (x *Exec) lookup(fr *Frame, in *ssa.Lookup, st *State) {
	if isStringT(in.X.Type()) {
		s := x.term(fr, in.X)
		i := x.term(fr, in.Index)
		x.oblige(st, "safety", "index-in-range", mkAnd(mkGe0(i), mkLt(i, mkSlen(s))), x.posOf(in), nil)
		fr.env[in] = mkSat(s, i)
		return
	}
	mt := in.X.Type().Underlying().(*types.Map)
	v, ok := x.mapGet(st, mt, x.term(fr, in.X), x.term(fr, in.Index))
	if in.CommaOk {
		fr.env[in] = TupleV{v, ok}
	} else {
		fr.env[in] = v
	}
}

// ---- range ----

type iterInfo struct {
	str  *Term
	dom  *Term
	m    *Term
	mt   *types.Map
	vals []*Term
	n    *Term
	id   string
}

func (x *Exec) rangeInit(fr *Frame, in *ssa.Range, st *State) {
	key := freshName("it")
	ii := &iterInfo{id: key}
	if isStringT(in.X.Type()) {
		ii.str = x.term(fr, in.X)
		ii.n = mkNRunes(ii.str)
	} else {
		mt := in.X.Type().Underlying().(*types.Map)
		m := x.term(fr, in.X)
		ii.m, ii.mt = m, mt
		dom, kS, vals, _ := mapComps(mt)
		ii.dom = st.readComp(dom, ArrS(kS, SBool), m)
		if m == tNil {
			ii.dom = mkConstArr(ArrS(kS, SBool), tFalse)
		}
		for _, v := range vals {
			ii.vals = append(ii.vals, st.readComp(v.comp, ArrS(kS, v.sort), m))
		}
		ii.n = mkApp("mapcard_"+sortTag(kS), SInt, ii.dom)
		regMapAxioms(kS)
	}
	st.assume(mkGe0(ii.n))
	iterMu.Lock()
	iterTab[key] = ii
	iterMu.Unlock()
	st.iters[key] = mkInt(0)
	fr.env[in] = IterV{key}
}

var iterMu sync.Mutex
var iterTab = map[string]*iterInfo{}
var mapAxDone = map[Sort]bool{}

func regMapAxioms(kS Sort) {
	iterMu.Lock()
	defer iterMu.Unlock()
	if mapAxDone[kS] {
		return
	}
	mapAxDone[kS] = true
	t := sortTag(kS)
	d := "(Array " + string(kS) + " Bool)"
	declOverride["mapcard_"+t] = "(declare-fun mapcard_" + t + " (" + d + ") Int)"
	declOverride["mapkey_"+t] = "(declare-fun mapkey_" + t + " (" + d + " Int Int) " + string(kS) + ")"
	declOverride["mapidx_"+t] = "(declare-fun mapidx_" + t + " (" + d + " Int " + string(kS) + ") Int)"
	userAxioms = append(userAxioms, userAxiom{needs: []string{"mapkey_" + t}, text: strings.ReplaceAll(`(assert (forall ((d DD) (it Int) (k Int)) (! (=> (and (<= 0 k) (< k (mapcard_TT d))) (and (select d (mapkey_TT d it k)) (= (mapidx_TT d it (mapkey_TT d it k)) k))) :pattern ((mapkey_TT d it k)))))
(assert (forall ((d DD) (it Int) (x KK)) (! (=> (select d x) (and (<= 0 (mapidx_TT d it x)) (< (mapidx_TT d it x) (mapcard_TT d)) (= (mapkey_TT d it (mapidx_TT d it x)) x))) :pattern ((mapidx_TT d it x)))))
`, "TT", t)})
	u := &userAxioms[len(userAxioms)-1]
	u.text = strings.ReplaceAll(strings.ReplaceAll(u.text, "DD", d), "KK", string(kS))
}

func (x *Exec) rangeNext(fr *Frame, in *ssa.Next, st *State) {
	iv := x.val(fr, in.Iter).(IterV)
	iterMu.Lock()
	ii := iterTab[iv.key]
	iterMu.Unlock()
	k := st.iters[iv.key]
	ok := mkLt(k, ii.n)
	if ii.str != nil {
		key := mkRuneOff(ii.str, k)
		r := mkRuneAt(ii.str, k)
		fr.env[in] = TupleV{ok, key, r}
	} else {
		kS := ii.dom.sort.arrIdx()
		kt := mkApp("mapkey_"+sortTag(kS), kS, ii.dom, mkInt(int64(internName(ii.id))), k)
		if kS == SInt {
			hintType(kt, ii.mt.Key())
		}
		var ts []*Term
		for _, a := range ii.vals {
			ts = append(ts, mkSelect(a, kt))
		}
		v, _ := unflatten(ii.mt.Elem(), ts)
		fr.env[in] = TupleV{ok, kt, v}
	}
	st.iters[iv.key] = mkIte(ok, mkAddI(k, 1), k)
	if ok != tTrue && ok != tFalse {
		// the If following Next splits on ok; keep k symbolic but simple
		st.iters[iv.key] = mkAddI(k, 1)
	}
}

func mkRuneAt(s, k *Term) *Term {
	t := mkApp("rune_at", SInt, s, k)
	if !t.bound {
		setBounds(t, big.NewInt(0), big.NewInt(0x10FFFF))
	}
	return t
}

func mkRuneOff(s, k *Term) *Term {
	if isInt(k, 0) {
		return mkInt(0)
	}
	return mkApp("rune_off", SInt, s, k)
}

func (x *Exec) typeAssert(fr *Frame, in *ssa.TypeAssert, st *State) {
	iv := x.val(fr, in.X).(IfaceV)
	if types.IsInterface(in.AssertedType) {
		panic(unsupported("interface type assertion"))
	}
	tag := typeTag(in.AssertedType)
	ok := mkEq(iv.tag, tag)
	var v Value
	switch in.AssertedType.Underlying().(type) {
	case *types.Pointer, *types.Map:
		v = iv.val
	default:
		boxMu.Lock()
		bv, have := boxes[iv.val]
		boxMu.Unlock()
		if have {
			v = bv
		} else {
			v = st.symValue("unbox", in.AssertedType)
		}
	}
	if in.CommaOk {
		fr.env[in] = TupleV{v, ok}
		return
	}
	x.oblige(st, "safety", "type-assert", ok, x.posOf(in), nil)
	fr.env[in] = v
}
