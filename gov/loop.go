package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type wset struct {
	sort Sort
	refs []*Term
	noFr bool
}

func (w *wset) has(r *Term) bool {
	for _, x := range w.refs {
		if x == r {
			return true
		}
	}
	return false
}

// loop variable: a header phi, a stable written cell, a written map or an iterator counter
type lvar struct {
	name string
	typ  types.Type
	kind string // phi cell map iter inv
	ctr  bool
	phi  int
	ref  *Term
	key  string
	val  Value
}

type loopCtx struct {
	phis []Value
	st   *State
}

func (v *lvar) get(c loopCtx) Value {
	switch v.kind {
	case "phi":
		return c.phis[v.phi]
	case "cell":
		return c.st.load(v.ref, v.typ)
	case "map":
		return v.ref
	case "iter":
		return c.st.iters[v.key]
	case "inv":
		return v.val
	}
	panic("lvar")
}

type cand struct {
	name string
	tmpl bool
	at   func(c loopCtx) *Term
	n    int
}

func symNum(n string) int {
	i := strings.LastIndexByte(n, '!')
	if i < 0 {
		return 0
	}
	k := 0
	for _, c := range n[i+1:] {
		if c < '0' || c > '9' {
			return 0
		}
		k = k*10 + int(c-'0')
	}
	return k
}

// stableTerm: mentions no symbol created after n0.
func stableTerm(t *Term, n0 int) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if (t.op == "var" || t.op == "app") && symNum(t.name) > n0 {
			return false
		}
		for _, a := range t.args {
			if !walk(a) {
				return false
			}
		}
		return true
	}
	return walk(t)
}

func curSym() int {
	tmu.Lock()
	defer tmu.Unlock()
	return symCount
}

func (x *Exec) enterLoop(fr *Frame, li *loopInfo, prev *ssa.BasicBlock, st *State, k Cont) {
	phis := phisOf(li.head)
	vals0 := x.phiVals(fr, li.head, prev)
	// flatten the entry values of the phis
	var leaf0 [][]*Term
	for i, p := range phis {
		leaf0 = append(leaf0, flatten(p.Type(), vals0[i]))
	}
	n0 := curSym()
	entryAl := st.al
	W := map[string]*wset{}
	fixed := make([][]bool, len(phis))
	for i := range fixed {
		fixed[i] = make([]bool, len(leaf0[i]))
	}
	iterMoves := map[string]bool{}
	entry := loopCtx{vals0, st}
	var typed []*Write
	noteTyped := func(bs []back) {
		lim := 0
		if st.wlog != nil {
			lim = st.wlog.n
		}
		for _, b := range bs {
			for w := b.st.wlog; w != nil && w.n > lim; w = w.up {
				if w.typ == nil || !stableTerm(w.ref, n0) || freshSince(w.ref, entryAl) {
					continue
				}
				dup := false
				for _, o := range typed {
					dup = dup || o.ref == w.ref && typeKey(o.typ) == typeKey(w.typ)
				}
				if !dup {
					typed = append(typed, w)
				}
			}
		}
	}

	mkHead := func() (*State, *Frame, loopCtx) {
		h := st.clone()
		al := newAl("al")
		h.assume(mkGe(al, entryAl))
		h.al = al
		stamp, _ := stampOfAl(al)
		var comps []string
		for c := range W {
			comps = append(comps, c)
		}
		sort.Strings(comps)
		for _, c := range comps {
			w := W[c]
			m := h.mem(c, w.sort)
			nm := freshName("L_" + c)
			setBirth(nm, stamp)
			h.heap[c] = &Mem{kind: 2, prev: m, name: nm, sort: w.sort, al: al, al0: entryAl, w: w.refs, noFr: w.noFr, depth: m.depth + 1}
			// what the loop may write counts as written, for enclosing loops and the function's frame
			if w.noFr {
				h.logWrite(c, nil)
				continue
			}
			h.logWrite(c, mkObj(entryAl)) // objects born in the loop
			for _, r := range w.refs {
				h.logWrite(c, r)
			}
		}
		for _, w := range typed {
			h.logTyped(w.ref, w.typ)
			h.wlog.mapw = isMapWrite(w)
		}
		f := fr.clone()
		var pv []Value
		for i, p := range phis {
			ls := leavesOf(p.Type())
			var ts []*Term
			for j, l := range ls {
				if fixed[i][j] {
					ts = append(ts, leaf0[i][j])
					continue
				}
				nm := freshName(phiName(p) + l.suffix)
				setBirth(nm, stamp)
				v := mkVar(nm, l.sort)
				hintType(v, l.typ)
				ts = append(ts, v)
			}
			v, _ := unflatten(p.Type(), ts)
			h.assumeTyped(p.Type(), v)
			f.env[p] = v
			pv = append(pv, v)
		}
		for key := range iterMoves {
			nm := freshName("k")
			kv := mkVar(nm, SInt)
			setBounds(kv, pow2(0).SetInt64(0), pow2(62))
			h.iters[key] = kv
		}
		return h, f, loopCtx{pv, h}
	}

	runBody := func(mode Mode, h *State, f *Frame, cut bool, kk Cont, onb func(b back)) {
		sm := x.mode
		x.mode = mode
		f.loops[li.head] = &LoopRun{head: li.head, body: li.body, cut: cut, onBack: func(s *State, bf *Frame, pr *ssa.BasicBlock) {
			onb(back{s, x.phiVals(bf, li.head, pr)})
		}}
		x.runInstrs(f, li.head, 0, h, kk)
		x.mode = sm
	}
	noK := func(*State, []Value) {}

	// ---- frame discovery ----
	assumedCover := map[string]bool{}
	uncovered := func(b back, headCtx loopCtx, solver bool) bool {
		changed := false
		lim := 0
		if st.wlog != nil {
			lim = st.wlog.n
		}
		for w := b.st.wlog; w != nil && w.n > lim; w = w.up {
			if w.comp == "" {
				continue
			}
			ws := W[w.comp]
			if w.ref == nil { // whole component havocked
				if ws == nil || !ws.noFr {
					W[w.comp] = &wset{sort: b.st.heap[w.comp].sort, noFr: true}
					changed = true
				}
				continue
			}
			if ws != nil && ws.noFr {
				continue
			}
			for _, gl := range w.leaves() {
				r := gl.t
				if freshSince(r, entryAl) {
					if ws == nil {
						// objects born in the loop: the component may hold them
						ws = &wset{sort: b.st.heap[w.comp].sort}
						W[w.comp] = ws
						changed = true
					}
					continue
				}
				if ws == nil {
					ws = &wset{sort: b.st.heap[w.comp].sort}
					W[w.comp] = ws
					changed = true
				}
				if ws.has(r) {
					continue
				}
				if stableTerm(r, n0) {
					ws.refs = append(ws.refs, r)
					changed = true
					continue
				}
				if !solver {
					// refs held in loop variables: assume "entry value or fresh" and check later
					ok := false
					for i := range phis {
						hl := flatten(phis[i].Type(), headCtx.phis[i])
						for j := range hl {
							if hl[j] == r && leaf0[i][j].sort == SRef {
								for _, e := range iteLeaves(leaf0[i][j]) {
									if e != tNil && !freshSince(e, entryAl) && !ws.has(e) {
										ws.refs = append(ws.refs, e)
										changed = true
									}
								}
								ok = true
							}
						}
					}
					if !ok && r.op == "app" && len(r.args) == 1 && strings.HasPrefix(r.name, "L_") && stableTerm(r.args[0], n0) {
						// value of a stable written cell
						comp := r.name[2:]
						if i := strings.LastIndexByte(comp, '!'); i >= 0 {
							comp = comp[:i]
						}
						e := st.readComp(comp, SRef, r.args[0])
						for _, e := range iteLeaves(e) {
							if e != tNil && !ws.has(e) {
								ws.refs = append(ws.refs, e)
								changed = true
							}
						}
						ok = true
					}
					if ok || assumedCover[w.comp] {
						assumedCover[w.comp] = true
						continue
					}
					ws.noFr = true
					changed = true
					continue
				}
				c := mkOr(mkGe(mkRid(r), entryAl), mkEq(r, tNil)) // nothing is stored at nil
				for _, e := range ws.refs {
					c = mkOr(c, mkEq(r, e))
				}
				if !x.holdsT(b.st, mkImp(gl.g, c)) {
					if os.Getenv("GOV_LOOP") != "" {
						fmt.Fprintf(os.Stderr, "  noFrame %s ref %s\n", w.comp, r)
					}
					ws.noFr = true
					changed = true
				}
			}
		}
		for key, t := range b.st.iters {
			if t0, ok := st.iters[key]; ok && t0 != t && !iterMoves[key] {
				iterMoves[key] = true
				changed = true
			}
		}
		return changed
	}

	var conds []*Term
	var headC loopCtx
	var backs []back
	for round := 0; ; round++ {
		if round > 30 {
			panic(unsupported("loop frame discovery diverges"))
		}
		h, f, hc := mkHead()
		headC = hc
		backs = nil
		savedC, savedV := x.dryConds, x.dryVis
		x.dryConds, x.dryVis = nil, map[string]int{}
		runBody(modeDry, h, f, true, noK, func(b back) { backs = append(backs, b) })
		conds = x.dryConds
		x.dryConds, x.dryVis = savedC, savedV
		ch := false
		for _, b := range backs {
			if uncovered(b, hc, false) {
				ch = true
			}
		}
		// phi leaves that never change
		for i, p := range phis {
			hl := flatten(p.Type(), hc.phis[i])
			for j := range hl {
				if fixed[i][j] {
					continue
				}
				same := true
				for _, b := range backs {
					bl := flatten(p.Type(), b.vals[i])
					if bl[j] != hl[j] && bl[j] != leaf0[i][j] {
						same = false
					}
				}
				if same {
					fixed[i][j] = true
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	noteTyped(backs)
	if x.mode == modeDry {
		h, f, _ := mkHead()
		runBody(modeDry, h, f, false, k, func(back) {})
		return
	}

	// ---- candidates ----
	var cands []*cand
	for attempt := 0; ; attempt++ {
		if attempt > 6 {
			panic(unsupported("loop frames unstable"))
		}
		vars := x.loopVars(fr, li, phis, st, headC, backs, n0, iterMoves)
		cands = x.genCands(fr, vars, entry, headC, backs, conds, n0, entryAl)
		loopKey := fmt.Sprintf("%p/%d/", fr.fn, li.idx)
		if len(x.memoDrop) > 0 {
			var nc []*cand
			for _, c := range cands {
				if x.memoDrop[loopKey+c.name] {
					x.memoHits++
				} else {
					nc = append(nc, c)
				}
			}
			cands = nc
		}
		atEntry := cands
		// entry check
		cands = x.filter(st, cands, entry)
		again := false
		for iter := 0; ; iter++ {
			h, f, hc := mkHead()
			for _, c := range cands {
				h.assume(c.at(hc))
			}
			dropped := map[*cand]bool{}
			fr2 := false
			runBody(modeHoudini, h, f, true, noK, func(b back) {
				if b.st.dead {
					return
				}
				if uncovered(b, hc, true) {
					fr2 = true
					return
				}
				for i, p := range phis {
					bl := flatten(p.Type(), b.vals[i])
					for j := range bl {
						if fixed[i][j] && bl[j] != leaf0[i][j] {
							fixed[i][j] = false
							fr2 = true
						}
					}
				}
				if fr2 {
					return
				}
				var live []*cand
				for _, c := range cands {
					if !dropped[c] {
						live = append(live, c)
					}
				}
				keep := x.filter(b.st, live, loopCtx{b.vals, b.st})
				ks := map[*cand]bool{}
				for _, c := range keep {
					ks[c] = true
				}
				for _, c := range live {
					if !ks[c] {
						dropped[c] = true
					}
				}
			})
			if fr2 {
				again = true
				break
			}
			if len(dropped) == 0 {
				break
			}
			var nc []*cand
			for _, c := range cands {
				if !dropped[c] {
					nc = append(nc, c)
				} else if os.Getenv("GOV_LOOP") == "2" {
					fmt.Fprintf(os.Stderr, "  drop %s\n", c.name)
				}
			}
			cands = nc
		}
		if !again {
			if x.memoDrop != nil {
				kept := map[*cand]bool{}
				for _, c := range cands {
					kept[c] = true
				}
				for _, c := range atEntry {
					if !kept[c] {
						x.memoDrop[loopKey+c.name] = true
					}
				}
			}
			break
		}
		// frames weakened: rediscover with the larger write set
		h, f, hc := mkHead()
		headC = hc
		backs = nil
		savedC, savedV := x.dryConds, x.dryVis
		x.dryConds, x.dryVis = nil, map[string]int{}
		runBody(modeDry, h, f, true, noK, func(b back) { backs = append(backs, b) })
		conds = x.dryConds
		x.dryConds, x.dryVis = savedC, savedV
		for _, b := range backs {
			uncovered(b, hc, false)
		}
	}

	// ---- real pass ----
	h, f, hc := mkHead()
	pos := fmt.Sprintf("%s/loop%d", shortFn(fr.fn), li.idx)
	var names []string
	for _, c := range cands {
		h.assume(c.at(hc))
		names = append(names, c.name)
		if x.mode == modeReal && c.tmpl {
			x.obls = append(x.obls, &Obligation{Func: shortFn(x.fn), Name: "loop-invariant " + c.name, Kind: "loop", Pos: pos, Result: "proved", Solver: "z3-new"})
		}
	}
	if os.Getenv("GOV_LOOP") != "" && x.mode == modeReal {
		fmt.Fprintf(os.Stderr, "LOOP %s invariants: %s\n", pos, strings.Join(names, " ; "))
		for c, w := range W {
			fmt.Fprintf(os.Stderr, "   W %s noFr=%v %v\n", c, w.noFr, w.refs)
		}
	}
	runBody(x.mode, h, f, false, k, func(back) {})
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

type back struct {
	st   *State
	vals []Value
}

func (x *Exec) loopVars(fr *Frame, li *loopInfo, phis []*ssa.Phi, st *State, head loopCtx, backs []back, n0 int, iters map[string]bool) []*lvar {
	var out []*lvar
	for i, p := range phis {
		v := &lvar{name: phiName(p), typ: p.Type(), kind: "phi", phi: i}
		if h, ok := head.phis[i].(*Term); ok && isIntT(p.Type()) && len(backs) > 0 {
			v.ctr = true
			for _, b := range backs {
				n, ok := b.vals[i].(*Term)
				v.ctr = v.ctr && ok && mkSub(n, h) == mkInt(1)
			}
		}
		out = append(out, v)
	}
	seen := map[string]bool{}
	lim := 0
	if st.wlog != nil {
		lim = st.wlog.n
	}
	for _, b := range backs {
		for w := b.st.wlog; w != nil && w.n > lim; w = w.up {
			if w.typ == nil || !stableTerm(w.ref, n0) || freshSince(w.ref, st.al) {
				continue
			}
			key := fmt.Sprintf("%d|%s", w.ref.id, typeKey(w.typ))
			if seen[key] {
				continue
			}
			seen[key] = true
			if w.ref.op == "ite" {
				continue
			}
			if _, ok := w.typ.Underlying().(*types.Map); ok && isMapWrite(w) {
				out = append(out, &lvar{name: "map@" + w.ref.String(), typ: w.typ, kind: "map", ref: w.ref})
				continue
			}
			out = append(out, &lvar{name: "cell@" + w.ref.String(), typ: w.typ, kind: "cell", ref: w.ref})
		}
	}
	for key := range iters {
		out = append(out, &lvar{name: "iter", typ: tInt, kind: "iter", key: key})
	}
	// loop-invariant values used inside the loop
	used := map[ssa.Value]bool{}
	for b := range li.body {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || used[v] {
					continue
				}
				if _, isC := v.(*ssa.Const); isC {
					continue
				}
				if in2, ok := v.(ssa.Instruction); ok && in2.Block() != nil && li.body[in2.Block()] {
					continue
				}
				if r, ok := fr.env[v]; ok {
					used[v] = true
					switch r.(type) {
					case *Term, SliceV:
						out = append(out, &lvar{name: "inv:" + v.Name(), typ: v.Type(), kind: "inv", val: r})
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].kind+out[i].name < out[j].kind+out[j].name })
	return out
}

func isMapWrite(w *Write) bool {
	// a typed write with a map type is a map update unless the ref is a field/cell holding a map;
	// map updates log the map object itself right after its M: components
	return w.mapw || w.up != nil && strings.HasPrefix(w.up.comp, "M:") && w.up.ref == w.ref
}

var dropMu sync.Mutex
var dropN int

// filter keeps the candidates that hold in st.
func (x *Exec) filter(st *State, cs []*cand, c loopCtx) []*cand {
	if len(cs) == 0 {
		return nil
	}
	ts := make([]*Term, len(cs))
	for i, cd := range cs {
		ts[i] = cd.at(c)
	}
	var all []*Term
	for _, t := range ts {
		if t == tFalse {
			all = nil
			break
		}
		all = append(all, t)
	}
	if all != nil && x.holds(st, mkAnd(all...)) {
		return cs
	}
	ok := make([]bool, len(cs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := range cs {
		if ts[i] == tFalse {
			continue
		}
		if ts[i] == tTrue || st.known(ts[i]) {
			ok[i] = true
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if cs[i].tmpl {
				ok[i] = x.holdsT(st, ts[i])
				if !ok[i] && os.Getenv("GOV_DROPQ") != "" {
					dropMu.Lock()
					dropN++
					f := fmt.Sprintf("/tmp/gov_drop_%d.smt2", dropN)
					fmt.Fprintf(os.Stderr, "  [%s] %s\n", f, cs[i].name)
					writeFile(f, x.mkQuery(st.pcs(), ts[i]).text+"(check-sat)\n")
					dropMu.Unlock()
				}
			} else {
				ok[i] = x.holds(st, ts[i])
			}
		}(i)
	}
	wg.Wait()
	var out []*cand
	for i, cd := range cs {
		if ok[i] {
			out = append(out, cd)
		}
	}
	return out
}

func (x *Exec) genCands(fr *Frame, vars []*lvar, entry, head loopCtx, backs []back, conds []*Term, n0 int, entryAl *Term) []*cand {
	var out []*cand
	have := map[*Term]bool{}
	add := func(name string, tmpl bool, at func(c loopCtx) *Term) {
		t := at(head)
		if t == tTrue || have[t] {
			return
		}
		if at(entry) == tFalse {
			return
		}
		have[t] = true
		out = append(out, &cand{name: name, tmpl: tmpl, at: at})
	}
	type ivar struct {
		name string
		at   func(c loopCtx) *Term
	}
	var ints []ivar
	for _, v := range vars {
		v := v
		if v.kind == "map" || v.kind == "inv" {
			continue
		}
		if v.kind == "iter" {
			iterMu.Lock()
			ii := iterTab[v.key]
			iterMu.Unlock()
			at := func(c loopCtx) *Term { return c.st.iters[v.key] }
			ints = append(ints, ivar{v.name, at})
			add("iter<=n", false, func(c loopCtx) *Term { return mkLe(at(c), ii.n) })
			continue
		}
		for j, l := range leavesOf(v.typ) {
			j, l := j, l
			at := func(c loopCtx) *Term { return flatten(v.typ, v.get(c))[j] }
			if at(head) == at(entry) {
				continue
			}
			e := at(entry)
			nm := v.name + l.suffix
			switch l.sort {
			case SInt:
				ints = append(ints, ivar{nm, at})
				if l.suffix == ".tag" {
					add(nm+"==entry", false, func(c loopCtx) *Term { return mkEq(at(c), e) })
				}
			case SRef:
				add(nm+"==entry", false, func(c loopCtx) *Term { return mkEq(at(c), e) })
				add(nm+" fresh", false, func(c loopCtx) *Term { return mkGe(mkRid(at(c)), entryAl) })
				add(nm+" entry|fresh", false, func(c loopCtx) *Term { return mkOr(mkEq(at(c), e), mkGe(mkRid(at(c)), entryAl)) })
				add(nm+"!=nil", false, func(c loopCtx) *Term { return mkNot(mkEq(at(c), tNil)) })
			case SBool:
				add(nm+"==entry", false, func(c loopCtx) *Term { return mkEq(at(c), e) })
			case SStr, SReal:
				add(nm+"==entry", false, func(c loopCtx) *Term { return mkEq(at(c), e) })
			}
		}
	}
	// integer candidates
	isV := map[*Term]int{}
	for i, v := range ints {
		isV[v.at(head)] = i
	}
	for _, v := range ints {
		v := v
		e := v.at(entry)
		add(v.name+">=entry", false, func(c loopCtx) *Term { return mkGe(v.at(c), e) })
		add(v.name+"<=entry", false, func(c loopCtx) *Term { return mkLe(v.at(c), e) })
		add(v.name+">=0", false, func(c loopCtx) *Term { return mkGe0(v.at(c)) })
	}
	// bounds from conditions
	seenC := map[*Term]bool{}
	var useCond func(t *Term)
	useCond = func(t *Term) {
		if seenC[t] {
			return
		}
		seenC[t] = true
		switch t.op {
		case "and", "or", "not":
			for _, a := range t.args {
				useCond(a)
			}
		case "ge0":
			d := t.args[0]
			if d.sort != SInt {
				return
			}
			l := toLin(d)
			for a, cf := range l.m {
				i, ok := isV[a]
				if !ok || !cf.IsInt() {
					continue
				}
				v := ints[i]
				rest := mkSub(d, mkScale(cf, a))
				if !stableTerm(rest, n0) {
					continue
				}
				if cf.Cmp(ratI(-1)) == 0 {
					for _, dl := range []int64{0, 1} {
						b := mkAddI(rest, dl)
						add(fmt.Sprintf("%s<=%s", v.name, b), false, func(c loopCtx) *Term { return mkLe(v.at(c), b) })
					}
				} else if cf.Cmp(ratI(1)) == 0 {
					for _, dl := range []int64{0, 1} {
						b := mkAddI(mkNeg(rest), -dl)
						add(fmt.Sprintf("%s>=%s", v.name, b), false, func(c loopCtx) *Term { return mkGe(v.at(c), b) })
					}
				}
			}
		case "=":
			for i := 0; i < 2; i++ {
				if k, ok := isV[t.args[i]]; ok && t.args[i].sort == SInt && stableTerm(t.args[1-i], n0) {
					v, b := ints[k], t.args[1-i]
					add(fmt.Sprintf("%s<=%s", v.name, b), false, func(c loopCtx) *Term { return mkLe(v.at(c), b) })
				}
			}
		}
	}
	for _, c := range conds {
		useCond(c)
	}
	// uniform increments
	type inc struct {
		d  *Term
		ok bool
	}
	incs := make([]inc, len(ints))
	for i, v := range ints {
		for n, b := range backs {
			d := mkSub(v.at(loopCtx{b.vals, b.st}), v.at(head))
			if !isConst(d) {
				incs[i].ok = false
				break
			}
			if n == 0 {
				incs[i] = inc{d, true}
			} else if incs[i].d != d {
				incs[i].ok = false
				break
			}
		}
	}
	for i := range ints {
		for j := range ints {
			if i == j || !incs[i].ok || !incs[j].ok || !isInt(incs[j].d, 1) {
				continue
			}
			if isInt(incs[i].d, 1) && i > j {
				continue
			}
			v, w, d := ints[i], ints[j], incs[i].d
			k := mkSub(v.at(entry), mkMul(d, w.at(entry)))
			add(fmt.Sprintf("%s-%s*%s==c", v.name, d, w.name), false, func(c loopCtx) *Term { return mkEq(mkSub(v.at(c), mkMul(d, w.at(c))), k) })
		}
	}
	// templates
	if x.con != nil {
		for _, cl := range x.con.Invs {
			x.instTemplate(cl, vars, entry, head, add)
		}
	}
	if len(out) > 400 {
		out = out[:400]
	}
	return out
}

func kindMatch(v *lvar, kind string) bool {
	if strings.HasPrefix(kind, "c:") {
		return v.kind == "inv" && kindMatch(&lvar{typ: v.typ, kind: "phi"}, kind[2:])
	}
	if v.kind == "inv" {
		return false
	}
	if v.kind == "map" {
		return kind == "map" || kind == typeKey(v.typ) || kind == "map:"+typeKey(v.typ)
	}
	switch kind {
	case "iter":
		return v.kind == "iter"
	case "int":
		return isIntT(v.typ)
	case "ctr": // goes up by one on every round
		return v.ctr
	case "acc":
		return isIntT(v.typ) && v.kind == "phi" && !v.ctr
	case "phiint":
		return isIntT(v.typ) && v.kind != "cell"
	case "str":
		return isStringT(v.typ) || isBufferT(v.typ)
	case "buf":
		return isBufferT(v.typ)
	case "real":
		return isFloatT(v.typ)
	case "bytes":
		return isByteSlice(v.typ)
	case "slice":
		_, ok := v.typ.Underlying().(*types.Slice)
		return ok
	case "bool":
		b, ok := v.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	}
	return kind == typeKey(v.typ)
}

func (x *Exec) instTemplate(cl *Clause, vars []*lvar, entry, head loopCtx, add func(string, bool, func(loopCtx) *Term)) {
	var rec func(i int, sel []*lvar)
	count := 0
	mkEnv := func(c loopCtx, sel []*lvar) *specEnv {
		vs := map[string]sval{}
		for k, v := range x.entryVals {
			vs[k] = v
		}
		for j, s := range sel {
			t := s.typ
			if isBufferT(t) {
				t = tStr
			}
			vs[cl.Vars[j].name] = sval{s.get(c), t}
		}
		return &specEnv{x: x, st: c.st, old: x.entrySt, vars: vs, pkg: x.pkgOf(x.con)}
	}
	// guards: what the chosen variables satisfy on entry to the loop
	last := make([]int, len(cl.Guards))
	for g, c := range cl.Guards {
		for i, v := range cl.Vars {
			if clauseMentions(c, v.name) {
				last[g] = i + 1
			}
		}
	}
	allowed := func(sel []*lvar) bool {
		for g, c := range cl.Guards {
			if last[g] != len(sel) {
				continue
			}
			ok := true
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, isS := r.(specErr); isS {
							ok = false
							return
						}
						panic(r)
					}
				}()
				e := mkEnv(entry, sel)
				e.ent = e
				ok = x.holds(entry.st, e.boolean(c.E))
			}()
			if !ok {
				return false
			}
		}
		return true
	}
	rec = func(i int, sel []*lvar) {
		if count > 150 || !allowed(sel) {
			return
		}
		if i < len(cl.Vars) {
			for _, v := range vars {
				if !kindMatch(v, cl.Vars[i].kind) {
					continue
				}
				dup := false
				for _, s := range sel {
					if s == v {
						dup = true
					}
				}
				if !dup {
					rec(i+1, append(sel[:len(sel):len(sel)], v))
				}
			}
			return
		}
		count++
		nm := cl.Line
		for j, s := range sel {
			nm += fmt.Sprintf(" %s=%s", cl.Vars[j].name[3:], s.name)
		}
		at := func(c loopCtx) *Term {
			e := mkEnv(c, sel)
			e.ent = mkEnv(entry, sel)
			return e.boolean(cl.E)
		}
		// reject ill-typed instances
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if se, isS := r.(specErr); isS {
						ok = false
						if os.Getenv("GOV_LOOP") == "2" {
							fmt.Fprintf(os.Stderr, "  template %s: %s\n", nm, string(se))
						}
						return
					}
					panic(r)
				}
			}()
			at(head)
			at(entry)
		}()
		if ok {
			add(nm, true, at)
		}
	}
	rec(0, nil)
}
