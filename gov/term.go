package main

// Hash-consed first-order terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
	SStr  Sort = "Str"
	SRef  Sort = "Ref"
)

func ArrS(i, e Sort) Sort { return Sort("(Array " + string(i) + " " + string(e) + ")") }

func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }

func (s Sort) arrElem() Sort {
	body := string(s)[len("(Array ") : len(s)-1]
	// split into two sorts
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

func (s Sort) arrIdx() Sort {
	body := string(s)[len("(Array ") : len(s)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	id    int
	op    string // int real bool lit var bvar app lin mul div mod = ge0 gt0 not and or ite select store constarr forall exists scat
	name  string
	args  []*Term
	sort  Sort
	r     *big.Rat   // int/real constants; lin constant
	coefs []*big.Rat // lin
	str   string     // literal
	bound bool       // mentions a bound variable
	size  int
	pats  [][]*Term
}

var (
	tmu    sync.Mutex
	ttab   = map[string]*Term{}
	tcount int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	if t.r != nil {
		sb.WriteByte('|')
		sb.WriteString(t.r.RatString())
	}
	if t.op == "lit" {
		sb.WriteByte('|')
		sb.WriteString(t.str)
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.coefs != nil {
			sb.WriteString(t.coefs[i].RatString())
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	tmu.Lock()
	defer tmu.Unlock()
	if o, ok := ttab[k]; ok {
		return o
	}
	tcount++
	t.id = tcount
	t.size = 1
	if t.op == "bvar" {
		t.bound = true
	}
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if t.op == "forall" || t.op == "exists" {
		// recompute boundness: bound only if free bvars remain
		t.bound = len(freeB(t)) > 0
	}
	ttab[k] = t
	return t
}

func freeB(t *Term) map[*Term]bool {
	res := map[*Term]bool{}
	var walk func(t *Term, bound map[*Term]bool)
	walk = func(t *Term, bound map[*Term]bool) {
		if !t.bound && t.op != "forall" && t.op != "exists" {
			return
		}
		if t.op == "bvar" {
			if !bound[t] {
				res[t] = true
			}
			return
		}
		if t.op == "forall" || t.op == "exists" {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.args[:len(t.args)-1] {
				nb[v] = true
			}
			walk(t.args[len(t.args)-1], nb)
			return
		}
		for _, a := range t.args {
			walk(a, bound)
		}
	}
	walk(t, map[*Term]bool{})
	return res
}

var symCount int

func freshName(p string) string {
	tmu.Lock()
	symCount++
	n := symCount
	tmu.Unlock()
	return fmt.Sprintf("%s!%d", p, n)
}

func ratI(n int64) *big.Rat { return new(big.Rat).SetInt64(n) }

func mkInt(n int64) *Term { return intern(&Term{op: "int", sort: SInt, r: ratI(n)}) }
func mkRatS(r *big.Rat, s Sort) *Term {
	if s == SInt {
		return intern(&Term{op: "int", sort: SInt, r: r})
	}
	return intern(&Term{op: "real", sort: SReal, r: r})
}
func mkReal(r *big.Rat) *Term { return intern(&Term{op: "real", sort: SReal, r: r}) }

var tTrue, tFalse, tNil, tEmpty *Term

func init() {
	tTrue = intern(&Term{op: "bool", name: "true", sort: SBool})
	tFalse = intern(&Term{op: "bool", name: "false", sort: SBool})
	tNil = intern(&Term{op: "app", name: "nil", sort: SRef})
	tEmpty = intern(&Term{op: "lit", sort: SStr, str: ""})
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkLit(s string) *Term           { return intern(&Term{op: "lit", sort: SStr, str: s}) }
func mkVar(n string, s Sort) *Term   { return intern(&Term{op: "var", name: n, sort: s}) }
func mkFresh(p string, s Sort) *Term { return mkVar(freshName(p), s) }
func mkBVar(p string, s Sort) *Term {
	return intern(&Term{op: "bvar", name: freshName("q" + p), sort: s})
}
func isConst(t *Term) bool        { return t.op == "int" || t.op == "real" }
func isInt(t *Term, n int64) bool { return isConst(t) && t.r.Cmp(ratI(n)) == 0 }
func constInt(t *Term) (int64, bool) {
	if t.op == "int" && t.r.Num().IsInt64() {
		return t.r.Num().Int64(), true
	}
	return 0, false
}

func mkApp(name string, s Sort, args ...*Term) *Term {
	return intern(&Term{op: "app", name: name, sort: s, args: args})
}

// ---- linear arithmetic ----

type linf struct {
	m map[*Term]*big.Rat
	k *big.Rat
}

func toLin(t *Term) linf {
	switch t.op {
	case "int", "real":
		return linf{map[*Term]*big.Rat{}, t.r}
	case "lin":
		m := map[*Term]*big.Rat{}
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return linf{m, t.r}
	}
	return linf{map[*Term]*big.Rat{t: ratI(1)}, new(big.Rat)}
}

func fromLin(l linf, s Sort) *Term {
	var atoms []*Term
	for a, c := range l.m {
		if c.Sign() != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return mkRatS(l.k, s)
	}
	if len(atoms) == 1 && l.k.Sign() == 0 && l.m[atoms[0]].Cmp(ratI(1)) == 0 {
		return atoms[0]
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	cs := make([]*big.Rat, len(atoms))
	for i, a := range atoms {
		cs[i] = l.m[a]
	}
	return intern(&Term{op: "lin", sort: s, args: atoms, coefs: cs, r: l.k})
}

func linComb(a *Term, ca *big.Rat, b *Term, cb *big.Rat) *Term {
	la, lb := toLin(a), toLin(b)
	m := map[*Term]*big.Rat{}
	for t, c := range la.m {
		m[t] = new(big.Rat).Mul(c, ca)
	}
	for t, c := range lb.m {
		x := new(big.Rat).Mul(c, cb)
		if o, ok := m[t]; ok {
			x = new(big.Rat).Add(o, x)
		}
		m[t] = x
	}
	k := new(big.Rat).Add(new(big.Rat).Mul(la.k, ca), new(big.Rat).Mul(lb.k, cb))
	return fromLin(linf{m, k}, a.sort)
}

func mkAdd(a, b *Term) *Term { return linComb(a, ratI(1), b, ratI(1)) }
func mkSub(a, b *Term) *Term { return linComb(a, ratI(1), b, ratI(-1)) }
func mkScale(c *big.Rat, a *Term) *Term {
	return linComb(a, c, mkRatS(new(big.Rat), a.sort), ratI(0))
}
func mkNeg(a *Term) *Term           { return mkScale(ratI(-1), a) }
func mkAddI(a *Term, n int64) *Term { return mkAdd(a, mkRatS(ratI(n), a.sort)) }

func mkMul(a, b *Term) *Term {
	if isConst(a) {
		return mkScale(a.r, b)
	}
	if isConst(b) {
		return mkScale(b.r, a)
	}
	// pull out scalar factors of single-atom linear forms
	c := ratI(1)
	strip := func(t *Term) *Term {
		if t.op == "lin" && len(t.args) == 1 && t.r.Sign() == 0 {
			c = new(big.Rat).Mul(c, t.coefs[0])
			return t.args[0]
		}
		return t
	}
	a, b = strip(a), strip(b)
	if a.op == "lin" || b.op == "lin" {
		// distribute over sums for canonicity
		if a.op != "lin" {
			a, b = b, a
		}
		if len(a.args) <= 4 {
			res := mkScale(a.r, b)
			for i, x := range a.args {
				res = mkAdd(res, mkScale(a.coefs[i], mkMul(x, b)))
			}
			return mkScale(c, res)
		}
	}
	// canonical n-ary product
	var fs []*Term
	add := func(t *Term) {
		if t.op == "mul" {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	add(a)
	add(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	p := intern(&Term{op: "mul", sort: a.sort, args: fs})
	return mkScale(c, p)
}

// mkRDiv: real division.
func mkRDiv(a, b *Term) *Term {
	if isConst(b) && b.r.Sign() != 0 {
		return mkScale(new(big.Rat).Inv(b.r), a)
	}
	if a.op == "lin" && len(a.args) <= 6 {
		res := mkScale(a.r, mkRDiv(mkReal(ratI(1)), b))
		for i, x := range a.args {
			res = mkAdd(res, mkScale(a.coefs[i], mkRDiv(x, b)))
		}
		return res
	}
	if isConst(a) && a.r.Cmp(ratI(1)) != 0 {
		return mkScale(a.r, mkRDiv(mkReal(ratI(1)), b))
	}
	if a.op == "mul" || !isConst(a) {
		return mkMul(a, mkRDiv(mkReal(ratI(1)), b))
	}
	return intern(&Term{op: "app", name: "rinv", sort: SReal, args: []*Term{b}})
}

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

// mkDivI / mkModI: floor division / modulus by positive constant or term (SMT div/mod semantics).
func mkDivI(a, b *Term) *Term {
	if isConst(a) && isConst(b) && b.r.Sign() > 0 {
		q := new(big.Int).Div(a.r.Num(), b.r.Num())
		return mkRatS(new(big.Rat).SetInt(q), SInt)
	}
	if isInt(b, 1) {
		return a
	}
	if isConst(b) && b.r.Sign() > 0 {
		if lo, hi, ok := bounds(a); ok && lo.Sign() >= 0 && hi.Cmp(b.r.Num()) < 0 {
			return mkInt(0)
		}
		if a.op == "div" && isConst(a.args[1]) && a.args[1].r.Sign() > 0 {
			return mkDivI(a.args[0], mkRatS(new(big.Rat).Mul(a.args[1].r, b.r), SInt))
		}
		// split off multiples of b: (b*x + y) div b = x + y div b
		q, rest := splitMult(a, b.r.Num())
		if q != nil {
			return mkAdd(q, mkDivI(rest, b))
		}
	}
	return intern(&Term{op: "div", sort: SInt, args: []*Term{a, b}})
}

func splitMult(a *Term, m *big.Int) (*Term, *Term) {
	l := toLin(a)
	q := linf{map[*Term]*big.Rat{}, new(big.Rat)}
	rs := linf{map[*Term]*big.Rat{}, new(big.Rat)}
	any := false
	for t, c := range l.m {
		if !c.IsInt() {
			return nil, nil
		}
		qq, rr := new(big.Int).DivMod(c.Num(), m, new(big.Int))
		if rr.Sign() == 0 {
			q.m[t] = new(big.Rat).SetInt(qq)
			any = true
		} else {
			rs.m[t] = c
		}
	}
	if !l.k.IsInt() {
		return nil, nil
	}
	qq, rr := new(big.Int).DivMod(l.k.Num(), m, new(big.Int))
	if qq.Sign() != 0 {
		any = true
	}
	q.k = new(big.Rat).SetInt(qq)
	rs.k = new(big.Rat).SetInt(rr)
	if !any {
		return nil, nil
	}
	return fromLin(q, SInt), fromLin(rs, SInt)
}

func mkModI(a, b *Term) *Term {
	if isConst(a) && isConst(b) && b.r.Sign() > 0 {
		q := new(big.Int).Mod(a.r.Num(), b.r.Num())
		return mkRatS(new(big.Rat).SetInt(q), SInt)
	}
	if isConst(b) && b.r.Sign() > 0 {
		m := b.r.Num()
		if lo, hi, ok := bounds(a); ok && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
			return a
		}
		if a.op == "mod" && isConst(a.args[1]) {
			// (x mod c) mod m with m | c
			if new(big.Int).Mod(a.args[1].r.Num(), m).Sign() == 0 {
				return mkModI(a.args[0], b)
			}
		}
		q, rest := splitMult(a, m)
		if q != nil {
			return mkModI(rest, b)
		}
		// drop inner mods inside sums when m | c
		if a.op == "lin" {
			ch := false
			res := mkRatS(a.r, SInt)
			for i, x := range a.args {
				if x.op == "mod" && isConst(x.args[1]) && new(big.Int).Mod(x.args[1].r.Num(), m).Sign() == 0 {
					ch = true
					res = mkAdd(res, mkScale(a.coefs[i], x.args[0]))
				} else {
					res = mkAdd(res, mkScale(a.coefs[i], x))
				}
			}
			if ch {
				return mkModI(res, b)
			}
		}
	}
	return intern(&Term{op: "mod", sort: SInt, args: []*Term{a, b}})
}

// bounds computes a conservative integer interval for a term, when known.
var boundHints sync.Map // *Term -> [2]*big.Int

func setBounds(t *Term, lo, hi *big.Int) {
	if t.op == "int" {
		return
	}
	boundHints.Store(t, [2]*big.Int{lo, hi})
}

func bounds(t *Term) (lo, hi *big.Int, ok bool) {
	if t.sort != SInt {
		return nil, nil, false
	}
	switch t.op {
	case "int":
		return t.r.Num(), t.r.Num(), true
	case "lin":
		if !t.r.IsInt() {
			return nil, nil, false
		}
		lo, hi = new(big.Int).Set(t.r.Num()), new(big.Int).Set(t.r.Num())
		for i, a := range t.args {
			l, h, k := bounds(a)
			if !k || !t.coefs[i].IsInt() {
				return nil, nil, false
			}
			c := t.coefs[i].Num()
			if c.Sign() > 0 {
				lo.Add(lo, new(big.Int).Mul(c, l))
				hi.Add(hi, new(big.Int).Mul(c, h))
			} else {
				lo.Add(lo, new(big.Int).Mul(c, h))
				hi.Add(hi, new(big.Int).Mul(c, l))
			}
		}
		return lo, hi, true
	case "mod":
		if isConst(t.args[1]) && t.args[1].r.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.args[1].r.Num(), big.NewInt(1)), true
		}
	case "div":
		if isConst(t.args[1]) && t.args[1].r.Sign() > 0 {
			if l, h, k := bounds(t.args[0]); k {
				return new(big.Int).Div(l, t.args[1].r.Num()), new(big.Int).Div(h, t.args[1].r.Num()), true
			}
		}
	case "ite":
		l1, h1, k1 := bounds(t.args[1])
		l2, h2, k2 := bounds(t.args[2])
		if k1 && k2 {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
			return l1, h1, true
		}
	case "app":
		switch t.name {
		case "sat":
			return big.NewInt(0), big.NewInt(255), true
		case "slen", "nrunes":
			return big.NewInt(0), pow2(62), true
		}
	}
	if v, ok := boundHints.Load(t); ok {
		p := v.([2]*big.Int)
		return p[0], p[1], true
	}
	return nil, nil, false
}

// ---- comparisons ----

func mkGe0(d *Term) *Term {
	if isConst(d) {
		return mkBool(d.r.Sign() >= 0)
	}
	if d.sort == SInt {
		if lo, hi, ok := bounds(d); ok {
			if lo.Sign() >= 0 {
				return tTrue
			}
			if hi.Sign() < 0 {
				return tFalse
			}
		}
	}
	return intern(&Term{op: "ge0", sort: SBool, args: []*Term{d}})
}

func mkGt0(d *Term) *Term {
	if d.sort == SInt {
		return mkGe0(mkAddI(d, -1))
	}
	if isConst(d) {
		return mkBool(d.r.Sign() > 0)
	}
	return intern(&Term{op: "gt0", sort: SBool, args: []*Term{d}})
}

func mkLe(a, b *Term) *Term { return mkGe0(mkSub(b, a)) }
func mkLt(a, b *Term) *Term { return mkGt0(mkSub(b, a)) }
func mkGe(a, b *Term) *Term { return mkLe(b, a) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in =: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	switch a.sort {
	case SInt, SReal:
		d := mkSub(a, b)
		if isConst(d) {
			return mkBool(d.r.Sign() == 0)
		}
		if d.sort == SInt {
			if lo, hi, ok := bounds(d); ok && (lo.Sign() > 0 || hi.Sign() < 0) {
				return tFalse
			}
		}
		// push into ite over constants
		if t := eqIte(a, b); t != nil {
			return t
		}
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	case SRef:
		if refDistinct(a, b) {
			return tFalse
		}
		if a.op == "app" && b.op == "app" && a.name == b.name {
			switch a.name {
			case "obj":
				return mkEq(a.args[0], b.args[0])
			case "fld", "elem":
				return mkAnd(mkEq(a.args[0], b.args[0]), mkEq(a.args[1], b.args[1]))
			}
		}
		if t := eqIte(a, b); t != nil {
			return t
		}
	case SStr:
		return mkEqStr(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

func eqIte(a, b *Term) *Term {
	simple := func(t *Term) bool {
		return isConst(t) || (t.op == "app" && (t.name == "nil" || t.name == "obj" || t.name == "fld" || t.name == "elem"))
	}
	if b.op == "ite" && a.op != "ite" {
		a, b = b, a
	}
	if a.op == "ite" && simple(b) && (simple(a.args[1]) || simple(a.args[2])) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	return nil
}

func mkNot(a *Term) *Term {
	switch a.op {
	case "bool":
		return mkBool(a == tFalse)
	case "not":
		return a.args[0]
	case "ge0":
		if a.args[0].sort == SInt {
			return mkGe0(mkAddI(mkNeg(a.args[0]), -1))
		}
		return mkGt0(mkNeg(a.args[0]))
	case "gt0":
		return mkGe0(mkNeg(a.args[0]))
	case "and":
		var as []*Term
		for _, x := range a.args {
			as = append(as, mkNot(x))
		}
		return mkOr(as...)
	case "or":
		var as []*Term
		for _, x := range a.args {
			as = append(as, mkNot(x))
		}
		return mkAnd(as...)
	}
	return intern(&Term{op: "not", sort: SBool, args: []*Term{a}})
}

func mkAnd(ts ...*Term) *Term {
	var as []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tFalse {
			return false
		}
		if t == tTrue || seen[t] {
			return true
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		as = append(as, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	for _, t := range as {
		if t.op == "not" && seen[t.args[0]] {
			return tFalse
		}
	}
	if len(as) == 0 {
		return tTrue
	}
	if len(as) == 1 {
		return as[0]
	}
	return intern(&Term{op: "and", sort: SBool, args: as})
}

func mkOr(ts ...*Term) *Term {
	var as []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == tTrue {
			return tTrue
		}
		if t == tFalse || seen[t] {
			continue
		}
		if t.op == "or" {
			for _, x := range t.args {
				if !seen[x] {
					seen[x] = true
					as = append(as, x)
				}
			}
			continue
		}
		seen[t] = true
		as = append(as, t)
	}
	for _, t := range as {
		if t.op == "not" && seen[t.args[0]] {
			return tTrue
		}
	}
	if len(as) == 0 {
		return tFalse
	}
	if len(as) == 1 {
		return as[0]
	}
	return intern(&Term{op: "or", sort: SBool, args: as})
}

func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		return mkIte(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == c {
		return mkIte(c, a, b.args[2])
	}
	return intern(&Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
}

func mkForall(vs []*Term, body *Term, pats ...[]*Term) *Term {
	if body.op == "bool" {
		return body
	}
	t := intern(&Term{op: "forall", sort: SBool, args: append(append([]*Term{}, vs...), body)})
	if len(pats) > 0 && t.pats == nil {
		t.pats = pats
	}
	return t
}

func mkExists(vs []*Term, body *Term) *Term {
	if body.op == "bool" {
		return body
	}
	return intern(&Term{op: "exists", sort: SBool, args: append(append([]*Term{}, vs...), body)})
}

// ---- arrays ----

func idxDistinct(i, j *Term) bool {
	switch i.sort {
	case SInt:
		d := mkSub(i, j)
		if isConst(d) {
			return d.r.Sign() != 0
		}
		if lo, hi, ok := bounds(d); ok && (lo.Sign() > 0 || hi.Sign() < 0) {
			return true
		}
		return false
	case SRef:
		return refDistinct(i, j)
	case SStr:
		return mkEqStr(i, j) == tFalse
	}
	return false
}

func mkSelect(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if idxDistinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "ite":
			return mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
		case "app":
			switch {
			case a.name == "arr_of":
				return mkSat(a.args[0], i)
			case strings.HasPrefix(a.name, "acopy"):
				// acopy(A,off,n)[i] = A[off+i] for 0<=i<n (otherwise zero element: kept opaque)
				A, off, n := a.args[0], a.args[1], a.args[2]
				in := mkAnd(mkGe0(i), mkLt(i, n))
				if in == tTrue {
					return mkSelect(A, mkAdd(off, i))
				}
			case strings.HasPrefix(a.name, "awrite"):
				// awrite(A,pos,B,offB,n)
				A, pos, B, ob, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
				rel := mkSub(i, pos)
				in := mkAnd(mkGe0(rel), mkLt(rel, n))
				if in == tTrue {
					return mkSelect(B, mkAdd(ob, rel))
				}
				if in == tFalse {
					a = A
					continue
				}
			}
		}
		break
	}
	return intern(&Term{op: "select", sort: a.sort.arrElem(), args: []*Term{a, i}})
}

func mkStore(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return intern(&Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}

func mkConstArr(s Sort, v *Term) *Term {
	return intern(&Term{op: "constarr", sort: s, args: []*Term{v}})
}

func sortTag(s Sort) string {
	r := strings.NewReplacer("(", "", ")", "", " ", "_")
	return r.Replace(string(s))
}

func mkACopy(a, off, n *Term) *Term {
	if isInt(n, 0) {
		return mkConstArr(a.sort, zeroOfSort(a.sort.arrElem()))
	}
	return mkApp("acopy_"+sortTag(a.sort.arrElem()), a.sort, a, off, n)
}

func mkAWrite(a, pos, b, ob, n *Term) *Term {
	if k, ok := constInt(n); ok && k <= 16 {
		for j := int64(0); j < k; j++ {
			a = mkStore(a, mkAddI(pos, j), mkSelect(b, mkAddI(ob, j)))
		}
		return a
	}
	return mkApp("awrite_"+sortTag(a.sort.arrElem()), a.sort, a, pos, b, ob, n)
}

func zeroOfSort(s Sort) *Term {
	switch s {
	case SInt:
		return mkInt(0)
	case SReal:
		return mkReal(new(big.Rat))
	case SBool:
		return tFalse
	case SStr:
		return tEmpty
	case SRef:
		return tNil
	}
	if s.isArr() {
		return mkConstArr(s, zeroOfSort(s.arrElem()))
	}
	panic("zero of " + string(s))
}

// ---- references ----

func mkObj(n *Term) *Term { return mkApp("obj", SRef, n) }
func mkFld(r *Term, k int) *Term {
	return mapIteRef(r, func(x *Term) *Term { return mkApp("fld", SRef, x, mkInt(int64(k))) })
}
func mkElem(r, i *Term) *Term { return mkApp("elem", SRef, r, i) }

func mapIteRef(r *Term, f func(*Term) *Term) *Term {
	if r.op == "ite" {
		return mkIte(r.args[0], mapIteRef(r.args[1], f), mapIteRef(r.args[2], f))
	}
	return f(r)
}

// birth stamps: allocation order (epoch, offset). Symbols born before an object was
// allocated cannot denote that object.
type stamp struct {
	epoch int
	off   int64
}

var birthMap sync.Map // symbol name -> stamp
var epochVar sync.Map // alloc counter symbol *Term -> epoch

func setBirth(name string, s stamp) { birthMap.Store(name, s) }

func stampOfAl(al *Term) (stamp, bool) {
	l := toLin(al)
	if len(l.m) != 1 || !l.k.IsInt() {
		return stamp{}, false
	}
	for a, c := range l.m {
		if c.Cmp(ratI(1)) != 0 {
			return stamp{}, false
		}
		e, ok := epochVar.Load(a)
		if !ok {
			return stamp{}, false
		}
		return stamp{e.(int), l.k.Num().Int64()}, true
	}
	return stamp{}, false
}

func (a stamp) leq(b stamp) bool {
	return a.epoch < b.epoch || (a.epoch == b.epoch && a.off <= b.off)
}

// latestBirth returns the latest stamp at which any ref denoted by t may have been created.
func latestBirth(t *Term) (stamp, bool) {
	switch t.op {
	case "var", "app":
		switch t.name {
		case "nil":
			return stamp{-1, 0}, true
		case "obj":
			s, ok := stampOfAl(t.args[0])
			s.off++
			return s, ok
		case "fld", "elem":
			return latestBirth(t.args[0])
		}
		if v, ok := birthMap.Load(t.name); ok {
			return withArgs(v.(stamp), t)
		}
		return stamp{}, false
	case "ite":
		a, ok1 := latestBirth(t.args[1])
		b, ok2 := latestBirth(t.args[2])
		if ok1 && ok2 {
			if a.leq(b) {
				return b, true
			}
			return a, true
		}
	case "select":
		return latestBirthArr(t.args[0])
	}
	return stamp{}, false
}

func latestBirthArr(t *Term) (stamp, bool) {
	switch t.op {
	case "constarr":
		if t.sort.arrElem() == SRef {
			return latestBirth(t.args[0])
		}
	case "store":
		a, ok1 := latestBirthArr(t.args[0])
		b, ok2 := latestBirth(t.args[2])
		if ok1 && ok2 {
			if a.leq(b) {
				return b, true
			}
			return a, true
		}
	case "ite":
		a, ok1 := latestBirthArr(t.args[1])
		b, ok2 := latestBirthArr(t.args[2])
		if ok1 && ok2 {
			if a.leq(b) {
				return b, true
			}
			return a, true
		}
	case "var", "app":
		if strings.HasPrefix(t.name, "acopy") {
			return latestBirthArr(t.args[0])
		}
		if strings.HasPrefix(t.name, "awrite") {
			a, ok1 := latestBirthArr(t.args[0])
			b, ok2 := latestBirthArr(t.args[2])
			if ok1 && ok2 {
				if a.leq(b) {
					return b, true
				}
				return a, true
			}
			return stamp{}, false
		}
		if v, ok := birthMap.Load(t.name); ok {
			return withArgs(v.(stamp), t)
		}
	}
	return stamp{}, false
}

// withArgs: what memory of stamp s holds at a reference that is younger than the memory
// (an object that a callee made) is only as old as that reference.
func withArgs(s stamp, t *Term) (stamp, bool) {
	for _, a := range t.args {
		if a.sort != SRef {
			continue
		}
		b, ok := latestBirth(a)
		if !ok {
			return stamp{}, false
		}
		if s.leq(b) {
			s = b
		}
	}
	return s, true
}

func refRoot(t *Term) *Term {
	for t.op == "app" && (t.name == "fld" || t.name == "elem") {
		t = t.args[0]
	}
	return t
}

func isCtor(t *Term, n string) bool { return t.op == "app" && t.name == n }

func refDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "ite" {
		return refDistinct(a.args[1], b) && refDistinct(a.args[2], b)
	}
	if b.op == "ite" {
		return refDistinct(a, b.args[1]) && refDistinct(a, b.args[2])
	}
	ctor := func(t *Term) string {
		if t.op == "app" {
			switch t.name {
			case "nil", "obj", "fld", "elem":
				return t.name
			}
		}
		return ""
	}
	ca, cb := ctor(a), ctor(b)
	if ca != "" && cb != "" && ca != cb {
		return true
	}
	if ca != "" && ca == cb {
		switch ca {
		case "obj":
			return objDistinct(a, b)
		case "fld":
			if a.args[1] != b.args[1] {
				return true
			}
			return refDistinct(a.args[0], b.args[0])
		case "elem":
			return refDistinct(a.args[0], b.args[0]) || idxDistinct(a.args[1], b.args[1])
		}
		return false
	}
	// one is opaque: compare allocation roots with birth stamps
	ra, rb := refRoot(a), refRoot(b)
	if older(ra, rb) || older(rb, ra) {
		return true
	}
	return false
}

func negConst(t *Term) bool { return t.op == "int" && t.r.Sign() < 0 }

func objDistinct(a, b *Term) bool {
	if idxDistinct(a.args[0], b.args[0]) {
		return true
	}
	if negConst(a.args[0]) != negConst(b.args[0]) {
		return true // global / function object against heap object
	}
	sa, ok1 := stampOfAl(a.args[0])
	sb, ok2 := stampOfAl(b.args[0])
	return ok1 && ok2 && sa != sb && sa.epoch != sb.epoch
}

// older: every object t may denote existed before obj-root o was allocated.
func older(t, o *Term) bool {
	if !isCtor(o, "obj") {
		return false
	}
	so, ok := stampOfAl(o.args[0])
	if !ok {
		return false
	}
	st, ok := latestBirth(t)
	if !ok {
		return false
	}
	return st.leq(so)
}

// ---- substitution ----

func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "lin":
		res := mkRatS(t.r, t.sort)
		for i, a := range as {
			res = mkAdd(res, mkScale(t.coefs[i], a))
		}
		return res
	case "mul":
		r := as[0]
		for _, a := range as[1:] {
			r = mkMul(r, a)
		}
		return r
	case "div":
		return mkDivI(as[0], as[1])
	case "mod":
		return mkModI(as[0], as[1])
	case "=":
		return mkEq(as[0], as[1])
	case "ge0":
		return mkGe0(as[0])
	case "gt0":
		return mkGt0(as[0])
	case "not":
		return mkNot(as[0])
	case "and":
		return mkAnd(as...)
	case "or":
		return mkOr(as...)
	case "ite":
		return mkIte(as[0], as[1], as[2])
	case "select":
		return mkSelect(as[0], as[1])
	case "store":
		return mkStore(as[0], as[1], as[2])
	case "constarr":
		return mkConstArr(t.sort, as[0])
	case "forall":
		return mkForall(as[:len(as)-1], as[len(as)-1])
	case "exists":
		return mkExists(as[:len(as)-1], as[len(as)-1])
	case "scat":
		return mkCat(as...)
	case "app":
		switch t.name {
		case "slen":
			return mkSlen(as[0])
		case "sat":
			return mkSat(as[0], as[1])
		case "ssub":
			return mkSsub(as[0], as[1], as[2])
		case "str_of":
			return mkStrOf(as[0], as[1], as[2])
		case "arr_of":
			return mkArrOf(as[0])
		case "itoa":
			return mkItoa(as[0])
		case "chr":
			return mkChr(as[0])
		case "to_real":
			return mkToReal(as[0])
		}
		return mkApp(t.name, t.sort, as...)
	}
	panic("rebuild " + t.op)
}

// ---- printing ----

func (t *Term) String() string {
	s := smtStr(t, nil)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func ratSMT(r *big.Rat, s Sort) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var x string
	if s == SInt {
		x = a.Num().String()
	} else if a.IsInt() {
		x = a.Num().String() + ".0"
	} else {
		x = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + x + ")"
	}
	return x
}

func symName(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.') {
			return "|" + strings.ReplaceAll(n, "|", "/") + "|"
		}
	}
	return n
}

func smtStr(t *Term, names map[*Term]string) string {
	var sb strings.Builder
	writeSMT(&sb, t, names, true)
	return sb.String()
}

func writeSMT(sb *strings.Builder, t *Term, names map[*Term]string, top bool) {
	if !top || true {
		if n, ok := names[t]; ok && !(top && names[nil] == n) {
			sb.WriteString(n)
			return
		}
	}
	list := func(op string, args ...*Term) {
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range args {
			sb.WriteByte(' ')
			writeSMT(sb, a, names, false)
		}
		sb.WriteByte(')')
	}
	switch t.op {
	case "int", "real":
		sb.WriteString(ratSMT(t.r, t.sort))
	case "bool":
		sb.WriteString(t.name)
	case "lit":
		sb.WriteString(litName(t))
	case "var", "bvar":
		sb.WriteString(symName(t.name))
	case "app":
		if len(t.args) == 0 {
			sb.WriteString(symName(t.name))
		} else {
			list(symName(t.name), t.args...)
		}
	case "lin":
		n := 0
		if t.r.Sign() != 0 {
			n++
		}
		n += len(t.args)
		if n > 1 {
			sb.WriteString("(+")
		}
		for i, a := range t.args {
			if n > 1 {
				sb.WriteByte(' ')
			}
			if t.coefs[i].Cmp(ratI(1)) == 0 {
				writeSMT(sb, a, names, false)
			} else {
				sb.WriteString("(* ")
				sb.WriteString(ratSMT(t.coefs[i], t.sort))
				sb.WriteByte(' ')
				writeSMT(sb, a, names, false)
				sb.WriteByte(')')
			}
		}
		if t.r.Sign() != 0 {
			sb.WriteByte(' ')
			sb.WriteString(ratSMT(t.r, t.sort))
		}
		if n > 1 {
			sb.WriteByte(')')
		}
	case "mul":
		list("*", t.args...)
	case "div", "mod", "=", "not", "and", "or", "ite", "select", "store":
		list(t.op, t.args...)
	case "ge0":
		list(">=", t.args[0], mkRatS(new(big.Rat), t.args[0].sort))
	case "gt0":
		list(">", t.args[0], mkRatS(new(big.Rat), t.args[0].sort))
	case "constarr":
		sb.WriteString("((as const " + string(t.sort) + ") ")
		writeSMT(sb, t.args[0], names, false)
		sb.WriteByte(')')
	case "scat":
		for i, a := range t.args {
			if i < len(t.args)-1 {
				sb.WriteString("(scat ")
				writeSMT(sb, a, names, false)
				sb.WriteByte(' ')
			} else {
				writeSMT(sb, a, names, false)
			}
		}
		sb.WriteString(strings.Repeat(")", len(t.args)-1))
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.args[:len(t.args)-1] {
			sb.WriteString("(" + symName(v.name) + " " + string(v.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		writeSMT(sb, t.args[len(t.args)-1], names, false)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for _, x := range p {
				sb.WriteByte(' ')
				writeSMT(sb, x, names, false)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		panic("print " + t.op)
	}
}

func litName(t *Term) string {
	if t.str == "" {
		return "lit_empty"
	}
	return fmt.Sprintf("lit_%d", t.id)
}
