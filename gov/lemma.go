package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// lemmas adds ground facts about the terms occurring in a query.
func (x *Exec) lemmas(all []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	queue := append([]*Term{}, all...)
	have := map[*Term]bool{}
	emit := func(t *Term, fuel int) {
		if t == tTrue || have[t] {
			return
		}
		have[t] = true
		out = append(out, t)
	}
	fuelOf := map[*Term]int{}
	mfuel := 2
	var visit func(t *Term, fuel int)
	visit = func(t *Term, fuel int) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a, fuel)
		}
		if t.bound {
			return
		}
		fuelOf[t] = fuel
		switch t.sort {
		case SInt:
			if lo, hi, ok := bounds(t); ok && (t.op == "var" || t.op == "app" || t.op == "select") {
				if !(t.op == "app" && (t.name == "sat" || t.name == "slen" && false)) {
					c1 := intern(&Term{op: "ge0", sort: SBool, args: []*Term{mkSub(t, mkRatS(new(big.Rat).SetInt(lo), SInt))}})
					emit(c1, fuel)
					if hi.BitLen() < 62 {
						c2 := intern(&Term{op: "ge0", sort: SBool, args: []*Term{mkSub(mkRatS(new(big.Rat).SetInt(hi), SInt), t)}})
						emit(c2, fuel)
					}
				}
			}
		case SRef:
			if t.op == "var" || t.op == "select" || t.op == "app" && t.name != "nil" && t.name != "obj" && t.name != "fld" && t.name != "elem" {
				if s, ok := latestBirth(t); ok {
					tmu.Lock()
					al := epochTerms[s.epoch]
					tmu.Unlock()
					if s.epoch == 0 {
						al = x.al0
					}
					if al != nil {
						emit(mkLt(mkRid(t), mkAddI(al, s.off)), fuel)
					} else if s.epoch == -1 {
						emit(mkLt(mkRid(t), mkInt(0)), fuel)
					}
				}
			}
		}
		if t.sort == ArrS(SInt, SRef) && (t.op == "app" || t.op == "var" || t.op == "select") {
			if s, ok := latestBirth(t); ok {
				tmu.Lock()
				al := epochTerms[s.epoch]
				tmu.Unlock()
				if s.epoch == 0 {
					al = x.al0
				}
				if al != nil {
					k := mkBVar("k", SInt)
					sel := mkSelect(t, k)
					f := mkForall([]*Term{k}, mkLt(mkRid(sel), mkAddI(al, s.off)))
					if f.op == "forall" {
						f.pats = [][]*Term{{sel}}
						emit(f, fuel)
					}
				}
			}
		}
		if t.op == "=" && t.args[0].sort == SStr {
			// extensionality for comparisons with short literals
			a, b := t.args[0], t.args[1]
			if a.op == "lit" {
				a, b = b, a
			}
			if b.op == "lit" && len(b.str) >= 1 && len(b.str) <= 4 && a.op == "app" && a.name == "ssub" {
				c := []*Term{mkEq(mkSlen(a), mkInt(int64(len(b.str))))}
				for i := 0; i < len(b.str); i++ {
					c = append(c, mkEq(mkSat(a, mkInt(int64(i))), mkInt(int64(b.str[i]))))
				}
				emit(mkImp(mkAnd(c...), t), fuel)
			}
		}
		if t.op == "app" {
			if strings.HasPrefix(t.name, "rec_") && fuel > 0 {
				if r := x.prog.recs[t.name[4:]]; r != nil && !(x.con != nil && contains(x.con.Opaque, t.name[4:])) {
					vars := map[string]sval{}
					for i, p := range r.params {
						vars[p] = sval{t.args[i], typeOfSort(r.sorts[i])}
					}
					e := &specEnv{x: x, st: nil, old: nil, vars: vars}
					b := asTerm(e.eval(r.body))
					if b.sort == SInt && r.res == SReal {
						b = mkToReal(b)
					}
					l := mkEq(t, b)
					emit(l, fuel-1)
					visit(l, fuel-1)
				}
			}
			if mfuel > 0 {
				mfuel--
				for _, l := range modelLemmas(t) {
					emit(l, fuel)
					visit(l, fuel)
				}
				mfuel++
			}
		}
	}
	for _, t := range queue {
		visit(t, 2)
	}
	return out
}

// modelLemmas: ground instances of the trusted axioms of modelled functions.
func modelLemmas(t *Term) []*Term {
	switch t.name {
	case "rune_off":
		s, k := t.args[0], t.args[1]
		return []*Term{
			mkImp(mkAnd(mkGe0(k), mkLt(k, mkNRunes(s))), mkAnd(mkLt(t, mkSlen(s)), mkGe(mkRuneOff(s, mkAddI(k, 1)), mkAddI(t, 1)), mkLe(mkRuneOff(s, mkAddI(k, 1)), mkSlen(s)))),
			mkImp(mkEq(k, mkNRunes(s)), mkEq(t, mkSlen(s))), mkImp(mkEq(k, mkInt(0)), mkEq(t, mkInt(0))),
			mkGe0(t),
			mkImp(mkAnd(mkGe0(k), mkLe(k, mkNRunes(s))), mkGe(t, k)),
		}
	case "nrunes":
		s := t.args[0]
		return []*Term{mkLe(t, mkSlen(s)), mkImp(mkEq(t, mkInt(0)), mkEq(mkSlen(s), mkInt(0))), mkImp(mkEq(mkSlen(s), mkInt(0)), mkEq(t, mkInt(0)))}
	case "rune_str":
		out := []*Term{mkGe(mkSlen(t), mkInt(1)), mkLe(mkSlen(t), mkInt(4))}
		if a := t.args[0]; a.op == "app" && a.name == "rune_at" {
			s, k := a.args[0], a.args[1]
			o0, o1 := mkRuneOff(s, k), mkRuneOff(s, mkAddI(k, 1))
			out = append(out, mkImp(mkAnd(mkApp("valid_utf8", SBool, s), mkGe0(k), mkLt(k, mkNRunes(s))), mkEq(t, mkSsub(s, o0, o1))))
		}
		return out
	case "md5":
		return []*Term{mkEq(mkSlen(t), mkInt(16))}
	case "rc4":
		return []*Term{mkEq(mkSlen(t), mkSlen(t.args[1]))}
	case "trimspace":
		return []*Term{mkLe(mkSlen(t), mkSlen(t.args[0]))}
	case "ftoi":
		// truncation towards zero
		r := t.args[0]
		tr := mkApp("to_real", SReal, t)
		return []*Term{mkImp(mkGe0(r), mkAnd(mkLe(tr, r), mkLt(r, mkAdd(tr, mkReal(ratI(1)))))),
			mkImp(mkLt(r, mkReal(new(big.Rat))), mkAnd(mkLe(r, tr), mkLt(mkSub(tr, mkReal(ratI(1))), r)))}
	}
	return nil
}

var _ = fmt.Sprint
var _ = types.Typ
