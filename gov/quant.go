package main

import (
	"fmt"
	"strings"
)

// normAssert prepares an asserted formula for the solver: existentials become
// constants, and every asserted universal over an integer is re-indexed so that
// its array reads use the bound variable itself as index (one equivalent copy
// per distinct index shape), with those reads as triggers.
func normAssert(t *Term, skn *int) *Term {
	switch t.op {
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, normAssert(a, skn))
		}
		return mkAnd(as...)
	case "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, normAssert(a, skn))
		}
		return mkOr(as...)
	case "exists":
		if t.bound {
			return t
		}
		return normAssert(skolem(t, skn), skn)
	case "not":
		a := t.args[0]
		switch a.op {
		case "forall":
			if a.bound {
				return t
			}
			return normAssert(mkNot(skolem(a, skn)), skn)
		case "exists":
			return normForall(a.args[:len(a.args)-1], mkNot(a.args[len(a.args)-1]), skn)
		}
		return t
	case "forall":
		if len(t.pats) > 0 {
			return t
		}
		return normForall(t.args[:len(t.args)-1], t.args[len(t.args)-1], skn)
	}
	return t
}

func skolem(q *Term, skn *int) *Term {
	m := map[*Term]*Term{}
	for _, v := range q.args[:len(q.args)-1] {
		*skn++
		m[v] = mkVar(fmt.Sprintf("sk_%d", *skn), v.sort)
	}
	return subst(q.args[len(q.args)-1], m)
}

func normForall(vs []*Term, body *Term, skn *int) *Term {
	// inner universals keep their own (nested) shape
	var hits [][2]*Term
	body = lowerReads(normInner(body, skn), &hits)
	if body.op == "forall" && len(body.pats) == 0 {
		vs = append(append([]*Term{}, vs...), body.args[:len(body.args)-1]...)
		body = body.args[len(body.args)-1]
	}
	if len(vs) == 2 && len(hits) > 0 && len(hits) <= 8 {
		out := []*Term{normMulti(vs, body)}
		done := map[*Term]bool{}
		for _, h := range hits {
			for k, v := range vs {
				c, ok := toLin(h[0]).m[v]
				rest := mkSub(h[0], v)
				if !ok || c.Cmp(ratI(1)) != 0 || rest.bound {
					continue
				}
				at := mkSub(h[1], rest)
				if at.bound || done[at] && k == 0 || len(out) > 6 {
					continue
				}
				done[at] = true
				out = append(out, normForall(vs[1-k:2-k], subst(body, map[*Term]*Term{v: at}), skn))
			}
		}
		return mkAnd(out...)
	}
	if len(vs) != 1 {
		return normMulti(vs, body)
	}
	j := vs[0]
	if j.sort != SInt {
		return mkForall(vs, body)
	}
	type shape struct{ cf, rest *Term }
	var shapes []shape
	has := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	note := func(ix *Term) {
		if !ix.bound || ix.sort != SInt {
			return
		}
		l := toLin(ix)
		c, ok := l.m[j]
		if !ok || !(c.Cmp(ratI(1)) == 0) {
			return
		}
		rest := mkSub(ix, j)
		if rest.bound && len(freeB(rest)) > 0 {
			for v := range freeB(rest) {
				if v == j {
					return
				}
			}
			// depends on an enclosing bound variable: only usable when that is the quantifier nest
			return
		}
		if !has[rest] {
			has[rest] = true
			shapes = append(shapes, shape{nil, rest})
		}
	}
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		switch {
		case t.op == "select":
			note(t.args[1])
		case t.op == "app" && t.name != "to_real" && t.name != "rid":
			for _, a := range t.args {
				note(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var out []*Term
	// the written positions themselves
	done := map[*Term]bool{}
	for _, h := range hits {
		c, ok := toLin(h[0]).m[j]
		rest := mkSub(h[0], j)
		if !ok || c.Cmp(ratI(1)) != 0 || rest.bound || len(done) >= 6 {
			continue
		}
		at := mkSub(h[1], rest)
		if !done[at] && !at.bound {
			done[at] = true
			out = append(out, subst(body, map[*Term]*Term{j: at}))
		}
	}
	if len(shapes) == 0 || len(shapes) > 4 {
		if len(shapes) == 0 {
			return mkAnd(append(out, mkForall(vs, body))...)
		}
		shapes = shapes[:4]
	}
	for _, s := range shapes {
		*skn++
		a := mkBVar("a", SInt)
		b := subst(body, map[*Term]*Term{j: mkSub(a, s.rest)})
		if b.op == "bool" {
			out = append(out, b)
			continue
		}
		pats := cleanPats(b, a)
		f := mkForall([]*Term{a}, b)
		if f.op == "forall" && len(pats) > 0 && f.pats == nil {
			f.pats = pats
		}
		out = append(out, f)
	}
	return mkAnd(out...)
}

func normInner(t *Term, skn *int) *Term {
	switch t.op {
	case "and", "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, normInner(a, skn))
		}
		if t.op == "and" {
			return mkAnd(as...)
		}
		return mkOr(as...)
	}
	return t
}

// cleanPats: minimal reads that have the bound variable itself as an argument.
func cleanPats(b, a *Term) [][]*Term {
	var out [][]*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		ok := false
		switch {
		case t.op == "select":
			ok = t.args[1] == a && !t.args[0].bound && patOK(t.args[0])
		case t.op == "app" && t.name != "to_real" && t.name != "rid":
			ok = true
			n := 0
			for _, x := range t.args {
				if x == a {
					n++
				} else if x.bound || !patOK(x) {
					ok = false
				}
			}
			if n == 0 {
				ok = false
			}
		}
		if ok {
			out = append(out, []*Term{t})
			return
		}
		if t.op == "forall" || t.op == "exists" {
			return
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	walk(b)
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func patOK(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=", "ge0", "gt0", "forall", "exists":
		return false
	}
	for _, a := range t.args {
		if !patOK(a) {
			return false
		}
	}
	return true
}

// multiPats: minimal reads mentioning all of the bound variables.
func multiPats(b *Term, vs []*Term) [][]*Term {
	var out [][]*Term
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] || !t.bound {
			return false
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			return false
		}
		found := false
		for _, x := range t.args {
			if walk(x) {
				found = true
			}
		}
		if found {
			return true
		}
		if !(t.op == "select" || t.op == "app" && t.name != "to_real" && t.name != "rid") || !patOK(t) {
			return false
		}
		f := freeB(t)
		for _, v := range vs {
			if !f[v] {
				return false
			}
		}
		for _, x := range t.args {
			if x.bound && x.op != "bvar" && x.op != "select" && x.op != "app" {
				return false
			}
		}
		out = append(out, []*Term{t})
		return true
	}
	walk(b)
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}

// normMulti re-indexes a universal over several variables like normForall does for one.
func normMulti(vs []*Term, body *Term) *Term {
	isV := map[*Term]bool{}
	for _, v := range vs {
		isV[v] = true
	}
	shapes := make([][]*Term, len(vs))
	seen := map[*Term]bool{}
	note := func(ix *Term) {
		if !ix.bound || ix.sort != SInt {
			return
		}
		l := toLin(ix)
		for k, v := range vs {
			c, ok := l.m[v]
			if v.sort != SInt || !ok || c.Cmp(ratI(1)) != 0 {
				continue
			}
			rest := mkSub(ix, v)
			if rest.bound {
				continue
			}
			dup := false
			for i, r := range shapes[k] {
				d := mkSub(rest, r)
				if d.op != "int" {
					continue
				}
				// neighbours (a[i], a[i+1]): one is enough, and both would chase each other
				dup = true
				if d.r.Sign() < 0 {
					shapes[k][i] = rest
				}
			}
			if !dup {
				shapes[k] = append(shapes[k], rest)
			}
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		switch {
		case t.op == "select":
			note(t.args[1])
		case t.op == "app" && t.name != "to_real" && t.name != "rid":
			for _, a := range t.args {
				note(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	combos := []map[*Term]*Term{{}}
	for k, v := range vs {
		if len(shapes[k]) == 0 || v.sort != SInt {
			continue
		}
		var next []map[*Term]*Term
		for _, c := range combos {
			for _, r := range shapes[k] {
				m := map[*Term]*Term{}
				for a, b := range c {
					m[a] = b
				}
				m[v] = mkSub(v, r)
				next = append(next, m)
			}
		}
		if len(next) > 6 {
			next = next[:6]
		}
		combos = next
	}
	var out []*Term
	for _, m := range combos {
		b := subst(body, m)
		f := mkForall(vs, b)
		if f.op == "forall" && f.pats == nil {
			f.pats = multiPats(b, vs)
			if len(f.pats) == 0 && len(vs) == 2 {
				p0, p1 := cleanPats(b, vs[0]), cleanPats(b, vs[1])
				for _, x := range p0 {
					for _, y := range p1 {
						if len(f.pats) < 6 {
							f.pats = append(f.pats, []*Term{x[0], y[0]})
						}
					}
				}
			}
		}
		out = append(out, f)
	}
	return mkAnd(out...)
}

// lowerReads spells out reads through stores and block writes at bound indices,
// so that the reads of the underlying arrays can serve as triggers.
func lowerReads(t *Term, hits *[][2]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !t.bound || len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		if r.op == "select" && r.args[1].bound && !r.args[0].bound {
			a, i := r.args[0], r.args[1]
			if a.op == "store" || a.op == "app" && strings.HasPrefix(a.name, "awrite") {
				*hits = append(*hits, [2]*Term{i, a.args[1]})
			}
			switch {
			case a.op == "store" && a.args[2].sort != SBool:
				r = rec(mkIte(mkEq(i, a.args[1]), a.args[2], mkSelect(a.args[0], i)))
			case a.op == "store":
				r = rec(mkOr(mkAnd(mkEq(i, a.args[1]), a.args[2]), mkAnd(mkNot(mkEq(i, a.args[1])), mkSelect(a.args[0], i))))
			case a.op == "app" && strings.HasPrefix(a.name, "awrite"):
				rel := mkSub(i, a.args[1])
				r = rec(mkIte(mkAnd(mkGe0(rel), mkLt(rel, a.args[4])), mkSelect(a.args[2], mkAdd(a.args[3], rel)), mkSelect(a.args[0], i)))
			}
		}
		cache[t] = r
		return r
	}
	return rec(t)
}
