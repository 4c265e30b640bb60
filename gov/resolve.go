package main

import "sort"

// resolveConds: a second look at an obligation the solvers could not decide.
// Every reference comparison that selects between memories (the condition of
// an ite) and that the quantifier-free hypotheses alone decide is replaced by
// its value, which lets reads see through the updates between them.
func (x *Exec) resolveConds(hyps []*Term, goal *Term, goalOnly bool) ([]*Term, *Term, bool) {
	seen := map[*Term]bool{}
	cnt := map[*Term]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			c := t.args[0]
			if c.op == "not" {
				c = c.args[0]
			}
			if c.op == "=" && c.args[0].sort == SRef && len(freeB(c)) == 0 {
				cnt[c]++
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(goal)
	if !goalOnly {
		for _, h := range hyps {
			walk(h)
		}
	}
	var conds []*Term
	for c := range cnt {
		conds = append(conds, c)
	}
	sort.Slice(conds, func(i, j int) bool { return conds[i].id < conds[j].id })
	if len(conds) > 40 {
		conds = conds[:40]
	}
	var ground []*Term
	for _, h := range hyps {
		if !hasQuant(h) {
			ground = append(ground, h)
		}
	}
	m := map[*Term]*Term{}
	for _, c := range conds {
		if r, _, _ := prove(x.mkQuery(ground, mkNot(c)), 0); r == "unsat" {
			m[c] = tFalse
		} else if r, _, _ := prove(x.mkQuery(ground, c), 0); r == "unsat" {
			m[c] = tTrue
		}
	}
	if len(m) == 0 {
		return nil, nil, false
	}
	var hs []*Term
	for c, v := range m {
		if v == tTrue {
			hs = append(hs, c)
		} else {
			hs = append(hs, mkNot(c))
		}
	}
	for _, h := range hyps {
		hs = append(hs, subst(h, m))
	}
	return hs, subst(goal, m), true
}

func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// knownConds simplifies the conditions of conditionals that the path decides.
func knownConds(st *State, goal *Term) *Term {
	for n := 0; n < 3; n++ {
		m := map[*Term]*Term{}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "ite" && len(freeB(t.args[0])) == 0 {
				c := t.args[0]
				if st.known(c) {
					m[c] = tTrue
				} else if st.known(mkNot(c)) {
					m[c] = tFalse
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(goal)
		if len(m) == 0 {
			break
		}
		goal = subst(goal, m)
	}
	return goal
}
