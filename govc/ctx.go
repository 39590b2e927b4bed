package main

import (
	"fmt"
	"sort"
	"strings"
)

// iteCtx resolves conditions of t inside the branches of others that decide
// them.
func (m *TM) iteCtx(t *T) *T {
	c := &ctxSimp{m: m, conds: map[*T]map[*T]bool{}, memo: map[string]*T{}}
	r := c.simp(t, nil)
	if c.steps > 200000 {
		return t
	}
	return r
}

type ctxSimp struct {
	m     *TM
	conds map[*T]map[*T]bool // literals in the conditions within
	memo  map[string]*T
	steps int
}

func (c *ctxSimp) lits(t *T) map[*T]bool {
	if s, ok := c.conds[t]; ok {
		return s
	}
	s := map[*T]bool{}
	c.conds[t] = s
	for _, a := range t.args {
		for l := range c.lits(a) {
			s[l] = true
		}
	}
	if t.op == "ite" {
		var w func(a *T)
		w = func(a *T) {
			switch a.op {
			case "and", "or", "not":
				s[a] = true
				for _, b := range a.args {
					w(b)
				}
			default:
				s[a] = true
			}
		}
		w(t.args[0])
	}
	return s
}

func (c *ctxSimp) decide(env map[*T]bool, t *T) (bool, bool) {
	if v, ok := env[t]; ok {
		return v, true
	}
	if v, ok := env[c.m.Not(t)]; ok {
		return !v, true
	}
	switch t.op {
	case "not":
		v, ok := c.decide(env, t.args[0])
		return !v, ok
	case "and", "or":
		dom := t.op == "or"
		all := true
		for _, a := range t.args {
			v, ok := c.decide(env, a)
			if ok && v == dom {
				return dom, true
			}
			all = all && ok
		}
		if all {
			return !dom, true
		}
	}
	return false, false
}

func (c *ctxSimp) assume(env map[*T]bool, t *T, v bool) map[*T]bool {
	n := make(map[*T]bool, len(env)+2)
	for k, x := range env {
		n[k] = x
	}
	var add func(t *T, v bool)
	add = func(t *T, v bool) {
		n[t] = v
		switch {
		case t.op == "not":
			add(t.args[0], !v)
		case t.op == "and" && v, t.op == "or" && !v:
			for _, a := range t.args {
				add(a, v)
			}
		}
	}
	add(t, v)
	return n
}

func (c *ctxSimp) simp(t *T, env map[*T]bool) *T {
	if len(t.args) == 0 || t.op == "forall" || t.op == "foralls" || t.op == "map" || t.op == "lamarr" {
		return t
	}
	ls := c.lits(t)
	if len(ls) == 0 {
		return t
	}
	if c.steps++; c.steps > 200000 {
		return t
	}
	var key []string
	for k, v := range env {
		if ls[k] || ls[c.m.Not(k)] {
			key = append(key, fmt.Sprintf("%d:%v", k.id, v))
		}
	}
	sort.Strings(key)
	k := fmt.Sprintf("%d|%s", t.id, strings.Join(key, ","))
	if r, ok := c.memo[k]; ok {
		return r
	}
	var r *T
	if t.op == "ite" {
		switch v, ok := c.decide(env, t.args[0]); {
		case ok && v:
			r = c.simp(t.args[1], env)
		case ok:
			r = c.simp(t.args[2], env)
		default:
			cd := c.simp(t.args[0], env)
			r = c.m.Ite(cd, c.simp(t.args[1], c.assume(env, t.args[0], true)), c.simp(t.args[2], c.assume(env, t.args[0], false)))
		}
	} else {
		as := make([]*T, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = c.simp(a, env)
			ch = ch || as[i] != a
		}
		r = t
		if ch {
			r = c.m.Rebuild(t, as)
		}
	}
	c.memo[k] = r
	return r
}
