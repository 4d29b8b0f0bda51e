package main

import (
	"fmt"
	"strings"
	"sync"
)

// patSorts: the sort of every trigger term written in a specification (bound variables are unique).
var patSorts sync.Map

// skolemGoal writes the negation of a goal with its outermost universal quantifiers replaced by
// constants, and mentions the trigger terms of these quantifiers: a term that occurs only below
// another quantifier of the goal is otherwise no candidate for instantiating the hypotheses.
func skolemGoal(g string) string {
	var b strings.Builder
	n := 0
	touch := map[string]bool{}
	var neg func(g string)
	neg = func(g string) {
		g = strings.TrimSpace(g)
		switch {
		case strings.HasPrefix(g, "(=> "):
			a := splitArgs(g)
			if len(a) != 3 {
				break
			}
			fmt.Fprintf(&b, "(assert %s)\n", a[1])
			neg(a[2])
			return
		case strings.HasPrefix(g, "(forall ("):
			a := splitArgs(g)
			if len(a) != 3 {
				break
			}
			body := a[2]
			var pats []string
			if strings.HasPrefix(body, "(! ") {
				l := splitArgs(body)
				body = l[1]
				for i := 2; i+1 < len(l); i += 2 {
					if l[i] == ":pattern" {
						pats = append(pats, splitArgs("(_ " + l[i+1][1:])[1:]...)
					}
				}
			}
			type bind struct{ name, c string }
			var bs []bind
			vs := splitArgs("(_ " + a[1][1:])[1:]
			for _, d := range vs {
				p := splitArgs(d)
				if len(p) != 2 {
					fmt.Fprintf(&b, "(assert (not %s))\n", g)
					return
				}
				c := fmt.Sprintf("sk!%d", n)
				n++
				fmt.Fprintf(&b, "(declare-fun %s () %s)\n", c, p[1])
				bs = append(bs, bind{p[0], c})
			}
			sub := func(s string) string {
				for _, x := range bs {
					s = substTok(s, x.name, x.c)
				}
				return s
			}
			for _, p := range pats {
				so, ok := patSorts.Load(p)
				if !ok {
					continue
				}
				f := "touch_" + sanitize(so.(string))
				if !touch[f] {
					touch[f] = true
					fmt.Fprintf(&b, "(declare-fun %s (%s) Bool)\n", f, so)
				}
				fmt.Fprintf(&b, "(assert (%s %s))\n", f, sub(p))
			}
			neg(sub(body))
			return
		}
		fmt.Fprintf(&b, "(assert (not %s))\n", g)
	}
	neg(g)
	if n == 0 {
		return ""
	}
	return b.String() + "(check-sat)\n"
}

// substTok replaces a whole symbol.
func substTok(s, from, to string) string {
	var b strings.Builder
	for {
		k := strings.Index(s, from)
		if k < 0 {
			b.WriteString(s)
			return b.String()
		}
		e := k + len(from)
		ok := (k == 0 || s[k-1] == ' ' || s[k-1] == '(') && (e == len(s) || s[e] == ' ' || s[e] == ')')
		b.WriteString(s[:k])
		if ok {
			b.WriteString(to)
		} else {
			b.WriteString(from)
		}
		s = s[e:]
	}
}
