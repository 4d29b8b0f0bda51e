package main

import (
	"fmt"
	"strings"
)

// cvc5 accepts constant arrays of values only. constArrays replaces the others by constants that
// are defined by a quantified formula; the replacement only weakens the query's hypotheses.
func constArrays(q string) string {
	const pre = "((as const "
	if !strings.Contains(q, pre) {
		return q
	}
	names := map[string]string{}
	var out strings.Builder
	for _, line := range strings.SplitAfter(q, "\n") {
		from := 0
		for {
			p := strings.Index(line[from:], pre)
			if p < 0 {
				break
			}
			p += from
			so := sexpEnd(line, p+len(pre))
			if so < 0 || so >= len(line) || line[so] != ')' {
				from = p + 1
				continue
			}
			sort := line[p+len(pre) : so]
			vs := so + 1
			for vs < len(line) && line[vs] == ' ' {
				vs++
			}
			ve := sexpEnd(line, vs)
			if ve < 0 || ve >= len(line) || line[ve] != ')' || !strings.HasPrefix(sort, "(Array ") {
				from = p + 1
				continue
			}
			val := line[vs:ve]
			if isValue(val) {
				from = p + 1
				continue
			}
			if i := strings.Index(val, pre); i >= 0 {
				from = vs + i // the inner one first
				continue
			}
			k := sort + " " + val
			n, ok := names[k]
			if !ok {
				ie := sexpEnd(sort, len("(Array "))
				n = fmt.Sprintf("carr_%d", len(names))
				names[k] = n
				fmt.Fprintf(&out, "(declare-fun %s () %s)\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, sort, sort[len("(Array "):ie], n, val, n)
			}
			line = line[:p] + n + line[ve+1:]
			from = 0
		}
		out.WriteString(line)
	}
	return out.String()
}

func isValue(s string) bool {
	if s == "true" || s == "false" {
		return true
	}
	for _, c := range s {
		if (c < '0' || c > '9') && c != '(' && c != ')' && c != '-' && c != ' ' {
			return false
		}
	}
	return true
}

// sexpEnd: the position after the s-expression starting at p.
func sexpEnd(s string, p int) int {
	if p >= len(s) {
		return -1
	}
	if s[p] != '(' {
		for p < len(s) && s[p] != ' ' && s[p] != ')' && s[p] != '\n' {
			p++
		}
		return p
	}
	d := 0
	for ; p < len(s); p++ {
		switch s[p] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return p + 1
			}
		}
	}
	return -1
}
