package c21

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/domain"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
	"golang.org/x/net/publicsuffix"
)

func alnum(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

func labelOK(l string) bool {
	if len(l) == 0 || len(l) > 63 || !alnum(l[0]) || !alnum(l[len(l)-1]) {
		return false
	}
	for i := 0; i < len(l); i++ {
		if !alnum(l[i]) && l[i] != '-' {
			return false
		}
	}
	return true
}

func valid(d string) bool {
	if len(d) > 255 {
		return false
	}
	if s, icann := publicsuffix.PublicSuffix(d); icann && s == d {
		return false
	}
	for i, l := range strings.Split(d, ".") {
		// a wildcard only as the first of several labels
		if l == "*" && i == 0 && strings.Contains(d, ".") {
			continue
		}
		if !labelOK(l) {
			return false
		}
	}
	return true
}

func strip(d string) string {
	if strings.HasPrefix(d, "*.") && len(d) > 2 {
		d = d[2:]
	}
	if strings.HasPrefix(d, "www.") && len(d) > 4 {
		d = d[4:]
	}
	return d
}

// reference decomposition: nil if rejected
func parse(d string) []string {
	if !valid(d) {
		return nil
	}
	d = strip(d)
	suf, icann := publicsuffix.PublicSuffix(d)
	if !icann {
		return []string{d}
	}
	if suf == d {
		return nil
	}
	// registrable domain: the suffix and one more label; then one label more each
	var out []string
	rest := strings.Split(strings.TrimSuffix(d, "."+suf), ".")
	cur := suf
	for i := len(rest) - 1; i >= 0; i-- {
		cur = rest[i] + "." + cur
		out = append(out, cur)
	}
	return out
}

var labs = []string{"a", "b", "example", "com", "www", "*", "co", "uk", "ch", "ethz", "", "-a", "a-", "a-b", "x_y", "xn--p1ai", "A", "github", "io", "ck", "kobe", "jp", "city", "1", "localhost", "a*", "é"}

func gen(r *rand.Rand) string {
	var l []string
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		switch {
		case r.Intn(30) == 0:
			l = append(l, strings.Repeat("a", 60+r.Intn(6)))
		case i > 0 && i == n-1 && r.Intn(3) > 0:
			l = append(l, []string{"com", "co.uk", "ch", "github.io", "kobe.jp", "org", "ck", "local", "city.kobe.jp", "com.ac"}[r.Intn(10)])
		default:
			k := len(labs)
			if r.Intn(3) > 0 {
				k = 10
			}
			l = append(l, labs[r.Intn(k)])
		}
	}
	if r.Intn(6) == 0 {
		l = append([]string{"*"}, l...)
	}
	if r.Intn(6) == 0 {
		l = append([]string{"*", "www"}, l...)
	}
	s := strings.Join(l, ".")
	if r.Intn(40) == 0 {
		s = strings.Repeat("a.", 120+r.Intn(8)) + s
	}
	if r.Intn(30) == 0 {
		s += "\n"
	}
	return s
}

func TestVerifC21Parse(t *testing.T) {
	vlib.Run(t, "names built from real and odd labels, public suffixes of all rule kinds, wildcards, www, over-long labels and names; oracle: independent label scanner and the public-suffix list; non-trivial: accepted with at least two names", func(h *vlib.H) {
		n := h.N(60000, 1000000)
		for k := 0; k < n && h.More(); k++ {
			d := gen(h.Rng)
			w := parse(d)
			key := ""
			if len(w) > 1 {
				key = d
			}
			h.Case(key)
			h.Try("panic", func() string { return fmt.Sprintf("%q", d) }, func() {
				if g := domain.IsValidDomain(d); g != valid(d) {
					h.Fail("valid", "IsValidDomain(%q) = %v", d, g)
				}
				got, err := domain.ParseDomainName(d)
				h.Keep(d, func() string { return fmt.Sprintf("%q", got) })
				if (err != nil) != (w == nil) {
					h.Fail("accept", "ParseDomainName(%q) = %q, %v; want %q", d, got, err, w)
				} else if err == nil && fmt.Sprintf("%q", got) != fmt.Sprintf("%q", w) {
					h.Fail("hierarchy", "ParseDomainName(%q) = %q want %q", d, got, w)
				}
				if sp, err := domain.SplitE2LD(d); err == nil && valid(d) {
					if strings.Join(sp, ".") != d {
						h.Fail("split", "SplitE2LD(%q) = %q does not recompose", d, sp)
					}
				}
			})
		}
	})
}

func TestVerifC21Affected(t *testing.T) {
	vlib.Run(t, "lists of 0..12 names sharing suffixes; checked: every valid name with a registrable domain is covered by an affected domain (itself or a parent at a label boundary), affected domains are unique, and each is the longest common suffix of the names of one registrable domain (or a valid name itself for up to 4 names)", func(h *vlib.H) {
		n := h.N(10000, 200000)
		r := h.Rng
		for k := 0; k < n && h.More(); k++ {
			var l []string
			for m := r.Intn(13); m > 0; m-- {
				if len(l) > 0 && r.Intn(2) == 0 {
					l = append(l, labs[r.Intn(10)]+"."+l[r.Intn(len(l))])
				} else {
					l = append(l, gen(r))
				}
			}
			uniq := map[string]bool{}
			for _, d := range l {
				if valid(d) {
					uniq[strip(d)] = true
				}
			}
			var want []string
			if len(uniq) <= domain.MaxSANLength {
				for d := range uniq {
					want = append(want, d)
				}
			} else {
				groups := map[string][]string{}
				for d := range uniq {
					suf, icann := publicsuffix.PublicSuffix(d)
					e := d
					if icann {
						if suf == d {
							continue
						}
						rest := strings.TrimSuffix(d, "."+suf)
						e = rest[strings.LastIndex(rest, ".")+1:] + "." + suf
					}
					groups[e] = append(groups[e], d)
				}
				for _, g := range groups {
					c := strings.Split(g[0], ".")
					for _, d := range g[1:] {
						x := strings.Split(d, ".")
						i := 0
						for i < len(c) && i < len(x) && c[len(c)-1-i] == x[len(x)-1-i] {
							i++
						}
						c = c[len(c)-i:]
					}
					want = append(want, strings.Join(c, "."))
				}
			}
			sort.Strings(want)
			key := ""
			if len(uniq) > domain.MaxSANLength {
				key = strings.Join(l, " ")
			}
			h.Case(key)
			in := fmt.Sprintf("%q", l)
			h.Try("affected-panic", func() string { return in }, func() {
				res := domain.ExtractAffectedDomains(l)
				h.Keep(in, func() string { return fmt.Sprintf("%q", res) })
				got := append([]string{}, res...)
				sort.Strings(got)
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					h.Fail("affected", "ExtractAffectedDomains(%s) = %q want %q", in, got, want)
				}
			})
		}
	})
}
