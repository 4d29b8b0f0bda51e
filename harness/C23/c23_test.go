package c23

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/zzverif/vlib"
)

var units = []struct {
	s string
	n int64
}{{"y", 365 * 24 * 3600e9}, {"w", 7 * 24 * 3600e9}, {"d", 24 * 3600e9}, {"h", 3600e9}, {"m", 60e9}, {"s", 1e9}, {"ms", 1e6}, {"us", 1e3}, {"µs", 1e3}, {"ns", 1}}

// reference: <optional minus><digits><unit>, exact; nil if malformed or out of range
func ref(s string) *big.Int {
	unit := int64(0)
	num := ""
	for _, u := range units {
		if strings.HasSuffix(s, u.s) {
			p := strings.TrimSuffix(s, u.s)
			ok := p != "" && p != "-"
			for i := 0; i < len(p); i++ {
				if !('0' <= p[i] && p[i] <= '9' || i == 0 && p[i] == '-') {
					ok = false
				}
			}
			if ok {
				unit, num = u.n, p
			}
		}
	}
	if unit == 0 {
		return nil
	}
	n, _ := new(big.Int).SetString(num, 10)
	n.Mul(n, big.NewInt(unit))
	if !n.IsInt64() {
		return nil
	}
	return n
}

func text(r *rand.Rand) string {
	u := units[r.Intn(len(units))]
	switch r.Intn(10) {
	case 0: // near the representable limits
		m := math.MaxInt64 / u.n
		return fmt.Sprintf("%s%s", new(big.Int).Add(big.NewInt(m), big.NewInt(int64(r.Intn(5)-2))), u.s)
	case 1:
		m := math.MinInt64 / u.n
		return fmt.Sprintf("%s%s", new(big.Int).Add(big.NewInt(m), big.NewInt(int64(r.Intn(5)-2))), u.s)
	case 2: // malformed
		return []string{"", "s", "-s", "1", "--1s", "1-1s", "1h1m", "1.5h", " 1s", "1s ", "1S", "+1s", "9223372036854775808ns", "1s\n", "12-s", "-", "1µ", "0x1s", "1_0s", "１s"}[r.Intn(20)]
	case 3: // random noise
		b := make([]byte, 1+r.Intn(5))
		for i := range b {
			b[i] = "0123456789-ywdhmsunµ. "[r.Intn(20)]
		}
		return string(b) + u.s
	case 4:
		return fmt.Sprintf("%d%s", r.Uint64(), u.s)
	case 5:
		return "000" + fmt.Sprint(r.Intn(1000)) + u.s
	}
	return fmt.Sprintf("%d%s", r.Int63n(1<<uint(1+r.Intn(62)))-r.Int63n(1000), u.s)
}

func TestVerifC23Duration(t *testing.T) {
	vlib.Run(t, "duration texts (all units, limits of the representable range, malformed) against exact big-integer arithmetic; random durations formatted and parsed back; non-trivial: accepted texts", func(h *vlib.H) {
		n := h.N(100000, 2000000)
		for k := 0; k < n && h.More(); k++ {
			s := text(h.Rng)
			w := ref(s)
			key := ""
			if w != nil {
				key = s
			}
			h.Case(key)
			h.Try("parse-panic", func() string { return fmt.Sprintf("%q", s) }, func() {
				d, err := util.ParseDuration(s)
				if (err == nil) != (w != nil) {
					h.Fail("accept", "ParseDuration(%q) = %v, %v; want %v", s, d, err, w)
				} else if err == nil && w.Cmp(big.NewInt(int64(d))) != 0 {
					h.Fail("value", "ParseDuration(%q) = %d ns want %s", s, int64(d), w)
				}
			})
			d := time.Duration(h.Rng.Uint64() >> uint(h.Rng.Intn(64)))
			u := units[h.Rng.Intn(len(units))].n
			switch h.Rng.Intn(4) {
			case 0:
				d = d / time.Duration(u) * time.Duration(u)
			case 1:
				d = -d
			case 2:
				d = time.Duration(u * int64(h.Rng.Intn(400)-200))
			}
			if k < 3 {
				d = []time.Duration{0, math.MaxInt64, math.MinInt64}[k]
			}
			h.Try("format-panic", func() string { return fmt.Sprint(int64(d)) }, func() {
				s := util.FmtDuration(d)
				b, err := util.ParseDuration(s)
				if err != nil || b != d {
					h.Fail("roundtrip", "ParseDuration(FmtDuration(%d ns)=%q) = %d, %v", int64(d), s, int64(b), err)
				}
			})
		}
	})
}

func TestVerifC23TimeOfDay(t *testing.T) {
	vlib.Run(t, "times of day (around now, random, first and last of the day) and local zones; checked against the real clock: same time of day in UTC, not before the call, at most one day ahead; texts with 0..9 decimals parse exactly", func(h *vlib.H) {
		n := h.N(20000, 200000)
		r := h.Rng
		saved := time.Local
		defer func() { time.Local = saved }()
		day := 24 * time.Hour
		for k := 0; k < n && h.More(); k++ {
			time.Local = time.FixedZone("z", (r.Intn(27)-13)*3600)
			now := time.Now()
			sec := r.Int63n(int64(day))
			switch r.Intn(5) {
			case 0:
				sec = 0
			case 1:
				sec = int64(day) - 1
			case 2:
				u := now.UTC()
				sec = int64(u.Hour())*3600e9 + int64(u.Minute())*60e9 + int64(u.Second())*1e9 + int64(r.Intn(3)-1)*1e9
				sec = (sec + int64(day)) % int64(day)
			}
			hh, mm, ss, ns := sec/3600e9, sec/60e9%60, sec/1e9%60, sec%1e9
			tod := util.NewTimeOfDay(uint(hh), uint(mm), uint(ss), uint(ns))
			in := fmt.Sprintf("%02d:%02d:%02d.%09d", hh, mm, ss, ns)
			h.Case(in)
			h.Try("tod-panic", func() string { return in }, func() {
				before := time.Now()
				x := tod.NextTimeOfDay()
				after := time.Now()
				u := x.UTC()
				if int64(u.Hour()) != hh || int64(u.Minute()) != mm || int64(u.Second()) != ss || int64(u.Nanosecond()) != ns {
					h.Fail("tod", "NextTimeOfDay(%s) = %v has another time of day", in, x)
				}
				if x.Before(before) || x.After(after.Add(day)) {
					h.Fail("next", "NextTimeOfDay(%s) at %v (local zone %v) = %v", in, before, time.Local, x)
				}
				dec := r.Intn(10)
				txt := in[:8]
				val := sec - ns
				if dec > 0 {
					txt = in[:9+dec]
					p := int64(math.Pow10(9 - dec))
					val += ns / p * p
				}
				g, err := util.ParseTimeOfDay(txt)
				if err != nil || g.Hour() != int(val/3600e9) || g.Minute() != int(val/60e9%60) || g.Second() != int(val/1e9%60) || int64(g.Nanosecond()) != val%1e9 {
					h.Fail("parse-tod", "ParseTimeOfDay(%q) = %v, %v", txt, g, err)
				}
				var w util.TimeOfDayWrap
				if err := w.Set(txt); err != nil || !w.Time.Equal(g) {
					h.Fail("set-tod", "Set(%q) = %v, %v", txt, w, err)
				}
			})
		}
	})
}
