package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/pbnjay/grate/commonxl"
)

// built-in fraction formats by number of digits
var fracIDs = map[int][]uint16{1: {12, 69}, 2: {13, 70}}

func init() {
	drivers["fraction"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Neg                  bool
				W, N, D, Dig, Rn, Rd int
				S                    string
				Near                 []fracShown
			}
			unj(b, &c)
			v := float64(c.W) + float64(c.N)/float64(c.D)
			if c.Neg {
				v = -v
			}
			x.Step(1)
			f := &commonxl.Formatter{}
			if c.Near != nil {
				x.fracNear(i, b, f, v, c.Dig, c.Near)
				x.Nontrivial()
				return
			}
			for _, id := range fracIDs[c.Dig] {
				if got, ok := f.Apply(id, v); !ok || got != c.S {
					x.Fail(i, -1, fmt.Sprintf("format %d applied to %g", id, v), c.S, got, b)
				}
				s := newSheet(f, 1, 1)
				s.Put(0, 0, v, id)
				s.Next()
				if got := s.Strings()[0]; got != c.S {
					x.Fail(i, -1, "cell text", c.S, got, b)
				}
			}
			w, n, d := commonxl.DecimalToWholeFraction(v, c.Dig, c.Dig)
			wantW, wantN := c.W, c.Rn
			if c.Neg {
				wantW = -wantW
			}
			// the sign of a pure fraction may sit on either part
			if w != wantW || abs(n) != wantN || d != c.Rd {
				x.Fail(i, -1, fmt.Sprintf("DecimalToWholeFraction(%g,%d)", v, c.Dig), []int{wantW, wantN, c.Rd}, []int{w, n, d}, b)
			}
			if c.W == 0 {
				n, d := commonxl.DecimalToFraction(v, c.Dig, c.Dig)
				wantN := c.Rn
				if c.Neg {
					wantN = -wantN
				}
				if n != wantN || d != c.Rd {
					x.Fail(i, -1, fmt.Sprintf("DecimalToFraction(%g,%d)", v, c.Dig), []int{wantN, c.Rd}, []int{n, d}, b)
				}
			}
			if c.N != 0 {
				x.Nontrivial()
			}
			// neighbours that are not exactly representable: the number of
			// digits is bounded
			for k := 0; k < 2; k++ {
				u := v + (float64((i*7919+k*104729)%100000)-50000)/50000/float64(c.D)/1.7
				x.fracBound(i, b, f, u, c.Dig)
			}
			for _, e := range []float64{1e-4, 1e-7, 3e-9, 1e-10} {
				x.fracBound(i, b, f, v+e, c.Dig)
				x.fracBound(i, b, f, v-e, c.Dig)
			}
		})
	}
}

// fracShown is one of the fractions that a value may be shown as.
type fracShown struct {
	W, N, D int
	S       string
}

func (x *Ctx) fracNear(i int, b []byte, f *commonxl.Formatter, v float64, dig int, near []fracShown) {
	for _, id := range fracIDs[dig] {
		got, _ := f.Apply(id, v)
		if got != near[0].S && got != near[1].S {
			x.Fail(i, -1, fmt.Sprintf("format %d applied to %.17g", id, v), []string{near[0].S, near[1].S}, got, b)
		}
	}
	w, n, d := commonxl.DecimalToWholeFraction(v, dig, dig)
	ok := false
	for _, s := range near {
		ok = ok || abs(w) == s.W && abs(n) == s.N && d == s.D
	}
	if !ok || v > 0 && (w < 0 || n < 0) || v < 0 && w > 0 {
		x.Fail(i, -1, fmt.Sprintf("DecimalToWholeFraction(%.17g,%d)", v, dig), near, []int{w, n, d}, b)
	}
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func (x *Ctx) fracBound(i int, b []byte, f *commonxl.Formatter, v float64, dig int) {
	lim := int(math.Pow10(dig))
	_, n, d := commonxl.DecimalToWholeFraction(v, dig, dig)
	if abs(n) >= lim || d >= lim || d < 1 {
		x.Fail(i, -1, fmt.Sprintf("digits of DecimalToWholeFraction(%g,%d)", v, dig), nil, []int{n, d}, b)
	}
	for _, id := range fracIDs[dig] {
		s, _ := f.Apply(id, v)
		p := strings.Fields(s)
		fr := p[len(p)-1]
		if k := strings.IndexByte(fr, '/'); k >= 0 {
			n, e1 := strconv.Atoi(fr[:k])
			d, e2 := strconv.Atoi(fr[k+1:])
			if e1 != nil || e2 != nil || abs(n) >= lim || d >= lim || d < 1 {
				x.Fail(i, -1, fmt.Sprintf("digits of format %d applied to %g", id, v), nil, s, b)
			}
		}
		if strings.Count(s, "-") > 1 || (v > 0 && strings.Contains(s, "-")) || (strings.Contains(s, "-") && s[0] != '-') {
			x.Fail(i, -1, fmt.Sprintf("sign of format %d applied to %g", id, v), nil, s, b)
		}
	}
}
