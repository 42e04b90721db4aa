package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate/commonxl"
)

// holders gives every Go value that holds the number exactly.
func holders(num string) []interface{} {
	v, err := strconv.ParseFloat(num, 64)
	must(err)
	vals := []interface{}{v}
	if float64(float32(v)) == v {
		vals = append(vals, float32(v))
	}
	if n, err := strconv.ParseInt(num, 10, 64); err == nil {
		vals = append(vals, n, int(n))
		if int64(int32(n)) == n {
			vals = append(vals, int32(n))
		}
		if int64(int16(n)) == n {
			vals = append(vals, int16(n))
		}
		if int64(int8(n)) == n {
			vals = append(vals, int8(n))
		}
		if n >= 0 {
			vals = append(vals, uint64(n), uint(n))
			if int64(uint32(n)) == n {
				vals = append(vals, uint32(n))
			}
			if int64(uint16(n)) == n {
				vals = append(vals, uint16(n))
			}
			if int64(uint8(n)) == n {
				vals = append(vals, uint8(n))
			}
		}
	}
	return vals
}

func init() {
	drivers["customfmt"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Code, Type, Text string
				Nums             [][2]string
				Times            [][]interface{}
			}
			unj(b, &c)
			const id = 200
			f := &commonxl.Formatter{}
			must(f.Add(id, c.Code))
			fail := func(step int, what, want, got string) {
				x.Fail(i, step, fmt.Sprintf("code %q: %s", c.Code, what), want, got, b)
			}
			cell := func(v interface{}) (string, string) {
				s := newSheet(f, 1, 1)
				s.Put(0, 0, v, id)
				s.Next()
				return s.Strings()[0], s.Types()[0]
			}
			x.Step(1)
			const text = "some text"
			if got, ok := f.Apply(id, text); !ok || got != c.Text {
				fail(-1, "text", c.Text, got)
			}
			if c.Type == "string" {
				if got, ty := cell(text); got != c.Text || ty != c.Type {
					fail(-1, "a cell with text", c.Text+" "+c.Type, got+" "+ty)
				}
			}
			// no format at all shows a float32 in a form of its own
			general := strings.Contains(c.Code, "General") || strings.Contains(c.Code, "@")
			for k, n := range c.Nums {
				for _, v := range holders(n[0]) {
					if _, ok := v.(float32); ok && general {
						continue
					}
					x.Step(1)
					if got, ok := f.Apply(id, v); !ok || got != n[1] {
						fail(k, fmt.Sprintf("%T %s", v, n[0]), n[1], got)
						return
					}
				}
				v, _ := strconv.ParseFloat(n[0], 64)
				if c.Type == "integer" && v != math.Trunc(v) {
					continue // the cell holds the whole number (C04)
				}
				if got, ty := cell(v); got != n[1] || c.Type != "*" && ty != c.Type {
					fail(k, "a cell with "+n[0], n[1]+" "+c.Type, got+" "+ty)
					return
				}
				x.Nontrivial()
			}
			for k, t := range c.Times {
				num := func(j int) int { return int(t[j].(float64)) }
				want := t[5].(string)
				at := time.Date(num(2), time.Month(num(3)), num(4), 0, 0, 0, 0, time.UTC).Add(time.Duration(num(1)) * time.Millisecond)
				serial := float64(num(0)) + float64(num(1))/86400000
				for _, v := range []interface{}{serial, at} {
					x.Step(1)
					if got, ok := f.Apply(id, v); !ok || got != want {
						fail(k, fmt.Sprintf("%T %v", v, at), want, got)
						return
					}
					if got, ty := cell(v); got != want || ty != c.Type {
						fail(k, fmt.Sprintf("a cell with %T %v", v, at), want+" "+c.Type, got+" "+ty)
						return
					}
				}
				x.Nontrivial()
			}
		})
	}
}
