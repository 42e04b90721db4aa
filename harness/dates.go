package main

import (
	"fmt"
	"strconv"
	"time"

	"github.com/pbnjay/grate/commonxl"
)

func init() {
	drivers["dates"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				K               string
				Sys, Y, M, D, N int
				First, Serial   int
				Ms              int
				S               map[string]string
			}
			unj(b, &c)
			f := &commonxl.Formatter{}
			f.Mode1904(c.Sys == 1904)
			if c.K == "month" {
				for d := 1; d <= c.N; d++ {
					n := c.First + d - 1
					if n < 0 {
						continue
					}
					x.Step(1)
					want := time.Date(c.Y, time.Month(c.M), d, 0, 0, 0, 0, time.UTC)
					if got := f.ConvertToDate(float64(n)); !got.Equal(want) {
						x.Fail(i, d, fmt.Sprintf("serial %d (%d system)", n, c.Sys), want.String(), got.String(), b)
						return
					}
				}
				x.Nontrivial()
				return
			}
			want := time.Date(c.Y, time.Month(c.M), c.D, 0, 0, 0, 0, time.UTC).Add(time.Duration(c.Ms) * time.Millisecond)
			v := float64(c.Serial) + float64(c.Ms)/86400000
			x.Step(1)
			if got := f.ConvertToDate(v); !got.Equal(want) {
				x.Fail(i, -1, fmt.Sprintf("serial %v (%d system)", v, c.Sys), want.String(), got.String(), b)
				return
			}
			vals := []interface{}{v, want}
			if c.Ms == 0 {
				vals = append(vals, int64(c.Serial), int(c.Serial))
			}
			for ids, s := range c.S {
				id, err := strconv.Atoi(ids)
				must(err)
				s = cjk.Replace(s)
				for _, v := range vals {
					x.Step(1)
					if got, ok := f.Apply(uint16(id), v); !ok || got != s {
						x.Fail(i, id, fmt.Sprintf("format %d applied to %T %v", id, v, v), s, got, b)
					}
					if _, isInt := v.(int); isInt {
						continue
					}
					sh := newSheet(f, 1, 1)
					sh.Put(0, 0, v, uint16(id))
					sh.Next()
					if got := sh.Strings()[0]; got != s || sh.Types()[0] != "date" {
						x.Fail(i, id, fmt.Sprintf("cell of format %d given %T %v", id, v, v), s, got+" "+sh.Types()[0], b)
					}
					var t time.Time
					if err := sh.Scan(&t); err != nil || !t.Equal(want) {
						x.Fail(i, id, "scanned time", want.String(), t.String(), b)
					}
				}
			}
			x.Nontrivial()
		})
	}
}
