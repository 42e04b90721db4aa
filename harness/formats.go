package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/pbnjay/grate/commonxl"
)

// cjk replaces the ASCII place holders of the specification.
var cjk = strings.NewReplacer("<y>", "年", "<m>", "月", "<d>", "日", "<h>", "时", "<i>", "分", "<s>", "秒",
	"<am>", "上午", "<pm>", "下午")

type fmtOp struct {
	Op, Code, S string
	ID          uint16
	OK          bool
}
type fmtCase struct {
	K, Code, Num, S string
	ID              uint16
	Ops             []fmtOp
}

func newSheet(f *commonxl.Formatter, r, c int) *commonxl.Sheet {
	s := &commonxl.Sheet{Formatter: f}
	s.Resize(r, c)
	return s
}

func init() {
	drivers["formats"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c fmtCase
			unj(b, &c)
			if c.K == "val" {
				fmtVal(x, i, b, &c)
			} else {
				fmtHist(x, i, b, &c)
			}
		})
	}
}

func fmtVal(x *Ctx, i int, b []byte, c *fmtCase) {
	f := &commonxl.Formatter{}
	for _, v := range holders(c.Num) {
		if _, ok := v.(float32); ok && c.ID == 0 {
			continue // General shows it in a form of its own
		}
		x.Step(1)
		got, ok := f.Apply(c.ID, v)
		if !ok || got != c.S {
			x.Fail(i, -1, fmt.Sprintf("format %d (%s) applied to %T %s", c.ID, c.Code, v, c.Num), c.S, got, b)
		}
		if ff, ok := f.Get(c.ID); !ok || ff(f, v) != c.S {
			x.Fail(i, -1, "the formatting function of Get", c.S, nil, b)
		}
	}
	if n, err := strconv.ParseInt(c.Num, 10, 64); err == nil {
		s := newSheet(f, 1, 1)
		s.Put(0, 0, n, c.ID)
		s.Next()
		if got := s.Strings()[0]; got != c.S {
			x.Fail(i, -1, "cell text", c.S, got, b)
		}
	}
	x.Nontrivial()
}

func fmtHist(x *Ctx, i int, b []byte, c *fmtCase) {
	f := &commonxl.Formatter{}
	adds := 0
	for k, o := range c.Ops {
		x.Step(1)
		switch o.Op {
		case "add":
			err := f.Add(o.ID, o.Code)
			if (err == nil) != o.OK {
				x.Fail(i, k, "registration accepted", o.OK, err == nil, b)
			}
			adds++
		case "apply":
			want := o.S
			if want == "*" {
				want, _ = (&commonxl.Formatter{}).Apply(o.ID, 7.1258)
			}
			got, ok := f.Apply(o.ID, 7.1258)
			if ok != o.OK || (ok && got != want) {
				x.Fail(i, k, "apply", []interface{}{o.OK, want}, []interface{}{ok, got}, b)
			}
			if _, ok = f.Get(o.ID); ok != o.OK {
				x.Fail(i, k, "get", o.OK, ok, b)
			}
		case "type":
			s := newSheet(f, 1, 1)
			s.Put(0, 0, 7.1258, o.ID)
			s.Next()
			if got := s.Types()[0]; got != o.S {
				x.Fail(i, k, "type given by the format", o.S, got, b)
			}
		case "code":
			s := newSheet(f, 1, 1)
			s.Put(0, 0, "x", o.ID)
			s.Next()
			if got := s.Formats()[0]; got != cjk.Replace(o.S) {
				x.Fail(i, k, "format code", cjk.Replace(o.S), got, b)
			}
		}
	}
	if adds > 0 || len(c.Ops) == 1 {
		x.Nontrivial()
	}
}
