package main

import (
	"fmt"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
)

var markers = map[string]string{
	"<-": grate.ContinueColumnMerged, "<|": grate.EndColumnMerged,
	"^|": grate.ContinueRowMerged, "^-": grate.EndRowMerged,
}

func gridValue(s string) interface{} {
	if m, ok := markers[s]; ok {
		return m
	}
	switch s {
	case "1", "2":
		return int(s[0] - '0')
	case "7.0":
		return 7.0
	case "TRUE":
		return true
	}
	return s
}

type gridOp struct {
	Op, X   string
	R, C, F int
}
type gridCell struct {
	R, C, F int
	T, V, U string
}

func init() {
	drivers["grid"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Ops    []gridOp
				Nr, Nc int
				Cells  []gridCell
			}
			unj(b, &c)
			f := &commonxl.Formatter{}
			must(f.Add(164, "0.000"))
			s := &commonxl.Sheet{Formatter: f}
			for _, o := range c.Ops {
				x.Step(1)
				switch o.Op {
				case "resize":
					s.Resize(o.R, o.C)
				case "put":
					s.Put(o.R, o.C, gridValue(o.X), uint16(o.F))
				case "set":
					s.Set(o.R, o.C, o.X)
				case "url":
					s.SetURL(o.R, o.C, o.X)
				}
			}
			want := map[[2]int]gridCell{}
			data := false
			for _, w := range c.Cells {
				want[[2]int{w.R, w.C}] = w
				data = data || w.T != "blank"
			}
			if got := s.IsEmpty(); got == data {
				x.Fail(i, -1, "empty", !data, got, b)
			}
			n := 0
			for ; s.Next(); n++ {
				raw, types, strs, fmts := s.Raw(), s.Types(), s.Strings(), s.Formats()
				if len(raw) != c.Nc || len(types) != c.Nc || len(strs) != c.Nc || len(fmts) != c.Nc {
					x.Fail(i, n, "columns", c.Nc, []int{len(raw), len(types), len(strs), len(fmts)}, b)
					return
				}
				for k := range raw {
					w, ok := want[[2]int{n, k}]
					if !ok {
						w = gridCell{T: "blank"}
					}
					where := fmt.Sprintf("cell %d,%d ", n, k)
					if types[k] != w.T {
						x.Fail(i, n, where+"type", w, types[k], b)
						continue
					}
					if int(raw[k].FormatNo()) != w.F {
						x.Fail(i, n, where+"format", w, raw[k].FormatNo(), b)
					}
					if !gridHolds(f, raw[k].Value(), w) {
						x.Fail(i, n, where+"value", w, fmt.Sprintf("%T %v", raw[k].Value(), raw[k].Value()), b)
					}
					u, isURL := raw[k].URL()
					if isURL != (w.U != "") || (isURL && u.String() != w.U) {
						x.Fail(i, n, where+"link", w, fmt.Sprint(u), b)
					}
				}
			}
			// one trailing record of blanks is tolerated
			if n != c.Nr && n != c.Nr+1 {
				x.Fail(i, -1, "records", c.Nr, n, b)
			}
			if s.NumRows != c.Nr || s.NumCols != c.Nc {
				x.Fail(i, -1, "bounds", []int{c.Nr, c.Nc}, []int{s.NumRows, s.NumCols}, b)
			}
			if data {
				x.Nontrivial()
			}
		})
	}
}

// gridHolds compares the value of a cell, whatever type it was coerced to.
func gridHolds(f *commonxl.Formatter, got interface{}, w gridCell) bool {
	if w.V == "" {
		return got == nil || got == ""
	}
	if m, ok := markers[w.V]; ok {
		return got == m
	}
	num := map[string]float64{"1": 1, "2": 2, "7.0": 7, "TRUE": 1}
	switch g := got.(type) {
	case int64:
		v, ok := num[w.V]
		return ok && float64(g) == v
	case float64:
		v, ok := num[w.V]
		return ok && g == v
	case bool:
		return w.V == "TRUE" && g
	case time.Time:
		v, ok := num[w.V]
		return ok && g.Equal(f.ConvertToDate(v))
	case string:
		return g == w.V || (w.V == "7.0" && g == "7")
	}
	return false
}
