package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"unicode/utf16"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/xls"
)

// C24: damaged files.

type dmgEff struct {
	O       string
	R, C, X int
	V       []int
	S       string
}

// dmgName is a text, or the codes of its characters.
type dmgName string

func (n *dmgName) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '"' {
		var s string
		err := json.Unmarshal(b, &s)
		*n = dmgName(s)
		return err
	}
	var us []int
	err := json.Unmarshal(b, &us)
	*n = dmgName(unitText(us))
	return err
}

func (n dmgName) text() string { return string(n) }

type dmgSheet struct {
	N   dmgName
	H   int
	Got struct {
		Err        bool
		Eff        []dmgEff
		Rows, Cols int
	}
}

func unitText(us []int) string {
	w := make([]uint16, len(us))
	for k, u := range us {
		w[k] = uint16(u)
	}
	return string(utf16.Decode(w))
}

func byteOf(vs []int) []byte {
	b := make([]byte, len(vs))
	for k, v := range vs {
		b[k] = byte(v)
	}
	return b
}

// rkValue decodes a compact number.
func rkValue(b []byte) float64 {
	w := binary.LittleEndian.Uint32(b)
	var v float64
	if w&2 != 0 {
		v = float64(int32(w) >> 2)
	} else {
		v = math.Float64frombits(uint64(w&^3) << 32)
	}
	if w&1 != 0 {
		v /= 100
	}
	return v
}

type dmgVal struct {
	kind string // number, text, bool, mark, some (anything but blank)
	f    float64
	s    string
	b    bool
	x    int // the format number, -1 if it does not matter
}

var dmgErr = map[int]string{0: "#NULL!", 7: "#DIV/0!", 15: "#VALUE!", 23: "#REF!", 29: "#NAME?", 36: "#NUM!", 42: "#N/A", 43: "#GETTING_DATA"}

// dmgCells gives the cells that the effects leave.
func dmgCells(effs []dmgEff) map[[2]int]dmgVal {
	cells := map[[2]int]dmgVal{}
	formats := map[[2]int]int{}
	for _, e := range effs {
		at := [2]int{e.R, e.C}
		v := dmgVal{kind: "some", x: e.X}
		switch e.O {
		case "f64":
			v.f, v.kind = math.Float64frombits(binary.LittleEndian.Uint64(byteOf(e.V))), "number"
		case "rk":
			v.f, v.kind = rkValue(byteOf(e.V)), "number"
		case "bool":
			v.b, v.kind = e.V[0] == 1, "bool"
		case "error":
			v.kind = "text"
			if v.s = dmgErr[e.V[0]]; v.s == "" {
				v.s = "<unknown error>"
			}
		case "num":
			v.s = string(byteOf(e.V))
			f, err := strconv.ParseFloat(v.s, 64)
			if err != nil {
				panic(driverError("number " + v.s))
			}
			v.f, v.kind = f, "number"
		case "text", "set", "link":
			v.s, v.kind = unitText(e.V), "text"
			if e.O == "link" {
				v.s = e.S
			}
			if e.O == "set" {
				v.x = formats[at]
			}
			formats[at] = v.x
			if v.s == "" {
				delete(cells, at)
				continue
			}
		case "merge":
			for r := e.R; r <= e.V[0]; r++ {
				for c := e.C; c <= e.V[1]; c++ {
					m := dmgVal{kind: "mark", x: -1}
					switch {
					case r == e.R && c == e.C:
						continue
					case c == e.C && r == e.V[0]:
						m.s = grate.EndRowMerged
					case c == e.C:
						m.s = grate.ContinueRowMerged
					case c == e.V[1]:
						m.s = grate.EndColumnMerged
					default:
						m.s = grate.ContinueColumnMerged
					}
					cells[[2]int{r, c}] = m
				}
			}
			continue
		default:
			panic(driverError("effect " + e.O))
		}
		if e.X != 0 && !(e.X == 2 && v.kind == "number") {
			v.kind = "some" // the format may convert it
		}
		cells[at] = v
	}
	return cells
}

func (w dmgVal) is(v interface{}) bool {
	switch w.kind {
	case "some":
		return v != nil && v != ""
	case "number":
		var f float64
		switch x := v.(type) {
		case float64:
			f = x
		case int64:
			f = float64(x)
		default:
			return false
		}
		return f == w.f || f != f && w.f != w.f
	case "bool":
		return v == w.b
	default:
		return v == w.s
	}
}

// dmgSame compares a collection with the cells it should hold.
func dmgSame(col grate.Collection, want map[[2]int]dmgVal) (string, interface{}, interface{}) {
	rows := map[int]int{}
	for at := range want {
		rows[at[0]]++
	}
	row := -1
	seen := 0
	for col.Next() {
		row++
		if rows[row] == 0 && row >= 300 {
			continue
		}
		for c, cell := range col.(*commonxl.Sheet).Raw() {
			v := cell.Value()
			w, ok := want[[2]int{row, c}]
			if !ok {
				if v != nil && v != "" {
					return fmt.Sprintf("cell %d,%d", row, c), nil, fmt.Sprint(v)
				}
				continue
			}
			seen++
			if w.x >= 0 && int(cell.FormatNo()) != w.x {
				return fmt.Sprintf("cell %d,%d format", row, c), w.x, cell.FormatNo()
			}
			if !w.is(v) {
				return fmt.Sprintf("cell %d,%d", row, c), fmt.Sprintf("%+v", w), fmt.Sprintf("%T %v", v, v)
			}
		}
	}
	if seen != len(want) {
		return "cells", len(want), seen
	}
	return "", nil, nil
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func init() {
	drivers["damage"] = func(x *Ctx) {
		x.Each(1, func(i int, b []byte) {
			var c struct {
				Raw    []int
				Open   string
				Sheets []dmgSheet
			}
			unj(b, &c)
			x.Step(1)
			path := x.scratch(".xls")
			must(os.WriteFile(path, simpleCfb([]string{"Workbook"}, [][]byte{byteOf(c.Raw)}), 0o600))
			defer os.Remove(path)
			dmgCheck(x, i, b, c.Open, c.Sheets, func() (grate.Source, error) { return xls.Open(path) })
		})
	}
}

// dmgCheck opens a damaged file and compares what it gives with what it says.
func dmgCheck(x *Ctx, i int, b []byte, outcome string, sheets []dmgSheet, open func() (grate.Source, error)) bool {
	m0 := allocated()
	src, err := open()
	if m := allocated() - m0; m > 48<<20 {
		x.Fail(i, -1, "memory to open a small file", "48 MB", m, b)
	}
	if err == nil {
		defer src.Close()
	}
	if outcome == "any" {
		return true
	}
	x.Add("open "+outcome, 1)
	if (err == nil) != (outcome == "ok") {
		x.Fail(i, -1, "open", outcome, fmt.Sprint(err), b)
		return false
	}
	if err != nil {
		x.Nontrivial()
		return true
	}
	var visible []string
	for _, s := range sheets {
		if s.H == 0 {
			visible = append(visible, s.N.text())
		}
	}
	if got, err := src.List(); err != nil || len(got)+len(visible) > 0 && !reflect.DeepEqual(got, visible) {
		x.Fail(i, -1, "list", visible, got, b)
		return false
	}
	for k, s := range sheets {
		want := dmgCells(s.Got.Eff)
		m0 := allocated()
		col, err := src.Get(s.N.text())
		if m := allocated() - m0; m > 96<<20+uint64(len(want))*1000 {
			x.Fail(i, k, "memory to read a small sheet", "96 MB", m, b)
		}
		if (err != nil) != s.Got.Err {
			x.Fail(i, k, fmt.Sprintf("get sheet %d", k+1), s.Got.Err, fmt.Sprint(err), b)
			return false
		}
		if err != nil {
			x.Add("refused sheets", 1)
			continue
		}
		if what, w, g := dmgSame(col, want); what != "" {
			x.Fail(i, k, fmt.Sprintf("sheet %d %s", k+1, what), w, g, b)
			return false
		}
	}
	x.Nontrivial()
	return true
}
