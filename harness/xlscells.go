package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
)

type xlsNum struct {
	Enc string
	Neg bool
	Ds  []int
	Pt  int
	S   int
}
type xlsOp struct {
	K          string
	R, C, S, I int
	Enc        string
	Neg        bool
	Ds         []int
	Pt         int
	Run        []xlsNum
}

func (n xlsNum) int() int64 {
	v := int64(0)
	for _, d := range n.Ds {
		v = v*10 + int64(d)
	}
	if n.Neg {
		v = -v
	}
	return v
}

// float gives the double of an ordinary number.
func (n xlsNum) float() float64 {
	s := ""
	if n.Neg {
		s = "-"
	}
	for k, d := range n.Ds {
		if k == len(n.Ds)-n.Pt {
			if k == 0 {
				s += "0"
			}
			s += "."
		}
		s += fmt.Sprint(d)
	}
	v, err := strconv.ParseFloat(s, 64)
	must(err)
	if v == 0 {
		v = 0
	}
	return v
}

// rk encodes a compact number.
func (n xlsNum) rk() uint32 {
	v := n.int()
	switch n.Enc {
	case "rki":
		return uint32(int32(v))<<2 | 2
	case "rkh":
		return uint32(int32(v))<<2 | 3
	}
	f := float64(v) / 8
	if f == 0 {
		f = 0
	}
	bits := math.Float64bits(f)
	if bits&(1<<34-1) != 0 {
		panic(driverError("not a compact float"))
	}
	w := uint32(bits >> 32)
	if n.Enc == "rkfh" {
		w |= 1
	}
	return w
}

var xlsErrCode = []string{"#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA"}
var xlsWords = []string{"abc", "x y", "12", "1.5", "TRUE", "", "0"}
var xlsFormats = []int{0, 1, 2, 4, 9, 10, 14, 49, 164, 3, 39, 11}

func formulaRec(r, c, s int, val []byte, rnd *rand.Rand) biffRec {
	expr := make([]byte, rnd.Intn(9))
	rnd.Read(expr)
	return biffRec{rFormula, le(uint16(r), uint16(c), uint16(s), val, uint16(rnd.Intn(4)), uint32(0), uint16(len(expr)), expr)}
}

// xlsCellRecs encodes one record of the specification.
func xlsCellRecs(o xlsOp, rnd *rand.Rand) []biffRec {
	n := xlsNum{o.Enc, o.Neg, o.Ds, o.Pt, o.S}
	r, c, s := uint16(o.R), uint16(o.C), uint16(o.S)
	special := func(kind, v byte) []byte {
		return []byte{kind, byte(rnd.Intn(256)), v, byte(rnd.Intn(256)), 0, 0, 0xFF, 0xFF}
	}
	switch o.K {
	case "number":
		return []biffRec{numRec(o.R, o.C, o.S, n.float())}
	case "rk":
		return []biffRec{{rRK, le(r, c, s, n.rk())}}
	case "mulrk":
		d := le(r, c)
		for _, q := range o.Run {
			d = append(d, le(uint16(q.S), q.rk())...)
		}
		return []biffRec{{rMulRk, append(d, le(uint16(o.C+len(o.Run)-1))...)}}
	case "bool":
		return []biffRec{{rBoolErr, le(r, c, s, uint8(o.I), uint8(0))}}
	case "err":
		return []biffRec{{rBoolErr, le(r, c, s, uint8(o.I), uint8(1))}}
	case "label":
		return []biffRec{{rLabelSst, le(r, c, s, uint32(o.I-1))}}
	case "fnum":
		return []biffRec{formulaRec(o.R, o.C, o.S, le(n.float()), rnd)}
	case "fbool":
		return []biffRec{formulaRec(o.R, o.C, o.S, special(1, byte(o.I)), rnd)}
	case "ferr":
		return []biffRec{formulaRec(o.R, o.C, o.S, special(2, byte(o.I)), rnd)}
	case "fempty":
		return []biffRec{formulaRec(o.R, o.C, o.S, special(3, 0), rnd)}
	case "ftext":
		out := []biffRec{formulaRec(o.R, o.C, o.S, special(0, 0), rnd)}
		switch rnd.Intn(4) {
		case 0: // the array, table or shared formula sits between
			d := make([]byte, 20)
			rnd.Read(d)
			out = append(out, biffRec{[]int{0x221, 0x236, 0x4BC}[rnd.Intn(3)], d})
		}
		k, d := xlStr(xlsWords[o.I-1], rnd)
		return append(out, biffRec{rString, le(uint16(k), d)})
	case "blank":
		if rnd.Intn(2) == 0 {
			return []biffRec{{rMulBlank, le(r, c, s, c)}}
		}
		return []biffRec{{rBlank, le(r, c, s)}}
	}
	panic(driverError("op " + o.K))
}

func init() {
	drivers["xlscells"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Ops   []xlsOp
				Cells []cellSeen
			}
			unj(b, &c)
			rnd := rand.New(rand.NewSource(x.Seed*6151 + int64(i)))
			n164, d164 := xlStr("0.000", rnd)
			book := xlsBook{Sheets: []xlsSheet{{Name: "S"}}}
			book.Globals = append(book.Globals, biffRec{rFormat, le(uint16(164), uint16(n164), d164)})
			for _, f := range xlsFormats {
				book.Globals = append(book.Globals, xfRec(rnd.Intn(5), f))
			}
			sst := le(uint32(len(xlsWords)), uint32(len(xlsWords)))
			for _, w := range xlsWords {
				k, d := xlStr(w, rnd)
				sst = append(sst, le(uint16(k), d)...)
			}
			book.Globals = append(book.Globals, biffRec{rSST, sst})
			var recs []biffRec
			dims := rnd.Intn(4)
			switch dims {
			case 0: // exact or larger
				recs = append(recs, dimsRec(8, 8))
			case 1: // too small
				recs = append(recs, dimsRec(1, 1))
			case 2:
				recs = append(recs, dimsRec(2, 9))
			}
			for _, o := range c.Ops {
				if rnd.Intn(4) == 0 {
					recs = append(recs, biffRec{rRow, le(uint16(o.R), uint16(0), uint16(4), make([]byte, 10))})
				}
				recs = append(recs, xlsCellRecs(o, rnd)...)
			}
			recs = append(recs, biffRec{0xD7, make([]byte, 6)})
			book.Parts = []xlsPart{{Recs: recs}}
			src, err := x.openXls(biffBytes(book.records(rnd)))
			x.Step(len(c.Ops))
			if err != nil {
				x.Fail(i, -1, "open", nil, err.Error(), b)
				return
			}
			defer src.Close()
			col, err := src.Get("S")
			if err != nil {
				x.Fail(i, -1, "get", nil, err.Error(), b)
				return
			}
			x.cmpCells(i, b, cellsOf(col), c.Cells)
			if len(c.Cells) > 0 {
				x.Nontrivial()
			}
		})
	}
}
