package main

import (
	"encoding/binary"
	"math"
	"math/rand"
	"os"
	"unicode/utf16"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
)

// An independent BIFF8 encoder: records, workbook streams, .xls files.

type biffRec struct {
	T int
	D []byte
}

const (
	rFormula, rEOF, rDate1904, rFilePass, rContinue = 6, 10, 34, 47, 60
	rCodePage, rWsBool, rBoundSheet, rMulRk         = 66, 129, 133, 189
	rMulBlank, rXF, rMerge, rSST, rLabelSst         = 190, 224, 229, 252, 253
	rHLink, rDimensions, rBlank, rNumber            = 440, 512, 513, 515
	rBoolErr, rString, rRow, rRK, rFormat, rBOF     = 517, 519, 520, 638, 1054, 2057
	rNote, rObj, rTxO, rMsoDrawing                  = 28, 93, 438, 236
)

func le(vs ...interface{}) []byte {
	var b []byte
	for _, v := range vs {
		switch v := v.(type) {
		case uint8:
			b = append(b, v)
		case uint16:
			b = binary.LittleEndian.AppendUint16(b, v)
		case uint32:
			b = binary.LittleEndian.AppendUint32(b, v)
		case uint64:
			b = binary.LittleEndian.AppendUint64(b, v)
		case float64:
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(v))
		case []byte:
			b = append(b, v...)
		case []uint16:
			for _, u := range v {
				b = binary.LittleEndian.AppendUint16(b, u)
			}
		default:
			panic(driverError("le"))
		}
	}
	return b
}

func biffBytes(rs []biffRec) []byte {
	var b []byte
	for _, r := range rs {
		if len(r.D) > 8224 {
			panic(driverError("record too long"))
		}
		b = append(b, le(uint16(r.T), uint16(len(r.D)), r.D)...)
	}
	return b
}

func bofRec(docType uint16) biffRec {
	return biffRec{rBOF, le(uint16(0x0600), docType, uint16(0x0DBB), uint16(0x07CC), uint32(0x41), uint32(0x06))}
}

var eofRec = biffRec{rEOF, nil}

// xlStr encodes the characters and their encoding flag (no length).
func xlStr(s string, r *rand.Rand) (int, []byte) {
	us := utf16.Encode([]rune(s))
	wide := r != nil && r.Intn(3) == 0
	for _, u := range us {
		wide = wide || u > 255
	}
	if wide {
		return len(us), le(uint8(1), us)
	}
	b := []byte{0}
	for _, u := range us {
		b = append(b, byte(u))
	}
	return len(us), b
}

type xlsPart struct {
	Recs []biffRec // without the outer begin and end
	Type uint16    // document type of the part, 0x10 worksheet
}
type xlsSheet struct {
	Name   string
	Hidden byte
	Type   byte
	Part   int   // index into parts, file order
	Off    int64 // added to the position
}
type xlsBook struct {
	Globals []biffRec
	Sheets  []xlsSheet
	Parts   []xlsPart
}

// records gives the workbook stream as records, positions resolved.
func (b *xlsBook) records(r *rand.Rand) []biffRec {
	recs := []biffRec{bofRec(5)}
	recs = append(recs, b.Globals...)
	var bs []int
	for _, s := range b.Sheets {
		n, d := xlStr(s.Name, r)
		bs = append(bs, len(recs))
		recs = append(recs, biffRec{rBoundSheet, le(uint32(0), s.Hidden, s.Type, uint8(n), d)})
	}
	recs = append(recs, eofRec)
	pos := make([]int, len(b.Parts))
	off := len(biffBytes(recs))
	for i, p := range b.Parts {
		t := p.Type
		if t == 0 {
			t = 0x10
		}
		pr := append([]biffRec{bofRec(t)}, p.Recs...)
		pr = append(pr, eofRec)
		pos[i] = off
		off += len(biffBytes(pr))
		recs = append(recs, pr...)
	}
	for i, s := range b.Sheets {
		binary.LittleEndian.PutUint32(recs[bs[i]].D, uint32(int64(pos[s.Part])+s.Off))
	}
	return recs
}

func dimsRec(rows, cols int) biffRec {
	return biffRec{rDimensions, le(uint32(0), uint32(rows), uint16(0), uint16(cols), uint16(0))}
}

func numRec(r, c, xf int, v float64) biffRec {
	return biffRec{rNumber, le(uint16(r), uint16(c), uint16(xf), v)}
}

func xfRec(font, format int) biffRec {
	return biffRec{rXF, le(uint16(font), uint16(format), uint16(0), make([]byte, 14))}
}

// openXls writes the stream into a compound file and opens it.
func (x *Ctx) openXls(stream []byte, extra ...string) (grate.Source, error) {
	names := []string{"Workbook"}
	contents := [][]byte{stream}
	for _, n := range extra {
		names = append(names, n)
		contents = append(contents, []byte(n))
	}
	f := x.scratch(".xls")
	must(os.WriteFile(f, simpleCfb(names, contents), 0o600))
	defer os.Remove(f)
	return xls.Open(f)
}

// cellsOf reads every cell of a collection that is not blank.
type rawCell struct {
	Text, Type, Format string
}

func cellsOf(c grate.Collection) map[[2]int]rawCell {
	out := map[[2]int]rawCell{}
	for r := 0; c.Next(); r++ {
		ss, ts, fs := c.Strings(), c.Types(), c.Formats()
		for k := range ss {
			if ts[k] != "blank" || ss[k] != "" {
				out[[2]int{r, k}] = rawCell{ss[k], ts[k], fs[k]}
			}
		}
	}
	return out
}
