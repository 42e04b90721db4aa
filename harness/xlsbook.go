package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"unicode/utf16"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
)

var sheetNames = []string{"Sheet1", "Données é", "シート", "a b!", "Sheet10", "ΩΩΩ", "x\U0001F600", "Sheet", "sheet1", "0123456789012345678901234567890"}

// nearNames gives n different names of 1 to 31 characters, many almost the same.
func nearNames(r *rand.Rand, n int) []string {
	alphabet := []rune("aAzZ09 _.-'!é\u00ffĀ\u0131シ\uFFFDﬀ\U0001F600")
	var out []string
	seen := map[string]bool{}
	for len(out) < n {
		var u []rune
		if len(out) > 0 && r.Intn(2) == 0 {
			u = append(u, []rune(out[r.Intn(len(out))])...)
			k := r.Intn(len(u))
			switch r.Intn(3) {
			case 0:
				u[k] = alphabet[r.Intn(len(alphabet))]
			case 1:
				u = append(u, alphabet[r.Intn(len(alphabet))])
			case 2:
				u = append(u[:k], u[k+1:]...)
			}
		} else {
			for l := 1 + r.Intn(31); len(u) < l; {
				u = append(u, alphabet[r.Intn(len(alphabet))])
			}
		}
		for len(utf16.Encode(u)) > 31 {
			u = u[1:]
		}
		if s := string(u); s != "" && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func nestedCells(part int, id int, r *rand.Rand) biffRec {
	v := float64(9000 + 100*part + id)
	switch r.Intn(4) {
	case 0:
		return biffRec{rRK, le(uint16(id), uint16(id%3), uint16(0), uint32(int32(v)<<2|2))}
	case 1:
		return biffRec{rBoolErr, le(uint16(id), uint16(id%3), uint16(0), uint8(1), uint8(0))}
	}
	return numRec(id, id%3, 0, v)
}

func init() {
	drivers["xlsbook"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Sheets []struct {
					Hid    int
					Hidden bool
					Own    []int
					Dialog bool
				}
				Parts []struct {
					Of   int
					Recs []struct {
						T  string
						ID int
					}
				}
				Fault string
			}
			unj(b, &c)
			r := rand.New(rand.NewSource(x.Seed*7919 + int64(i)))
			perm := r.Perm(len(sheetNames))
			sheetNames := sheetNames
			if i%3 == 0 {
				sheetNames = nearNames(r, len(sheetNames))
			}
			var book xlsBook
			book.Globals = []biffRec{{rCodePage, le(uint16(1200))}, xfRec(0, 0)}
			if i%40 == 7 {
				// far into the stream
				for k := 0; k < 9; k++ {
					book.Globals = append(book.Globals, biffRec{0x00EB, make([]byte, 8224)})
				}
			}
			for k, s := range c.Sheets {
				xs := xlsSheet{Name: sheetNames[perm[k]], Hidden: byte(s.Hid)}
				for p, q := range c.Parts {
					if q.Of == k+1 {
						xs.Part = p
					}
				}
				book.Sheets = append(book.Sheets, xs)
			}
			for pi, p := range c.Parts {
				var part xlsPart
				rows := 0
				for _, q := range p.Recs {
					if q.T == "cell" && q.ID+1 > rows {
						rows = q.ID + 1
					}
				}
				part.Recs = append(part.Recs, dimsRec(rows, 3))
				depth := 0
				for _, q := range p.Recs {
					switch q.T {
					case "begin":
						depth++
						part.Recs = append(part.Recs, bofRec(0x20))
					case "end":
						depth--
						part.Recs = append(part.Recs, eofRec)
					case "cell":
						if depth > 0 {
							// embedded content may use any position, also ones of the sheet
							part.Recs = append(part.Recs, nestedCells(p.Of, 1+r.Intn(9), r))
						} else {
							part.Recs = append(part.Recs, numRec(q.ID, q.ID%3, 0, float64(100*p.Of+q.ID)))
						}
					case "dims":
						part.Recs = append(part.Recs, dimsRec(40, 9))
					case "options":
						// every option but the dialog one
						part.Recs = append(part.Recs, biffRec{rWsBool, le(uint16(r.Intn(0x10000)) &^ 0x10)})
					case "dialog":
						part.Recs = append(part.Recs, biffRec{rWsBool, le(uint16(r.Intn(0x10000)) | 0x10)})
					case "text":
						t := []int{rNote, rObj, rTxO, rMsoDrawing, rContinue, rRow, rBlank, 0x0868}[r.Intn(8)]
						d := make([]byte, 16+r.Intn(8))
						r.Read(d)
						part.Recs = append(part.Recs, biffRec{t, d})
					}
				}
				_ = pi
				book.Parts = append(book.Parts, part)
			}
			name := "Workbook"
			wantErr := true
			victim := -1
			if c.Fault == "dangling" {
				victim = r.Intn(len(book.Sheets))
				// not the start of any part
				book.Sheets[victim].Off = []int64{1, 4, 20, -1, 1 << 20}[r.Intn(5)]
			}
			recs := book.records(r)
			for k := range recs {
				if recs[k].T == rBOF && r.Intn(2) == 0 {
					// build, year and flags of another writer
					d := recs[k].D
					binary.LittleEndian.PutUint16(d[4:], uint16(r.Intn(0x10000)))
					binary.LittleEndian.PutUint16(d[6:], uint16(0x07CC+r.Intn(2)))
					r.Read(d[8:12])
				}
			}
			switch c.Fault {
			case "oldversion":
				binary.LittleEndian.PutUint16(recs[0].D, []uint16{0x0500, 0x0400, 0x0200, 0x0700}[r.Intn(4)])
			case "oldyear":
				binary.LittleEndian.PutUint16(recs[0].D[6:], []uint16{0x07C9, 0x07CB, 0, 0x07CE}[r.Intn(4)])
			case "sheetversion":
				n := 0
				for k := range recs {
					if recs[k].T == rBOF {
						n++
						if n == 2 {
							binary.LittleEndian.PutUint16(recs[k].D, 0x0500)
						}
					}
				}
			case "biff5":
				recs[0].D = le(uint16(0x0500), uint16(5), uint16(0x0DBB), uint16(0x07CC))
			case "nobof":
				recs = recs[1:]
			case "book5":
				name = "Book"
			default:
				wantErr = false
			}
			f := x.scratch(".xls")
			must(os.WriteFile(f, simpleCfb([]string{name, "x"}, [][]byte{biffBytes(recs), []byte("x")}), 0o600))
			defer os.Remove(f)
			src, err := xls.Open(f)
			x.Step(1)
			if wantErr {
				if err == nil {
					x.Fail(i, -1, "opened in spite of "+c.Fault, "error", "opened", b)
				} else if name == "Book" && !errors.Is(err, grate.ErrNotInFormat) {
					x.Fail(i, -1, "no workbook inside", "not in format", err.Error(), b)
				}
				x.Nontrivial()
				return
			}
			if err != nil {
				x.Fail(i, -1, "open", nil, err.Error(), b)
				return
			}
			defer src.Close()
			vis, hid := []string{}, []string{}
			for k, s := range c.Sheets {
				if !s.Hidden {
					vis = append(vis, book.Sheets[k].Name)
				} else {
					hid = append(hid, book.Sheets[k].Name)
				}
			}
			if got, err := src.List(); err != nil || !reflect.DeepEqual(got, vis) {
				x.Fail(i, -1, "listing", vis, got, b)
			}
			if got, err := src.(interface{ ListHidden() ([]string, error) }).ListHidden(); err != nil || !reflect.DeepEqual(got, hid) {
				x.Fail(i, -1, "hidden listing", hid, got, b)
			}
			for _, n := range []string{"no such sheet", "", sheetNames[perm[len(c.Sheets)]]} {
				if got, err := src.Get(n); err == nil {
					x.Fail(i, -1, "unknown sheet "+n, "error", fmt.Sprint(got), b)
				}
			}
			for _, k := range r.Perm(len(c.Sheets)) {
				s := c.Sheets[k]
				col, err := src.Get(book.Sheets[k].Name)
				x.Step(1)
				if k == victim || s.Dialog {
					if err == nil && !col.IsEmpty() {
						x.Fail(i, k, "sheet without cells", "error or empty", cellsOf(col), b)
					}
					if k == victim && err == nil {
						x.Fail(i, k, "dangling position", "error", "a collection", b)
					}
					continue
				}
				if err != nil {
					x.Fail(i, k, "get", nil, err.Error(), b)
					continue
				}
				if got := col.IsEmpty(); got != (len(s.Own) == 0) {
					x.Fail(i, k, "empty", len(s.Own) == 0, got, b)
				}
				want := map[[2]int]rawCell{}
				for _, id := range s.Own {
					want[[2]int{id, id % 3}] = rawCell{fmt.Sprint(100*(k+1) + id), "float", "General"}
				}
				if got := cellsOf(col); !reflect.DeepEqual(got, want) {
					x.Fail(i, k, "cells", fmt.Sprint(want), fmt.Sprint(got), b)
				}
				if len(want) > 0 {
					x.Nontrivial()
				}
			}
		})
	}
}
