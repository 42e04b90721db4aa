package main

import (
	"fmt"
	"math/rand"
	"unicode/utf16"
)

type sstItem struct {
	T    string
	N    int
	W    bool
	R, E int
	C    string
}

var (
	sstNarrow = []uint16{'a', 'Z', '0', ' ', 0xE9, 0xFF, 0x80, '<', '&', 'é', '.', 0xA0, '"', '~'}
	sstWide   = []uint16{0x30B7, 0x0416, 0x20AC, 0x0100, 0x4E2D, 0xFFFD, 0x0101, 0x1234, 0x6100}
)

func init() {
	drivers["sst"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Strs [][]string
				Recs [][]sstItem
			}
			unj(b, &c)
			r := rand.New(rand.NewSource(x.Seed*104729 + int64(i)))
			// length of the long blocks, so that every record fits
			most, plain := 0, len(c.Strs) == 1
			for k, rec := range c.Recs {
				n := 0
				for j, it := range rec {
					if it.N == 100 && it.T == "c" {
						n++
					}
					plain = plain && it.T != "r" && it.T != "e" && !(it.T == "H" && (it.R != 99 || it.E != 99)) &&
						!(k > 0 && j == 0 && it.T != "F")
				}
				if n > most {
					most = n
				}
			}
			block := 0
			if most > 0 {
				block = 1 + r.Intn(8000/(2*most))
				if block > 4000 {
					block = 4000
				}
			}
			// the texts
			var texts [][]uint16
			segs := [][][]uint16{}
			for _, s := range c.Strs {
				var us []uint16
				var sg [][]uint16
				for _, ch := range s {
					var part []uint16
					switch ch {
					case "l":
						part = []uint16{sstNarrow[r.Intn(len(sstNarrow))]}
					case "w":
						part = []uint16{sstWide[r.Intn(len(sstWide))]}
					case "hi":
						part = []uint16{0xD83D}
					case "lo":
						part = []uint16{uint16(0xDE00 + r.Intn(64))}
					case "L", "W":
						part = make([]uint16, block)
						o := r.Intn(1000)
						for q := range part {
							if ch == "L" {
								part[q] = sstNarrow[(o+q+q/7)%len(sstNarrow)]
							} else {
								part[q] = sstWide[(o+q+q/5)%len(sstWide)]
							}
						}
					}
					us = append(us, part...)
					sg = append(sg, part)
				}
				texts = append(texts, us)
				segs = append(segs, sg)
			}
			// the records
			var data, fdata [][]byte
			si, ci := -1, 0
			for k, rec := range c.Recs {
				var d, f []byte
				if k == 0 {
					d = le(uint32(len(c.Strs)+3), uint32(len(c.Strs)))
				}
				for _, it := range rec {
					var e []byte
					switch it.T {
					case "H":
						si++
						ci = 0
						var fl uint8
						if it.W {
							fl |= 1
						}
						if it.R != 99 {
							fl |= 8
						}
						if it.E != 99 {
							fl |= 4
						}
						e = le(uint16(len(texts[si])), fl)
						f = append(f, e...)
						if it.R != 99 {
							e = append(e, le(uint16(it.R))...)
						}
						if it.E != 99 {
							e = append(e, le(uint32(it.E))...)
						}
						d = append(d, e...)
						continue
					case "F":
						e = []byte{0}
						if it.W {
							e[0] = 1
						}
					case "c":
						part := segs[si][ci]
						ci++
						if it.W {
							e = le(part)
						} else {
							for _, u := range part {
								e = append(e, byte(u))
							}
						}
					case "r", "e":
						e = make([]byte, it.N)
						r.Read(e)
					}
					d = append(d, e...)
					f = append(f, e...)
				}
				data = append(data, d)
				fdata = append(fdata, f)
			}
			book := xlsBook{Globals: []biffRec{xfRec(0, 0)}, Sheets: []xlsSheet{{Name: "S"}}}
			for k, d := range data {
				t := rContinue
				if k == 0 {
					t = rSST
				}
				book.Globals = append(book.Globals, biffRec{t, d})
			}
			if r.Intn(2) == 0 {
				// an index of the table may follow
				book.Globals = append(book.Globals, biffRec{255, le(uint16(8), uint32(0), uint16(12), uint16(0))})
			}
			recs := []biffRec{dimsRec(len(texts)+1, 3)}
			for _, k := range r.Perm(len(texts)) {
				recs = append(recs, biffRec{rLabelSst, le(uint16(k), uint16(k%2), uint16(0), uint32(k))})
			}
			if plain {
				recs = append(recs, biffRec{rFormula, le(uint16(0), uint16(2), uint16(0), []byte{0, 0, 0, 0, 0, 0, 0xFF, 0xFF}, uint16(0), uint32(0), uint16(0))})
				if r.Intn(4) == 0 {
					recs = append(recs, biffRec{0x4BC, make([]byte, 10)}) // a shared formula
				}
				for k, d := range fdata {
					t := rContinue
					if k == 0 {
						t = rString
					}
					recs = append(recs, biffRec{t, d})
				}
				recs = append(recs, numRec(len(texts), 2, 0, 5))
			}
			book.Parts = []xlsPart{{Recs: recs}}
			src, err := x.openXls(biffBytes(book.records(nil)))
			x.Step(len(c.Recs))
			if err != nil {
				x.Fail(i, -1, "open", nil, err.Error(), b)
				return
			}
			defer src.Close()
			col, err := src.Get("S")
			if err != nil {
				x.Fail(i, -1, "get", nil, err.Error(), b)
				return
			}
			got := cellsOf(col)
			n := 0
			for k, us := range texts {
				want := string(utf16.Decode(us))
				g := got[[2]int{k, k % 2}]
				if g.Text != want || (want != "" && g.Type != "string") {
					x.Fail(i, k, fmt.Sprintf("string %d", k), clip(want), clip(g), b)
				}
				if want != "" {
					n++
				}
			}
			if plain {
				want := string(utf16.Decode(texts[0]))
				if g := got[[2]int{0, 2}]; g.Text != want {
					x.Fail(i, -1, "formula text", clip(want), clip(g), b)
				} else if want != "" || g.Type != "" {
					n++
				}
				if g := got[[2]int{len(texts), 2}]; g.Text != "5" {
					x.Fail(i, -1, "record after the formula text", "5", clip(g), b)
				}
				n++
			}
			if len(got) > n {
				x.Fail(i, -1, "cells", n, len(got), b)
			}
			if n > 0 && len(c.Recs) > 1 {
				x.Nontrivial()
			}
		})
	}
}
