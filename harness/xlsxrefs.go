package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Rows and cells that do not say where they are.
func init() {
	drivers["xlsxrefs"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Doc []struct {
					K, Kind   string
					Ref, R, C int
				}
			}
			unj(b, &c)
			rnd := rand.New(rand.NewSource(x.Seed*9929 + int64(i)))
			var s strings.Builder
			s.WriteString(xmlDec + `<worksheet xmlns="` + ssNS + `">` + pick(rnd, "", `<dimension ref="A1"/>`, `<dimension ref="A1:C3"/>`) + "<sheetData>")
			want := map[[2]int]string{}
			open := false
			shared := []string{}
			for k, e := range c.Doc {
				if e.K == "row" {
					if open {
						s.WriteString("</row>")
					}
					s.WriteString("<row" + pick(rnd, "", ` spans="1:3"`))
					if e.Ref > 0 {
						fmt.Fprintf(&s, ` r="%d"`, e.Ref)
					}
					s.WriteString(pick(rnd, "", ` ht="12"`))
					if open = k+1 < len(c.Doc) && c.Doc[k+1].K == "cell" || rnd.Intn(2) == 0; open {
						s.WriteString(">")
					} else {
						s.WriteString("/>")
					}
					continue
				}
				s.WriteString("<c")
				if e.Ref > 0 {
					s.WriteString(` r="` + cellRef(e.R-1, e.C-1) + `"`)
				}
				s.WriteString(pick(rnd, "", ` s="0"`))
				at, v := [2]int{e.R - 1, e.C - 1}, fmt.Sprint("v", k)
				switch e.Kind {
				case "n":
					v = fmt.Sprint(k + 1000)
					s.WriteString("><v>" + v + "</v></c>")
				case "b":
					v = "TRUE"
					s.WriteString(` t="b"><v>1</v></c>`)
				case "s":
					fmt.Fprintf(&s, ` t="s"><v>%d</v></c>`, len(shared))
					shared = append(shared, v)
				case "str":
					s.WriteString(` t="str"><f>A1</f><v>` + v + "</v></c>")
				case "inlineStr":
					s.WriteString(` t="inlineStr"><is><t>` + v + "</t></is></c>")
				case "empty":
					s.WriteString("><v></v></c>")
					v = ""
				default:
					s.WriteString("/>")
					v = ""
				}
				if v != "" {
					want[at] = v
				}
			}
			if open {
				s.WriteString("</row>")
			}
			s.WriteString("</sheetData></worksheet>")
			more := map[string]string{"sharedStrings": xmlDec + `<sst xmlns="` + ssNS + `">`}
			for _, v := range shared {
				more["sharedStrings"] += "<si><t>" + v + "</t></si>"
			}
			more["sharedStrings"] += "</sst>"
			src, err := x.openXlsx(oneSheet(s.String(), "", more))
			x.Step(len(c.Doc))
			if err != nil {
				x.Fail(i, -1, "open", nil, err.Error(), b)
				return
			}
			defer src.Close()
			col, err := src.Get("S")
			if err != nil {
				x.Fail(i, -1, "get", nil, err.Error(), b)
				return
			}
			got := map[[2]int]string{}
			for p, g := range cellsOf(col) {
				got[p] = g.Text
			}
			if w, g := fmt.Sprint(want), fmt.Sprint(got); w != g {
				x.Fail(i, -1, "cells", clip(w), clip(g), b)
			}
			x.Nontrivial()
		})
	}
}
