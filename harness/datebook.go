package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
)

// datebook puts instants into real workbooks of either date system.
func init() {
	drivers["datebook"] = func(x *Ctx) {
		type inst struct {
			K           string
			Sys, Serial int
			Ms          int
			S           map[string]string
			raw         []byte
		}
		var mu sync.Mutex
		by := map[int][]inst{}
		x.Each(1, func(i int, b []byte) {
			var c inst
			unj(b, &c)
			if c.K == "inst" {
				c.raw = append([]byte{}, b...)
				mu.Lock()
				by[c.Sys] = append(by[c.Sys], c)
				mu.Unlock()
			}
		})
		idset := map[int]bool{}
		for _, cs := range by {
			for _, c := range cs {
				for s := range c.S {
					id, err := strconv.Atoi(s)
					must(err)
					idset[id] = true
				}
			}
		}
		var ids []int
		for id := range idset {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		n := 0
		for _, sys := range []int{1900, 1904} {
			cs := by[sys]
			for len(cs) > 0 {
				m := 50
				if m > len(cs) {
					m = len(cs)
				}
				part := cs[:m]
				cs = cs[m:]
				n++
				rnd := rand.New(rand.NewSource(x.Seed*3571 + int64(n)))
				x.guard(0, n, part[0].raw, func(i int, b []byte) {
					val := func(c inst) float64 { return float64(c.Serial) + float64(c.Ms)/86400000 }
					read := func(kind string, src grate.Source, err error) {
						if err != nil {
							x.Fail(i, -1, kind+" open", nil, err.Error(), b)
							return
						}
						defer src.Close()
						col, err := src.Get("S")
						if err != nil {
							x.Fail(i, -1, kind+" get", nil, err.Error(), b)
							return
						}
						got := cellsOf(col)
						for r, c := range part {
							for k, id := range ids {
								w, ok := c.S[fmt.Sprint(id)]
								if !ok {
									continue
								}
								x.Step(1)
								w = cjk.Replace(w)
								if g := got[[2]int{r, k}]; g.Text != w || g.Type != "date" {
									x.Fail(i, r, fmt.Sprintf("%s workbook, %d system, format %d, serial %v", kind, sys, id, val(c)), w, g, c.raw)
								}
							}
						}
						x.Nontrivial()
					}
					book := xlsBook{Sheets: []xlsSheet{{Name: "S"}}}
					var dm []biffRec
					switch {
					case sys == 1904:
						dm = []biffRec{{0x22, le(uint16(1))}}
					case rnd.Intn(2) == 0:
						dm = []biffRec{{0x22, le(uint16(0))}}
					}
					if rnd.Intn(2) == 0 {
						book.Globals = append(book.Globals, dm...)
						dm = nil
					}
					for _, id := range ids {
						book.Globals = append(book.Globals, xfRec(0, id))
					}
					book.Globals = append(book.Globals, dm...)
					recs := []biffRec{dimsRec(len(part), len(ids))}
					pr := ""
					switch {
					case sys == 1904:
						pr = pick(rnd, `<workbookPr date1904="1"/>`, `<workbookPr codeName="x" date1904="true"/>`)
					default:
						pr = pick(rnd, ``, `<workbookPr/>`, `<workbookPr date1904="0"/>`, `<workbookPr date1904="false"/>`)
					}
					var st, sh strings.Builder
					st.WriteString(xmlDec + `<styleSheet xmlns="` + ssNS + `"><cellXfs>`)
					for _, id := range ids {
						fmt.Fprintf(&st, `<xf numFmtId="%d" applyNumberFormat="1"/>`, id)
					}
					st.WriteString(`</cellXfs></styleSheet>`)
					sh.WriteString(xmlDec + `<worksheet xmlns="` + ssNS + `"><sheetData>`)
					for r, c := range part {
						fmt.Fprintf(&sh, `<row r="%d">`, r+1)
						for k := range ids {
							recs = append(recs, numRec(r, k, k, val(c)))
							fmt.Fprintf(&sh, `<c r="%s" s="%d"><v>%s</v></c>`, cellRef(r, k), k, strconv.FormatFloat(val(c), 'g', -1, 64))
						}
						sh.WriteString(`</row>`)
					}
					sh.WriteString(`</sheetData></worksheet>`)
					book.Parts = []xlsPart{{Recs: recs}}
					src, err := x.openXls(biffBytes(book.records(rnd)))
					read("xls", src, err)
					src, err = x.openXlsx(oneSheet(sh.String(), "", map[string]string{"styles": st.String(), "workbookPr": pr}))
					read("xlsx", src, err)
				})
			}
		}
	}
}
