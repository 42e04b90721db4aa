package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
)

// codebook puts custom number format codes, and cells that use them, into
// real workbooks.
func init() {
	drivers["codebook"] = func(x *Ctx) {
		type codeCase struct {
			Code, Type, Text string
			Nums             [][2]string
			Times            [][]interface{}
			raw              []byte
		}
		var mu sync.Mutex
		var all []codeCase
		x.Each(1, func(i int, b []byte) {
			var c codeCase
			unj(b, &c)
			c.raw = append([]byte{}, b...)
			mu.Lock()
			all = append(all, c)
			mu.Unlock()
		})
		for n := 0; len(all) > 0; n++ {
			m := 40
			if m > len(all) {
				m = len(all)
			}
			part := all[:m]
			all = all[m:]
			rnd := rand.New(rand.NewSource(x.Seed*7151 + int64(n)))
			x.guard(0, n, part[0].raw, func(i int, b []byte) {
				type cell struct {
					row, col int
					num      float64
					text     bool
					want     string
				}
				var cells []cell
				for r, c := range part {
					k := 0
					add := func(v float64, text bool, want string) {
						cells = append(cells, cell{r, k, v, text, want})
						k++
					}
					if c.Type != "date" {
						add(0, true, c.Text)
					}
					for _, nv := range c.Nums {
						v, err := strconv.ParseFloat(nv[0], 64)
						must(err)
						if c.Type != "integer" || v == math.Trunc(v) {
							add(v, false, nv[1])
						}
					}
					for _, t := range c.Times {
						add(t[0].(float64)+t[1].(float64)/86400000, false, t[5].(string))
					}
				}
				read := func(kind string, src grate.Source, err error) {
					if err != nil {
						x.Fail(i, -1, kind+" open", nil, err.Error(), b)
						return
					}
					defer src.Close()
					col, err := src.Get("S")
					if err != nil {
						x.Fail(i, -1, kind+" get", nil, err.Error(), b)
						return
					}
					got := cellsOf(col)
					for _, c := range cells {
						x.Step(1)
						g := got[[2]int{c.row, c.col}]
						ty := part[c.row].Type
						if g.Text != c.want || !c.text && ty != "*" && g.Type != ty {
							x.Fail(i, c.row, fmt.Sprintf("%s workbook, code %q, value %v %v", kind, part[c.row].Code, c.num, c.text), c.want+" "+ty, g, part[c.row].raw)
						}
					}
					x.Nontrivial()
				}
				book := xlsBook{Sheets: []xlsSheet{{Name: "S"}}}
				var st, sh strings.Builder
				fmt.Fprintf(&st, `%s<styleSheet xmlns="%s"><numFmts count="%d">`, xmlDec, ssNS, len(part))
				for r, c := range part {
					k, d := xlStr(c.Code, rnd)
					book.Globals = append(book.Globals, biffRec{rFormat, le(uint16(164+r), uint16(k), d)})
					fmt.Fprintf(&st, `<numFmt numFmtId="%d" formatCode="%s"/>`, 164+r, esc(c.Code))
				}
				st.WriteString(`</numFmts><cellXfs>`)
				for r := range part {
					book.Globals = append(book.Globals, xfRec(0, 164+r))
					fmt.Fprintf(&st, `<xf numFmtId="%d" applyNumberFormat="1"/>`, 164+r)
				}
				st.WriteString(`</cellXfs></styleSheet>`)
				k, d := xlStr("some text", rnd)
				book.Globals = append(book.Globals, biffRec{rSST, append(le(uint32(1), uint32(1), uint16(k)), d...)})
				recs := []biffRec{dimsRec(len(part), 64)}
				sh.WriteString(xmlDec + `<worksheet xmlns="` + ssNS + `"><sheetData>`)
				row := -1
				for _, c := range cells {
					if c.row != row {
						if row >= 0 {
							sh.WriteString(`</row>`)
						}
						row = c.row
						fmt.Fprintf(&sh, `<row r="%d">`, row+1)
					}
					if c.text {
						recs = append(recs, biffRec{rLabelSst, le(uint16(c.row), uint16(c.col), uint16(c.row), uint32(0))})
						fmt.Fprintf(&sh, `<c r="%s" s="%d" t="inlineStr"><is><t>some text</t></is></c>`, cellRef(c.row, c.col), c.row)
					} else {
						recs = append(recs, numRec(c.row, c.col, c.row, c.num))
						fmt.Fprintf(&sh, `<c r="%s" s="%d"><v>%s</v></c>`, cellRef(c.row, c.col), c.row, strconv.FormatFloat(c.num, 'g', -1, 64))
					}
				}
				sh.WriteString(`</row></sheetData></worksheet>`)
				book.Parts = []xlsPart{{Recs: recs}}
				src, err := x.openXls(biffBytes(book.records(rnd)))
				read("xls", src, err)
				src, err = x.openXlsx(oneSheet(sh.String(), "", map[string]string{"styles": st.String()}))
				read("xlsx", src, err)
			})
		}
	}
}
