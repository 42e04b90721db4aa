package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// xTok is one XML token of the specification.
type xTok struct {
	K, N, X, H string
	R, C, S    int
}

// cellSeen is what the specification says is read at a position.
type cellSeen struct {
	R, C, F    int
	T, V, Code string
}

func pick(rnd *rand.Rand, ss ...string) string { return ss[rnd.Intn(len(ss))] }

// toksXml serialises tokens; p is the namespace prefix.
func toksXml(ts []xTok, p string, rnd *rand.Rand) string {
	var s strings.Builder
	for k := 0; k < len(ts); k++ {
		t := ts[k]
		switch t.K {
		case "start":
			var at []string
			if t.N == "c" {
				at = append(at, fmt.Sprintf(`r="%s"`, cellRef(t.R, t.C)))
				if t.X != "" && (t.X != "n" || rnd.Intn(2) == 0) {
					at = append(at, pick(rnd, `t="`+t.X+`"`, `t='`+t.X+`'`))
				}
				if t.S != 0 || rnd.Intn(2) == 0 {
					at = append(at, fmt.Sprintf(`s="%d"`, t.S))
				}
				rnd.Shuffle(len(at), func(a, b int) { at[a], at[b] = at[b], at[a] })
			}
			if t.N == "t" {
				at = append(at, `xml:space="preserve"`)
			}
			if t.N == "phoneticPr" {
				at = append(at, `fontId="1"`)
			}
			if t.N == "rPh" {
				at = append(at, `sb="0" eb="1"`)
			}
			a := ""
			if len(at) > 0 {
				a = " " + strings.Join(at, " ")
			}
			if k+1 < len(ts) && ts[k+1].K == "end" && rnd.Intn(2) == 0 {
				fmt.Fprintf(&s, "<%s%s%s/>", p, t.N, a)
				k++
			} else {
				fmt.Fprintf(&s, "<%s%s%s>", p, t.N, a)
			}
		case "end":
			fmt.Fprintf(&s, "</%s%s>", p, t.N)
		case "comment":
			s.WriteString("<!-- 9 -->")
		case "chars":
			switch {
			case t.X == "{ws}":
				s.WriteString(pick(rnd, " ", "\n    ", "\r\n\t", "\t"))
			case t.H == "cdata":
				s.WriteString("<![CDATA[" + t.X + "]]>")
			case t.H == "ref":
				for _, r := range t.X {
					fmt.Fprintf(&s, pick(rnd, "&#%d;", "&#x%X;"), r)
				}
			default:
				s.WriteString(esc(t.X))
			}
		}
	}
	return s.String()
}

// xlsxStyles is the style table of the test workbooks.
func xlsxStyles(rnd *rand.Rand) string {
	var s strings.Builder
	s.WriteString(xmlDec + `<styleSheet xmlns="` + ssNS + `"><numFmts count="1"><numFmt numFmtId="164" formatCode="0.000"/></numFmts>` +
		`<fonts count="1"><font><sz val="11"/></font></fonts><cellStyleXfs count="1"><xf numFmtId="0"/></cellStyleXfs>`)
	fmt.Fprintf(&s, `<cellXfs count="%d">`, len(xlsFormats))
	for _, f := range xlsFormats {
		fmt.Fprintf(&s, `<xf numFmtId="%d" fontId="0"%s xfId="0"/>`, f, pick(rnd, "", ` applyNumberFormat="1"`))
	}
	s.WriteString(`</cellXfs><cellStyles count="1"><cellStyle name="Normal" xfId="0" builtinId="0"/></cellStyles></styleSheet>`)
	return s.String()
}

// cmpCells compares everything a sheet delivers with what the specification
// says is there.
func (x *Ctx) cmpCells(i int, b []byte, got map[[2]int]rawCell, want []cellSeen) {
	for _, w := range want {
		p := [2]int{w.R, w.C}
		g, ok := got[p]
		what := fmt.Sprintf("cell %d,%d ", w.R, w.C)
		switch {
		case !ok:
			if w.T != "blank" && !(w.V == "" && w.T == "string") {
				x.Fail(i, -1, what+"is blank", w, nil, b)
			}
		case w.T == "blank":
			if g.Text != "" {
				x.Fail(i, -1, what+"is not blank", w, g, b)
			}
		case w.T != "*" && g.Type != w.T:
			x.Fail(i, -1, what+"type", w, g, b)
		case w.V != "*" && g.Text != w.V:
			x.Fail(i, -1, what+"text", w, g, b)
		case w.Code != "*" && g.Format != w.Code:
			x.Fail(i, -1, what+"format", w, g, b)
		}
		delete(got, p)
	}
	for p, g := range got {
		x.Fail(i, -1, fmt.Sprintf("cell %v is not blank", p), nil, g, b)
	}
}

// characters that are written as escapes
var (
	escWritten = strings.NewReplacer("{e1}", "_x0009_", "{e2}", "_x005F_x000D_", "{e3}", "_x12_", "{e4}", "_x00e9_", "{e5}", "_x000d_\n")
	escMeant   = strings.NewReplacer("{e1}", "\t", "{e2}", "_x000D_", "{e3}", "_x12_", "{e4}", "é", "{e5}", "\r\n")
)

func init() {
	drivers["xlsxcells"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			b = []byte(strings.ReplaceAll(string(b), "{u}", uniText))
			var c struct {
				Sheet, Strings []xTok
				Dim            string
				Cells          []cellSeen
			}
			unj(b, &c)
			for k := range c.Sheet {
				c.Sheet[k].X = escWritten.Replace(c.Sheet[k].X)
			}
			for k := range c.Strings {
				c.Strings[k].X = escWritten.Replace(c.Strings[k].X)
			}
			for k := range c.Cells {
				c.Cells[k].V = escMeant.Replace(c.Cells[k].V)
			}
			rnd := rand.New(rand.NewSource(x.Seed*7333 + int64(i)))
			// one element group per cell, then rows
			type elt struct {
				r, c int
				ts   []xTok
			}
			var els []elt
			for _, t := range c.Sheet {
				if t.K == "start" && t.N == "c" {
					els = append(els, elt{r: t.R, c: t.C})
				}
				n := len(els) - 1
				els[n].ts = append(els[n].ts, t)
			}
			if rnd.Intn(2) == 0 {
				sort.SliceStable(els, func(a, b int) bool {
					return els[a].r < els[b].r || els[a].r == els[b].r && els[a].c < els[b].c
				})
			}
			r1, c1, r0, c0 := 0, 0, 0, 0
			for k, e := range els {
				if e.r > r1 {
					r1 = e.r
				}
				if e.c > c1 {
					c1 = e.c
				}
				if k == 0 || e.r < r0 {
					r0 = e.r
				}
				if k == 0 || e.c < c0 {
					c0 = e.c
				}
			}
			p, ns := "", `xmlns`
			if rnd.Intn(4) == 0 {
				p, ns = "x:", `xmlns:x`
			}
			ws := func() string { return pick(rnd, "", "", "\n", "  ") }
			var s strings.Builder
			s.WriteString(xmlDec + "<" + p + "worksheet " + ns + `="` + ssNS + `" xmlns:r="` + relNS + `">` + ws())
			s.WriteString("<" + p + `sheetPr codeName="c"/>`)
			switch c.Dim {
			case "exact":
				if rnd.Intn(2) == 0 {
					r0, c0 = 0, 0
				}
				ref := cellRef(r0, c0)
				if r0 != r1 || c0 != c1 {
					ref += ":" + cellRef(r1, c1)
				}
				s.WriteString("<" + p + `dimension ref="` + ref + `"/>`)
			case "A1":
				s.WriteString("<" + p + `dimension ref="A1"/>`)
			case "small":
				s.WriteString("<" + p + `dimension ref="A1:B2"/>`)
			case "large":
				s.WriteString("<" + p + `dimension ref="A1:` + cellRef(r1+rnd.Intn(5), c1+rnd.Intn(30)) + `"/>`)
			}
			s.WriteString(ws() + "<" + p + `sheetViews><` + p + `sheetView workbookViewId="0"/></` + p + `sheetViews>` + ws())
			s.WriteString("<" + p + `cols><` + p + `col min="1" max="2" width="9"/></` + p + `cols>` + "<" + p + "sheetData>")
			for k := 0; k < len(els); {
				s.WriteString(ws() + "<" + p + "row")
				if rnd.Intn(4) > 0 {
					fmt.Fprintf(&s, ` r="%d" spans="1:9"`, els[k].r+1)
				}
				s.WriteString(">" + ws())
				j := k
				for ; j < len(els) && els[j].r == els[k].r; j++ {
					s.WriteString(toksXml(els[j].ts, p, rnd))
				}
				s.WriteString("</" + p + "row>")
				k = j
			}
			s.WriteString("</" + p + "sheetData>" + ws())
			if rnd.Intn(2) == 0 {
				s.WriteString("<" + p + `dataValidations count="1"><` + p + `dataValidation sqref="A1"><` + p + `formula1>99</` + p + `formula1></` + p + `dataValidation></` + p + `dataValidations>`)
				s.WriteString("<" + p + `headerFooter><` + p + `oddHeader>&amp;L77</` + p + `oddHeader></` + p + `headerFooter>`)
			}
			s.WriteString("</" + p + "worksheet>" + ws())
			more := map[string]string{"styles": xlsxStyles(rnd)}
			if len(c.Strings) > 0 || rnd.Intn(2) == 0 {
				more["sharedStrings"] = xmlDec + "<" + p + "sst " + ns + `="` + ssNS + `"` +
					pick(rnd, "", ` count="1"`, ` count="2" uniqueCount="1"`) + ">" + ws() + toksXml(c.Strings, p, rnd) + "</" + p + "sst>"
			}
			src, err := x.openXlsx(oneSheet(s.String(), "", more))
			x.Step(len(c.Sheet) + len(c.Strings))
			if err != nil {
				x.Fail(i, -1, "open", nil, err.Error(), b)
				return
			}
			defer src.Close()
			col, err := src.Get("S")
			if err != nil {
				x.Fail(i, -1, "get", nil, err.Error(), b)
				return
			}
			x.cmpCells(i, b, cellsOf(col), c.Cells)
			if len(c.Cells) > 0 {
				x.Nontrivial()
			}
		})
	}
}
