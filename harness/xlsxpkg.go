package main

import (
	"fmt"
	"math/rand"
	"path"
	"strings"
)

func init() {
	drivers["xlsxpkg"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			b = []byte(strings.ReplaceAll(string(b), "{u}", uniText))
			type style struct {
				F int
				A string
				B int
			}
			var c struct {
				Wb, Root, Mode, Strings, Styles, Probe string
				Sheets                                 []struct{ Name, Id, Path string }
				Rels                                   []struct{ Id, Type, To string }
				Numfmts                                []struct {
					Id   int
					Code string
				}
				Base, Xfs []style
				Seen      []struct{ T, V, Code string }
			}
			unj(b, &c)
			rnd := rand.New(rand.NewSource(x.Seed*9343 + int64(i)))
			x.Step(len(c.Rels) + len(c.Xfs))
			relsOf := func(p string) string { return path.Join(path.Dir(p), "_rels", path.Base(p)+".rels") }

			// package and workbook relationships, between unrelated ones
			root := []xlsxRel{{Id: pick(rnd, "rId1", "rId3", "x"), Type: "officeDocument", Target: c.Root}}
			if rnd.Intn(2) == 0 {
				root = append(root, xlsxRel{"rId7", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", "docProps/core.xml", false},
					xlsxRel{"rId8", "extended-properties", "docProps/app.xml", false})
			}
			rnd.Shuffle(len(root), func(a, b int) { root[a], root[b] = root[b], root[a] })
			var wr []xlsxRel
			extra := []xlsxRel{{"t1", "theme", "theme/theme1.xml", false}, {"t2", "calcChain", "calcChain.xml", false},
				{"t3", "externalLinkPath", "file:///other.xlsx", true}, {"t4", "customXml", "../customXml/item1.xml", false}}
			for _, r := range c.Rels {
				for len(extra) > 0 && rnd.Intn(3) == 0 {
					wr = append(wr, extra[0])
					extra = extra[1:]
				}
				wr = append(wr, xlsxRel{r.Id, r.Type, r.To, false})
			}
			parts := [][2]string{{"_rels/.rels", relsXml(root)}, {relsOf(c.Wb), relsXml(wr)},
				{"[Content_Types].xml", xmlDec + `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>`}}

			// workbook
			var s strings.Builder
			rp := pick(rnd, "r", "r", "rel")
			s.WriteString(xmlDec + `<workbook xmlns="` + ssNS + `" xmlns:` + rp + `="` + relNS + `"><fileVersion appName="xl"/>`)
			switch {
			case c.Mode != "none":
				s.WriteString(`<workbookPr ` + pick(rnd, "", `codeName="ThisWorkbook" `) + `date1904="` + c.Mode + `"` + pick(rnd, "", ` showObjects="all"`) + `/>`)
			case rnd.Intn(2) == 0:
				s.WriteString(`<workbookPr defaultThemeVersion="1"/>`)
			}
			s.WriteString(`<bookViews><workbookView activeTab="0"/></bookViews><sheets>`)
			var names []string
			for k, sh := range c.Sheets {
				if sh.Name == "" {
					continue
				}
				names = append(names, sh.Name)
				at := []string{`name="` + esc(sh.Name) + `"`, fmt.Sprintf(`sheetId="%d"`, 20-k), rp + `:id="` + sh.Id + `"`}
				if rnd.Intn(4) == 0 {
					at = append(at, `state="`+pick(rnd, "hidden", "veryHidden", "visible")+`"`)
				}
				rnd.Shuffle(len(at), func(a, b int) { at[a], at[b] = at[b], at[a] })
				s.WriteString("<sheet " + strings.Join(at, " ") + pick(rnd, "/>", "></sheet>"))
			}
			s.WriteString(`</sheets><definedNames><definedName name="n" localSheetId="0">A!$A$1</definedName></definedNames><calcPr calcId="1"/></workbook>`)
			parts = append(parts, [2]string{c.Wb, s.String()})

			// sheets
			var sst strings.Builder
			fmt.Fprintf(&sst, xmlDec+`<sst xmlns="%s" uniqueCount="%d">`, ssNS, len(c.Sheets))
			for k, sh := range c.Sheets {
				fmt.Fprintf(&sst, `<si><t>s%d</t></si>`, k)
				var w strings.Builder
				w.WriteString(xmlDec + `<worksheet xmlns="` + ssNS + `" xmlns:r="` + relNS + `"><sheetData>`)
				for n := 0; n <= len(c.Xfs) || n < 2; n++ {
					fmt.Fprintf(&w, `<row r="%d">`, n+1)
					switch n {
					case 0:
						fmt.Fprintf(&w, `<c r="A1" s="%d"><v>%d</v></c>`, len(c.Xfs), 100+k)
					case 1:
						fmt.Fprintf(&w, `<c r="A2" t="s" s="%d"><v>%d</v></c>`, len(c.Xfs), k)
					}
					if n <= len(c.Xfs) {
						fmt.Fprintf(&w, `<c r="B%d" s="%d"><v>%s</v></c>`, n+1, n, c.Probe)
					}
					if n == 0 {
						// a cell without a style index has the first style
						fmt.Fprintf(&w, `<c r="C1" t="inlineStr" s="%d"><is><t>L</t></is></c><c r="D1"><v>%s</v></c>`, len(c.Xfs), c.Probe)
					}
					w.WriteString(`</row>`)
				}
				w.WriteString(`</sheetData><hyperlinks><hyperlink ref="C1" r:id="rId1"/></hyperlinks></worksheet>`)
				parts = append(parts, [2]string{sh.Path, w.String()},
					[2]string{relsOf(sh.Path), relsXml([]xlsxRel{{"rId1", "hyperlink", fmt.Sprintf("http://h/%d", k), true}})})
			}
			sst.WriteString(`</sst>`)
			parts = append(parts, [2]string{c.Strings, sst.String()})

			// styles
			var st strings.Builder
			st.WriteString(xmlDec + `<styleSheet xmlns="` + ssNS + `">`)
			if len(c.Numfmts) > 0 {
				fmt.Fprintf(&st, `<numFmts count="%d">`, len(c.Numfmts))
				for _, f := range c.Numfmts {
					fmt.Fprintf(&st, `<numFmt numFmtId="%d" formatCode="%s"/>`, f.Id, esc(f.Code))
				}
				st.WriteString(`</numFmts>`)
			}
			st.WriteString(`<fonts count="1"><font><sz val="11"/></font></fonts>`)
			xf := func(q style, id string) {
				a := ""
				if q.A != "none" {
					a = ` applyNumberFormat="` + q.A + `"`
				}
				at := []string{fmt.Sprintf(` numFmtId="%d"`, q.F), ` fontId="0" applyFont="1"`, a, id}
				rnd.Shuffle(len(at), func(a, b int) { at[a], at[b] = at[b], at[a] })
				st.WriteString(`<xf` + strings.Join(at, "") + pick(rnd, "/>", `><alignment horizontal="left"/></xf>`))
			}
			if len(c.Base) > 0 || rnd.Intn(2) == 0 {
				fmt.Fprintf(&st, `<cellStyleXfs count="%d">`, len(c.Base))
				for _, q := range c.Base {
					xf(q, "")
				}
				st.WriteString(`</cellStyleXfs>`)
			}
			fmt.Fprintf(&st, pick(rnd, `<cellXfs count="%d">`, `<cellXfs>`+"<!-- %d -->"), len(c.Xfs))
			for _, q := range c.Xfs {
				id := pick(rnd, "", ` xfId="0"`)
				if q.B > 0 {
					id = fmt.Sprintf(` xfId="%d"`, q.B-1)
				}
				xf(q, id)
			}
			st.WriteString(`</cellXfs><cellStyles count="1"><cellStyle name="Normal" xfId="0"/></cellStyles><dxfs count="1"><dxf><numFmt numFmtId="3" formatCode="0%"/></dxf></dxfs></styleSheet>`)
			if len(c.Numfmts) > 0 { // the differential format may not speak for a defined one either
				st2 := strings.Replace(st.String(), `numFmtId="3" formatCode="0%"`, fmt.Sprintf(`numFmtId="%d" formatCode="0%%"`, c.Numfmts[0].Id), 1)
				st.Reset()
				st.WriteString(st2)
			}
			parts = append(parts, [2]string{c.Styles, st.String()})
			rnd.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })

			src, err := x.openXlsx(zipBytes(parts))
			if err != nil {
				x.Fail(i, -1, "open", nil, err.Error(), b)
				return
			}
			defer src.Close()
			ls, err := src.List()
			if err != nil || fmt.Sprint(ls) != fmt.Sprint(names) || len(ls) != len(names) {
				x.Fail(i, -1, "list", names, ls, b)
				return
			}
			order := rnd.Perm(len(c.Sheets))
			for _, k := range order {
				sh := c.Sheets[k]
				if sh.Name == "" {
					continue
				}
				col, err := src.Get(sh.Name)
				if err != nil {
					x.Fail(i, k, "get "+sh.Name, nil, err.Error(), b)
					return
				}
				got := cellsOf(col)
				for p, w := range map[[2]int]string{{0, 0}: fmt.Sprint(100 + k), {1, 0}: fmt.Sprintf("s%d", k), {0, 2}: fmt.Sprintf("http://h/%d", k)} {
					if got[p].Text != w {
						x.Fail(i, k, fmt.Sprintf("sheet %s cell %v", sh.Name, p), w, got[p], b)
					}
					delete(got, p)
				}
				for n, w := range append([]struct{ T, V, Code string }{c.Seen[0]}, c.Seen...) {
					at := [2]int{n - 1, 1}
					if n == 0 {
						at = [2]int{0, 3}
					}
					g := got[at]
					if w.T != "*" && g.Type != w.T || w.V != "*" && g.Text != w.V || w.Code != "*" && g.Format != w.Code {
						x.Fail(i, k, fmt.Sprintf("sheet %s style %d", sh.Name, n-1), w, g, b)
					}
					delete(got, at)
				}
				for p, g := range got {
					x.Fail(i, k, fmt.Sprintf("sheet %s: cell %v is not blank", sh.Name, p), nil, g, b)
				}
			}
			x.Nontrivial()
		})
	}
}
