package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf16"

	"github.com/pbnjay/grate"
)

type markArea struct{ R1, C1, R2, C2 int }
type markLink struct {
	markArea
	T, Target, Disp, Frame, Loc string
	Ex                          int
}
type markCell struct {
	R, C int
	V, T string
}

var longText = strings.Repeat("0123456789-abcdef/", 40) + "end"

const uniText = "é☃\U0001D11E"

func hlStr(s string) []byte {
	us := append(utf16.Encode([]rune(s)), 0)
	return le(uint32(len(us)), us)
}

var (
	urlMoniker  = []byte{0xE0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
	fileMoniker = []byte{0x03, 0x03, 0, 0, 0, 0, 0, 0, 0xC0, 0, 0, 0, 0, 0, 0, 0x46}
	hlinkClass  = []byte{0xD0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
)

// hlinkRec encodes a hyperlink ([MS-XLS] 2.4.140, [MS-OSHARED] 2.3.7).
func (l markLink) rec(rnd *rand.Rand) biffRec {
	flags := uint32(0)
	var d []byte
	if l.Disp != "" || rnd.Intn(4) == 0 {
		flags |= 0x14
		d = append(d, hlStr(l.Disp)...)
	}
	if l.Frame != "" {
		flags |= 0x80
		d = append(d, hlStr(l.Frame)...)
	}
	switch l.T {
	case "url", "urlguid":
		flags |= 3
		u := le(append(utf16.Encode([]rune(l.Target)), 0))
		if l.T == "urlguid" {
			g := make([]byte, 16)
			rnd.Read(g)
			u = append(u, le(g, uint32(0), uint32(rnd.Intn(1<<15)))...)
		}
		d = append(d, le(urlMoniker, uint32(len(u)), u)...)
	case "file", "fileu":
		flags |= 1
		a := append([]byte(l.Target), 0)
		d = append(d, le(fileMoniker, uint16(0), uint32(len(a)), a, uint16(0xFFFF), uint16(0xDEAD), make([]byte, 20))...)
		if l.T == "file" {
			d = append(d, le(uint32(0))...)
		} else {
			u := le(utf16.Encode([]rune(l.Target)))
			d = append(d, le(uint32(len(u)+6), uint32(len(u)), uint16(3), u)...)
		}
	case "str":
		flags |= 0x103
		d = append(d, hlStr(l.Target)...)
	}
	if l.Loc != "" {
		flags |= 8
		d = append(d, hlStr(l.Loc)...)
	}
	if l.Ex > 0 {
		flags |= 0x20
		d = append(d, make([]byte, 16)...)
	}
	if l.Ex > 1 {
		flags |= 0x40
		d = append(d, make([]byte, 8)...)
	}
	r2, c2 := xlsEnd(l.markArea)
	return biffRec{rHLink, le(uint16(l.R1), uint16(r2), uint16(l.C1), uint16(c2), hlinkClass, uint32(2), flags, d)}
}

const far = 9999

func xlsEnd(a markArea) (int, int) {
	if a.R2 == far {
		a.R2 = 0xFFFF
	}
	if a.C2 == far {
		a.C2 = 0xFF
	}
	return a.R2, a.C2
}

func (a markArea) ref(rnd *rand.Rand) string {
	if a.R2 == far {
		a.R2 = 1048575
	}
	if a.C2 == far {
		a.C2 = 16383
	}
	s := cellRef(a.R1, a.C1)
	if a.R1 != a.R2 || a.C1 != a.C2 || rnd.Intn(4) == 0 {
		s += ":" + cellRef(a.R2, a.C2)
	}
	return s
}

func init() {
	drivers["marks"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Kind  string
				Dim   []int
				Vals  []markCell
				Regs  []markArea
				Links []markLink
				Cells []markCell
			}
			unj([]byte(strings.ReplaceAll(strings.ReplaceAll(string(b), "{u}", uniText), "{long}", longText)), &c)
			rnd := rand.New(rand.NewSource(x.Seed*7919 + int64(i)))
			var src grate.Source
			var err error
			if c.Kind == "xls" {
				recs := []biffRec{dimsRec(c.Dim[0], c.Dim[1])}
				var sst []byte
				k, d := xlStr("word", rnd)
				sst = le(uint32(1), uint32(1), uint16(k), d)
				for _, v := range c.Vals {
					if v.V == "5" {
						recs = append(recs, numRec(v.R, v.C, 0, 5))
					} else {
						recs = append(recs, biffRec{rLabelSst, le(uint16(v.R), uint16(v.C), uint16(0), uint32(0))})
					}
				}
				for k := 0; k < len(c.Regs); {
					n := 1 + rnd.Intn(len(c.Regs)-k)
					if rnd.Intn(2) == 0 {
						n = len(c.Regs) - k
					}
					d := le(uint16(n))
					for _, a := range c.Regs[k : k+n] {
						r2, c2 := xlsEnd(a)
						d = append(d, le(uint16(a.R1), uint16(r2), uint16(a.C1), uint16(c2))...)
					}
					recs = append(recs, biffRec{rMerge, d})
					k += n
				}
				for _, l := range c.Links {
					recs = append(recs, l.rec(rnd))
				}
				book := xlsBook{Globals: []biffRec{xfRec(0, 0), {rSST, sst}}, Sheets: []xlsSheet{{Name: "S"}}, Parts: []xlsPart{{Recs: recs}}}
				src, err = x.openXls(biffBytes(book.records(rnd)))
			} else {
				src, err = x.openXlsx(marksXlsx(c.Dim, c.Vals, c.Regs, c.Links, rnd))
			}
			x.Step(len(c.Regs) + len(c.Links))
			if err != nil {
				x.Fail(i, -1, "open", nil, err.Error(), b)
				return
			}
			defer src.Close()
			col, err := src.Get("S")
			if err != nil {
				x.Fail(i, -1, "get", nil, err.Error(), b)
				return
			}
			got := cellsOf(col)
			for _, w := range c.Cells {
				v := w.V
				if m, ok := markers[v]; ok {
					v = m
				}
				p := [2]int{w.R, w.C}
				g := got[p]
				if g.Text != v || (w.T != "*" && g.Type != w.T) {
					x.Fail(i, -1, fmt.Sprintf("%s cell %v", c.Kind, p), v+" ("+w.T+")", g, b)
				}
				delete(got, p)
			}
			for p, g := range got {
				x.Fail(i, -1, fmt.Sprintf("%s cell %v is not blank", c.Kind, p), nil, g, b)
			}
			if len(c.Regs)+len(c.Links) > 0 {
				x.Nontrivial()
			}
		})
	}
}

func marksXlsx(dim []int, vals []markCell, regs []markArea, links []markLink, rnd *rand.Rand) []byte {
	var s strings.Builder
	s.WriteString(xmlDec + `<worksheet xmlns="` + ssNS + `" xmlns:r="` + relNS + `">`)
	if len(dim) == 2 {
		ref := "A1"
		if dim[0] > 1 || dim[1] > 1 {
			ref += ":" + cellRef(dim[0]-1, dim[1]-1)
		}
		s.WriteString(`<dimension ref="` + ref + `"/>`)
	}
	s.WriteString(`<sheetData>`)
	rows := map[int][]markCell{}
	last := -1
	for _, v := range vals {
		rows[v.R] = append(rows[v.R], v)
		if v.R > last {
			last = v.R
		}
	}
	for r := 0; r <= last; r++ {
		fmt.Fprintf(&s, `<row r="%d">`, r+1)
		for _, v := range rows[r] {
			if v.V == "5" {
				fmt.Fprintf(&s, `<c r="%s"><v>5</v></c>`, cellRef(v.R, v.C))
			} else {
				fmt.Fprintf(&s, `<c r="%s" t="inlineStr"><is><t>%s</t></is></c>`, cellRef(v.R, v.C), v.V)
			}
		}
		s.WriteString(`</row>`)
	}
	s.WriteString(`</sheetData>`)
	if len(regs) > 0 {
		fmt.Fprintf(&s, `<mergeCells count="%d">`, len(regs))
		for _, a := range regs {
			fmt.Fprintf(&s, `<mergeCell ref="%s"/>`, a.ref(rnd))
		}
		s.WriteString(`</mergeCells>`)
	}
	var rels []xlsxRel
	if len(links) > 0 {
		s.WriteString(`<hyperlinks>`)
		for k, l := range links {
			fmt.Fprintf(&s, `<hyperlink ref="%s"`, l.ref(rnd))
			if l.T == "doc" {
				fmt.Fprintf(&s, ` location="%s"`, esc(l.Loc))
			} else {
				id := fmt.Sprintf("rId%d", 7*k+1)
				if rnd.Intn(3) == 0 {
					id = fmt.Sprintf("R%x", rnd.Int63())
				}
				fmt.Fprintf(&s, ` r:id="%s"`, id)
				rels = append(rels, xlsxRel{id, "hyperlink", l.Target, true})
			}
			if l.Disp != "" {
				fmt.Fprintf(&s, ` display="%s" tooltip="t"`, esc(l.Disp))
			}
			s.WriteString(`/>`)
		}
		s.WriteString(`</hyperlinks>`)
	}
	s.WriteString(`</worksheet>`)
	rx := ""
	if len(rels) > 0 || rnd.Intn(3) == 0 {
		rnd.Shuffle(len(rels), func(a, b int) { rels[a], rels[b] = rels[b], rels[a] })
		rels = append(rels, xlsxRel{"rIdP", "printerSettings", "../printerSettings/p1.bin", false})
		rx = relsXml(rels)
	}
	return oneSheet(s.String(), rx, nil)
}
