package main

import (
	"encoding/csv"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/simple"
)

type curCell struct{ K, S string }

var curFmt = map[string]int{"int": 1, "vast": 1, "pct": 9, "when": 22}
var curNum = map[string]float64{"num": 7.5, "int": 12, "pct": 0.5, "when": 36925.25, "deep": 0.1, "neg": -16777217, "vast": 4294967297}

// textFile renders records as a TSV or CSV file.
func textFile(kind string, recs [][]string, rnd *rand.Rand) []byte {
	var s strings.Builder
	for k, r := range recs {
		if kind == "tsv" {
			s.WriteString(strings.Join(r, "\t"))
		} else {
			for c, f := range r {
				if c > 0 {
					s.WriteByte(',')
				}
				if f == "" && len(r) == 1 || strings.ContainsAny(f, ",\"\r\n") || rnd.Intn(3) == 0 {
					s.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
				} else {
					s.WriteString(f)
				}
			}
		}
		if k < len(recs)-1 || kind == "tsv" && r[len(r)-1] == "" || rnd.Intn(2) == 0 {
			s.WriteString(pick(rnd, "\n", "\n", "\r\n"))
		}
	}
	return []byte(s.String())
}

// curTable makes a collection of the given kind that holds the table.
func (x *Ctx) curTable(kind string, tab [][]curCell, w int, rnd *rand.Rand) (func() (grate.Collection, error), func(), error) {
	via := func(src grate.Source, err error) (func() (grate.Collection, error), func(), error) {
		if err != nil {
			return nil, nil, err
		}
		ls, err := src.List()
		if err != nil || len(ls) != 1 {
			return nil, nil, fmt.Errorf("list %v %v", ls, err)
		}
		return func() (grate.Collection, error) { return src.Get(ls[0]) }, func() { src.Close() }, nil
	}
	switch kind {
	case "tsv", "csv":
		var recs [][]string
		for _, r := range tab {
			var q []string
			for _, c := range r {
				q = append(q, c.S)
			}
			recs = append(recs, q)
		}
		b := textFile(kind, recs, rnd)
		if kind == "csv" {
			rd := csv.NewReader(strings.NewReader(string(b)))
			rd.FieldsPerRecord = -1
			if got, err := rd.ReadAll(); err != nil || len(got) != len(recs) {
				panic(driverError("csv writer"))
			}
		}
		f := x.scratch("." + kind)
		must(os.WriteFile(f, b, 0o600))
		defer os.Remove(f)
		if kind == "tsv" {
			return via(simple.OpenTSV(f))
		}
		return via(simple.OpenCSV(f))
	case "sheet":
		return func() (grate.Collection, error) {
			s := newSheet(&commonxl.Formatter{}, len(tab), w)
			for r, q := range tab {
				for c, v := range q {
					switch v.K {
					case "blank":
					case "yes", "no":
						s.Put(r, c, v.K == "yes", 0)
					case "text", "digits", "words":
						s.Put(r, c, v.S, 0)
					default:
						s.Put(r, c, curNum[v.K], uint16(curFmt[v.K]))
					}
				}
			}
			return s, nil
		}, func() {}, nil
	case "xls":
		book := xlsBook{Sheets: []xlsSheet{{Name: "S"}}}
		for _, f := range []int{0, 1, 9, 22} {
			book.Globals = append(book.Globals, xfRec(0, f))
		}
		xf := map[string]int{"int": 1, "vast": 1, "pct": 2, "when": 3}
		sst := le(uint32(3), uint32(3))
		for _, t := range []string{"abc", "12", " a  \t z"} {
			k, d := xlStr(t, rnd)
			sst = append(sst, le(uint16(k), d)...)
		}
		book.Globals = append(book.Globals, biffRec{rSST, sst})
		var recs []biffRec
		if len(tab) == 0 {
			recs = append(recs, dimsRec(0, 0))
		} else {
			recs = append(recs, dimsRec(len(tab), w))
		}
		for r, q := range tab {
			for c, v := range q {
				switch v.K {
				case "blank":
				case "yes", "no":
					recs = append(recs, biffRec{rBoolErr, le(uint16(r), uint16(c), uint16(0), uint8(map[string]int{"yes": 1}[v.K]), uint8(0))})
				case "text", "digits", "words":
					recs = append(recs, biffRec{rLabelSst, le(uint16(r), uint16(c), uint16(0), uint32(map[string]int{"digits": 1, "words": 2}[v.K]))})
				default:
					recs = append(recs, numRec(r, c, xf[v.K], curNum[v.K]))
				}
			}
		}
		book.Parts = []xlsPart{{Recs: recs}}
		return via(x.openXls(biffBytes(book.records(rnd))))
	}
	var s strings.Builder
	s.WriteString(xmlDec + `<worksheet xmlns="` + ssNS + `">`)
	if len(tab) > 0 && rnd.Intn(2) == 0 {
		s.WriteString(`<dimension ref="A1` + pick(rnd, ":") + cellRef(len(tab)-1, w-1) + `"/>`)
	}
	s.WriteString(`<sheetData>`)
	for r, q := range tab {
		fmt.Fprintf(&s, `<row r="%d">`, r+1)
		for c, v := range q {
			at := cellRef(r, c)
			switch v.K {
			case "blank":
			case "yes", "no":
				fmt.Fprintf(&s, `<c r="%s" t="b"><v>%d</v></c>`, at, map[string]int{"yes": 1}[v.K])
			case "text", "digits", "words":
				fmt.Fprintf(&s, `<c r="%s" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>`, at, v.S)
			default:
				fmt.Fprintf(&s, `<c r="%s" s="%d"><v>%v</v></c>`, at, map[string]int{"int": 1, "vast": 1, "pct": 2, "when": 3}[v.K], curNum[v.K])
			}
		}
		s.WriteString(`</row>`)
	}
	s.WriteString(`</sheetData></worksheet>`)
	return via(x.openXlsx(oneSheet(s.String(), "", map[string]string{
		"styles": xmlDec + `<styleSheet xmlns="` + ssNS + `"><cellXfs><xf numFmtId="0"/><xf numFmtId="1"/><xf numFmtId="9"/><xf numFmtId="22"/></cellXfs></styleSheet>`})))
}

type scanDest struct {
	kind string
	p    interface{}
}

func newDest(kind string) scanDest {
	var p interface{}
	switch kind {
	case "string":
		p = new(string)
	case "int":
		p = new(int)
	case "int64":
		p = new(int64)
	case "float64":
		p = new(float64)
	case "bool":
		p = new(bool)
	case "time":
		p = new(time.Time)
	case "uint8":
		p = new(uint8)
	case "value":
		p = float64(1)
	default:
		panic(driverError("dest " + kind))
	}
	return scanDest{kind, p}
}
func (d scanDest) text() string {
	switch v := d.p.(type) {
	case *string:
		return *v
	case *int:
		return fmt.Sprint(*v)
	case *int64:
		return fmt.Sprint(*v)
	case *float64:
		return strconv.FormatFloat(*v, 'g', -1, 64)
	case *bool:
		return fmt.Sprint(*v)
	case *time.Time:
		return v.UTC().Format(time.RFC3339Nano)
	}
	return "?"
}

func init() {
	drivers["cursor"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Kind      string
				Pad, N, W int
				Tab       [][]curCell
				Ops       []struct {
					Op   string
					Ok   bool
					S, A []string
				}
			}
			unj(b, &c)
			rnd := rand.New(rand.NewSource(x.Seed*4909 + int64(i)))
			get, done, err := x.curTable(c.Kind, c.Tab, c.W, rnd)
			if err != nil {
				x.Fail(i, -1, "open", nil, err.Error(), b)
				return
			}
			defer done()
			probe, err := get()
			if err != nil {
				x.Fail(i, -1, "get", nil, err.Error(), b)
				return
			}
			n := 0
			for n <= c.N+3 && probe.Next() {
				n++
			}
			if n < c.N || n > c.N+1 && !(c.N == 0 && n <= 2) {
				x.Fail(i, -1, "records delivered", c.N, n, b)
				return
			}
			if n != c.N+c.Pad {
				return // another behaviour of the specification applies
			}
			col, err := get()
			if err != nil {
				x.Fail(i, -1, "get", nil, err.Error(), b)
				return
			}
			// what was handed out stays as it was, whatever happens later
			var given, kept [][]string
			for k, o := range c.Ops {
				x.Step(1)
				switch o.Op {
				case "next":
					if got := col.Next(); got != o.Ok {
						x.Fail(i, k, "next", o.Ok, got, b)
						return
					}
				case "empty":
					if got := col.IsEmpty(); got != o.Ok {
						x.Fail(i, k, "empty", o.Ok, got, b)
					}
				case "strings", "types", "formats":
					var got []string
					switch o.Op {
					case "strings":
						got = col.Strings()
					case "types":
						got = col.Types()
					default:
						got = col.Formats()
					}
					if len(got) != len(o.S) || strings.Join(got, "\x00") != strings.Join(o.S, "\x00") {
						x.Fail(i, k, o.Op, o.S, got, b)
					}
					given = append(given, got)
					kept = append(kept, append([]string{}, got...))
				case "spoil":
					for _, g := range given {
						for j := range g {
							g[j] = "spoilt"
						}
					}
					given, kept = nil, nil
				case "scan", "scaninv":
					var ds []scanDest
					var as []interface{}
					for _, a := range o.A {
						d := newDest(a)
						ds = append(ds, d)
						as = append(as, d.p)
					}
					err := col.Scan(as...)
					switch {
					case o.Op == "scaninv":
						if !errors.Is(err, grate.ErrInvalidScanType) {
							x.Fail(i, k, fmt.Sprintf("scan into %v", o.A), "invalid scan type", fmt.Sprint(err), b)
						}
					case !o.Ok:
						if err == nil {
							x.Fail(i, k, fmt.Sprintf("scan into %v", o.A), "an error", nil, b)
						}
					case err != nil:
						x.Fail(i, k, fmt.Sprintf("scan into %v", o.A), o.S, err.Error(), b)
					default:
						for j, w := range o.S {
							if w != "*" && ds[j].text() != w {
								x.Fail(i, k, fmt.Sprintf("scan into %v", o.A), o.S, ds[j].text(), b)
							}
						}
					}
				default:
					panic(driverError("op " + o.Op))
				}
				if err := col.Err(); err != nil {
					x.Fail(i, k, "err after "+o.Op, nil, err.Error(), b)
				}
			}
			for j, g := range given {
				if strings.Join(g, "\x00") != strings.Join(kept[j], "\x00") {
					x.Fail(i, -1, "a list handed out earlier", kept[j], g, b)
				}
			}
			x.Nontrivial()
		})
	}
}
