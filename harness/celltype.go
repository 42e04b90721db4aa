package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/pbnjay/grate/commonxl"
)

var targetTypes = map[string]commonxl.CellType{
	"blank": commonxl.BlankCell, "integer": commonxl.IntegerCell, "float": commonxl.FloatCell,
	"string": commonxl.StringCell, "boolean": commonxl.BooleanCell, "date": commonxl.DateCell,
}

type stringer string

func (s stringer) String() string { return string(s) }

var codePoint = regexp.MustCompile(`\{[0-9A-F]+\}`)

// codePoints replaces every {hex} by that code point.
func codePoints(s string) string {
	return codePoint.ReplaceAllStringFunc(s, func(h string) string {
		n, err := strconv.ParseUint(h[1:len(h)-1], 16, 32)
		must(err)
		return string(rune(n))
	})
}

type ctCase struct {
	Kind, Txt, Num, Code, To, Type, Stxt, Snum string
	F                                          uint16
}

var someDate = time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)

// goValues lists the Go values that denote the value of a case.
func (c *ctCase) goValues() []interface{} {
	n, ierr := strconv.ParseInt(c.Num, 10, 64)
	u, uerr := strconv.ParseUint(c.Num, 10, 64)
	v, err := strconv.ParseFloat(c.Num, 64)
	must(err)
	switch c.Kind {
	case "boolean":
		return []interface{}{c.Txt == "TRUE"}
	case "blank":
		return []interface{}{"", []byte{}, []uint16{}, []rune{}, stringer("")}
	case "date":
		return []interface{}{someDate}
	case "integer":
		if ierr != nil && uerr == nil {
			return []interface{}{u, uint(u)}
		}
		must(ierr)
		r := []interface{}{n, int(n)}
		if int64(int32(n)) == n {
			r = append(r, int32(n))
		}
		if int64(int16(n)) == n {
			r = append(r, int16(n))
		}
		if int64(int8(n)) == n {
			r = append(r, int8(n))
		}
		if n >= 0 {
			r = append(r, uint64(n), uint(n))
			if n <= math.MaxUint32 {
				r = append(r, uint32(n))
			}
			if n <= math.MaxUint16 {
				r = append(r, uint16(n))
			}
			if n <= math.MaxUint8 {
				r = append(r, uint8(n))
			}
		}
		return r
	case "float":
		r := []interface{}{v}
		if float64(float32(v)) == v {
			r = append(r, float32(v))
		}
		return r
	case "text", "word":
		return []interface{}{c.Txt, []byte(c.Txt), utf16.Encode([]rune(c.Txt)), []rune(c.Txt), stringer(c.Txt)}
	}
	panic(driverError("kind " + c.Kind))
}

func init() {
	drivers["celltype"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c ctCase
			unj(b, &c)
			c.Txt, c.Stxt = codePoints(c.Txt), codePoints(c.Stxt)
			for _, v := range c.goValues() {
				x.Step(1)
				f := &commonxl.Formatter{}
				if c.To != "" {
					cell := commonxl.NewCellWithType(v, targetTypes[c.To], f)
					what := fmt.Sprintf("%T %q as %s: ", v, fmt.Sprint(v), c.To)
					if cell.Type().String() != c.Type {
						x.Fail(i, -1, what+"type", c.Type, cell.Type().String(), b)
					} else if msg := c.checkValue(f, cell.Value()); msg != "" {
						x.Fail(i, -1, what+"value", msg, fmt.Sprintf("%T %v", cell.Value(), cell.Value()), b)
					}
					continue
				}
				if c.Code != "" {
					must(f.Add(c.F, c.Code))
				}
				s := newSheet(f, 1, 2)
				s.Put(0, 1, v, c.F)
				s.Next()
				cell := s.Raw()[1]
				what := fmt.Sprintf("%T %q under format %d: ", v, fmt.Sprint(v), c.F)
				if got := s.Types()[1]; got != c.Type || cell.Type().String() != c.Type {
					x.Fail(i, -1, what+"type", c.Type, got, b)
					continue
				}
				if cell.FormatNo() != c.F {
					x.Fail(i, -1, what+"format number", c.F, cell.FormatNo(), b)
				}
				if msg := c.checkValue(f, cell.Value()); msg != "" {
					x.Fail(i, -1, what+"value", msg, fmt.Sprintf("%T %v", cell.Value(), cell.Value()), b)
					continue
				}
				txt := s.Strings()[1]
				switch {
				case c.Type == "blank" && txt != "":
					x.Fail(i, -1, what+"rendering of a blank", "", txt, b)
				case c.Type == "string" && (c.Kind == "text" || c.Kind == "word") && txt != c.Txt:
					x.Fail(i, -1, what+"rendering of text", c.Txt, txt, b)
				case c.Type == "string" && txt != cell.Value().(string):
					x.Fail(i, -1, what+"rendering of text", cell.Value(), txt, b)
				}
			}
			x.Nontrivial()
		})
	}
}

func (c *ctCase) checkValue(f *commonxl.Formatter, got interface{}) string {
	n, _ := strconv.ParseFloat(c.Snum, 64)
	switch c.Type {
	case "blank":
		if got != nil && got != "" {
			return "nothing"
		}
	case "integer":
		if g, ok := got.(int64); !ok || strconv.FormatInt(g, 10) != c.Snum {
			return "int64 " + c.Snum
		}
	case "float":
		if g, ok := got.(float64); !ok || g != n {
			return "float64 " + c.Snum
		}
	case "boolean":
		if got != (c.Stxt == "TRUE") {
			return c.Stxt
		}
	case "date":
		g, ok := got.(time.Time)
		if !ok {
			return "a time"
		}
		want := someDate
		if c.Kind != "date" {
			if n < 0 || n > 2958465 {
				return ""
			}
			want = f.ConvertToDate(n)
		}
		if !g.Equal(want) {
			return want.String()
		}
	case "string":
		g, ok := got.(string)
		if !ok {
			return "a string"
		}
		if c.Stxt != "*" {
			if g != c.Stxt {
				return c.Stxt
			}
			return ""
		}
		// any text that denotes the value
		switch c.Kind {
		case "integer", "float":
			if h, err := strconv.ParseFloat(g, 64); err != nil || h != n {
				return "text denoting " + c.Snum
			}
		case "date":
			if !strings.Contains(g, "2021") {
				return "text denoting the date"
			}
		}
	}
	return ""
}
