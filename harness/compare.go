package main

import (
	"fmt"
	"strconv"
	"time"

	"github.com/pbnjay/grate/commonxl"
)

// C26: comparing cells.

type cmpCell struct{ Kind, Txt, Num string }

// cells lists the cells that hold the value.
func (c *cmpCell) cells() []commonxl.Cell {
	var v interface{}
	switch c.Kind {
	case "none":
		return []commonxl.Cell{nil, {}}
	case "blank":
		v = ""
	case "boolean":
		v = c.Txt == "TRUE"
	case "date":
		t, err := time.Parse(time.RFC3339Nano, c.Txt)
		must(err)
		v = t
	case "integer":
		n, err := strconv.ParseInt(c.Num, 10, 64)
		must(err)
		v = n
	case "float":
		f, err := strconv.ParseFloat(c.Num, 64)
		must(err)
		v = f
	default:
		v = codePoints(c.Txt)
	}
	plain := commonxl.NewCell(v)
	styled := commonxl.NewCell(v)
	styled.SetFormatNumber(200)
	r := []commonxl.Cell{plain, styled}
	if _, ok := v.(string); ok && v != "" {
		link := commonxl.NewCell(v)
		link.SetURL("http://x.example/")
		r = append(r, link)
	}
	return r
}

func init() {
	drivers["compare"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				A, B cmpCell
				O    string
			}
			unj(b, &c)
			for m, p := range c.A.cells() {
				for n, q := range c.B.cells() {
					x.Step(1)
					lt, gt, eq, qe := p.Less(q), q.Less(p), p.Equal(q), q.Equal(p)
					got := "ne"
					switch {
					case eq != qe:
						got = "equal from one side only"
					case lt && gt:
						got = "each less than the other"
					case eq && (lt || gt):
						got = "equal and less"
					case eq:
						got = "eq"
					case lt:
						got = "lt"
					case gt:
						got = "gt"
					}
					ok := false
					switch c.O {
					case "any":
						ok = got == "eq" || got == "ne" || got == "lt" || got == "gt"
					case "ne":
						ok = got == "ne" || got == "lt" || got == "gt"
					case "apart":
						ok = got == "ne"
					default:
						ok = got == c.O
					}
					if !ok {
						x.Fail(i, m, fmt.Sprintf("%T %v against %T %v (%d, %d)", p.Value(), p.Value(), q.Value(), q.Value(), m, n), c.O, got, b)
						return
					}
				}
			}
			x.Nontrivial()
		})
	}
}
