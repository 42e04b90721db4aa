package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"

	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
)

// Folders of a compound file: streams of the same name in several of them.
func init() {
	drivers["cfbtree"] = func(x *Ctx) {
		// in the order of compound file names: length first
		sets := [][]string{
			{"Book", "Contents", "Workbook", "\x01CompObj", "MBD00012345", "_VBA_PROJECT", "workbook copy"},
			{"Workbook", "MBD0001AC", "MBD0001AD", "ObjectPool", "WorkbookX", "WorkbookXX", "WorkbookXXX"},
			{"A", "WorkBoo", "Workbook", "Yorkbook", "Zorkbook", "\x05DocumentSummaryInformation", "\x05DocumentSummaryInformationX"},
		}
		x.Each(8, func(ci int, data []byte) {
			var c struct {
				Entries []struct {
					Slot, Nm, Up, L, R, C int
					Kind                  string
				}
				Root    int
				Twisted bool
				Found   []struct {
					Nm    int
					Slots []int
					Must  bool
				}
			}
			unj(data, &c)
			rnd := rand.New(rand.NewSource(x.Seed*6151 + int64(ci)))
			set := sets[rnd.Intn(len(sets))]
			n := 0
			for _, e := range c.Entries {
				if e.Slot > n {
					n = e.Slot
				}
			}
			p := &cfbPlan{S: 512, Junk: rnd.Int63n(1000), Names: make([]string, n), Contents: make([][]byte, n), Links: make([][3]int, n+1)}
			for i := 0; i < n; i++ {
				p.Entries = append(p.Entries, cfbEntry{Kind: "unused"})
				p.Names[i] = "x"
			}
			p.Links[0][2] = c.Root
			for _, e := range c.Entries {
				k := e.Slot - 1
				p.Entries[k].Kind = e.Kind
				p.Names[k] = set[e.Nm-1]
				p.Links[e.Slot] = [3]int{e.L, e.R, e.C}
				if e.Kind == "stream" {
					recs := []biffRec{numRec(0, 0, 0, float64(e.Slot))}
					if rnd.Intn(2) == 0 {
						recs = append(recs, biffRec{0x892, make([]byte, 5000)})
					}
					p.Contents[k] = cfbTreeBook(e.Slot, recs)
					p.Entries[k].Size = len(p.Contents[k])
				}
			}
			b := p.simple()
			fn := x.scratch(".xls")
			must(os.WriteFile(fn, b, 0o600))
			defer os.Remove(fn)
			d, err := cfb.Open(fn)
			if err != nil {
				if !c.Twisted {
					x.Fail(ci, -1, "open", nil, err.Error(), data)
				}
				x.Nontrivial()
				return
			}
			for _, f := range c.Found {
				x.Step(1)
				name := set[f.Nm-1]
				r, err := d.Open(name)
				if err != nil {
					if f.Must {
						x.Fail(ci, f.Nm, "stream "+name+" of the root", nil, err.Error(), data)
					}
					continue
				}
				got, err := io.ReadAll(r)
				ok := err == nil
				if ok {
					ok = false
					for _, s := range f.Slots {
						ok = ok || bytes.Equal(got, p.Contents[s-1])
					}
				}
				if !ok {
					x.Fail(ci, f.Nm, "stream "+name, fmt.Sprint("that of entry ", f.Slots), fmt.Sprint(len(got), " others, ", err), data)
					continue
				}
				if name != "Workbook" {
					continue
				}
				src, err := xls.Open(fn)
				if err != nil {
					if f.Must {
						x.Fail(ci, f.Nm, "workbook", nil, err.Error(), data)
					}
					continue
				}
				names, _ := src.List()
				want := ""
				for _, s := range f.Slots {
					want += fmt.Sprintf("[[Sheet%d] %d]", s, s)
				}
				res := fmt.Sprint(names)
				if len(names) == 1 {
					if col, err := src.Get(names[0]); err != nil {
						res = err.Error()
					} else {
						res = fmt.Sprintf("[%v %s]", names, cellsOf(col)[[2]int{0, 0}].Text)
					}
				}
				if !strings.Contains(want, res) {
					x.Fail(ci, f.Nm, "workbook", want, res, data)
				}
				src.Close()
			}
			x.Nontrivial()
		})
	}
}

func cfbTreeBook(n int, recs []biffRec) []byte {
	name := fmt.Sprint("Sheet", n)
	globals := []biffRec{bofRec(5), {rBoundSheet, le(uint32(0), uint8(0), uint8(0), uint8(len(name)), uint8(0), []byte(name))}, eofRec}
	copy(globals[1].D, le(uint32(len(biffBytes(globals)))))
	return biffBytes(append(append(append(globals, bofRec(0x10)), recs...), eofRec))
}
