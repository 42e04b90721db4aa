package main

import (
	"archive/zip"
	"bytes"
	"hash/crc32"
	"os"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xlsx"
)

// C25: damaged packages.

type xmlEvent struct {
	K, N string
	A    []struct {
		N, S string
		C    []int
	}
	T []int
}

var dmgPath = []string{"_rels/.rels", "xl/_rels/workbook.xml.rels", "xl/workbook.xml", "xl/styles.xml", "xl/sharedStrings.xml",
	"xl/worksheets/sheet1.xml", "xl/worksheets/_rels/sheet1.xml.rels", "xl/worksheets/sheet2.xml"}

func (e xmlEvent) text(root bool) string {
	switch e.K {
	case "end":
		return "</" + e.N + ">"
	case "text":
		return esc(unitText(e.T))
	}
	s := "<" + e.N
	if root {
		ns := ssNS
		if e.N == "Relationships" {
			ns = pkgNS
		}
		s += ` xmlns="` + ns + `" xmlns:r="` + relNS + `"`
	}
	for _, a := range e.A {
		v := a.S
		if len(a.C) > 0 {
			v = unitText(a.C)
		}
		n := a.N
		if n == "id" {
			n = "r:id"
		}
		if n == "Type" && v != "" && v != "zzz" {
			v = relNS + "/" + v
		}
		s += " " + n + `="` + esc(v) + `"`
	}
	return s + ">"
}

func init() {
	drivers["damagex"] = func(x *Ctx) {
		x.Each(1, func(i int, b []byte) {
			var c struct {
				Parts      [][]xmlEvent
				Gone, Flip []int
				Torn       int
				Short      bool
				Open       string
				Sheets     []dmgSheet
			}
			unj(b, &c)
			x.Step(1)
			in := func(ps []int, p int) bool {
				for _, q := range ps {
					if q == p {
						return true
					}
				}
				return false
			}
			var datas []string
			for p, evs := range c.Parts {
				var sb strings.Builder
				sb.WriteString(xmlDec)
				for k, e := range evs {
					s := e.text(k == 0)
					if p+1 == c.Torn && k == len(evs)-1 && len(s) > 1 {
						s = s[:1+x.Rand.Intn(len(s)-1)]
					}
					sb.WriteString(s)
				}
				datas = append(datas, sb.String())
			}
			path := x.scratch(".xlsx")
			defer os.Remove(path)
			once := func(flips map[int]int, rest float64) bool {
				var buf bytes.Buffer
				z := zip.NewWriter(&buf)
				for p, data := range datas {
					if in(c.Gone, p+1) {
						continue
					}
					raw := []byte(data)
					sum := crc32.ChecksumIEEE(raw)
					if at, ok := flips[p+1]; ok {
						raw[at] ^= 1 << uint(x.Rand.Intn(7))
					}
					w, err := z.CreateRaw(&zip.FileHeader{Name: dmgPath[p], Method: zip.Store, CRC32: sum,
						CompressedSize64: uint64(len(raw)), UncompressedSize64: uint64(len(raw))})
					must(err)
					_, err = w.Write(raw)
					must(err)
				}
				must(z.Close())
				if c.Short {
					buf.Truncate(int(rest * float64(buf.Len())))
				}
				must(os.WriteFile(path, buf.Bytes(), 0o600))
				return dmgCheck(x, i, b, c.Open, c.Sheets, func() (grate.Source, error) { return xlsx.Open(path) })
			}
			if len(c.Flip) == 0 && !c.Short {
				once(nil, 0)
				return
			}
			// any byte of the parts that do not match their checksums, any length of
			// what is left of the archive
			n := 40
			if x.Tier != "quick" {
				n = 4000
			}
			for k := 0; k < n; k++ {
				flips := map[int]int{}
				for _, p := range c.Flip {
					flips[p] = x.Rand.Intn(len(datas[p-1]))
				}
				if !once(flips, x.Rand.Float64()) {
					return
				}
			}
		})
	}
}
