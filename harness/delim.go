package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"

	"errors"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
)

var delimSym = map[string]string{
	"x": "x", "y": "Y", "SP": " ", "E9": "é", "SEMI": ";", "BIG": strings.Repeat("z", 70000),
	"xFF": "\xff", "VT": "\v", "NBSP": "\u00a0", "NUL": "\x00",
	"TAB": "\t", "COMMA": ",", "QUOTE": `"`, "LF": "\n", "CR": "\r",
}

func symText(ss []string) string {
	var b strings.Builder
	for _, s := range ss {
		t, ok := delimSym[s]
		if !ok {
			panic(driverError("symbol " + s))
		}
		b.WriteString(t)
	}
	return b.String()
}

func symRecs(rs [][][]string) [][]string {
	out := make([][]string, len(rs))
	for i, r := range rs {
		out[i] = make([]string, len(r))
		for j, f := range r {
			out[i][j] = symText(f)
		}
	}
	return out
}

var scratchN int64

// scratch returns a fresh file name in the scratch directory.
func (x *Ctx) scratch(ext string) string {
	return filepath.Join(x.Dir, fmt.Sprintf("f%d%s", atomic.AddInt64(&scratchN, 1), ext))
}

// readAll delivers every record of the only collection of a source.
func readAll(src grate.Source) ([][]string, error) {
	names, err := src.List()
	if err != nil {
		return nil, err
	}
	if len(names) != 1 {
		return nil, fmt.Errorf("%d collections", len(names))
	}
	c, err := src.Get(names[0])
	if err != nil {
		return nil, err
	}
	out := [][]string{}
	for c.Next() {
		out = append(out, append([]string{}, c.Strings()...))
	}
	if c.Next() {
		return nil, errors.New("a record after the end")
	}
	return out, c.Err()
}

func clip(v interface{}) string {
	s := fmt.Sprintf("%q", v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (x *Ctx) delimOpen(i int, b []byte, what string, open func(string) (grate.Source, error), file string, ok bool, want [][]string) {
	src, err := open(file)
	x.Step(1)
	if err != nil {
		if !errors.Is(err, grate.ErrNotInFormat) {
			x.Fail(i, -1, what+": an error other than not in format", ok, err.Error(), b)
		} else if ok {
			x.Fail(i, -1, what+" declines the file", "accepted", err.Error(), b)
		}
		return
	}
	defer src.Close()
	if !ok {
		x.Fail(i, -1, what+" accepts the file", "not in format", "accepted", b)
		return
	}
	got, err := readAll(src)
	if err != nil || !(len(got) == 0 && len(want) == 0 || reflect.DeepEqual(got, want)) {
		x.Fail(i, -1, what+" records", clip(want), clip(got)+fmt.Sprint(err), b)
	}
}

func init() {
	drivers["delim"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				K        string
				Text     []string
				Tok, Cok bool
				Tsv, Csv [][][]string
				N        []int
			}
			unj(b, &c)
			var ttext, ctext string
			var trecs, crecs [][]string
			if c.K == "text" {
				ttext = symText(c.Text)
				ctext = ttext
				trecs, crecs = symRecs(c.Tsv), symRecs(c.Csv)
			} else {
				// lines of one, two, three columns in a seeded order
				r := rand.New(rand.NewSource(x.Seed*1000003 + int64(i)))
				var rows [][]string
				for k, n := range c.N {
					for j := 0; j < n; j++ {
						row := make([]string, k+1)
						for f := range row {
							row[f] = fmt.Sprintf("v%d.%d", j, f)
						}
						rows = append(rows, row)
					}
				}
				r.Shuffle(len(rows), func(a, b int) { rows[a], rows[b] = rows[b], rows[a] })
				for _, row := range rows {
					ttext += strings.Join(row, "\t") + "\n"
					ctext += strings.Join(row, ",") + "\n"
				}
				trecs, crecs = rows, rows
			}
			f := x.scratch([]string{".txt", ".csv", ".tsv", ""}[i%4])
			must(os.WriteFile(f, []byte(ttext), 0o600))
			x.delimOpen(i, b, "tsv", simple.OpenTSV, f, c.Tok, trecs)
			if ctext != ttext {
				must(os.WriteFile(f, []byte(ctext), 0o600))
			}
			x.delimOpen(i, b, "csv", simple.OpenCSV, f, c.Cok, crecs)
			os.Remove(f)
			if len(trecs) > 0 {
				x.Nontrivial()
			}
		})
	}
}
