package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/pbnjay/grate"
)

// C21, C23: the commands, run as processes in directories of their own.

type exSheet struct {
	W    int
	Rows [][][]string
	Bad  bool
}
type exWant struct {
	Bad, Out bool
	Rows     [][][]string
	Cols     int
}
type exFile struct {
	Kind   string
	Sheets []exSheet
	Want   []exWant
}

// exText renders a cell; tag tells the copy of the row it belongs to.
func exText(c []string, tag string) string {
	var b strings.Builder
	for _, s := range c {
		if strings.HasPrefix(s, "ID") {
			b.WriteString(tag + "r" + s[2:])
		} else {
			b.WriteString(delimSym[s])
		}
	}
	return b.String()
}

// exWide gives every row w fields.
func exWide(rows [][]string, w int) [][]string {
	for k := range rows {
		for len(rows[k]) < w {
			rows[k] = append(rows[k], "")
		}
		rows[k] = rows[k][:w]
	}
	return rows
}

func exTable(rows [][][]string, tag string, times int) [][]string {
	var out [][]string
	for t := 0; t < times; t++ {
		for _, r := range rows {
			var q []string
			for _, c := range r {
				q = append(q, exText(c, fmt.Sprint(tag, "t", t)))
			}
			out = append(out, q)
		}
	}
	return out
}

var exNames = []string{"S 1", "S-1", "S_1", "Sheet1", "Tabelle é", "シート"}

func exXls(tabs [][][]string, ws []int, bad []bool, names []string, rnd *rand.Rand) []byte {
	var book xlsBook
	book.Globals = []biffRec{xfRec(0, 0)}
	var strs []string
	at := map[string]int{}
	for _, t := range tabs {
		for _, r := range t {
			for _, v := range r {
				if _, ok := at[v]; !ok && v != "" {
					at[v] = len(strs)
					strs = append(strs, v)
				}
			}
		}
	}
	sst := biffRec{rSST, le(uint32(len(strs)), uint32(len(strs)))}
	var conts []biffRec
	cur := &sst
	for _, s := range strs {
		n, d := xlStr(s, rnd)
		if len(cur.D)+len(d)+2 > 8000 {
			conts = append(conts, biffRec{rContinue, nil})
			cur = &conts[len(conts)-1]
		}
		cur.D = append(cur.D, le(uint16(n), d)...)
	}
	book.Globals = append(append(book.Globals, sst), conts...)
	for s, t := range tabs {
		w := ws[s]
		if len(t) == 0 {
			w = 0
		}
		p := xlsPart{Recs: []biffRec{dimsRec(len(t), w)}}
		for r, q := range t {
			for c, v := range q {
				if v != "" {
					p.Recs = append(p.Recs, biffRec{rLabelSst, le(uint16(r), uint16(c), uint16(0), uint32(at[v]))})
				}
			}
		}
		xs := xlsSheet{Name: names[s], Part: s}
		if bad[s] {
			xs.Off = 2
		}
		book.Sheets = append(book.Sheets, xs)
		book.Parts = append(book.Parts, p)
	}
	return simpleCfb([]string{"Workbook"}, [][]byte{biffBytes(book.records(rnd))})
}

func exXlsx(tabs [][][]string, ws []int, bad []bool, names []string, rnd *rand.Rand) []byte {
	var wr []xlsxRel
	var parts [][2]string
	wb := xmlDec + `<workbook xmlns="` + ssNS + `" xmlns:r="` + relNS + `"><sheets>`
	for s, t := range tabs {
		id := fmt.Sprint("rId", s+1)
		wr = append(wr, xlsxRel{Id: id, Type: "worksheet", Target: fmt.Sprintf("worksheets/sheet%d.xml", s+1)})
		wb += fmt.Sprintf(`<sheet name="%s" sheetId="%d" r:id="%s"/>`, esc(names[s]), s+1, id)
		if bad[s] {
			continue
		}
		var b strings.Builder
		b.WriteString(xmlDec + `<worksheet xmlns="` + ssNS + `">`)
		if len(t) > 0 {
			ref := "A1"
			if len(t) > 1 || ws[s] > 1 {
				ref += ":" + cellRef(len(t)-1, ws[s]-1)
			}
			b.WriteString(`<dimension ref="` + ref + `"/>`)
		}
		b.WriteString(`<sheetData>`)
		for r, q := range t {
			fmt.Fprintf(&b, `<row r="%d">`, r+1)
			for c, v := range q {
				if v != "" {
					fmt.Fprintf(&b, `<c r="%s" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>`, cellRef(r, c), esc(v))
				}
			}
			b.WriteString(`</row>`)
		}
		b.WriteString(`</sheetData></worksheet>`)
		parts = append(parts, [2]string{fmt.Sprintf("xl/worksheets/sheet%d.xml", s+1), b.String()})
	}
	parts = append(parts, [2]string{"xl/workbook.xml", wb + `</sheets></workbook>`}, [2]string{"xl/_rels/workbook.xml.rels", relsXml(wr)},
		[2]string{"_rels/.rels", relsXml([]xlsxRel{{Id: "rId1", Type: "officeDocument", Target: "xl/workbook.xml"}})})
	return zipBytes(parts)
}

// cpus this process may use
func allowedCPUs() []string {
	b, err := os.ReadFile("/proc/self/status")
	must(err)
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "Cpus_allowed_list:") {
			continue
		}
		for _, p := range strings.Split(strings.TrimSpace(l[18:]), ",") {
			var a, z int
			if n, _ := fmt.Sscanf(p, "%d-%d", &a, &z); n < 2 {
				z = a
			}
			for ; a <= z; a++ {
				out = append(out, strconv.Itoa(a))
			}
		}
	}
	return out
}

// after some runs that did not end the others are left out
var exHung int64

// exRun gives standard output and error and whether it ended by itself, with 0.
func exRun(dir, bin string, args, cpus []string, env ...string) (string, string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "taskset", append([]string{"-c", strings.Join(cpus, ","), bin}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		atomic.AddInt64(&exHung, 1)
		return o.String(), e.String(), "does not end"
	}
	if err != nil {
		if strings.Contains(e.String(), "taskset:") {
			panic(driverError(e.String()))
		}
		return o.String(), e.String(), err.Error()
	}
	return o.String(), e.String(), ""
}

type exInput struct {
	path   string // relative to the directory of the run
	f      exFile
	names  []string
	tags   []string
	pads   []int
	width  []int // of a delivered record
	broken bool
}

func init() {
	drivers["extract"] = func(x *Ctx) {
		cpus := allowedCPUs()
		bins := map[string][]string{}
		for _, c := range []string{"grate2tsv", "grater"} {
			bins[c] = strings.Split(os.Getenv("VERIF_BIN_"+c), ":")
		}
		x.Each(6, func(i int, b []byte) {
			var c struct {
				Opt struct {
					Cmd                 string
					R, W, B, P, Again   bool
					Cpus, Copies, Times int
				}
				Files []exFile
			}
			unj(b, &c)
			if atomic.LoadInt64(&exHung) > 3 {
				return
			}
			rnd := rand.New(rand.NewSource(x.Seed*1861 + int64(i)))
			dir := x.scratch(".d")
			must(os.MkdirAll(dir, 0o700))
			defer os.RemoveAll(dir)
			var ins []*exInput
			for cp := 0; cp < c.Opt.Copies; cp++ {
				for k, f := range c.Files {
					in := &exInput{f: f}
					base := fmt.Sprintf("data%d-%d", k, cp)
					if rnd.Intn(3) == 0 {
						base = pick(rnd, "report", "a b", "x.y")
					}
					ext := f.Kind
					switch f.Kind {
					case "missing":
						ext = "xls"
					case "garbage":
						ext = "csv"
					case "cut":
						ext = "xlsx"
					}
					in.path = filepath.Join("in", fmt.Sprint("d", len(ins)), base+"."+ext)
					full := filepath.Join(dir, in.path)
					must(os.MkdirAll(filepath.Dir(full), 0o700))
					var tabs [][][]string
					var ws []int
					var bad []bool
					perm := rnd.Perm(len(exNames))
					for s, sh := range f.Sheets {
						tag := fmt.Sprintf("f%dc%ds%d", k, cp, s)
						in.tags = append(in.tags, tag)
						in.names = append(in.names, exNames[perm[s]])
						tabs = append(tabs, exTable(sh.Rows, tag, c.Opt.Times))
						ws = append(ws, sh.W)
						bad = append(bad, sh.Bad)
					}
					var data []byte
					switch f.Kind {
					case "missing":
						in.broken = true
					case "garbage":
						in.broken = true
						data = []byte("a\"b,c\n\"x\n")
					case "cut":
						in.broken = true
						data = handleXls("cutrecord", rnd)
					case "xls":
						data = exXls(tabs, ws, bad, in.names, rnd)
					case "xlsx":
						data = exXlsx(tabs, ws, bad, in.names, rnd)
					default:
						data = textFile(f.Kind, tabs[0], rnd)
					}
					if f.Kind != "missing" {
						must(os.WriteFile(full, data, 0o600))
					}
					if !in.broken {
						src, err := grate.Open(full)
						if err != nil {
							x.Fail(i, -1, "open "+f.Kind, nil, err.Error(), b)
							return
						}
						ls, err := src.List()
						if err != nil || len(ls) != len(f.Sheets) {
							x.Fail(i, -1, "list "+f.Kind, in.names, ls, b)
							return
						}
						for s, n := range ls {
							pad, w := 0, ws[s]
							if !bad[s] {
								col, err := src.Get(n)
								if err != nil {
									x.Fail(i, -1, "get "+f.Kind, nil, err.Error(), b)
									return
								}
								for col.Next() {
									pad++
									w = len(col.Strings())
								}
								pad -= len(tabs[s])
								if pad < 0 || pad > 1 && len(tabs[s]) > 0 {
									x.Fail(i, -1, "records "+f.Kind, len(tabs[s]), pad+len(tabs[s]), b)
									return
								}
							}
							// blank columns after the last value may be left out
							used := 0
							for _, r := range tabs[s] {
								for c, v := range r {
									if v != "" && c+1 > used {
										used = c + 1
									}
								}
							}
							if len(tabs[s]) > 0 && !bad[s] && (w < used || w > ws[s] && w > 1) {
								x.Fail(i, -1, "columns "+f.Kind, ws[s], w, b)
								return
							}
							in.width = append(in.width, w)
							in.pads = append(in.pads, pad)
						}
						in.names = ls
						src.Close()
					}
					ins = append(ins, in)
				}
			}
			var mine []string
			for _, k := range rnd.Perm(len(cpus)) {
				mine = append(mine, cpus[k])
			}
			if len(mine) > c.Opt.Cpus {
				mine = mine[:c.Opt.Cpus]
			}
			bs := bins[c.Opt.Cmd]
			bin := bs[rnd.Intn(len(bs))]
			env := []string{"GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0 log_path=" + filepath.Join(dir, "race")}
			if rnd.Intn(3) == 0 {
				env = append(env, "GOMAXPROCS="+pick(rnd, "1", "2", "3", "16"))
			}
			x.Step(len(ins))
			if c.Opt.Cmd == "grater" {
				exGrater(x, i, b, dir, bin, mine, env, ins, c.Opt.Times, rnd)
			} else {
				args := []string{"-l", "log.txt", fmt.Sprint("-r=", c.Opt.R), fmt.Sprint("-w=", c.Opt.W), fmt.Sprint("-b=", c.Opt.B)}
				if c.Opt.P {
					args = append(args, "-p")
				}
				info := "results.txt"
				if rnd.Intn(3) == 0 {
					info = "info.tsv"
					args = append(args, "-i", info)
				}
				for _, in := range ins {
					args = append(args, in.path)
				}
				runs := 1
				if c.Opt.Again {
					runs = 2
				}
				for r := 0; r < runs; r++ {
					_, e, bad := exRun(dir, bin, args, mine, env...)
					if bad != "" {
						x.Fail(i, r, "grate2tsv "+bad, "ends with 0", clip(e), b)
						return
					}
				}
				exTsv(x, i, b, dir, info, runs, c.Opt.P, c.Opt.B, c.Opt.Times, ins)
			}
			reports, _ := filepath.Glob(filepath.Join(dir, "race.*"))
			for _, r := range reports {
				t, err := os.ReadFile(r)
				must(err)
				x.Fail(i, -1, "data race in "+c.Opt.Cmd, nil, clip(string(t)), b)
			}
		})
	}
}

func lines(rows [][]string) string {
	var b strings.Builder
	for _, r := range rows {
		b.WriteString(strings.Join(r, "\t") + "\n")
	}
	return b.String()
}

func exTsv(x *Ctx, i int, b []byte, dir, info string, runs int, pretend, skip bool, times int, ins []*exInput) {
	var wantLines, wantOut []string
	for _, in := range ins {
		if in.broken {
			for r := 0; r < runs; r++ {
				wantLines = append(wantLines, in.path+"\t-\t-\t-\tERR")
			}
			continue
		}
		for s, w := range in.f.Want {
			rows := exWide(exTable(w.Rows, in.tags[s], times), in.width[s])
			if !skip && w.Out {
				for p := 0; p < in.pads[s]; p++ {
					rows = append(rows, make([]string, in.width[s]))
				}
			}
			l := fmt.Sprintf("%s\t%s\t%d\t%d\t-", in.path, in.names[s], len(rows), w.Cols)
			if w.Bad {
				l = fmt.Sprintf("%s\t%s\tERR", in.path, in.names[s])
			}
			for r := 0; r < runs; r++ {
				wantLines = append(wantLines, l)
			}
			if w.Out && !pretend {
				wantOut = append(wantOut, lines(rows))
			}
		}
	}
	raw, err := os.ReadFile(filepath.Join(dir, info))
	if err != nil {
		x.Fail(i, -1, "results", nil, err.Error(), b)
		return
	}
	var gotLines []string
	if len(raw) > 0 && raw[len(raw)-1] != '\n' {
		x.Fail(i, -1, "results end in the middle of a line", nil, clip(string(raw)), b)
	}
	for k, l := range strings.Split(strings.TrimSuffix(string(raw), "\n"), "\n") {
		if k == 0 && strings.HasPrefix(l, "time\t") {
			continue
		}
		f := strings.SplitN(l, "\t", 6)
		if len(f) != 6 {
			x.Fail(i, k, "results line", "6 columns", l, b)
			return
		}
		if f[5] != "-" {
			if f[5] == "" {
				x.Fail(i, k, "results line", "an error", l, b)
			}
			f[5] = "ERR"
			if f[2] != "-" { // a sheet's error: nothing is said about counts
				f = append(f[:3], "ERR")
			}
		}
		gotLines = append(gotLines, strings.Join(f[1:], "\t"))
	}
	exSame(x, i, b, "result lines", wantLines, gotLines)
	var gotOut []string
	filepath.Walk(filepath.Join(dir, "results"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			t, err := os.ReadFile(p)
			must(err)
			gotOut = append(gotOut, string(t))
		}
		return nil
	})
	exSame(x, i, b, "outputs", wantOut, gotOut)
	if len(wantOut) > 0 {
		x.Nontrivial()
	}
	x.Add("outputs", len(wantOut))
	x.Add("result lines", len(wantLines))
}

func exSame(x *Ctx, i int, b []byte, what string, want, got []string) {
	sort.Strings(want)
	sort.Strings(got)
	for k := 0; k < len(want) || k < len(got); k++ {
		switch {
		case k >= len(want):
			x.Fail(i, k, what+": one too many", nil, clip(got[k]), b)
		case k >= len(got):
			x.Fail(i, k, what+": one is missing", clip(want[k]), nil, b)
		case want[k] != got[k]:
			x.Fail(i, k, what, clip(want[k]), clip(got[k]), b)
		default:
			continue
		}
		return
	}
}

func exGrater(x *Ctx, i int, b []byte, dir, bin string, cpus, env []string, ins []*exInput, times int, rnd *rand.Rand) {
	var want strings.Builder
	var args []string
	typed := rnd.Intn(3) == 0
	if typed {
		args = append(args, "-v")
	}
	errs, n := 0, 0
	for _, in := range ins {
		args = append(args, in.path)
		if in.broken {
			errs++
			continue
		}
		for s, sh := range in.f.Sheets {
			if sh.Bad {
				errs++
				continue
			}
			rows := exWide(exTable(sh.Rows, in.tags[s], times), in.width[s])
			for p := 0; p < in.pads[s]; p++ {
				rows = append(rows, make([]string, in.width[s]))
			}
			for _, r := range rows {
				n++
				if typed {
					ts := make([]string, len(r))
					for k, v := range r {
						ts[k] = "string"
						if v == "" {
							ts[k] = "blank"
						}
					}
					want.WriteString(strings.Join(ts, "\t") + "\n")
				}
				want.WriteString(strings.Join(r, "\t") + "\n")
			}
		}
	}
	o, e, bad := exRun(dir, bin, args, cpus, env...)
	if bad != "" {
		x.Fail(i, -1, "grater "+bad, "ends with 0", clip(e), b)
		return
	}
	if o != want.String() {
		k := 0
		for k < len(o) && k < want.Len() && o[k] == want.String()[k] {
			k++
		}
		x.Fail(i, -1, fmt.Sprint("grater's output from byte ", k), clip(want.String()[k:]), clip(o[k:]), b)
	}
	if strings.Count(e, "\n") < errs {
		x.Fail(i, -1, "grater's error messages", errs, clip(e), b)
	}
	if n > 0 {
		x.Nontrivial()
	}
}
