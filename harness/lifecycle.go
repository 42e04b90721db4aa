package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"
)

// C18: workbooks opened, read and closed in any order.

type lifeFile struct {
	Kind   string
	Second bool
	Sheets []int
}

const lifeDay = 36000 // 1998-07-24 in the 1900 system, 2002-07-25 in the 1904 one

func lifeName(f string, s, r int) string { return fmt.Sprintf("%s.%d.%d", f, s, r) }

func lifeXls(name string, f lifeFile, rnd *rand.Rand) []byte {
	var book xlsBook
	code := "0.0"
	if f.Second {
		code = "0.000"
		book.Globals = append(book.Globals, biffRec{rDate1904, le(uint16(1))})
	}
	n, d := xlStr(code, rnd)
	book.Globals = append(book.Globals, biffRec{rFormat, le(uint16(170), uint16(n), d)}, xfRec(0, 0), xfRec(0, 170), xfRec(0, 14))
	var strs []string
	for s, n := range f.Sheets {
		for r := 1; r <= n; r++ {
			strs = append(strs, lifeName(name, s+1, r))
		}
	}
	perm := rnd.Perm(len(strs))
	at := map[string]int{}
	sst := le(uint32(len(strs)+1), uint32(len(strs)+1))
	for k, p := range perm {
		n, d := xlStr(strs[p], rnd)
		sst = append(sst, le(uint16(n), d)...)
		at[strs[p]] = k
	}
	n, d = xlStr("m", rnd)
	sst = append(sst, le(uint16(n), d)...)
	book.Globals = append(book.Globals, biffRec{rSST, sst})
	for s, n := range f.Sheets {
		p := xlsPart{Recs: []biffRec{dimsRec(n, 9)}}
		for r := 0; r < n; r++ {
			p.Recs = append(p.Recs, biffRec{rLabelSst, le(uint16(r), uint16(0), uint16(0), uint32(at[lifeName(name, s+1, r+1)]))},
				numRec(r, 1, 1, 7.2), numRec(r, 2, 2, lifeDay), numRec(r, 3, 0, 1), numRec(r, 8, 0, 9),
				formulaRec(r, 4, 0, []byte{0, 0, 0, 0, 0, 0, 0xFF, 0xFF}, rnd))
			text := "=" + lifeName(name, s+1, r+1) + "=" + name
			cut := 1 + rnd.Intn(len(text)-1)
			_, d1 := xlStr(text[:cut], rnd)
			_, d2 := xlStr(text[cut:], rnd)
			p.Recs = append(p.Recs, biffRec{rString, le(uint16(len(text)), d1)}, biffRec{rContinue, d2},
				biffRec{rLabelSst, le(uint16(r), uint16(5), uint16(0), uint32(len(strs)))})
		}
		merges := le(uint16(n))
		for r := 0; r < n; r++ {
			merges = append(merges, le(uint16(r), uint16(r), uint16(5), uint16(7))...)
		}
		p.Recs = append(p.Recs, biffRec{rMerge, merges})
		for r := 0; r < n; r++ {
			p.Recs = append(p.Recs, markLink{markArea: markArea{r, 3, r, 3}, T: "url", Target: "http://" + name, Disp: name}.rec(rnd))
		}
		book.Sheets = append(book.Sheets, xlsSheet{Name: fmt.Sprint("S", s+1), Part: s})
		book.Parts = append(book.Parts, p)
	}
	return biffBytes(book.records(rnd))
}

func lifeXlsx(name string, f lifeFile, rnd *rand.Rand) [][2]string {
	code, pr := "0.0", ""
	if f.Second {
		code, pr = "0.000", `<workbookPr date1904="1"/>`
	}
	var strs []string
	for s, n := range f.Sheets {
		for r := 1; r <= n; r++ {
			strs = append(strs, lifeName(name, s+1, r))
		}
	}
	rnd.Shuffle(len(strs), func(a, b int) { strs[a], strs[b] = strs[b], strs[a] })
	at := map[string]int{}
	sst := xmlDec + `<sst xmlns="` + ssNS + `">`
	for k, s := range strs {
		at[s] = k
		sst += `<si><t>` + s + `</t></si>`
	}
	sst += `<si><r><t>m</t></r></si></sst>`
	wr := []xlsxRel{{Id: "rIdA", Type: "styles", Target: "styles.xml"}, {Id: "rIdB", Type: "sharedStrings", Target: "sharedStrings.xml"}}
	wb := xmlDec + `<workbook xmlns="` + ssNS + `" xmlns:r="` + relNS + `">` + pr + `<sheets>`
	parts := [][2]string{{"xl/sharedStrings.xml", sst}, {"xl/styles.xml", xmlDec + `<styleSheet xmlns="` + ssNS + `"><numFmts count="1"><numFmt numFmtId="170" formatCode="` + code +
		`"/></numFmts><cellXfs><xf numFmtId="0"/><xf numFmtId="170" applyNumberFormat="1"/><xf numFmtId="14" applyNumberFormat="1"/></cellXfs></styleSheet>`}}
	for s, n := range f.Sheets {
		id := fmt.Sprint("rId", s+1)
		wr = append(wr, xlsxRel{Id: id, Type: "worksheet", Target: fmt.Sprintf("worksheets/sheet%d.xml", s+1)})
		wb += fmt.Sprintf(`<sheet name="S%d" sheetId="%d" r:id="%s"/>`, s+1, s+1, id)
		sh := xmlDec + `<worksheet xmlns="` + ssNS + `" xmlns:r="` + relNS + `"><sheetData>`
		hl, mc := "", ""
		for r := 0; r < n; r++ {
			sh += fmt.Sprintf(`<row r="%d"><c r="A%[1]d" t="s"><v>%[2]d</v></c><c r="B%[1]d" s="1"><v>7.2</v></c><c r="C%[1]d" s="2"><v>%[3]d</v></c><c r="D%[1]d"><v>1</v></c><c r="E%[1]d" t="str"><f>A1</f><v>%[4]s</v></c><c r="F%[1]d" t="s"><v>%[5]d</v></c><c r="I%[1]d"><v>9</v></c></row>`,
				r+1, at[lifeName(name, s+1, r+1)], lifeDay, "="+lifeName(name, s+1, r+1)+"="+name, len(strs))
			mc += fmt.Sprintf(`<mergeCell ref="F%d:H%[1]d"/>`, r+1)
			hl += fmt.Sprintf(`<hyperlink ref="D%d" r:id="rId1"/>`, r+1)
		}
		sh += `</sheetData><mergeCells>` + mc + `</mergeCells><hyperlinks>` + hl + `</hyperlinks></worksheet>`
		parts = append(parts, [2]string{fmt.Sprintf("xl/worksheets/sheet%d.xml", s+1), sh},
			[2]string{fmt.Sprintf("xl/worksheets/_rels/sheet%d.xml.rels", s+1), relsXml([]xlsxRel{{Id: "rId1", Type: "hyperlink", Target: "http://" + name, External: true}})})
	}
	parts = append(parts, [2]string{"xl/workbook.xml", wb + `</sheets></workbook>`}, [2]string{"xl/_rels/workbook.xml.rels", relsXml(wr)},
		[2]string{"_rels/.rels", relsXml([]xlsxRel{{Id: "rId1", Type: "officeDocument", Target: "xl/workbook.xml"}})})
	rnd.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
	return parts
}

// lifeShelf holds the files on disk, two encodings of each.
type lifeShelf struct {
	mu    sync.Mutex
	dir   string
	seed  int64
	files map[string]string
}

func (l *lifeShelf) path(name string, f lifeFile, variant int) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	key := fmt.Sprint(name, "-", variant)
	if p, ok := l.files[key]; ok {
		return p
	}
	rnd := rand.New(rand.NewSource(l.seed*31 + int64(variant)))
	var data []byte
	ext := f.Kind
	switch f.Kind {
	case "xls":
		data = simpleCfb([]string{"Workbook"}, [][]byte{lifeXls(name, f, rnd)})
	case "xlsx":
		data = zipBytes(lifeXlsx(name, f, rnd))
	case "trunc":
		b := lifeXls("xls1", lifeFile{"xls", false, []int{3, 2}}, rnd)
		// cut inside a record after at least one complete record
		p := 0
		var cuts []int
		for p < len(b) {
			n := 4 + int(b[p+2]) + int(b[p+3])<<8
			if p > 0 {
				for q := p + 4; q < p+n; q++ {
					cuts = append(cuts, q)
				}
			}
			p += n
		}
		data = simpleCfb([]string{"Workbook"}, [][]byte{b[:cuts[rnd.Intn(len(cuts))]]})
		ext = "xls"
	case "garbage":
		data = []byte("a\"b,c\n\"x\n")
		ext = "csv"
	case "cutzip":
		// the parts are there but the shared strings end in the middle of a tag
		parts := lifeXlsx("xlsx1", lifeFile{"xlsx", false, []int{3, 2}}, rnd)
		for k := range parts {
			if strings.HasSuffix(parts[k][0], "sharedStrings.xml") {
				parts[k][1] = parts[k][1][:len(parts[k][1])-1-rnd.Intn(4)]
			}
		}
		data = zipBytes(parts)
		ext = "xlsx"
	case "badrec":
		b := lifeXls("xls2", lifeFile{"xls", true, []int{3, 2}}, rnd)
		p := 0
		for {
			n := int(b[p+2]) + int(b[p+3])<<8
			if int(b[p])+int(b[p+1])<<8 == rSST {
				b[p+4+8+1] = 0x7F // a string far longer than the table
				break
			}
			p += 4 + n
		}
		data = simpleCfb([]string{"Workbook"}, [][]byte{b})
		ext = "xls"
	default:
		var recs [][]string
		for r := 1; r <= f.Sheets[0]; r++ {
			recs = append(recs, []string{lifeName(name, 1, r), "7.2"})
		}
		data = textFile(f.Kind, recs, rnd)
	}
	p := filepath.Join(l.dir, key+"."+ext)
	must(os.WriteFile(p, data, 0o600))
	l.files[key] = p
	return p
}

type lifeOp struct {
	Op, A string
	B     int
	Ok    bool
	W     []string
}
type lifeSrc struct {
	f       lifeFile
	variant int
	src     grate.Source
	names   []string
}
type lifeCol struct {
	f    lifeFile
	col  grate.Collection
	over bool // past its last record
	pads int
}
type lifeRun struct {
	x     *Ctx
	i     int
	b     []byte
	shelf *lifeShelf
	files map[string]lifeFile
}

var lifeOpeners = map[string]grate.OpenFunc{"xls": xls.Open, "xlsx": xlsx.Open, "tsv": simple.OpenTSV, "csv": simple.OpenCSV}

func (l *lifeRun) open(k int, name string, variant int) *lifeSrc {
	f := l.files[name]
	p := l.shelf.path(name, f, variant&1)
	open := grate.Open
	if variant&2 != 0 {
		open = lifeOpeners[f.Kind]
	}
	src, err := open(p)
	if err != nil {
		l.x.Fail(l.i, k, "open "+name, nil, err.Error(), l.b)
		return nil
	}
	s := &lifeSrc{f: f, src: src}
	if len(f.Sheets) == 1 {
		s.names, _ = src.List()
	} else {
		for n := range f.Sheets {
			s.names = append(s.names, fmt.Sprint("S", n+1))
		}
	}
	return s
}

func (l *lifeRun) bad(k int, kind string, variant int) {
	p := filepath.Join(l.shelf.dir, "missing")
	if kind != "missing" {
		p = l.shelf.path("bad-"+kind, lifeFile{Kind: kind}, variant)
	}
	src, err := grate.Open(p)
	if err == nil {
		l.x.Fail(l.i, k, "opened a file that is "+kind, "error", fmt.Sprintf("%T", src), l.b)
		src.Close()
	}
}

func (l *lifeRun) list(k int, s *lifeSrc, w []string) {
	got, err := s.src.List()
	if len(s.f.Sheets) == 1 {
		if err != nil || len(got) != 1 {
			l.x.Fail(l.i, k, "list", 1, got, l.b)
		}
		return
	}
	if err != nil || !reflect.DeepEqual(got, w) {
		l.x.Fail(l.i, k, "list", w, got, l.b)
	}
}

func (l *lifeRun) get(k int, s *lifeSrc, sheet string, ok bool) *lifeCol {
	n, err := strconv.Atoi(sheet)
	must(err)
	if len(s.names) < n {
		l.x.Fail(l.i, k, "names", n, s.names, l.b)
		return nil
	}
	c, err := s.src.Get(s.names[n-1])
	if !ok {
		if err == nil {
			l.x.Fail(l.i, k, "get from a closed source", "error", fmt.Sprintf("%T", c), l.b)
		}
		return nil
	}
	if err != nil {
		l.x.Fail(l.i, k, "get", nil, err.Error(), l.b)
		return nil
	}
	return &lifeCol{f: s.f, col: c}
}

func (l *lifeRun) next(k int, c *lifeCol, ok bool) bool {
	got := c.col.Next()
	if !ok && got && (c.f.Kind == "xls" || c.f.Kind == "xlsx") {
		// a blank record may follow the used area
		for _, t := range c.col.Strings() {
			if t != "" {
				l.x.Fail(l.i, k, "a record after the last", nil, c.col.Strings(), l.b)
				return false
			}
		}
		got = c.col.Next()
	}
	if got != ok {
		l.x.Fail(l.i, k, "next", ok, got, l.b)
		return false
	}
	return true
}

func (l *lifeRun) read(k int, c *lifeCol, w []string) bool {
	if got := c.col.Strings(); !reflect.DeepEqual(got, w) {
		l.x.Fail(l.i, k, "record", w, got, l.b)
		return false
	}
	return true
}

func lifeCase(x *Ctx, shelf *lifeShelf, i int, b []byte) (*lifeRun, []lifeOp, *rand.Rand) {
	var c struct {
		Ops   []lifeOp
		Files map[string]lifeFile
	}
	unj([]byte(strings.NewReplacer("{right}", grate.ContinueColumnMerged, "{end}", grate.EndColumnMerged).Replace(string(b))), &c)
	return &lifeRun{x, i, b, shelf, c.Files}, c.Ops, rand.New(rand.NewSource(x.Seed*6151 + int64(i)))
}

func init() {
	drivers["lifecycle"] = func(x *Ctx) {
		shelf := &lifeShelf{dir: x.Dir, seed: x.Seed, files: map[string]string{}}
		par := 8
		if x.N > 0 {
			par = x.N
		}
		x.Each(par, func(i int, b []byte) {
			l, ops, rnd := lifeCase(x, shelf, i, b)
			var srcs []*lifeSrc
			var cols []*lifeCol
			defer func() {
				for _, s := range srcs {
					s.src.Close()
				}
			}()
			for k, o := range ops {
				x.Step(1)
				switch o.Op {
				case "open":
					s := l.open(k, o.A, rnd.Intn(4))
					if s == nil {
						return
					}
					srcs = append(srcs, s)
				case "bad":
					l.bad(k, o.A, rnd.Intn(4))
				case "list":
					l.list(k, srcs[o.B-1], o.W)
				case "get":
					c := l.get(k, srcs[o.B-1], o.A, o.Ok)
					if o.Ok {
						if c == nil {
							return
						}
						cols = append(cols, c)
					}
				case "next":
					if !l.next(k, cols[o.B-1], o.Ok) {
						return
					}
				case "read":
					if !l.read(k, cols[o.B-1], o.W) {
						return
					}
				case "close":
					srcs[o.B-1].src.Close()
				default:
					panic(driverError("op " + o.Op))
				}
			}
			x.Nontrivial()
		})
	}

	// the same histories, every source and every collection in a goroutine of
	// its own: only a source's own operations, and a collection's own, are ordered
	drivers["lifecyclepar"] = func(x *Ctx) {
		shelf := &lifeShelf{dir: x.Dir, seed: x.Seed, files: map[string]string{}}
		x.Each(2, func(i int, b []byte) {
			l, ops, rnd := lifeCase(x, shelf, i, b)
			var mu sync.Mutex
			var crash interface{}
			var wg sync.WaitGroup
			start := make(chan struct{})
			run := func(f func()) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							buf := make([]byte, 8192)
							buf = buf[:runtime.Stack(buf, false)]
							mu.Lock()
							crash = fmt.Sprintf("%v %s", r, firstFrame(string(buf)))
							mu.Unlock()
						}
					}()
					<-start
					f()
				}()
			}
			type step struct {
				k int
				o lifeOp
				c int
			}
			bySrc := map[int][]step{}
			byCol := map[int][]step{}
			nsrc, ncol := 0, 0
			for k, o := range ops {
				st := step{k, o, 0}
				switch o.Op {
				case "open":
					nsrc++
					bySrc[nsrc] = append(bySrc[nsrc], st)
				case "bad":
					run(func() { l.bad(st.k, st.o.A, st.k&3) })
				case "next", "read":
					byCol[o.B] = append(byCol[o.B], st)
				case "get":
					if o.Ok {
						ncol++
						st.c = ncol
					}
					bySrc[o.B] = append(bySrc[o.B], st)
				default:
					bySrc[o.B] = append(bySrc[o.B], st)
				}
			}
			var ids []int
			for s := range bySrc {
				ids = append(ids, s)
			}
			sort.Ints(ids)
			for _, s := range ids {
				steps := bySrc[s]
				variant := rnd.Intn(4)
				jit := rnd.Intn(3)
				run(func() {
					var src *lifeSrc
					for _, st := range steps {
						for j := 0; j < jit; j++ {
							runtime.Gosched()
						}
						switch st.o.Op {
						case "open":
							if src = l.open(st.k, st.o.A, variant); src == nil {
								return
							}
						case "list":
							l.list(st.k, src, st.o.W)
						case "get":
							c := l.get(st.k, src, st.o.A, st.o.Ok)
							if c != nil && st.o.Ok {
								reads := byCol[st.c]
								run(func() {
									for _, q := range reads {
										ok := false
										if q.o.Op == "next" {
											ok = l.next(q.k, c, q.o.Ok)
										} else {
											ok = l.read(q.k, c, q.o.W)
										}
										if !ok {
											return
										}
									}
								})
							}
						case "close":
							src.src.Close()
						}
					}
					if src != nil {
						src.src.Close()
					}
				})
			}
			close(start)
			wg.Wait()
			if crash != nil {
				x.Fail(i, -1, "panic", nil, crash, b)
				return
			}
			x.Step(len(ops))
			if nsrc > 1 && ncol > 1 {
				x.Nontrivial()
			}
		})
	}
}
