package main

import (
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
)

// C19: which files the process has open, as the system sees it.

type handleFile struct{ O, Stop string }

// handlesOn counts the descriptors and mappings of this process that refer to
// the file.
func handlesOn(path string) int {
	n := 0
	ents, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (l == path || l == path+" (deleted)") {
			n++
		}
	}
	maps, err := os.ReadFile("/proc/self/maps")
	must(err)
	return n + strings.Count(string(maps), path)
}

// cutTag ends an XML part inside a tag.
func cutTag(s string, rnd *rand.Rand) string {
	var at []int
	open := -1
	for k := range s {
		switch {
		case s[k] == '<' && k+1 < len(s) && s[k+1] != '?':
			open = k
		case s[k] == '>' && open >= 0:
			at = append(at, open+1+rnd.Intn(k-open))
			open = -1
		}
	}
	return s[:at[rnd.Intn(len(at))]]
}

func handleXlsx(stop string, rnd *rand.Rand) []byte {
	parts := lifeXlsx("h", lifeFile{"xlsx", false, []int{2, 1}}, rnd)
	edit := func(name string, f func(string) string) {
		for k := range parts {
			if parts[k][0] == name {
				if s := f(parts[k][1]); s == "" {
					parts = append(parts[:k], parts[k+1:]...)
				} else {
					parts[k][1] = s
				}
				return
			}
		}
		panic(driverError(name))
	}
	drop := func(string) string { return "" }
	cut := func(s string) string { return cutTag(s, rnd) }
	repl := func(a, b string) func(string) string {
		return func(s string) string {
			if !strings.Contains(s, a) {
				panic(driverError(a))
			}
			return strings.Replace(s, a, b, 1)
		}
	}
	switch stop {
	case "norels":
		edit("_rels/.rels", drop)
	case "cutrels":
		edit("_rels/.rels", cut)
	case "noprimary":
		edit("_rels/.rels", repl("officeDocument\"", "extended-properties\""))
	case "nopartrels":
		edit("xl/_rels/workbook.xml.rels", drop)
	case "cutpartrels":
		edit("xl/_rels/workbook.xml.rels", cut)
	case "nobook":
		edit("xl/workbook.xml", drop)
	case "cutbook":
		edit("xl/workbook.xml", cut)
	case "badsheet":
		edit("xl/workbook.xml", repl(` r:id="rId2"`, ``))
	case "nostyles":
		edit("xl/styles.xml", drop)
	case "cutstyles":
		edit("xl/styles.xml", cut)
	case "nostrings":
		edit("xl/sharedStrings.xml", drop)
	case "cutstrings":
		edit("xl/sharedStrings.xml", cut)
	case "bare", "barenosheets", "nosheets":
		if stop != "nosheets" {
			edit("xl/styles.xml", drop)
			edit("xl/sharedStrings.xml", drop)
			edit("xl/_rels/workbook.xml.rels", func(s string) string {
				return regexp.MustCompile(`<Relationship [^>]*(styles|sharedStrings)\.xml"[^>]*>`).ReplaceAllString(s, "")
			})
		}
		if stop != "bare" {
			edit("xl/workbook.xml", func(s string) string { return regexp.MustCompile(`<sheet .*?/>`).ReplaceAllString(s, "") })
			if rnd.Intn(2) == 0 {
				edit("xl/workbook.xml", func(s string) string { return strings.Replace(s, "<sheets></sheets>", "", 1) })
			}
		}
	case "emptysheet":
		edit("xl/worksheets/sheet1.xml", func(s string) string {
			return regexp.MustCompile(`<sheetData>.*</hyperlinks>`).ReplaceAllString(s, "<sheetData/>")
		})
	case "onlyhidden":
		edit("xl/workbook.xml", func(s string) string { return strings.ReplaceAll(s, "<sheet ", `<sheet state="hidden" `) })
	case "getnone":
		edit("xl/worksheets/sheet1.xml", drop)
	case "getcut":
		edit("xl/worksheets/sheet1.xml", cut)
	case "getbad":
		edit("xl/worksheets/sheet1.xml", repl(`t="s"><v>`, `t="s"><v>99`))
	}
	b := zipBytes(parts)
	switch stop {
	case "zip":
		b = b[:len(b)-1-rnd.Intn(len(b)/2)]
	case "badcrc":
		// damage the data of one part
		from := strings.Index(string(b), "PK\x01\x02")
		for k := 0; k < 3; k++ {
			b[60+rnd.Intn(from-60)] ^= 0x55
		}
	}
	return b
}

func handleXls(stop string, rnd *rand.Rand) []byte {
	rows := map[string][]int{"nosheets": {}, "emptysheet": {0, 0}}[stop]
	if rows == nil {
		rows = []int{40, 30}
	}
	w := lifeXls("h", lifeFile{"xls", false, rows}, rnd)
	name := "Workbook"
	insert := func(r biffRec) {
		n := 4 + int(w[2]) + int(w[3])<<8
		w = append(append(append([]byte{}, w[:n]...), biffBytes([]biffRec{r})...), w[n:]...)
	}
	switch stop {
	case "nostream":
		name = "Book"
	case "ministream":
		w = w[:600]
	case "notbiff":
		w = w[20:]
	case "biff5":
		w[5] = 5
	case "cutrecord":
		w = w[:len(w)-7-rnd.Intn(8)]
	case "badstrings":
		for p := 0; ; p += 4 + int(w[p+2]) + int(w[p+3])<<8 {
			if int(w[p])+int(w[p+1])<<8 == rSST {
				w[p+4+8+1] = 0x7F
				break
			}
		}
	case "filepass":
		insert(biffRec{rFilePass, le(uint16(rnd.Intn(5)+2), make([]byte, 50))})
	case "wrongkey":
		d, _ := passData("another word", rnd)
		insert(biffRec{rFilePass, le(uint16(1), d)})
	case "onlyhidden":
		for p := 0; p < len(w); p += 4 + int(w[p+2]) + int(w[p+3])<<8 {
			if int(w[p])+int(w[p+1])<<8 == rBoundSheet {
				w[p+8] |= byte(1 + rnd.Intn(2))
			}
		}
	case "getnone":
		// the first sheet's position points nowhere
		for p := 0; ; p += 4 + int(w[p+2]) + int(w[p+3])<<8 {
			if int(w[p])+int(w[p+1])<<8 == rBoundSheet {
				w[p+4] ^= 2
				break
			}
		}
	}
	b := simpleCfb([]string{name, "x"}, [][]byte{w, []byte("xyz")})
	fat := (1 + int(le32(b[76:]))) * 512
	dir := (1 + int(le32(b[48:]))) * 512
	ring := func(start uint32) { // a chain in a circle
		copy(b[fat+4*int(start):], le(start))
	}
	switch stop {
	case "signature":
		b[rnd.Intn(8)] ^= 0xFF
	case "version":
		b[[]int{26, 28, 30, 32}[rnd.Intn(4)]] = 77
	case "fat":
		copy(b[76:], le(uint32(len(b)/512+9)))
	case "directory":
		ring(le32(b[48:]))
	case "ministream":
		copy(b[60:], le(uint32(len(b)/512+9)))
	case "chain":
		ring(le32(b[dir+128+116:]))
	}
	return b
}

func le32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func handleData(f handleFile, rnd *rand.Rand) []byte {
	switch f.O + " " + f.Stop {
	case "tsv ":
		return []byte("a\tb\nc\td\n")
	case "tsv notab":
		return []byte("a b\nc d\n")
	case "tsv irregular":
		return []byte(strings.Repeat("a\tb\n", 30) + strings.Repeat("a\tb\tc\n", 30))
	case "csv ":
		return []byte("a,b\nc,d\n")
	case "csv quote":
		return []byte("a,\"b\n" + strings.Repeat("x,y\n", rnd.Intn(40)))
	case "csv irregular":
		return []byte(strings.Repeat("a,b\n", 30) + strings.Repeat("a,b,c\n", 30))
	case "tsv onerecord":
		return []byte("a\tb" + pick(rnd, "", "\n", "\r\n"))
	case "csv onerecord":
		return []byte("a,b" + pick(rnd, "", "\n", "\r\n"))
	case "tsv longrecord":
		return []byte(strings.Repeat("abcd\t", 20000) + "\n")
	case "csv longrecord":
		return []byte(strings.Repeat("abcd,", 20000) + "\n")
	case " empty":
		return nil
	}
	switch f.O {
	case "xls":
		return handleXls(f.Stop, rnd)
	case "xlsx":
		return handleXlsx(f.Stop, rnd)
	}
	panic(driverError("file " + f.O + " " + f.Stop))
}

func init() {
	drivers["handles"] = func(x *Ctx) {
		debug.SetGCPercent(-1) // no finalizer may close anything
		var gc sync.RWMutex
		var count int
		x.Each(8, func(i int, b []byte) {
			gc.RLock()
			defer func() {
				gc.RUnlock()
				gc.Lock()
				if count++; count%150 == 0 {
					runtime.GC()
				}
				gc.Unlock()
			}()
			var c struct {
				Ops []struct {
					Op, Via string
					F       handleFile
					B       int
				}
			}
			unj(b, &c)
			rnd := rand.New(rand.NewSource(x.Seed*2297 + int64(i)))
			type source struct {
				src  grate.Source
				path string
				shut bool
			}
			var srcs []*source
			defer func() {
				for _, s := range srcs {
					if s.src != nil {
						s.src.Close()
					}
					os.RemoveAll(s.path)
				}
			}()
			failed := 0
			for k, o := range c.Ops {
				x.Step(1)
				switch o.Op {
				case "open":
					s := &source{path: x.scratch(pick(rnd, "", ".xls", ".xlsx", ".csv", ".tsv"))}
					srcs = append(srcs, s)
					switch o.F.Stop {
					case "missing":
					case "dir":
						must(os.Mkdir(s.path, 0o700))
					default:
						must(os.WriteFile(s.path, handleData(o.F, rnd), fs.FileMode(0o600)))
					}
					open := grate.Open
					if o.Via != "any" {
						open = lifeOpeners[o.Via]
					}
					src, err := open(s.path)
					if err == nil {
						s.src = src
					} else {
						s.shut = true
						failed++
						x.Add("failed in "+o.Via, 1)
					}
					own := o.Via == o.F.O || o.Via == "any"
					if own && err == nil && o.F.Stop != "" && o.F.O == o.Via {
						x.Add("opened in spite of "+o.F.Stop, 1)
					}
					if own && (o.F.Stop == "" || strings.HasPrefix(o.F.Stop, "get")) && err != nil {
						x.Fail(i, k, "open of a sound "+o.F.O+" file", nil, err.Error(), b)
						return
					}
				case "get":
					s := srcs[o.B-1]
					if s.src == nil || s.shut {
						continue
					}
					ls, err := s.src.List()
					if err != nil {
						continue
					}
					for _, n := range ls {
						c, err := s.src.Get(n)
						if err == nil {
							for j := rnd.Intn(5); j > 0 && c.Next(); j-- {
								c.Strings()
							}
						}
					}
					s.src.Get("no such sheet")
				case "close":
					s := srcs[o.B-1]
					if s.src != nil {
						s.src.Close()
						s.shut = true
						x.Add("closed "+o.F.O+" "+o.F.Stop, 1)
					}
				default:
					panic(driverError("op " + o.Op))
				}
				for j, s := range srcs {
					if s.shut {
						if n := handlesOn(s.path); n != 0 {
							why := "closed"
							if s.src == nil {
								why = "failed"
							}
							x.Fail(i, k, fmt.Sprintf("handles on the file of source %d, which %s", j+1, why), 0, n, b)
							return
						}
					}
				}
			}
			if failed > 0 {
				x.Nontrivial()
			}
		})
	}
}
