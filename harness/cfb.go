package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"unicode/utf16"

	"github.com/pbnjay/grate/xls/cfb"
)

func init() {
	drivers["cfb"] = cfbReplay
	drivers["cfbfault"] = cfbFaults
}

func (p *cfbPlan) streams() (names []string, idx []int) {
	for i, e := range p.Entries {
		if e.Kind == "stream" {
			names = append(names, p.Names[i])
			idx = append(idx, i)
		}
	}
	return
}

var nameRunes = []rune("aAbBzZ09 ._-#\x01\x05éÜß☃日\u0301\uFEFF\U0001F600\U0010FFFF")

// randomNames gives the entries names of every length, some of them alike.
func (p *cfbPlan) randomNames() {
	rnd := rand.New(rand.NewSource(p.Junk))
	seen := map[string]bool{}
	for i := range p.Entries {
		n := ""
		for n == "" || seen[n] {
			var u []rune
			if i > 0 && rnd.Intn(3) == 0 {
				u = []rune(p.Names[rnd.Intn(i)])
				switch rnd.Intn(4) {
				case 0:
					u = append(u, nameRunes[rnd.Intn(len(nameRunes))])
				case 1:
					u = u[:len(u)-1]
				case 2:
					u[rnd.Intn(len(u))] = nameRunes[rnd.Intn(len(nameRunes))]
				case 3:
					u = append([]rune{nameRunes[rnd.Intn(len(nameRunes))]}, u...)
				}
			} else {
				l := 1 + rnd.Intn(31)
				for len(u) < l {
					u = append(u, nameRunes[rnd.Intn(len(nameRunes))])
				}
			}
			for len(utf16.Encode(u)) > 31 {
				u = u[:len(u)-1]
			}
			n = string(u)
		}
		seen[n] = true
		p.Names = append(p.Names, n)
		p.Contents = append(p.Contents, cfbContent(i, p.Entries[i].Size))
	}
}

// C06: every layout reads back.
func cfbReplay(x *Ctx) {
	x.Each(8, func(ci int, data []byte) {
		var p cfbPlan
		unj(data, &p)
		p.Faults = nil
		if ci%4 != 0 {
			p.Junk = 1 + x.Seed*7907 + int64(ci)
			p.randomNames()
		}
		b := p.build()
		fn := filepath.Join(x.Dir, fmt.Sprintf("c%d.bin", ci))
		must(os.WriteFile(fn, b, 0o644))
		defer os.Remove(fn)
		short := data
		if len(short) > 20000 {
			short = []byte(`"layout too long to print"`)
		}
		d, err := cfb.Open(fn)
		if err != nil {
			x.Fail(ci, 0, "open of a well-formed file", nil, err.Error(), short)
			return
		}
		names, idx := p.streams()
		got, err := d.List()
		w := append([]string{}, names...)
		sort.Strings(w)
		g := append([]string{}, got...)
		sort.Strings(g)
		if err != nil || fmt.Sprint(w) != fmt.Sprint(g) || len(w) != len(g) {
			x.Fail(ci, 0, "list", w, g, short)
			return
		}
		rnd := rand.New(rand.NewSource(x.Seed + int64(ci)))
		var rds []io.ReadSeeker
		ord := rnd.Perm(len(names))
		for _, k := range ord {
			r, err := d.Open(names[k])
			if err != nil {
				x.Fail(ci, k, "open of stream "+names[k], nil, err.Error(), short)
				return
			}
			rds = append(rds, r)
		}
		for q, k := range ord {
			x.Step(1)
			want := p.Contents[idx[k]]
			// part of it, then another reader of the same stream, then the rest
			r := rds[q]
			n := rnd.Intn(len(want) + 1)
			a, _ := readFull(r, n)
			r2, err := d.Open(names[k])
			if err != nil {
				x.Fail(ci, k, "second open of stream "+names[k], nil, err.Error(), short)
				return
			}
			b2, e2 := io.ReadAll(r2)
			rest, e1 := io.ReadAll(r)
			if e1 != nil || e2 != nil || !bytes.Equal(append(append([]byte{}, a...), rest...), want) || !bytes.Equal(b2, want) {
				x.Fail(ci, k, "bytes of stream "+names[k], fmt.Sprintf("%d bytes", len(want)),
					fmt.Sprintf("%d+%d bytes, again %d (%v %v) first difference %d", len(a), len(rest), len(b2), e1, e2, firstDiff(b2, want)), short)
				return
			}
			if _, err := r.Seek(int64(n), io.SeekStart); err != nil {
				x.Fail(ci, k, "seek in stream "+names[k], nil, err.Error(), short)
				return
			}
			if rest, _ = io.ReadAll(r); !bytes.Equal(rest, want[n:]) {
				x.Fail(ci, k, "bytes after seek in stream "+names[k], len(want)-n, len(rest), short)
				return
			}
		}
		for _, n := range []string{"", "nope", "Root Entry", "Folder "} {
			if _, err := d.Open(n); err == nil && !inList(n, names) {
				x.Fail(ci, 0, "open of absent stream "+n, "error", nil, short)
			}
		}
		if len(names) > 0 {
			x.Nontrivial()
		}
	})
}

func inList(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// oracle: refused, or exactly what was stored
func (p *cfbPlan) contained(fn string) (string, interface{}) {
	d, err := cfb.Open(fn)
	if err != nil {
		return "", nil
	}
	names, idx := p.streams()
	if got, err := d.List(); err == nil {
		have := map[string]bool{}
		for _, n := range names {
			have[n] = true
		}
		for _, n := range got {
			if !have[n] {
				return "lists a stream that was never stored", n
			}
		}
	}
	for k, n := range names {
		r, err := d.Open(n)
		if err != nil {
			continue
		}
		b, err := io.ReadAll(r)
		if err != nil {
			continue
		}
		if !bytes.Equal(b, p.Contents[idx[k]]) {
			return "wrong data for stream " + n, fmt.Sprintf("%d of %d bytes, first difference at %d", len(b), len(p.Contents[idx[k]]), firstDiff(b, p.Contents[idx[k]]))
		}
	}
	return "", nil
}

// C07: faults and cuts are contained.
func cfbFaults(x *Ctx) {
	x.Each(8, func(ci int, data []byte) {
		var p cfbPlan
		unj(data, &p)
		faults := p.Faults
		b := p.build()
		fn := filepath.Join(x.Dir, fmt.Sprintf("f%d.bin", ci))
		defer os.Remove(fn)
		rnd := rand.New(rand.NewSource(x.Seed*7919 + int64(ci)))
		plain := []byte(mustJSON(map[string]interface{}{"s": p.S, "entries": p.Entries, "mlayout": p.MLayout, "layout": p.Layout, "faults": []cfbFault{}}))
		refuse := false
		try := func(bb []byte, tag interface{}) bool {
			x.Step(1)
			must(os.WriteFile(fn, bb, 0o644))
			what, got := func() (w string, g interface{}) {
				defer func() {
					if r := recover(); r != nil {
						w, g = fmt.Sprint("panic: ", r), nil
					}
				}()
				if refuse {
					if _, err := cfb.Open(fn); err == nil {
						return "opened", nil
					}
				}
				return p.contained(fn)
			}()
			if what != "" {
				x.Fail(ci, -1, what+" after "+mustJSON(tag), "an error or the stored bytes", got, plain)
				return false
			}
			return true
		}
		for _, f := range faults {
			x.Add("faults", 1)
			// another format or another layout than the file has
			refuse = f.T == "head" && map[string]bool{"sig": true, "order": true, "version": true, "shift": true, "mshift": true, "cutoff": true}[f.O]
			if !try(p.faulted(b, f), f) {
				return
			}
			refuse = false
		}
		// pairs of faults
		np := 20
		if x.Tier == "thorough" {
			np = 200
		}
		for k := 0; k < np && len(faults) > 1; k++ {
			f, g := faults[rnd.Intn(len(faults))], faults[rnd.Intn(len(faults))]
			if f.T == "hdifat" || g.T == "hdifat" || f.T == "start" && f.O == "dir" || g.T == "start" && g.O == "dir" {
				continue
			}
			x.Add("fault_pairs", 1)
			if !try(p.faulted(p.faulted(b, f), g), []cfbFault{f, g}) {
				return
			}
		}
		// cuts
		cuts := map[int]bool{0: true, 1: true, 8: true, 75: true, 76: true, 511: true, 512: true}
		if len(b) < 16000 && (ci%7 == 0 || x.Tier == "thorough") {
			for n := 0; n < len(b); n++ {
				cuts[n] = true
			}
		} else {
			for n := p.S; n < len(b) && len(cuts) < 1200; n += p.S {
				for _, o := range []int{-1, 0, 1, 3, 4, 64, 127, 128, 200} {
					cuts[n+o] = true
				}
			}
			for k := 0; k < 150; k++ {
				cuts[rnd.Intn(len(b))] = true
			}
		}
		cl := make([]int, 0, len(cuts))
		for n := range cuts {
			if n < len(b) {
				cl = append(cl, n)
			}
		}
		sort.Sort(sort.Reverse(sort.IntSlice(cl)))
		if len(b) > 1<<20 {
			cl = cl[:len(cl)/8]
		}
		must(os.WriteFile(fn, b, 0o644))
		for _, n := range cl {
			x.Step(1)
			x.Add("cuts", 1)
			must(os.Truncate(fn, int64(n)))
			what, got := p.contained(fn)
			if what != "" {
				x.Fail(ci, -1, fmt.Sprintf("%s after cutting to %d of %d bytes", what, n, len(b)), "an error or the stored bytes", got, plain)
				return
			}
		}
		x.Nontrivial()
	})
}
