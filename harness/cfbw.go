package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf16"
)

// An independent compound-file encoder driven by an explicit layout.

type cfbEntry struct {
	Kind string `json:"kind"`
	Size int    `json:"size"`
}
type cfbSeg struct {
	O    string `json:"o"`
	From int    `json:"from"`
	N    int    `json:"n"`
}
type cfbFault struct {
	T string `json:"t"`
	O string `json:"o"`
	K int    `json:"k"`
	V int    `json:"v"`
	J int    `json:"j"`
}
type cfbPlan struct {
	S       int        `json:"s"`
	Entries []cfbEntry `json:"entries"`
	MLayout []cfbSeg   `json:"mlayout"`
	Layout  []cfbSeg   `json:"layout"`
	Faults  []cfbFault `json:"faults"`
	// not from the plan: names and contents (defaulted when nil)
	Names    []string `json:"-"`
	Contents [][]byte `json:"-"`
	Junk     int64    `json:"-"` // not 0: fields without meaning hold junk
	Links    [][3]int `json:"-"` // of the root and of each entry: left, right, child (0: none)

	pos, mpos map[string][]uint32
	data      []byte
	total     int
}

const (
	cEOC     = 0xFFFFFFFE
	cFREE    = 0xFFFFFFFF
	cFATSECT = 0xFFFFFFFD
	cDIFSECT = 0xFFFFFFFC
)

var cfbNames = []string{"Workbook", "\x05SummaryInformation", "S", "Ünïcödé ☃", "0123456789012345678901234567890",
	"workbook2", "Book", "a b", "\x01CompObj", "emoji \U0001F600 x"}

func cfbName(i int) string {
	if i < len(cfbNames) {
		return cfbNames[i]
	}
	return fmt.Sprintf("Stream %d", i)
}

func cfbContent(i, n int) []byte {
	b := make([]byte, n)
	for k := range b {
		x := uint32(k)*2654435761 + uint32(i+1)*2246822519
		x ^= x >> 15
		b[k] = byte(x>>8) ^ byte(k>>9)
	}
	return b
}

func place(segs []cfbSeg) (map[string][]uint32, int) {
	pos := map[string][]uint32{}
	p := 0
	for _, s := range segs {
		l := pos[s.O]
		for len(l) < s.From+s.N {
			l = append(l, 0)
		}
		for k := 0; k < s.N; k++ {
			l[s.From+k] = uint32(p)
			p++
		}
		pos[s.O] = l
	}
	return pos, p
}

func (p *cfbPlan) build() []byte {
	S := p.S
	E := S / 4
	le := binary.LittleEndian
	p.pos, p.total = place(p.Layout)
	var mtotal int
	p.mpos, mtotal = place(p.MLayout)
	if p.Names == nil {
		for i := range p.Entries {
			p.Names = append(p.Names, cfbName(i))
			p.Contents = append(p.Contents, cfbContent(i, p.Entries[i].Size))
		}
	}
	jr := rand.New(rand.NewSource(p.Junk))
	junk := func(b []byte) {
		if p.Junk != 0 {
			jr.Read(b)
		}
	}
	out := make([]byte, (1+p.total)*S)
	for i := S; i < len(out); i++ {
		out[i] = 0xE7 // free sectors and padding hold old junk
	}
	p.data = out
	sec := func(n uint32) []byte { return out[(1+int(n))*S : (2+int(n))*S] }
	first := func(l []uint32) uint32 {
		if len(l) == 0 {
			return cEOC
		}
		return l[0]
	}

	// header
	le.PutUint64(out[0:], 0xe11ab1a1e011cfd0)
	le.PutUint16(out[24:], 0x3E)
	if S == 512 {
		le.PutUint16(out[26:], 3)
		le.PutUint16(out[30:], 9)
	} else {
		le.PutUint16(out[26:], 4)
		le.PutUint16(out[30:], 12)
		le.PutUint32(out[40:], uint32(len(p.pos["dir"])))
	}
	le.PutUint16(out[28:], 0xFFFE)
	le.PutUint16(out[32:], 6)
	le.PutUint32(out[44:], uint32(len(p.pos["fat"])))
	le.PutUint32(out[48:], first(p.pos["dir"]))
	junk(out[52:56]) // transaction signature
	if p.Junk%3 == 1 {
		le.PutUint16(out[24:], 0x3B)
	}
	le.PutUint32(out[56:], 4096)
	le.PutUint32(out[60:], first(p.pos["mfat"]))
	le.PutUint32(out[64:], uint32(len(p.pos["mfat"])))
	le.PutUint32(out[68:], first(p.pos["difat"]))
	le.PutUint32(out[72:], uint32(len(p.pos["difat"])))
	for i := 0; i < 109; i++ {
		v := uint32(cFREE)
		if i < len(p.pos["fat"]) {
			v = p.pos["fat"][i]
		}
		le.PutUint32(out[76+4*i:], v)
	}

	// tables
	fat := make([]uint32, len(p.pos["fat"])*E)
	for i := range fat {
		fat[i] = cFREE
	}
	link := func(t []uint32, l []uint32) {
		for i, s := range l {
			if i+1 < len(l) {
				t[s] = l[i+1]
			} else {
				t[s] = cEOC
			}
		}
	}
	for o, l := range p.pos {
		switch o {
		case "fat":
			for _, s := range l {
				fat[s] = cFATSECT
			}
		case "difat":
			for _, s := range l {
				fat[s] = cDIFSECT
			}
		case "hole":
		default:
			link(fat, l)
		}
	}
	for i, s := range p.pos["fat"] {
		b := sec(s)
		for k := 0; k < E; k++ {
			le.PutUint32(b[4*k:], fat[i*E+k])
		}
	}
	for i, s := range p.pos["difat"] {
		b := sec(s)
		for k := 0; k < E-1; k++ {
			v := uint32(cFREE)
			if j := 109 + i*(E-1) + k; j < len(p.pos["fat"]) {
				v = p.pos["fat"][j]
			}
			le.PutUint32(b[4*k:], v)
		}
		v := uint32(cEOC)
		if i+1 < len(p.pos["difat"]) {
			v = p.pos["difat"][i+1]
		}
		le.PutUint32(b[4*(E-1):], v)
	}
	mfat := make([]uint32, len(p.pos["mfat"])*E)
	for i := range mfat {
		mfat[i] = cFREE
	}
	for o, l := range p.mpos {
		if o != "hole" {
			link(mfat, l)
		}
	}
	for i, s := range p.pos["mfat"] {
		b := sec(s)
		for k := 0; k < E; k++ {
			le.PutUint32(b[4*k:], mfat[i*E+k])
		}
	}

	// directory
	nd := len(p.pos["dir"]) * (S / 128)
	for j := 0; j < nd; j++ {
		d := sec(p.pos["dir"][j/(S/128)])[(j%(S/128))*128:][:128]
		for k := range d {
			d[k] = 0
		}
		le.PutUint32(d[68:], cFREE)
		le.PutUint32(d[72:], cFREE)
		le.PutUint32(d[76:], cFREE)
		setName := func(n string) {
			u := utf16.Encode([]rune(n))
			for k, c := range u {
				le.PutUint16(d[2*k:], c)
			}
			le.PutUint16(d[64:], uint16(2*len(u)+2))
		}
		if j == 0 {
			setName("Root Entry")
			d[66] = 5
			d[67] = 1
			junk(d[80:116]) // class, state, times
			for n := range p.Entries {
				if p.Entries[n].Kind != "unused" {
					le.PutUint32(d[76:], uint32(n+1))
					break
				}
			}
			le.PutUint32(d[116:], first(p.pos["mini"]))
			le.PutUint64(d[120:], uint64(mtotal*64))
			if S == 512 {
				junk(d[124:128])
			}
			continue
		}
		if j-1 >= len(p.Entries) {
			continue
		}
		e := p.Entries[j-1]
		switch e.Kind {
		case "unused":
			if p.Junk%2 == 1 {
				// what is left of a deleted stream
				setName(p.Names[(j*7)%len(p.Names)])
				junk(d[67:128])
			}
			continue
		case "storage":
			if p.Links != nil {
				setName(p.Names[j-1])
			} else if p.Junk%2 == 1 {
				setName(p.Names[(j*5)%len(p.Names)]) // a folder may have the name of a stream elsewhere
			} else {
				setName("Folder " + strings.Repeat("x", j%5))
			}
			d[66] = 1
			junk(d[80:116])
		case "stream":
			setName(p.Names[j-1])
			d[66] = 2
			o := fmt.Sprint("s", j)
			start := uint32(cEOC)
			if e.Size >= 4096 {
				start = first(p.pos[o])
			} else if e.Size > 0 {
				start = first(p.mpos[o])
			}
			le.PutUint32(d[116:], start)
			le.PutUint64(d[120:], uint64(e.Size))
			junk(d[96:100])
			junk(d[100:116])
			if S == 512 {
				junk(d[124:128])
			}
		}
		d[67] = byte(1 - p.Junk&1&jr.Int63())
		for n := j + 1; n <= len(p.Entries); n++ {
			if p.Entries[n-1].Kind != "unused" {
				le.PutUint32(d[72:], uint32(n))
				break
			}
		}
	}

	if p.Links != nil {
		for j, l := range p.Links {
			if j > 0 && p.Entries[j-1].Kind == "unused" {
				continue
			}
			d := sec(p.pos["dir"][j/(S/128)])[(j%(S/128))*128:][:128]
			for k, v := range l {
				if v == 0 {
					v = cFREE
				}
				le.PutUint32(d[68+4*k:], uint32(v))
			}
		}
	} else if p.Junk != 0 {
		// the rest of a tree: left and right links in any shape
		for j := 1; j <= len(p.Entries); j++ {
			if p.Entries[j-1].Kind != "unused" && jr.Intn(3) == 0 {
				d := sec(p.pos["dir"][j/(S/128)])[(j%(S/128))*128:][:128]
				copy(d[68:72], d[72:76])
				le.PutUint32(d[72:], cFREE)
			}
		}
	}

	// data
	for i, e := range p.Entries {
		if e.Kind != "stream" || e.Size == 0 {
			continue
		}
		o := fmt.Sprint("s", i+1)
		c := p.Contents[i]
		if e.Size >= 4096 {
			for k, s := range p.pos[o] {
				copy(sec(s), c[k*S:])
			}
		} else {
			for k, m := range p.mpos[o] {
				at := int(m) * 64
				hi := k*64 + 64
				if hi > len(c) {
					hi = len(c)
				}
				copy(sec(p.pos["mini"][at/S])[at%S:at%S+64], c[k*64:hi])
			}
		}
	}
	if p.Junk%5 == 1 {
		// bytes after the last whole sector
		out = append(out, bytes.Repeat([]byte{0x5A}, jr.Intn(S))...)
	}
	return out
}

// faulted returns a copy of the file with one fault applied.
func (p *cfbPlan) faulted(b []byte, f cfbFault) []byte {
	le := binary.LittleEndian
	S := p.S
	E := S / 4
	out := append([]byte{}, b...)
	pos := p.pos
	if f.T == "mfat" || f.T == "start" && len(p.pos[f.O]) == 0 {
		pos = p.mpos
	}
	var v uint32
	switch f.V {
	case -1:
		v = cEOC
	case -2:
		v = cFREE
	case -3:
		v = cFATSECT
	case -4:
		v = cDIFSECT
	case -5:
		v = uint32(p.total + 3 + f.K%5*100000)
		if f.K%3 == 2 {
			v = 0xFFFFFFF0
		}
		if f.T == "mfat" || f.T == "start" && len(p.pos[f.O]) == 0 {
			v = uint32(len(p.pos["mini"])*S/64 + f.K%2*(1<<26))
		}
	case 0:
		if f.T != "size" && f.T != "rsize" && f.T != "head" {
			v = pos[f.O][f.J]
		}
	}
	word := func(table string, n uint32) []byte {
		s := p.pos[table][int(n)/E]
		return out[(1+int(s))*S+4*(int(n)%E):]
	}
	switch f.T {
	case "fat":
		le.PutUint32(word("fat", p.pos[f.O][f.K]), v)
	case "mfat":
		le.PutUint32(word("mfat", p.mpos[f.O][f.K]), v)
	case "hdifat":
		le.PutUint32(out[76+4*f.K:], v)
	case "edifat":
		le.PutUint32(out[(1+int(p.pos["difat"][f.K/(S/4-1)]))*S+4*(f.K%(S/4-1)):], v)
	case "difat":
		le.PutUint32(out[(2+int(p.pos["difat"][f.K]))*S-4:], v)
	case "start":
		switch f.O {
		case "dir":
			le.PutUint32(out[48:], v)
		case "mfat":
			le.PutUint32(out[60:], v)
		default:
			j := 0
			if f.O != "mini" {
				fmt.Sscanf(f.O, "s%d", &j)
			}
			s := p.pos["dir"][j/(S/128)]
			le.PutUint32(out[(1+int(s))*S+(j%(S/128))*128+116:], v)
		}
	case "size":
		j := 0
		fmt.Sscanf(f.O, "s%d", &j)
		unit, n := S, len(p.pos[f.O])
		if n == 0 {
			unit, n = 64, len(p.mpos[f.O])
		}
		s := p.pos["dir"][j/(S/128)]
		le.PutUint64(out[(1+int(s))*S+(j%(S/128))*128+120:], uint64(n*unit+f.K))
	case "rsize":
		o := out[(1+int(p.pos["dir"][0]))*S+120:]
		le.PutUint64(o, uint64((int(le.Uint64(o)+63)/64-f.K)*64))
	case "head":
		at := map[string][2]int{"sig": {0, 8}, "clsid": {8, 8}, "minor": {24, 2}, "version": {26, 2}, "order": {28, 2},
			"shift": {30, 2}, "mshift": {32, 2}, "reserved": {34, 2}, "ndir": {40, 4}, "nfat": {44, 4}, "tsig": {52, 4}, "cutoff": {56, 4},
			"nmfat": {64, 4}, "ndifat": {72, 4}}[f.O]
		o := out[at[0] : at[0]+at[1]]
		switch f.K {
		case 0: // zero, or one where it is zero
			z := bytes.Count(o, []byte{0}) == len(o)
			for i := range o {
				o[i] = 0
			}
			if z {
				o[0] = 1
			}
		case 1:
			o[0]++
		case 2:
			o[0]--
		case 3:
			o[len(o)-1] ^= 0x80
		}
	default:
		panic(driverError("fault " + f.T))
	}
	return out
}

// simpleCfb stores the given streams one after the other.
func simpleCfb(names []string, contents [][]byte) []byte {
	p := &cfbPlan{S: 512, Names: names, Contents: contents}
	return p.simple()
}

func (p *cfbPlan) simple() []byte {
	names, contents := p.Names, p.Contents
	minis, nbig := 0, 0
	for i, c := range contents {
		if i >= len(p.Entries) {
			p.Entries = append(p.Entries, cfbEntry{"stream", len(c)})
		}
		o := fmt.Sprint("s", i+1)
		if len(c) >= 4096 {
			n := (len(c) + 511) / 512
			p.Layout = append(p.Layout, cfbSeg{o, 0, n})
			nbig += n
		} else if len(c) > 0 {
			n := (len(c) + 63) / 64
			p.MLayout = append(p.MLayout, cfbSeg{o, 0, n})
			minis += n
		}
	}
	nd := (len(names) + 1 + 3) / 4
	nm := (minis + 7) / 8
	nf := (minis + 127) / 128
	base := nd + nm + nf + nbig
	f, d := 1, 0
	for {
		d = 0
		if f > 109 {
			d = (f - 109 + 126) / 127
		}
		if f*128 >= base+f+d {
			break
		}
		f++
	}
	for _, s := range []cfbSeg{{"dir", 0, nd}, {"mini", 0, nm}, {"mfat", 0, nf}, {"difat", 0, d}, {"fat", 0, f}} {
		if s.N > 0 {
			p.Layout = append(p.Layout, s)
		}
	}
	return p.build()
}
