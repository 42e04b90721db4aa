package main

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"unicode/utf16"

	"github.com/pbnjay/grate/xls/crypto"
)

// An independent implementation of [MS-OFFCRYPTO] 2.3.6 (RC4, 40 bit).

type rc4Key []byte

func newRc4Key(password string, salt []byte) rc4Key {
	h := md5.Sum(le(utf16.Encode([]rune(password))))
	m := md5.Sum(bytes.Repeat(append(append([]byte{}, h[:5]...), salt...), 16))
	return m[:5]
}

// stream gives the key stream for n bytes from the start of the first block.
func (k rc4Key) stream(n int) []byte {
	out := make([]byte, n)
	for b := 0; b*1024 < n; b++ {
		h := md5.Sum(append(append([]byte{}, k...), le(uint32(b))...))
		c, err := rc4.NewCipher(h[:])
		must(err)
		e := (b + 1) * 1024
		if e > n {
			e = n
		}
		c.XORKeyStream(out[b*1024:e], out[b*1024:e])
	}
	return out
}

const defaultPassword = "VelvetSweatshop"

// passData gives the contents of a FilePass record (without its type) and the key.
func passData(password string, rnd *rand.Rand) ([]byte, rc4Key) {
	salt, ver := make([]byte, 16), make([]byte, 16)
	rnd.Read(salt)
	rnd.Read(ver)
	k := newRc4Key(password, salt)
	h := md5.Sum(ver)
	ks := k.stream(32)
	for i := range ver {
		ver[i] ^= ks[i]
		h[i] ^= ks[16+i]
	}
	return le(uint16(1), uint16(1), salt, ver, h[:]), k
}

type cipherRec struct {
	K string
	N int
}

func init() {
	drivers["cipher"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Cases   string
				Recs    []cipherRec
				Clear   [][2]int
				Size    int
				Writes  []int
				Fault   string
				Opens   bool
				Cut     int
				Refused bool
			}
			unj(b, &c)
			rnd := rand.New(rand.NewSource(x.Seed*12289 + int64(i)))
			switch c.Cases {
			case "writes":
				cipherWrites(x, i, c.Writes, rnd, b)
			case "cut":
				cipherCut(x, i, c.Recs, c.Clear, c.Size, c.Cut, c.Refused, rnd, b)
			case "faults":
				c.Recs = []cipherRec{{"bof", 16}, {"pass", 54}, {"enc", 50}, {"bs", 12}, {"eof", 0}, {"bof", 16}, {"cell", 14}, {"eof", 0}}
				p := 0
				for _, r := range c.Recs {
					n := 4
					switch r.K {
					case "bof", "pass":
						n += r.N
					case "bs":
						n += 4
					}
					c.Clear = append(c.Clear, [2]int{p, n})
					p += 4 + r.N
				}
				c.Size = p
				fallthrough
			default:
				cipherStream(x, i, c.Recs, c.Clear, c.Size, c.Fault, c.Opens, rnd, b)
			}
			x.Nontrivial()
		})
	}
}

type cipherBook struct {
	plain, obf []byte
	names      []string
	vals       []float64
	labels     map[int]bool
	text       string
}

func cipherBuild(x *Ctx, recs []cipherRec, clear [][2]int, size int, fault string, rnd *rand.Rand) cipherBook {
	random := func(n int) []byte { d := make([]byte, n); rnd.Read(d); return d }
	pw := defaultPassword
	if fault == "password" {
		pw = "VelvetSweatshoP"
	}
	pass, key := passData(pw, rnd)
	var out []biffRec
	var bs []int
	names := []string{}
	vals := []float64{}
	labels := map[int]bool{}
	text := ""
	sheetAt, at := 0, 0
	for k, r := range recs {
		var w biffRec
		switch r.K {
		case "bof":
			w = bofRec(5)
			if k > 0 {
				w = bofRec(0x10)
				sheetAt = at
			}
		case "pass":
			w = biffRec{rFilePass, append(le(uint16(1)), pass...)}
		case "clear":
			w = biffRec{[]int{404, 405, 225, 406, 312}[rnd.Intn(5)], random(r.N)}
		case "enc":
			w = biffRec{[]int{0x892, 0x31, 0x293, 0x7FFF, 0x99, 0x201 + 0x800}[rnd.Intn(6)], random(r.N)}
		case "eof":
			w = eofRec
		case "sst":
			var sb strings.Builder
			for sb.Len() < r.N-11 {
				sb.WriteByte("abcdefghij KLMNOP"[rnd.Intn(17)])
			}
			text = sb.String()
			w = biffRec{rSST, le(uint32(1), uint32(1), uint16(len(text)), uint8(0), []byte(text))}
		case "bs":
			n := r.N - 8
			name := string(rune('A'+len(names))) + strings.Repeat("x", n-1)
			names = append(names, name)
			bs = append(bs, k)
			w = biffRec{rBoundSheet, le(uint32(0), uint8(0), uint8(0), uint8(n), uint8(0), []byte(name))}
		case "cell":
			v := float64(rnd.Intn(100000)) / 8
			w = numRec(len(vals), 0, 0, v)
			vals = append(vals, v)
		case "label":
			labels[len(vals)] = true
			w = biffRec{rLabelSst, le(uint16(len(vals)), uint16(1), uint16(0), uint32(0))}
		}
		if len(w.D) != r.N {
			panic(driverError(fmt.Sprintf("%s has %d bytes, not %d", r.K, len(w.D), r.N)))
		}
		at += 4 + r.N
		out = append(out, w)
	}
	for _, k := range bs {
		copy(out[k].D, le(uint32(sheetAt)))
	}
	plain := biffBytes(out)
	if len(plain) != size {
		panic(driverError("stream size"))
	}
	cover := make([]bool, size)
	for _, r := range clear {
		for p := r[0]; p < r[0]+r[1]; p++ {
			cover[p] = true
		}
	}
	obf := append([]byte{}, plain...)
	for p, k := range key.stream(size) {
		if !cover[p] {
			obf[p] ^= k
		}
	}
	fp := 20 + 4 // contents of the FilePass record
	switch fault {
	case "hash":
		obf[fp+38+rnd.Intn(16)] ^= byte(1 << rnd.Intn(8))
	case "verifier":
		obf[fp+22+rnd.Intn(16)] ^= byte(1 << rnd.Intn(8))
	case "salt":
		obf[fp+6+rnd.Intn(16)] ^= byte(1 << rnd.Intn(8))
	case "minor":
		obf[fp+4] = byte(2 + rnd.Intn(3))
	case "xor":
		obf[fp] = 0
	case "api2", "api3", "api4":
		obf[fp] = fault[3] - '0'
	case "type5":
		obf[fp] = 5
	case "short", "long", "empty":
		n := map[string]int{"short": 2 + rnd.Intn(52), "long": 55 + rnd.Intn(9), "empty": rnd.Intn(2)}[fault]
		d := append(append([]byte{}, obf[fp:fp+54]...), random(10)...)
		obf = append(append(append(append([]byte{}, obf[:20]...), le(uint16(rFilePass), uint16(n))...), d[:n]...), obf[20+58:]...)
	}
	if strings.HasPrefix(fault, "sheet") {
		// a sheet entry without room for its position
		at := 20 + 58 + 4 + 50
		n := int(fault[5] - '0')
		for _, s := range []*[]byte{&obf, &plain} {
			copy((*s)[at+2:], le(uint16(n)))
			*s = append((*s)[:at+4+n:at+4+n], (*s)[at+16:]...)
		}
	}
	return cipherBook{plain, obf, names, vals, labels, text}
}

func cipherStream(x *Ctx, i int, recs []cipherRec, clear [][2]int, size int, fault string, opens bool, rnd *rand.Rand, b []byte) {
	s := cipherBuild(x, recs, clear, size, fault, rnd)
	plain, obf, names, vals, labels, text := s.plain, s.obf, s.names, s.vals, s.labels, s.text
	x.Step(len(recs))
	read := func(what string, stream []byte) {
		src, err := x.openXls(stream)
		if err != nil {
			if opens {
				x.Fail(i, -1, what+" does not open", nil, err.Error(), b)
			}
			return
		}
		defer src.Close()
		if !opens {
			x.Fail(i, -1, "opened with fault "+fault, "an error", nil, b)
			return
		}
		got, err := src.List()
		want := names
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			x.Fail(i, -1, what+" lists", want, got, b)
			return
		}
		for _, n := range names {
			col, err := src.Get(n)
			if err != nil {
				x.Fail(i, -1, what+" get "+n, nil, err.Error(), b)
				return
			}
			cells := cellsOf(col)
			for r, v := range vals {
				if g := cells[[2]int{r, 0}]; g.Text != fmt.Sprint(v) && !sameNum(g.Text, v) {
					x.Fail(i, -1, fmt.Sprintf("%s row %d", what, r), v, g, b)
				}
				delete(cells, [2]int{r, 0})
			}
			for r := range labels {
				if text != "" && cells[[2]int{r, 1}].Text != text {
					x.Fail(i, -1, fmt.Sprintf("%s text in row %d", what, r), clip(text), clip(cells[[2]int{r, 1}].Text), b)
				}
				delete(cells, [2]int{r, 1})
			}
			if len(cells) > 0 {
				x.Fail(i, -1, what+" has further cells", nil, fmt.Sprint(cells), b)
			}
		}
	}
	read("obfuscated", obf)
	if opens {
		copy(plain[20:], le(uint16(0x892))) // not a FilePass
		read("plain", plain)
	}
}

func sameNum(s string, v float64) bool {
	var g float64
	_, err := fmt.Sscan(s, &g)
	return err == nil && g == v
}

// cipherWrites feeds the decryptor directly.
func cipherWrites(x *Ctx, i int, writes []int, rnd *rand.Rand, b []byte) {
	pass, key := passData(defaultPassword, rnd)
	total := 0
	for _, n := range writes {
		total += n
	}
	data := make([]byte, total)
	rnd.Read(data)
	want := append([]byte{}, data...)
	for p, k := range key.stream(total) {
		want[p] ^= k
	}
	dec, err := crypto.NewBasicRC4(pass)
	if err != nil {
		x.Fail(i, -1, "decryptor", nil, err.Error(), b)
		return
	}
	var got []byte
	p := 0
	reading := rnd.Intn(3) == 0
	for _, n := range writes {
		m, err := dec.Write(data[p : p+n])
		x.Step(1)
		if m != n || err != nil {
			x.Fail(i, -1, "write", n, fmt.Sprint(m, err), b)
			return
		}
		p += n
		if reading && rnd.Intn(2) == 0 {
			q := make([]byte, rnd.Intn(1500))
			m, err := dec.Read(q)
			if err != nil && err != io.EOF {
				x.Fail(i, -1, "read", nil, err.Error(), b)
				return
			}
			got = append(got, q[:m]...)
		}
	}
	dec.Flush()
	got = append(got, dec.Bytes()...)
	if !bytes.Equal(got, want) {
		d := 0
		for d < len(got) && d < len(want) && got[d] == want[d] {
			d++
		}
		x.Fail(i, -1, "decrypted bytes differ", fmt.Sprint(len(want), " bytes"), fmt.Sprint(len(got), " bytes, first difference at ", d), b)
	}
}

// cipherCut reads a stream whose end is missing, obfuscated and plain.
func cipherCut(x *Ctx, i int, recs []cipherRec, clear [][2]int, size, cut int, refused bool, rnd *rand.Rand, b []byte) {
	s := cipherBuild(x, recs, clear, size, "none", rnd)
	x.Step(1)
	show := func(stream []byte) string {
		src, err := x.openXls(stream)
		if err != nil {
			return "refused"
		}
		defer src.Close()
		names, err := src.List()
		out := fmt.Sprint(names, err)
		for _, n := range names {
			col, err := src.Get(n)
			if err != nil {
				out += fmt.Sprint("\n", n, ": refused")
				continue
			}
			out += fmt.Sprint("\n", n, ": ", cellsOf(col))
		}
		return out
	}
	copy(s.plain[20:], le(uint16(0x892))) // not a FilePass
	want, got := show(s.plain[:cut:cut]), show(s.obf[:cut:cut])
	if want != got {
		x.Fail(i, -1, fmt.Sprint("cut at ", cut, ": obfuscated reads differently"), clip(want), clip(got), b)
	}
	if refused && got != "refused" {
		x.Fail(i, -1, fmt.Sprint("cut at ", cut, " inside a record"), "refused", clip(got), b)
	}
}
