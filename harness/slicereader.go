package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/pbnjay/grate/xls/cfb"
)

func init() {
	drivers["slicereader"] = slicereader
	drivers["slicereader_trace"] = slicereaderTrace
}

// flat position k of a stream holds a byte that identifies k (two
// interleaved patterns so that shifts by any small distance show).
func posByte(k int) byte {
	x := uint32(k)*2654435761 + uint32(k>>8)*40503
	return byte(x>>24) ^ byte(k)
}

func mkReader(pieces []int) (*cfb.SliceReader, []byte) {
	sr := &cfb.SliceReader{}
	flat := []byte{}
	k := 0
	for _, n := range pieces {
		b := make([]byte, n)
		for i := range b {
			b[i] = posByte(k)
			k++
		}
		sr.Data = append(sr.Data, b)
		flat = append(flat, b...)
	}
	return sr, flat
}

type srOp struct {
	Op  string `json:"op"`  // "seek" | "read"
	Off int64  `json:"off"` // seek offset / read length
	Wh  int    `json:"wh"`
	Ok  bool   `json:"ok"`  // prediction: accepted?
	Pos int64  `json:"pos"` // prediction: position afterwards
	Got int    `json:"got"` // prediction: bytes a full read delivers
}

type srCase struct {
	Pieces []int  `json:"pieces"`
	Ops    []srOp `json:"ops"`
}

// readFull reads until n bytes arrived or the reader stops, checking the
// io.Reader contract of every single Read on the way.
func readFull(r io.Reader, n int) ([]byte, string) {
	full := make([]byte, n)
	out := full[:0]
	idle := 0
	for len(out) < n {
		buf := full[len(out):]
		k, err := r.Read(buf)
		if k < 0 || k > len(buf) {
			return out, fmt.Sprintf("Read returned count %d for a buffer of %d", k, len(buf))
		}
		out = full[:len(out)+k]
		if err == io.EOF {
			return out, "EOF"
		}
		if err != nil {
			return out, "error: " + err.Error()
		}
		if k == 0 {
			idle++
			if idle > 100 {
				return out, "no progress"
			}
		}
	}
	return out, ""
}

func slicereader(x *Ctx) {
	x.Each(8, func(i int, data []byte) {
		var c srCase
		unj(data, &c)
		sr, flat := mkReader(c.Pieces)
		srReplay(x, i, data, sr, flat, c.Ops)
	})
}

func srReplay(x *Ctx, i int, data []byte, sr io.ReadSeeker, flat []byte, ops []srOp) bool {
	var pos int64
	for s, op := range ops {
		x.Step(1)
		if op.Op == "seek" {
			p, err := sr.Seek(op.Off, op.Wh)
			if (err == nil) != op.Ok {
				x.Fail(i, s, "seek accepted/refused", op.Ok, fmt.Sprint(err), data)
				return false
			}
			if err == nil && p != op.Pos {
				x.Fail(i, s, "seek result", op.Pos, p, data)
				return false
			}
			pos = op.Pos
		} else {
			b, st := readFull(sr, int(op.Off))
			if len(b) != op.Got || !bytes.Equal(b, flat[pos:int(pos)+op.Got]) {
				x.Fail(i, s, "read bytes", fmt.Sprintf("%d bytes from %d", op.Got, pos), fmt.Sprintf("%d bytes %x (%s)", len(b), trunc(b), st), data)
				return false
			}
			if op.Got < int(op.Off) && st != "EOF" {
				x.Fail(i, s, "end of stream not reported", "EOF", st, data)
				return false
			}
			pos = op.Pos
		}
		// the position is observable
		if p, err := sr.Seek(0, io.SeekCurrent); err != nil || p != pos {
			x.Fail(i, s, "position after "+op.Op, pos, fmt.Sprint(p, err), data)
			return false
		}
	}
	if len(ops) > 0 {
		x.Nontrivial()
	}
	return true
}

func trunc(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// slicereaderTrace records raw Read/Seek calls of random runs at real sector
// sizes; the specification decides whether each is allowed.
func slicereaderTrace(x *Ctx) {
	r := x.Rand
	for t := 0; t < x.N; t++ {
		np := 1 + r.Intn(12)
		pieces := make([]int, np)
		total := 0
		for i := range pieces {
			switch r.Intn(5) {
			case 0:
				pieces[i] = 0
			case 1:
				pieces[i] = 1 + r.Intn(4)
			case 2:
				pieces[i] = 64
			default:
				pieces[i] = 512
			}
			total += pieces[i]
		}
		sr, flat := mkReader(pieces)
		x.Trace(map[string]interface{}{"ev": "new", "pieces": pieces, "total": total})
		for s := 0; s < 40; s++ {
			if func() (stop bool) {
				defer func() {
					if e := recover(); e != nil {
						x.Trace(map[string]interface{}{"ev": "panic", "msg": fmt.Sprint(e)})
						stop = true
					}
				}()
				if r.Intn(2) == 0 {
					n := []int{0, 1, 2, 63, 64, 65, 511, 512, 513, 2000}[r.Intn(10)]
					buf := make([]byte, n)
					k, err := sr.Read(buf)
					at := findRun(flat, buf[:max(0, k)])
					x.Trace(map[string]interface{}{"ev": "read", "n": n, "k": k, "eof": err == io.EOF, "err": err != nil && err != io.EOF, "at": at})
				} else {
					wh := r.Intn(3)
					var off int64
					// aim at piece boundaries and just around them
					tgt := int64(0)
					for _, p := range pieces[:r.Intn(np+1)] {
						tgt += int64(p)
					}
					tgt += int64(r.Intn(3) - 1)
					if r.Intn(3) == 0 {
						tgt = int64(r.Intn(total+20) - 10)
					}
					switch wh {
					case 0:
						off = tgt
					case 1:
						cur, _ := sr.Seek(0, io.SeekCurrent)
						off = tgt - cur
					case 2:
						off = tgt - int64(total)
					}
					p, err := sr.Seek(off, wh)
					if err != nil {
						p = -1
					}
					x.Trace(map[string]interface{}{"ev": "seek", "off": off, "wh": wh, "ok": err == nil, "p": p})
				}
				return false
			}() {
				break
			}
		}
		x.cases++
		x.nontriv++
	}
}

// findRun reports every flat offset (there is normally one) where the bytes
// could have come from; for an empty run it reports none.
func findRun(flat, run []byte) []int {
	at := []int{}
	if len(run) == 0 {
		return at
	}
	for k := 0; k+len(run) <= len(flat); k++ {
		if bytes.Equal(flat[k:k+len(run)], run) {
			at = append(at, k)
		}
	}
	return at
}
