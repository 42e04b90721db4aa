package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"
)

// C01: every history of registrations and opens runs in a process of its own.

type dispOp struct {
	Op, V string
	Pri   int
}

type probeSource struct {
	grate.Source
	id int
}

func zipBytes(parts [][2]string) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for _, p := range parts {
		f, err := w.Create(p[0])
		must(err)
		_, err = f.Write([]byte(p[1]))
		must(err)
	}
	must(w.Close())
	return buf.Bytes()
}

const relNS = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"

// tinyXlsx is a minimal package with one sheet.
func tinyXlsx() []byte {
	return zipBytes([][2]string{
		{"_rels/.rels", `<Relationships><Relationship Id="rId1" Type="` + relNS + `/officeDocument" Target="xl/workbook.xml"/></Relationships>`},
		{"xl/workbook.xml", `<workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="` + relNS + `"><sheets><sheet name="S" sheetId="1" r:id="rId1"/></sheets></workbook>`},
		{"xl/_rels/workbook.xml.rels", `<Relationships><Relationship Id="rId1" Type="` + relNS + `/worksheet" Target="worksheets/sheet1.xml"/></Relationships>`},
		{"xl/worksheets/sheet1.xml", `<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><dimension ref="A1"/><sheetData><row r="1"><c r="A1"><v>7</v></c></row></sheetData></worksheet>`},
	})
}

func tinyXls() []byte {
	b := xlsBook{Globals: []biffRec{xfRec(0, 0)}, Sheets: []xlsSheet{{Name: "S"}},
		Parts: []xlsPart{{Recs: []biffRec{dimsRec(1, 1), numRec(0, 0, 0, 7)}}}}
	return simpleCfb([]string{"Workbook"}, [][]byte{biffBytes(b.records(nil))})
}

func dispatchContent(kind string, r *rand.Rand) []byte {
	switch kind {
	case "xls":
		return tinyXls()
	case "xlsx":
		return tinyXlsx()
	case "tsv":
		return []byte("a\tb;b\nc\td\n")
	case "csv":
		return []byte("a,b\nc,d\n")
	case "both":
		return []byte("a\tb,c\n")
	case "bad":
		return []byte("a\"b,c\n\"x\n")
	case "empty":
		return nil
	}
	panic(driverError("kind " + kind))
}

func dispatchRun(args []string) {
	var in struct {
		Ops  []dispOp
		Seed int64
		Dir  string
	}
	must(json.NewDecoder(os.Stdin).Decode(&in))
	r := rand.New(rand.NewSource(in.Seed))
	out := json.NewEncoder(os.Stdout)
	emit := func(m map[string]interface{}) { must(out.Encode(m)) }
	emit(map[string]interface{}{"ev": "reset"})
	errs := map[int]error{}
	next := 5
	bundled := map[string]grate.OpenFunc{"xls": xls.Open, "xlsx": xlsx.Open, "tsv": simple.OpenTSV, "csv": simple.OpenCSV}
	declines := []func() error{
		func() error { return grate.ErrNotInFormat },
		func() error { return grate.WrapErr(errors.New("detail"), grate.ErrNotInFormat) },
		func() error { return grate.WrapErr(grate.ErrNotInFormat, errors.New("detail")) },
		func() error { return grate.WrapErr(errors.New("a"), errors.New("b"), grate.ErrNotInFormat) },
		func() error { return fmt.Errorf("probe: %w", grate.ErrNotInFormat) },
		func() error { return fmt.Errorf("x: %w", grate.WrapErr(io.EOF, grate.ErrNotInFormat)) },
		func() error { return grate.WrapErr(errors.New("a"), fmt.Errorf("y: %w", grate.ErrNotInFormat)) },
		func() error { return grate.WrapErr(grate.ErrNotInFormat) },
	}
	for _, o := range in.Ops {
		switch o.Op {
		case "register":
			id := next
			next++
			v := o.V
			// names may repeat, also those of the bundled formats
			name := []string{"probe", "xls", "csv", fmt.Sprint("p", id)}[r.Intn(4)]
			base := fmt.Errorf("probe %d", id)
			errs[id] = base
			open := func(fn string) (grate.Source, error) {
				w := v
				var src grate.Source
				var err error
				switch v {
				case "accept":
					src = &probeSource{nil, id}
				case "decline":
					err = declines[r.Intn(len(declines))]()
					if r.Intn(3) == 0 {
						src = &probeSource{nil, id}
					}
				case "error":
					err = []error{base, fmt.Errorf("w: %w", base), grate.WrapErr(base, io.EOF), grate.WrapErr(io.ErrUnexpectedEOF, base)}[r.Intn(4)]
				default:
					src, err = bundled[v](fn)
					w = "accept"
					if errors.Is(err, grate.ErrNotInFormat) {
						w = "decline"
					} else if err != nil {
						w = "error"
						err = grate.WrapErr(base, err)
					} else {
						src = &probeSource{src, id}
					}
				}
				emit(map[string]interface{}{"ev": "consult", "id": id, "v": w})
				return src, err
			}
			if err := grate.Register(name, o.Pri, open); err != nil {
				emit(map[string]interface{}{"ev": "register failed", "err": err.Error()})
				continue
			}
			emit(map[string]interface{}{"ev": "register", "id": id, "pri": o.Pri})
		case "open":
			fn := filepath.Join(in.Dir, fmt.Sprintf("d%d-%d%s", os.Getpid(), next, []string{"", ".xls", ".xlsx", ".csv", ".tsv", ".txt", ".XLS"}[r.Intn(7)]))
			if o.V != "missing" {
				must(os.WriteFile(fn, dispatchContent(o.V, r), 0o600))
			}
			emit(map[string]interface{}{"ev": "open", "kind": o.V})
			src, err := grate.Open(fn)
			res := map[string]interface{}{"ev": "return", "id": 0}
			switch {
			case err == nil:
				res["r"] = "source"
				res["id"] = identify(src)
			case errors.Is(err, grate.ErrUnknownFormat):
				res["r"] = "unknown"
			default:
				res["r"] = "error"
				for id, e := range errs {
					if errors.Is(err, e) {
						res["id"] = id
					}
				}
				if res["id"] == 0 && !errors.Is(err, os.ErrNotExist) {
					res["id"] = -1
				}
			}
			emit(res)
			os.Remove(fn)
		}
	}
}

func identify(src grate.Source) int {
	if p, ok := src.(*probeSource); ok {
		return p.id
	}
	defer src.Close()
	switch fmt.Sprintf("%T", src) {
	case "*xls.WorkBook":
		return 1
	case "*xlsx.Document":
		return 2
	}
	recs, err := readAll(src)
	if err != nil {
		return -1
	}
	for _, rec := range recs {
		if strings.Contains(strings.Join(rec, ""), "\t") {
			return 4
		}
		if strings.ContainsAny(strings.Join(rec, ""), ",;") {
			return 3
		}
	}
	if len(recs) == 0 {
		return 4
	}
	if recs[0][0] == "a" && recs[0][1] == "b" {
		return 4
	}
	return -1
}

func init() {
	subcommands["dispatch-run"] = dispatchRun
	drivers["dispatch"] = func(x *Ctx) {
		self, err := os.Executable()
		must(err)
		var mu sync.Mutex
		x.Each(8, func(i int, b []byte) {
			var ops []dispOp
			unj(b, &ops)
			cmd := exec.Command(self, "dispatch-run")
			cmd.Stdin = strings.NewReader(mustJSON(map[string]interface{}{"Ops": ops, "Seed": x.Seed*31 + int64(i), "Dir": x.Dir}))
			var out, eb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &eb
			if err := cmd.Run(); err != nil {
				if !strings.Contains(eb.String(), "pbnjay/grate") {
					panic(driverError(err.Error() + eb.String()))
				}
				x.Fail(i, -1, "process died", nil, clip(eb.String()), b)
				return
			}
			mu.Lock()
			x.traceW.Write(out.Bytes())
			mu.Unlock()
			x.Step(len(ops))
			x.Nontrivial()
		})
	}
}
