package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"unicode/utf16"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"
)

// C27: which format a file is opened with.

func storedZip(parts [][2]string) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for _, p := range parts {
		f, err := w.CreateHeader(&zip.FileHeader{Name: p[0], Method: zip.Store})
		must(err)
		_, err = f.Write([]byte(p[1]))
		must(err)
	}
	must(w.Close())
	return buf.Bytes()
}

func detectBytes(kind string) []byte {
	r := rand.New(rand.NewSource(5))
	var lines strings.Builder
	for n := 0; n < 120; n++ {
		fmt.Fprintf(&lines, "%d\t%d,%d\r\n", r.Intn(1000), r.Intn(1000), n)
	}
	noise := make([]byte, 3000)
	r.Read(noise)
	sheet := `<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><sheetData><row r="1"><c r="A1"><v>7</v></c></row></sheetData></worksheet>`
	parts := [][2]string{
		{"_rels/.rels", `<Relationships><Relationship Id="rId1" Type="` + relNS + `/officeDocument" Target="xl/workbook.xml"/></Relationships>`},
		{"xl/workbook.xml", `<workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="` + relNS + `"><sheets><sheet name="S" sheetId="1" r:id="rId1"/></sheets></workbook>`},
		{"xl/_rels/workbook.xml.rels", `<Relationships><Relationship Id="rId1" Type="` + relNS + `/worksheet" Target="worksheets/sheet1.xml"/></Relationships>`},
		{"xl/worksheets/sheet1.xml", sheet},
		{"docProps/notes.txt", lines.String()},
	}
	switch kind {
	case "xls":
		b := xlsBook{Globals: []biffRec{xfRec(0, 0)}, Sheets: []xlsSheet{{Name: "S"}},
			Parts: []xlsPart{{Recs: []biffRec{dimsRec(1, 1), numRec(0, 0, 0, 7)}}}}
		return simpleCfb([]string{"Workbook", "Notes"}, [][]byte{biffBytes(b.records(nil)), []byte(lines.String())})
	case "doc":
		return simpleCfb([]string{"WordDocument", "Notes"}, [][]byte{noise, []byte(lines.String())})
	case "xlsx":
		return zipBytes(append(parts, [2]string{"docProps/thumb.bin", string(noise)}))
	case "stored":
		return storedZip(parts)
	case "odt":
		return storedZip([][2]string{{"mimetype", "application/vnd.oasis.opendocument.text"}, {"content.xml", "<a/>"}, {"notes.csv", lines.String()}})
	case "zip":
		return zipBytes([][2]string{{"a.txt", lines.String()}, {"b.bin", string(noise)}, {"workbook.xml", sheet}})
	case "docx":
		return storedZip([][2]string{
			{"_rels/.rels", parts[0][1][:strings.Index(parts[0][1], "xl/")] + `word/document.xml"/></Relationships>`},
			{"word/document.xml", `<w:document xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"><w:body><w:p><w:r><w:t>7</w:t></w:r></w:p></w:body></w:document>`},
			{"word/_rels/document.xml.rels", `<Relationships><Relationship Id="rId1" Type="` + relNS + `/styles" Target="styles.xml"/></Relationships>`},
			{"word/styles.xml", `<w:styles xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"/>`},
			{"docProps/notes.txt", lines.String()}})
	case "opc":
		return zipBytes([][2]string{
			{"_rels/.rels", `<Relationships><Relationship Id="rId1" Type="http://schemas.microsoft.com/packaging/2010/07/manifest" Target="a.nuspec"/></Relationships>`},
			{"a.nuspec", `<package/>`}, {"notes.txt", lines.String()}})
	case "utf16":
		b := []byte{0xff, 0xfe}
		for _, u := range utf16.Encode([]rune(lines.String())) {
			b = append(b, byte(u), byte(u>>8))
		}
		return b
	case "image":
		return append([]byte("\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR"), noise...)
	case "tsv":
		return []byte(lines.String())
	case "csv":
		return []byte(strings.ReplaceAll(lines.String(), "\t", ";"))
	}
	panic(driverError("kind " + kind))
}

func splice(b []byte, at, del int, ins []byte) []byte {
	r := append([]byte{}, b[:at]...)
	r = append(r, ins...)
	return append(r, b[min(len(b), at+del):]...)
}

func init() {
	drivers["detect"] = func(x *Ctx) {
		x.Each(8, func(i int, b []byte) {
			var c struct {
				Kind string
				Harm []struct {
					H string
					P int
				}
				Nul bool
				May []string
			}
			unj(b, &c)
			data := detectBytes(c.Kind)
			parts := x.N
			for _, h := range c.Harm {
				at := len(data) * h.P / parts
				switch h.H {
				case "cut":
					if n := min(64, len(data)); true {
						data = data[:n+(len(data)-n)*h.P/parts]
					}
				case "zero":
					data = splice(data, at, 16, make([]byte, 16))
				case "ones":
					data = splice(data, at, 16, bytes.Repeat([]byte{0xff}, 16))
				case "lose":
					data = splice(data, at, 1, nil)
				case "nul":
					data = splice(data, at, 0, []byte{0})
				case "behead":
					data = data[at/2:]
				case "junk":
					data = splice(data, at, 0, []byte("x,y\n"))
				case "lines":
					data = splice(data, at, 0, []byte(strings.Repeat("1,2\t3\n", 20)))
				}
			}
			if c.Nul && bytes.IndexByte(data, 0) < 0 || !c.Nul && bytes.IndexByte(data, 0) >= 0 {
				x.Add("set aside", 1)
				return
			}
			fn := x.scratch([]string{"", ".xls", ".xlsx", ".csv", ".tsv"}[i%5])
			must(os.WriteFile(fn, data, 0o600))
			defer os.Remove(fn)
			x.Step(1)
			src, err := grate.Open(fn)
			got := "error"
			switch {
			case err == nil:
				got = formatOf(src)
				src.Close()
			case errors.Is(err, grate.ErrUnknownFormat):
				got = "unknown"
			}
			x.Add(got, 1)
			for _, m := range c.May {
				if m == got || got == "text" && (m == "tsv" || m == "csv") {
					x.Nontrivial()
					return
				}
			}
			x.Fail(i, -1, fmt.Sprintf("%s %v (%d bytes)", c.Kind, c.Harm, len(data)), c.May, fmt.Sprintf("%s %v", got, err), b)
		})
	}
}

// formatOf tells by which of the bundled formats a source was opened.
func formatOf(src grate.Source) string {
	switch src.(type) {
	case *xls.WorkBook:
		return "xls"
	case *xlsx.Document:
		return "xlsx"
	}
	if t := reflect.TypeOf(src); t.Kind() != reflect.Ptr || !strings.HasSuffix(t.Elem().PkgPath(), "/simple") {
		return fmt.Sprintf("%T", src)
	}
	recs, err := readAll(src)
	if err != nil || len(recs) != 120 {
		return "text"
	}
	// the whole texts
	for _, rec := range recs {
		if len(rec) != 2 {
			return "text"
		}
	}
	if strings.Contains(recs[0][0], ";") {
		return "csv"
	}
	return "tsv"
}
