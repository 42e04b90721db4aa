package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"os"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xlsx"
)

// An independent SpreadsheetML writer.

const (
	ssNS   = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
	pkgNS  = "http://schemas.openxmlformats.org/package/2006/relationships"
	xmlDec = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n"
)

func esc(s string) string {
	var b bytes.Buffer
	must(xml.EscapeText(&b, []byte(s)))
	return b.String()
}

func colName(c int) string {
	s := ""
	for c++; c > 0; c = (c - 1) / 26 {
		s = string(rune('A'+(c-1)%26)) + s
	}
	return s
}

func cellRef(r, c int) string { return fmt.Sprintf("%s%d", colName(c), r+1) }

type xlsxRel struct {
	Id, Type, Target string
	External         bool
}

func relsXml(rels []xlsxRel) string {
	var b strings.Builder
	b.WriteString(xmlDec + `<Relationships xmlns="` + pkgNS + `">`)
	for _, r := range rels {
		t := r.Type
		if !strings.Contains(t, "/") {
			t = relNS + "/" + t
		}
		m := ""
		if r.External {
			m = ` TargetMode="External"`
		}
		fmt.Fprintf(&b, `<Relationship Id="%s" Type="%s" Target="%s"%s/>`, esc(r.Id), t, esc(r.Target), m)
	}
	b.WriteString(`</Relationships>`)
	return b.String()
}

// oneSheet is a package whose only sheet "S" has the given content.
func oneSheet(sheet, sheetRels string, more map[string]string) []byte {
	wr := []xlsxRel{{Id: "rId1", Type: "worksheet", Target: "worksheets/sheet1.xml"}}
	parts := [][2]string{{"xl/worksheets/sheet1.xml", sheet}}
	if sheetRels != "" {
		parts = append(parts, [2]string{"xl/worksheets/_rels/sheet1.xml.rels", sheetRels})
	}
	if s, ok := more["styles"]; ok {
		wr = append(wr, xlsxRel{Id: "rId2", Type: "styles", Target: "styles.xml"})
		parts = append(parts, [2]string{"xl/styles.xml", s})
	}
	if s, ok := more["sharedStrings"]; ok {
		wr = append(wr, xlsxRel{Id: "rId3", Type: "sharedStrings", Target: "sharedStrings.xml"})
		parts = append(parts, [2]string{"xl/sharedStrings.xml", s})
	}
	parts = append(parts, [][2]string{
		{"_rels/.rels", relsXml([]xlsxRel{{Id: "rId1", Type: "officeDocument", Target: "xl/workbook.xml"}})},
		{"xl/_rels/workbook.xml.rels", relsXml(wr)},
		{"xl/workbook.xml", xmlDec + `<workbook xmlns="` + ssNS + `" xmlns:r="` + relNS + `">` + more["workbookPr"] +
			`<sheets><sheet name="S" sheetId="1" r:id="rId1"/></sheets></workbook>`},
	}...)
	return zipBytes(parts)
}

func (x *Ctx) openXlsx(data []byte) (grate.Source, error) {
	f := x.scratch(".xlsx")
	must(os.WriteFile(f, data, 0o600))
	defer os.Remove(f)
	return xlsx.Open(f)
}
