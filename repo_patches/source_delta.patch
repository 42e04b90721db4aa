From 4655fb4715b35dc8b98f4edf754b1b2bdba1faa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 01/97] fix: SliceReader seeks and reads across empty slices
 and to both ends

Seeking to the exact end from the start or current position, seeking out of
range, and an empty slice list indexed out of bounds; an empty slice in the
middle was reported as end of stream.
---
 xls/cfb/slicereader.go | 56 +++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/xls/cfb/slicereader.go b/xls/cfb/slicereader.go
index e6e7aff..8d08c85 100644
--- a/xls/cfb/slicereader.go
+++ b/xls/cfb/slicereader.go
@@ -16,6 +16,14 @@ type SliceReader struct {
 
 // Read implements the io.Reader interface.
 func (s *SliceReader) Read(b []byte) (int, error) {
+	if len(b) == 0 {
+		return 0, nil
+	}
+	// step over slices that are empty or already consumed
+	for s.Index < uint(len(s.Data)) && s.Offset >= uint(len(s.Data[s.Index])) {
+		s.Offset = 0
+		s.Index++
+	}
 	if s.Index >= uint(len(s.Data)) {
 		return 0, io.EOF
 	}
@@ -45,12 +53,16 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 			sz += int64(len(d))
 		}
 	}
-	if s.Index >= uint(len(s.CSize)) {
-		s.Index = uint(len(s.CSize) - 1)
-		s.Offset = uint(len(s.Data[s.Index]))
+	// total size of the stream
+	size := int64(0)
+	if n := len(s.Data); n > 0 {
+		size = s.CSize[n-1] + int64(len(s.Data[n-1]))
 	}
 	// current offset in stream
-	trueOffset := int64(s.Offset) + s.CSize[int(s.Index)]
+	trueOffset := size
+	if s.Index < uint(len(s.CSize)) {
+		trueOffset = int64(s.Offset) + s.CSize[int(s.Index)]
+	}
 	if offset == 0 && whence == io.SeekCurrent {
 		// just asking for current position
 		return trueOffset, nil
@@ -58,43 +70,25 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 
 	switch whence {
 	case io.SeekStart:
-		if offset < 0 {
-			return -1, errors.New("xls: invalid seek offset")
-		}
-		s.Index = 0
-		s.Offset = 0
 		trueOffset = 0
 
 	case io.SeekEnd:
-		if offset > 0 {
-			return -1, errors.New("xls: invalid seek offset")
-		}
-
-		s.Index = uint(len(s.Data) - 1)
-		s.Offset = uint(len(s.Data[s.Index]))
-		trueOffset = int64(s.Offset) + s.CSize[s.Index]
+		trueOffset = size
 
 	default:
 		// current position already defined
 	}
 
 	wantOffset := offset + trueOffset
-	for trueOffset != wantOffset {
-		loOffset := s.CSize[int(s.Index)]
-		hiOffset := s.CSize[int(s.Index)] + int64(len(s.Data[s.Index]))
-		if wantOffset > loOffset && wantOffset < hiOffset {
+	if wantOffset < 0 || wantOffset > size {
+		return -1, errors.New("xls: invalid seek offset")
+	}
+	s.Index, s.Offset = uint(len(s.Data)), 0
+	for i, loOffset := range s.CSize {
+		if wantOffset < loOffset+int64(len(s.Data[i])) {
+			s.Index = uint(i)
 			s.Offset = uint(wantOffset - loOffset)
-			return wantOffset, nil
-		}
-
-		if trueOffset > wantOffset {
-			s.Index--
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
-		} else if trueOffset < wantOffset {
-			s.Index++
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
+			break
 		}
 	}
 	return wantOffset, nil
-- 
2.43.0


From 8ef7bdefa9ccb48fadfa1cd8596fc08428d64ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 02/97] fix: read all directory entries of a compound file

Only the four entries of the first directory sector were read, and reading
stopped at the first unallocated one: streams listed later were not found.
Follow the directory's sector chain to its end.
---
 xls/cfb/cfb.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 2692ba4..2d277d0 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -234,23 +234,34 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	}
 
 	// step 3: read the Directory Entries
-	err = d.buildDirs(br)
+	err = d.buildDirs()
 
 	return err
 }
 
-func (d *Document) buildDirs(br *bytes.Reader) error {
+func (d *Document) buildDirs() error {
 	h := d.header
 	le := binary.LittleEndian
 
-	// step 2: read the Directory
-	sid := h.FirstDirectorySectorLocation
-	offs := int64(1+sid) << int64(h.SectorShift)
-	br.Seek(offs, io.SeekStart)
+	// step 2: read the Directory, which is chained through the FAT
+	var dirData []byte
+	for sid := h.FirstDirectorySectorLocation; sid != secEndOfChain; sid = d.fat[sid] {
+		offs := (1 + int64(sid)) << h.SectorShift
+		end := offs + int64(1)<<h.SectorShift
+		if end > int64(len(d.data)) || int64(sid) >= int64(len(d.fat)) ||
+			len(dirData) >= len(d.data) { // longer than the file: a circular chain
+			return errors.New("xls/cfb: unable to load directory")
+		}
+		dirData = append(dirData, d.data[offs:end]...)
+	}
 
-	for j := 0; j < 4; j++ {
+	br := bytes.NewReader(dirData)
+	for br.Len() > 0 {
 		dirent := &directory{}
-		binary.Read(br, le, dirent)
+		err := binary.Read(br, le, dirent)
+		if err != nil {
+			return err
+		}
 		if d.header.MajorVersion == 3 {
 			// mask out upper 32bits
 			dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
@@ -272,7 +283,8 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 				}
 			*/
 		case typeUnknown:
-			return nil
+			// unallocated entry
+			continue
 		}
 		d.dir = append(d.dir, dirent)
 	}
-- 
2.43.0


From 0927bcd26815ac247daba5760421d0c30dabfe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 03/97] fix: follow the mini FAT through its sector chain

The next mini FAT sector was taken from whatever followed the first one in the
file, and reading ended by comparing a number of entries with a number of
sectors.
---
 xls/cfb/cfb.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 2d277d0..20fb602 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -220,17 +220,12 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		}
 		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
-			sid = le.Uint32(sector)
-			d.minifat = append(d.minifat, sid)
+			d.minifat = append(d.minifat, le.Uint32(sector))
 			sector = sector[4:]
 		}
 
-		if len(d.minifat) >= int(h.NumMiniFATSectors) {
-			break
-		}
-
 		// chain the next mini FAT sector
-		sid = le.Uint32(sector)
+		sid = d.fat[sid]
 	}
 
 	// step 3: read the Directory Entries
-- 
2.43.0


From 5b56b25db03d29c9e4e23841161d60e674769058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 04/97] fix: report cut-off and broken sector chains of
 compound files as errors

Sector numbers and chains were followed without checking them against the
file and the tables: truncated files and chains that leave the file, end early
or run in a circle caused panics, endless loops, or (in the mini stream) short
streams returned as complete.
---
 xls/cfb/cfb.go | 208 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 136 insertions(+), 72 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 20fb602..157fe3c 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -77,7 +77,7 @@ type directory struct {
 }
 
 func (d *directory) String() string {
-	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 {
+	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 || d.NameByteLen < 2 {
 		return "<invalid utf16 string>"
 	}
 	r16 := utf16.Decode(d.Name[:int(d.NameByteLen)/2])
@@ -159,8 +159,8 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	numFATentries := (1 << (h.SectorShift - 2))
 	le := binary.LittleEndian
-	d.fat = make([]uint32, 0, numFATentries*int(1+d.header.NumFATSectors))
-	d.minifat = make([]uint32, 0, numFATentries*int(1+h.NumMiniFATSectors))
+	d.fat = nil
+	d.minifat = nil
 
 	// step 1: read the DIFAT sector list
 	for i := 0; i < 109; i++ {
@@ -168,11 +168,10 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		if sid == secFree {
 			break
 		}
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
+		sector, err := d.sector(sid)
+		if err != nil {
+			return err
 		}
-		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
 			sid2 := le.Uint32(sector)
 			d.fat = append(d.fat, sid2)
@@ -182,9 +181,16 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	if h.NumDIFATSectors > 0 {
 		sid1 := h.FirstDIFATSectorLocation
 
-		for sid1 != secEndOfChain {
-			offs := int64(1+sid1) << int32(h.SectorShift)
-			difatSector := d.data[offs:]
+		seen := make(map[uint32]bool)
+		for sid1 != secEndOfChain && sid1 != secFree {
+			difatSector, err := d.sector(sid1)
+			if err != nil {
+				return err
+			}
+			if seen[sid1] {
+				return errCircular
+			}
+			seen[sid1] = true
 
 			for i := 0; i < numFATentries-1; i++ {
 				sid2 := le.Uint32(difatSector)
@@ -193,11 +199,10 @@ func (d *Document) load(rx io.ReadSeeker) error {
 					continue
 				}
 
-				offs := int64(1+sid2) << int32(h.SectorShift)
-				if offs >= int64(len(d.data)) {
-					return errors.New("xls/cfb: unable to load file")
+				sector, err := d.sector(sid2)
+				if err != nil {
+					return err
 				}
-				sector := d.data[offs:]
 				for j := 0; j < numFATentries; j++ {
 					sid3 := le.Uint32(sector)
 					d.fat = append(d.fat, sid3)
@@ -213,19 +218,26 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	// step 2: read the mini FAT
 	sid := h.FirstMiniFATSectorLocation
-	for sid != secEndOfChain {
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
+	seen := make(map[uint32]bool)
+	for sid != secEndOfChain && sid != secFree {
+		sector, err := d.sector(sid)
+		if err != nil {
+			return err
+		}
+		if seen[sid] {
+			return errCircular
 		}
-		sector := d.data[offs:]
+		seen[sid] = true
 		for j := 0; j < numFATentries; j++ {
 			d.minifat = append(d.minifat, le.Uint32(sector))
 			sector = sector[4:]
 		}
 
 		// chain the next mini FAT sector
-		sid = d.fat[sid]
+		sid, err = nextSector(d.fat, sid)
+		if err != nil {
+			return err
+		}
 	}
 
 	// step 3: read the Directory Entries
@@ -234,20 +246,51 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	return err
 }
 
+var (
+	errCorrupt  = errors.New("ole2: corrupt data format")
+	errCircular = errors.New("ole2: circular sector chain")
+)
+
+// sector returns the contents of one whole sector.
+func (d *Document) sector(sid uint32) ([]byte, error) {
+	secSize := int64(1) << d.header.SectorShift
+	offs := (1 + int64(sid)) * secSize
+	if sid > secMaxRegular || offs+secSize > int64(len(d.data)) {
+		return nil, errCorrupt
+	}
+	return d.data[offs : offs+secSize], nil
+}
+
+// nextSector looks up the sector that follows sid in an allocation table.
+func nextSector(table []uint32, sid uint32) (uint32, error) {
+	if int64(sid) >= int64(len(table)) {
+		return 0, errCorrupt
+	}
+	return table[sid], nil
+}
+
 func (d *Document) buildDirs() error {
 	h := d.header
 	le := binary.LittleEndian
 
 	// step 2: read the Directory, which is chained through the FAT
 	var dirData []byte
-	for sid := h.FirstDirectorySectorLocation; sid != secEndOfChain; sid = d.fat[sid] {
-		offs := (1 + int64(sid)) << h.SectorShift
-		end := offs + int64(1)<<h.SectorShift
-		if end > int64(len(d.data)) || int64(sid) >= int64(len(d.fat)) ||
-			len(dirData) >= len(d.data) { // longer than the file: a circular chain
-			return errors.New("xls/cfb: unable to load directory")
-		}
-		dirData = append(dirData, d.data[offs:end]...)
+	sid := h.FirstDirectorySectorLocation
+	seen := make(map[uint32]bool)
+	for sid != secEndOfChain {
+		sector, err := d.sector(sid)
+		if err != nil {
+			return err
+		}
+		if seen[sid] {
+			return errCircular
+		}
+		seen[sid] = true
+		dirData = append(dirData, sector...)
+		sid, err = nextSector(d.fat, sid)
+		if err != nil {
+			return err
+		}
 	}
 
 	br := bytes.NewReader(dirData)
@@ -288,30 +331,44 @@ func (d *Document) buildDirs() error {
 }
 
 func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
+	if size > uint64(len(d.data)) {
+		return nil, errors.New("ole2: incomplete read")
+	}
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
-	streamData := make([][]byte, 1+(size>>d.header.SectorShift))
+	streamData := make([][]byte, 0, 1+(size>>d.header.SectorShift))
 
-	x := 0
 	secSize := int64(1) << int32(d.header.SectorShift)
-	for sid != secEndOfChain && sid != secFree {
-		offs := int64(1+sid) << int64(d.header.SectorShift)
-		if offs > int64(len(d.data)) {
-			return nil, errors.New("ole2: corrupt data format")
+	seen := make(map[uint32]bool)
+	for size != 0 && sid != secEndOfChain && sid != secFree {
+		// NB the last sector of a file may be stored without its padding
+		offs := (1 + int64(sid)) * secSize
+		if sid > secMaxRegular || offs > int64(len(d.data)) {
+			return nil, errCorrupt
 		}
-		slice := d.data[offs : offs+secSize]
-		if size < uint64(len(slice)) {
+		if seen[sid] {
+			return nil, errCircular
+		}
+		seen[sid] = true
+		slice := d.data[offs:]
+		if int64(len(slice)) > secSize {
+			slice = slice[:secSize]
+		}
+		if size <= uint64(len(slice)) {
 			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
+		} else if int64(len(slice)) < secSize {
+			return nil, errors.New("ole2: incomplete read")
 		}
-		streamData[x] = slice
+		size -= uint64(len(slice))
+		streamData = append(streamData, slice)
 		if size == 0 {
 			break
 		}
-		sid = d.fat[sid]
-		x++
+		var err error
+		sid, err = nextSector(d.fat, sid)
+		if err != nil {
+			return nil, err
+		}
 	}
 	if size != 0 {
 		return nil, errors.New("ole2: incomplete read")
@@ -321,49 +378,56 @@ func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, erro
 }
 
 func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
-	// TODO: move into a separate cache so we don't recalculate it each time
-	fatStreamData := make([][]byte, 1+(d.ministreamsize>>d.header.SectorShift))
-
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
-	streamData := make([][]byte, 1+(size>>d.header.MiniSectorShift))
+	streamData := make([][]byte, 0, 1+(size>>d.header.MiniSectorShift))
+	if size == 0 {
+		return &SliceReader{Data: streamData}, nil
+	}
 
-	x := 0
-	fsid := d.ministreamstart
-	fsize := uint64(d.ministreamsize)
-	secSize := int64(1) << int64(d.header.SectorShift)
-	for fsid != secEndOfChain && fsid != secFree {
-		offs := int64(1+fsid) << int64(d.header.SectorShift)
-		slice := d.data[offs : offs+secSize]
-		if fsize < uint64(len(slice)) {
-			slice = slice[:fsize]
-			fsize = 0
-		} else {
-			fsize -= uint64(len(slice))
-		}
-		fatStreamData[x] = slice
-		x++
-		fsid = d.fat[fsid]
+	// TODO: move into a separate cache so we don't recalculate it each time
+	ministream, err := d.getStreamReader(d.ministreamstart, uint64(d.ministreamsize))
+	if err != nil {
+		return nil, err
 	}
+	fatStreamData := ministream.(*SliceReader).Data
 
-	x = 0
+	secSize := int64(1) << int64(d.header.SectorShift)
 	miniSecSize := int64(1) << int64(d.header.MiniSectorShift)
+	seen := make(map[uint32]bool)
 	for sid != secEndOfChain && sid != secFree {
 		offs := int64(sid) << int64(d.header.MiniSectorShift)
 
 		so, si := offs/secSize, offs%secSize
-		data := fatStreamData[so]
+		if so >= int64(len(fatStreamData)) || si >= int64(len(fatStreamData[so])) {
+			return nil, errCorrupt
+		}
+		if seen[sid] {
+			return nil, errCircular
+		}
+		seen[sid] = true
 
-		slice := data[si : si+miniSecSize]
-		if size < uint64(len(slice)) {
+		slice := fatStreamData[so][si:]
+		if int64(len(slice)) > miniSecSize {
+			slice = slice[:miniSecSize]
+		}
+		if size <= uint64(len(slice)) {
 			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
+		} else if int64(len(slice)) < miniSecSize {
+			return nil, errors.New("ole2: incomplete read")
 		}
-		streamData[x] = slice
-		x++
-		sid = d.minifat[sid]
+		size -= uint64(len(slice))
+		streamData = append(streamData, slice)
+		if size == 0 {
+			break
+		}
+		sid, err = nextSector(d.minifat, sid)
+		if err != nil {
+			return nil, err
+		}
+	}
+	if size != 0 {
+		return nil, errors.New("ole2: incomplete read")
 	}
 
 	return &SliceReader{Data: streamData}, nil
-- 
2.43.0


From f82a390e34de5fb0228fd73b797ce94522ba8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 05/97] fix: Formatter.Apply with an unknown format id

It called a nil function instead of reporting the id as unknown.
---
 commonxl/formats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 49b58a9..87ce3f3 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -219,6 +219,7 @@ func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
 		if ok2 {
 			return fs(x, val), true
 		}
+		ff = identFunc
 	}
 	return ff(x, val), ok
 }
-- 
2.43.0


From c9622e3a6fdfefd577b1da6127e3ce8e04e52c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 06/97] fix: a later General code must not replace a custom
 number format

Every other code is refused once the id is defined.
---
 commonxl/formats.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 87ce3f3..6d4ad6b 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -34,6 +34,10 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 		x.customCodes = make(map[uint16]FmtFunc)
 		x.customCodeTypes = make(map[uint16]CellType)
 	}
+	_, ok2 := x.customCodes[fmtID]
+	if ok2 {
+		return errors.New("grate/commonxl: cannot replace existing number formats")
+	}
 	if strings.ToLower(formatCode) == "general" {
 		x.customCodes[fmtID] = goFormatters[0]
 		return nil
@@ -43,11 +47,6 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 		return errors.New("grate/commonxl: cannot replace default number formats")
 	}
 
-	_, ok2 := x.customCodes[fmtID]
-	if ok2 {
-		return errors.New("grate/commonxl: cannot replace existing number formats")
-	}
-
 	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
 	return nil
 }
-- 
2.43.0


From 47b899b2ac54bfe87dfb46231f26278d92b2f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 07/97] fix: percent and decimal formats of whole numbers,
 rounding of percentages

Whole numbers were printed unscaled under percent formats and as a Go format
error under decimal formats; fractions were cut off instead of rounded, so
0.29 read as 28%.
---
 commonxl/fmt.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f99e01b..55f359e 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -2,6 +2,7 @@ package commonxl
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -88,13 +89,20 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		switch val := v.(type) {
 		case int, uint, int64, uint64, int32, uint32, uint16, int16:
-			return fmt.Sprintf(fs, v)
+			if wantInt64 && mul == 1 {
+				return fmt.Sprintf(fs, v)
+			}
+			fval, _ := convertToFloat64(v)
+			return sprintfFunc(fs, mul)(x, fval)
 
 		case float64:
 			val *= float64(mul)
 			if wantInt64 {
-				v2 := int64(val)
-				return fmt.Sprintf(fs, v2)
+				v2 := math.Round(val)
+				if math.Abs(v2) >= math.MaxInt64 {
+					return strconv.FormatFloat(v2, 'f', 0, 64)
+				}
+				return fmt.Sprintf(fs, int64(v2))
 			}
 			return fmt.Sprintf(fs, val)
 		}
-- 
2.43.0


From 78cd4fc3d4a236b407cee1b22e120edf95b05549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 08/97] fix: custom percent formats without decimals lost the
 value

Cells with such a format were typed as integers, which cut 25% down to 0%.
---
 commonxl/formats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 6d4ad6b..65e7ce0 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -161,6 +161,10 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		//log.Printf("   made int formatter '%s'", sf)
 		ff = sprintfFunc(sf, mul)
 		ctype = IntegerCell
+		if mul != 1 {
+			// the value itself is a fraction
+			ctype = FloatCell
+		}
 	}
 
 	if strings.Contains(s, ",") {
-- 
2.43.0


From 3d0f6493b204585adb97b216fa5b232204e9cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 09/97] fix: negative numbers in the accounting formats 41-44

They show negatives in parentheses without a minus sign.
---
 commonxl/fmt.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 55f359e..169be34 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -297,15 +297,15 @@ var goFormatters = map[uint16]FmtFunc{
 	11: sprintfFunc(`%4.2E`, 1),
 	48: sprintfFunc(`%3.1E`, 1),
 
-	41: zeroDashFunc(addCommas(sprintfFunc("%d", 1))),
-	43: zeroDashFunc(addCommas(sprintfFunc("%4.2f", 1))),
+	41: zeroDashFunc(addNegParens(addCommas(sprintfFunc("%d", 1)))),
+	43: zeroDashFunc(addNegParens(addCommas(sprintfFunc("%4.2f", 1)))),
 
 	42: switchFmtFunc(
 		surround("$", addCommas(sprintfFunc("%d", 1)), ""),
-		surround("$(", addCommas(sprintfFunc("%d", 1)), ")"),
+		surround("$", addNegParens(addCommas(sprintfFunc("%d", 1))), ""),
 		staticFmtFunc("$-")),
 	44: switchFmtFunc(
 		surround("$", addCommas(sprintfFunc("%4.2f", 1)), ""),
-		surround("$(", addCommas(sprintfFunc("%4.2f", 1)), ")"),
+		surround("$", addNegParens(addCommas(sprintfFunc("%4.2f", 1))), ""),
 		staticFmtFunc("$-")),
 }
-- 
2.43.0


From 3ae42e2e78337c1d1dcc49d77cc4c56bfae183dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 10/97] fix: render text as itself under number and date
 formats

Text in such cells came out as an error message, or with digit grouping and
parentheses applied to its letters.
---
 commonxl/dates.go | 11 +++++++----
 commonxl/fmt.go   |  9 ++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index dad6ae9..bc411c0 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -1,6 +1,7 @@
 package commonxl
 
 import (
+	"fmt"
 	"strings"
 	"time"
 )
@@ -49,8 +50,9 @@ func timeFmtFunc(f string) FmtFunc {
 		t, ok := v.(time.Time)
 		if !ok {
 			fval, ok := convertToFloat64(v)
-			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+			if _, isText := v.(string); isText || !ok {
+				// strings etc returned as-is
+				return fmt.Sprint(v)
 			}
 			t = x.ConvertToDate(fval)
 		}
@@ -66,8 +68,9 @@ func cnTimeFmtFunc(f string) FmtFunc {
 		t, ok := v.(time.Time)
 		if !ok {
 			fval, ok := convertToFloat64(v)
-			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+			if _, isText := v.(string); isText || !ok {
+				// strings etc returned as-is
+				return fmt.Sprint(v)
 			}
 			t = x.ConvertToDate(fval)
 		}
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 169be34..3947e01 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -25,6 +25,9 @@ func surround(pre string, ff FmtFunc, post string) FmtFunc {
 func addNegParens(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
+		if _, isText := v.(string); isText {
+			return s1
+		}
 		if s1[0] == '-' {
 			return "(" + s1[1:] + ")"
 		}
@@ -35,6 +38,9 @@ func addNegParens(ff FmtFunc) FmtFunc {
 func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
+		if _, isText := v.(string); isText {
+			return s1
+		}
 		isNeg := false
 		if s1[0] == '-' {
 			isNeg = true
@@ -173,7 +179,8 @@ func fracFmtFunc(n int) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		f, ok := convertToFloat64(v)
 		if !ok {
-			return "MUST BE numeric TO FORMAT CORRECTLY"
+			// strings etc returned as-is
+			return fmt.Sprint(v)
 		}
 		w, n, d := DecimalToWholeFraction(f, n, n)
 		if n == 0 {
-- 
2.43.0


From ed9a13e84bbcd194ef967cd2ceb4e95fe519aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 11/97] fix: keep cell values that cannot be converted to the
 format's type

Text under number formats became 0, blank cells under text formats "<nil>",
large numbers under integer formats an unrelated integer, and text and
booleans under date formats were labelled as dates.
---
 commonxl/cell.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 9b1c5b2..e6473f0 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -122,6 +122,10 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 		// fast path if it was already typed correctly
 		return c
 	}
+	if c[1] == BlankCell {
+		// there is no value to convert
+		return c
+	}
 
 	if c[1] == BooleanCell {
 		if t == IntegerCell {
@@ -150,8 +154,10 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 
 	if c[1] == FloatCell {
 		if t == IntegerCell {
-			c[0] = int64(c[0].(float64))
-			c[1] = IntegerCell
+			if x := c[0].(float64); x > math.MinInt64 && x < math.MaxInt64 {
+				c[0] = int64(x)
+				c[1] = IntegerCell
+			}
 		} else if t == BooleanCell {
 			c[0] = c[0].(float64) != 0.0
 			c[1] = BooleanCell
@@ -168,16 +174,23 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	}
 	if c[1] == StringCell {
 		if t == IntegerCell {
-			x, _ := strconv.ParseInt(c[0].(string), 10, 64)
-			c[0] = x
-			c[1] = IntegerCell
+			// NB text that is not a number stays as it is
+			if x, err := strconv.ParseInt(c[0].(string), 10, 64); err == nil {
+				c[0] = x
+				c[1] = IntegerCell
+			} else if x, ok := parseNumber(c[0].(string)); ok {
+				return NewCellWithType(x, t, f)
+			}
 		} else if t == FloatCell {
-			x, _ := strconv.ParseFloat(c[0].(string), 64)
-			c[0] = x
-			c[1] = FloatCell
+			if x, ok := parseNumber(c[0].(string)); ok {
+				c[0] = x
+				c[1] = FloatCell
+			}
 		} else if t == BooleanCell {
-			c[0] = boolStrings[c[0].(string)]
-			c[1] = BooleanCell
+			if x, ok := boolStrings[c[0].(string)]; ok {
+				c[0] = x
+				c[1] = BooleanCell
+			}
 		}
 	}
 	if t == StringCell {
@@ -187,14 +200,21 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	if t == DateCell {
 		if c[1] == FloatCell {
 			c[0] = f.ConvertToDate(c[0].(float64))
+			c[1] = DateCell
 		} else if c[1] == IntegerCell {
 			c[0] = f.ConvertToDate(float64(c[0].(int64)))
+			c[1] = DateCell
 		}
-		c[1] = DateCell
 	}
 	return c
 }
 
+// parseNumber converts text that denotes a (finite) number.
+func parseNumber(s string) (float64, bool) {
+	x, err := strconv.ParseFloat(s, 64)
+	return x, err == nil && !math.IsInf(x, 0) && !math.IsNaN(x)
+}
+
 // NewCell creates a new cell value from any builtin type.
 func NewCell(value interface{}) Cell {
 	c := make([]interface{}, 2)
-- 
2.43.0


From ba9107f8d19fb411e9b5834a0ddbfff36c507a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 12/97] fix: hyperlinks keep the number format and replace an
 earlier link

FormatNo lost the format once a link was attached, a second link was ignored,
and text results or links for an untouched cell, or just outside the sheet,
indexed out of range.
---
 commonxl/cell.go  | 9 ++++++---
 commonxl/sheet.go | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index e6473f0..1003144 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -64,11 +64,14 @@ func (c Cell) Value() interface{} {
 
 // SetURL adds a URL hyperlink to the cell.
 func (c *Cell) SetURL(link string) {
+	if len(*c) == 0 {
+		*c = NewCell("")
+	}
 	(*c)[1] = HyperlinkStringCell
 	if len(*c) == 2 {
 		*c = append(*c, uint16(0), link)
-	} else { // len = 3 already
-		*c = append(*c, link)
+	} else { // len = 3 or more already
+		*c = append((*c)[:3], link)
 	}
 }
 
@@ -91,7 +94,7 @@ func (c Cell) Type() CellType {
 
 // FormatNo returns the NumberFormat used for display.
 func (c Cell) FormatNo() uint16 {
-	if len(c) == 3 {
+	if len(c) >= 3 {
 		return c[2].(uint16)
 	}
 	return 0
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index a165334..102ada9 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -87,18 +87,21 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 // Set changes the value in an existing cell location.
 // NB Currently only used for populating string results for formulas.
 func (s *Sheet) Set(row, col int, value interface{}) {
-	if row > s.NumRows || col > s.NumCols {
+	if row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
+	if len(s.Rows[row][col]) == 0 {
+		s.Rows[row][col] = NewCell("")
+	}
 	s.Rows[row][col][0] = value
 	s.Rows[row][col][1] = StringCell
 }
 
 // SetURL adds a hyperlink to an existing cell location.
 func (s *Sheet) SetURL(row, col int, link string) {
-	if row > s.NumRows || col > s.NumCols {
+	if row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
-- 
2.43.0


From adf84cb21f9fb7ce62905fb08fdf7eef2279604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 13/97] fix: a sheet with a value in only its first cell is not
 empty

---
 commonxl/sheet.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 102ada9..76f3f74 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -226,7 +226,14 @@ func (s *Sheet) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (s *Sheet) IsEmpty() bool {
-	return (s.NumCols <= 1 && s.NumRows <= 1)
+	for _, row := range s.Rows {
+		for _, cell := range row {
+			if cell.Type() != BlankCell {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From 27ecf15114bb9250d491b9168c5cae609956ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 14/97] fix: Scan reports unsupported destinations as
 ErrInvalidScanType

The documented error was never returned, and more destinations than columns
indexed out of range.
---
 commonxl/sheet.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 76f3f74..5ad4c0e 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -180,13 +180,16 @@ func (s *Sheet) Formats() []string {
 // If invalid, returns ErrInvalidScanType
 func (s *Sheet) Scan(args ...interface{}) error {
 	row := s.Rows[s.CurRow-1]
+	if len(args) > len(row) {
+		return fmt.Errorf("scan has %d destinations, but the record has %d columns", len(args), len(row))
+	}
 
 	for i, a := range args {
 		val := row[i].Value()
 
 		switch v := a.(type) {
 		case bool, int64, float64, string, time.Time:
-			return fmt.Errorf("scan destinations must be pointer (arg %d is not)", i)
+			return grate.WrapErr(fmt.Errorf("scan destinations must be pointer (arg %d is not)", i), grate.ErrInvalidScanType)
 		case *bool:
 			if x, ok := val.(bool); ok {
 				*v = x
@@ -218,7 +221,7 @@ func (s *Sheet) Scan(args ...interface{}) error {
 				return fmt.Errorf("scan destination %d expected *%T, not *time.Time", i, val)
 			}
 		default:
-			return fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a)
+			return grate.WrapErr(fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a), grate.ErrInvalidScanType)
 		}
 	}
 	return nil
-- 
2.43.0


From 63f917d0fd9974dd5e8ad5045c038cae0b5394af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 15/97] fix: fractions of negative and of almost whole numbers

Negative values lost their fraction, and values just above a whole number
produced 1/1000000000 whatever the number of digits.
---
 commonxl/numbers.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/commonxl/numbers.go b/commonxl/numbers.go
index c3df4c2..6aec77b 100644
--- a/commonxl/numbers.go
+++ b/commonxl/numbers.go
@@ -29,7 +29,8 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 	z := val
 	if val < 0 {
 		sign = -1
-		z = -val
+		val = -val
+		z = val
 	}
 	if nn == 0 {
 		nn = 2
@@ -45,10 +46,7 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 		return int(z) * sign, 1
 	}
 	if fracPart < 1e-9 {
-		return sign, int(1e9)
-	}
-	if fracPart > 1e9 {
-		return int(1e9) * sign, 1
+		return int(z) * sign, 1
 	}
 
 	diff := 1.0
-- 
2.43.0


From 603b2612b79f6f6c8a361ec19f994c302b79511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 16/97] fix: round the time of date serials to the millisecond

---
 commonxl/dates.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index bc411c0..5d07d2d 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -2,6 +2,7 @@ package commonxl
 
 import (
 	"fmt"
+	"math"
 	"strings"
 	"time"
 )
@@ -32,8 +33,7 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		month := time.Month(J + 2 - 12*L)
 		year := 100*(N-49) + I + L
 
-		t := time.Duration(float64(time.Hour*24) * frac)
-		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(t)
+		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(dayFraction(frac))
 	}
 	frac := val - float64(v)
 	date := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
@@ -41,8 +41,13 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		date = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
 	}
 
-	t := time.Duration(float64(time.Hour*24) * frac)
-	return date.AddDate(0, 0, v).Add(t)
+	return date.AddDate(0, 0, v).Add(dayFraction(frac))
+}
+
+// dayFraction converts a fraction of a day into a time of day. Serial numbers
+// cannot represent most times exactly, so it rounds to the millisecond.
+func dayFraction(frac float64) time.Duration {
+	return time.Duration(math.Round(frac*24*60*60*1000)) * time.Millisecond
 }
 
 func timeFmtFunc(f string) FmtFunc {
-- 
2.43.0


From 7a594afb49de80001c303c76dbff186c52a1daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 17/97] fix: built-in date formats 27-36 and 50-58 printed
 their quotes

---
 commonxl/fmt.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 3947e01..17c4a59 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -241,21 +241,21 @@ var goFormatters = map[uint16]FmtFunc{
 	45: timeFmtFunc(`04:05`),
 	46: timeFmtFunc(`3:04:05`),
 	47: timeFmtFunc(`0405.9`),
-	27: timeFmtFunc(`2006"年"1"月"`),
-	28: timeFmtFunc(`1"月"2"日"`),
-	29: timeFmtFunc(`1"月"2"日"`),
+	27: timeFmtFunc(`2006年1月`),
+	28: timeFmtFunc(`1月2日`),
+	29: timeFmtFunc(`1月2日`),
 	30: timeFmtFunc(`1-2-06`),
-	31: timeFmtFunc(`2006"年"1"月"2"日"`),
-	32: timeFmtFunc(`15"时"04"分"`),
-	33: timeFmtFunc(`15"时"04"分"05"秒"`),
-	36: timeFmtFunc(`2006"年"2"月"`),
-	50: timeFmtFunc(`2006"年"2"月"`),
-	51: timeFmtFunc(`1"月"2"日"`),
-	52: timeFmtFunc(`2006"年"1"月"`),
-	53: timeFmtFunc(`1"月"2"日"`),
-	54: timeFmtFunc(`1"月"2"日"`),
-	57: timeFmtFunc(`2006"年"1"月"`),
-	58: timeFmtFunc(`1"月"2"日"`),
+	31: timeFmtFunc(`2006年1月2日`),
+	32: timeFmtFunc(`15时04分`),
+	33: timeFmtFunc(`15时04分05秒`),
+	36: timeFmtFunc(`2006年1月`),
+	50: timeFmtFunc(`2006年1月`),
+	51: timeFmtFunc(`1月2日`),
+	52: timeFmtFunc(`2006年1月`),
+	53: timeFmtFunc(`1月2日`),
+	54: timeFmtFunc(`1月2日`),
+	57: timeFmtFunc(`2006年1月`),
+	58: timeFmtFunc(`1月2日`),
 	71: timeFmtFunc(`2/1/2006`),
 	72: timeFmtFunc(`2-Jan-06`),
 	73: timeFmtFunc(`2-Jan`),
@@ -270,10 +270,10 @@ var goFormatters = map[uint16]FmtFunc{
 	18: timeFmtFunc(`3:04 PM`),
 	19: timeFmtFunc(`3:04:05 PM`),
 
-	34: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	35: cnTimeFmtFunc(`PM 3"时"04"分"05"秒"`),
-	55: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	56: cnTimeFmtFunc(`PM 3"时"04"分"05"秒`),
+	34: cnTimeFmtFunc(`PM 3时04分`),
+	35: cnTimeFmtFunc(`PM 3时04分05秒`),
+	55: cnTimeFmtFunc(`PM 3时04分`),
+	56: cnTimeFmtFunc(`PM 3时04分05秒`),
 
 	12: fracFmtFunc(1),
 	13: fracFmtFunc(2),
-- 
2.43.0


From c0a100d513c4fbe2b3f34d3a30c5ef4231becb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 18/97] fix: elapsed hours of formats 46 and 79, tenths of
 formats 47 and 80

---
 commonxl/dates.go | 20 ++++++++++++++++++++
 commonxl/fmt.go   |  8 ++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 5d07d2d..e4cb6d0 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -66,6 +66,26 @@ func timeFmtFunc(f string) FmtFunc {
 	}
 }
 
+// elapsedFmtFunc renders the hours since the start of the date system (the
+// [h] code), followed by the rest of the time.
+func elapsedFmtFunc(rest string) FmtFunc {
+	ff := timeFmtFunc(rest)
+	return func(x *Formatter, v interface{}) string {
+		t, ok := v.(time.Time)
+		if !ok {
+			fval, ok := convertToFloat64(v)
+			if _, isText := v.(string); isText || !ok {
+				// strings etc returned as-is
+				return fmt.Sprint(v)
+			}
+			t = x.ConvertToDate(fval)
+		}
+		// NB a time.Duration would overflow after 292 years
+		secs := t.Unix() - x.ConvertToDate(0).Unix()
+		return fmt.Sprintf("%d:%s", secs/3600, ff(x, t))
+	}
+}
+
 // same as above but replaces "AM" and "PM" with chinese translations.
 // TODO: implement others
 func cnTimeFmtFunc(f string) FmtFunc {
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 17c4a59..3335e7f 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -239,8 +239,8 @@ var goFormatters = map[uint16]FmtFunc{
 	21: timeFmtFunc(`15:04:05`),
 	22: timeFmtFunc(`1/2/06 15:04`),
 	45: timeFmtFunc(`04:05`),
-	46: timeFmtFunc(`3:04:05`),
-	47: timeFmtFunc(`0405.9`),
+	46: elapsedFmtFunc(`04:05`),
+	47: timeFmtFunc(`0405.0`),
 	27: timeFmtFunc(`2006年1月`),
 	28: timeFmtFunc(`1月2日`),
 	29: timeFmtFunc(`1月2日`),
@@ -264,8 +264,8 @@ var goFormatters = map[uint16]FmtFunc{
 	76: timeFmtFunc(`15:04:05`),
 	77: timeFmtFunc(`2/1/2006 15:04`),
 	78: timeFmtFunc(`04:05`),
-	79: timeFmtFunc(`15:04:05`),
-	80: timeFmtFunc(`04:05.9`),
+	79: elapsedFmtFunc(`04:05`),
+	80: timeFmtFunc(`04:05.0`),
 	81: timeFmtFunc(`2/1/06`),
 	18: timeFmtFunc(`3:04 PM`),
 	19: timeFmtFunc(`3:04:05 PM`),
-- 
2.43.0


From 6cb2f31ea10da85e063987eb2d247df35277be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 19/97] fix: format 48 renders exponents in multiples of three

---
 commonxl/fmt.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 3335e7f..32c4750 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -116,6 +116,28 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 	}
 }
 
+// engFmtFunc renders engineering notation with n decimals (##0.0E+0), the
+// exponent is always a multiple of three.
+func engFmtFunc(n int) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		f, ok := convertToFloat64(v)
+		if _, isText := v.(string); isText || !ok {
+			// strings etc returned as-is
+			return fmt.Sprint(v)
+		}
+		exp := 0
+		if f != 0 {
+			exp = int(math.Floor(math.Log10(math.Abs(f))/3)) * 3
+		}
+		s := strconv.FormatFloat(f/math.Pow10(exp), 'f', n, 64)
+		if m, _ := strconv.ParseFloat(s, 64); math.Abs(m) >= 1000 {
+			exp += 3
+			s = strconv.FormatFloat(f/math.Pow10(exp), 'f', n, 64)
+		}
+		return fmt.Sprintf("%sE%+d", s, exp)
+	}
+}
+
 func convertToInt64(v interface{}) (int64, bool) {
 	x, ok := convertToFloat64(v)
 	return int64(x), ok
@@ -302,7 +324,7 @@ var goFormatters = map[uint16]FmtFunc{
 	40: addNegParens(addCommas(sprintfFunc("%4.2f", 1))),
 
 	11: sprintfFunc(`%4.2E`, 1),
-	48: sprintfFunc(`%3.1E`, 1),
+	48: engFmtFunc(1),
 
 	41: zeroDashFunc(addNegParens(addCommas(sprintfFunc("%d", 1)))),
 	43: zeroDashFunc(addNegParens(addCommas(sprintfFunc("%4.2f", 1)))),
-- 
2.43.0


From abfa244285dbad39c2f20d5a4328dedffd4fa2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 20/97] fix: no literals of number formats around text

---
 commonxl/fmt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 32c4750..6cf2ddf 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -18,6 +18,9 @@ func staticFmtFunc(s string) FmtFunc {
 
 func surround(pre string, ff FmtFunc, post string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
+		if _, isText := v.(string); isText {
+			return ff(x, v)
+		}
 		return pre + ff(x, v) + post
 	}
 }
@@ -235,7 +238,7 @@ func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
 	}
 	return func(x *Formatter, v interface{}) string {
 		val, ok := convertToFloat64(v)
-		if !ok {
+		if _, isText := v.(string); isText || !ok {
 			return stringFF(x, v)
 		}
 		if val == 0.0 {
-- 
2.43.0


From dc934407485f8db510e9a5c823a9159a7341b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 21/97] fix: fraction and accounting formats render text as
 itself

---
 commonxl/fmt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 6cf2ddf..eda646d 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -189,7 +189,7 @@ func convertToFloat64(v interface{}) (float64, bool) {
 func zeroDashFunc(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		fval, ok := convertToFloat64(v)
-		if !ok {
+		if _, isText := v.(string); isText || !ok {
 			// strings etc returned as-is
 			return fmt.Sprint(v)
 		}
@@ -203,7 +203,7 @@ func zeroDashFunc(ff FmtFunc) FmtFunc {
 func fracFmtFunc(n int) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		f, ok := convertToFloat64(v)
-		if !ok {
+		if _, isText := v.(string); isText || !ok {
 			// strings etc returned as-is
 			return fmt.Sprint(v)
 		}
-- 
2.43.0


From b3973ccb746126d71fbca766efccf8029291f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 22/97] fix: the end of a CSV file is not an error

---
 simple/csv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple/csv.go b/simple/csv.go
index 8df92e5..89ff8fd 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"encoding/csv"
+	"io"
 	"os"
 
 	"github.com/pbnjay/grate"
@@ -33,7 +34,7 @@ func OpenCSV(filename string) (grate.Source, error) {
 		total++
 		t.rows = append(t.rows, rec)
 	}
-	if err != nil {
+	if err != io.EOF {
 		switch perr := err.(type) {
 		case *csv.ParseError:
 			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
-- 
2.43.0


From 61d1289e7dd1dd89fa591a23d42031873e77817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 23/97] fix: a file without any tab is not in TSV format

---
 simple/tsv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple/tsv.go b/simple/tsv.go
index ae51707..3124a7d 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -50,7 +50,8 @@ func OpenTSV(filename string) (grate.Source, error) {
 			looksGood = 1
 		}
 	}
-	if looksGood == 1 {
+	if looksGood == 1 || ncols[1] == total {
+		// irregular, or there is no tab at all
 		return t, grate.ErrNotInFormat
 	}
 
-- 
2.43.0


From c5e14498003583f4a1251d11d47b5be7c1feb071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 24/97] fix: read lines longer than 64KB

---
 simple/tsv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simple/tsv.go b/simple/tsv.go
index 3124a7d..957b067 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"bufio"
+	"math"
 	"os"
 	"strings"
 
@@ -24,6 +25,7 @@ func OpenTSV(filename string) (grate.Source, error) {
 	}
 
 	s := bufio.NewScanner(f)
+	s.Buffer(nil, math.MaxInt32) // no limit on the length of lines
 	total := 0
 	ncols := make(map[int]int)
 	for s.Scan() {
-- 
2.43.0


From 45067243809d5d67784165bf8561d891174d0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 25/97] fix: delimited files with only blank values are empty

---
 simple/simple.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simple/simple.go b/simple/simple.go
index b26669e..febaf48 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -109,7 +109,14 @@ func (t *simpleFile) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (t *simpleFile) IsEmpty() bool {
-	return len(t.rows) == 0
+	for _, row := range t.rows {
+		for _, v := range row {
+			if v != "" {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From 8ba00ca401e0c3c6d45788d9778d975457542e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 26/97] fix: every Get of a delimited file gives its own
 collection, none after Close

---
 simple/simple.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simple/simple.go b/simple/simple.go
index febaf48..f1deaab 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -16,6 +16,7 @@ type simpleFile struct {
 	filename string
 	rows     [][]string
 	iterRow  int
+	closed   bool
 }
 
 // List the individual data tables within this source.
@@ -24,12 +25,17 @@ func (t *simpleFile) List() ([]string, error) {
 }
 
 func (t *simpleFile) Close() error {
+	t.closed = true
+	t.rows = nil
 	return nil
 }
 
 // Get a Collection from the source by name.
 func (t *simpleFile) Get(name string) (grate.Collection, error) {
-	return t, nil
+	if t.closed {
+		return nil, errors.New("grate/simple: file is closed")
+	}
+	return &simpleFile{filename: t.filename, rows: t.rows, iterRow: -1}, nil
 }
 
 // Next advances to the next record of content.
-- 
2.43.0


From 567c07d232983290e3e3e42690b83f9943d4cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 27/97] fix: WrapErr keeps all of its errors visible to
 errors.Is

---
 errs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/errs.go b/errs.go
index 784a551..9c32d92 100644
--- a/errs.go
+++ b/errs.go
@@ -35,6 +35,16 @@ func (e errx) Unwrap() error {
 	return nil
 }
 
+// Is reports whether any of the wrapped errors matches the target.
+func (e errx) Is(target error) bool {
+	for _, err := range e.errs {
+		if errors.Is(err, target) {
+			return true
+		}
+	}
+	return false
+}
+
 // WrapErr wraps a set of errors.
 func WrapErr(e ...error) error {
 	if len(e) == 1 {
-- 
2.43.0


From befc00013a807438bf5bcc4990afae9a1840f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 28/97] fix: xls: RK hundredths of integers decode to their
 value instead of 0

---
 xls/structs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xls/structs.go b/xls/structs.go
index c8d49a7..d72448f 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -96,7 +96,10 @@ func (r RKNumber) Float64() float64 {
 	if (r&1) != 0 && (r&2) == 0 {
 		return v2 / 100.0
 	}
-	return 0.0
+	if (r&1) == 0 {
+		return float64(val)
+	}
+	return float64(val) / 100.0
 }
 
 func (r RKNumber) String() string {
-- 
2.43.0


From 535ddcd778833a25cce4e433538661c66cd93431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 29/97] fix: xls: shared string index one past the table is an
 error, not a crash

---
 xls/sheets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7f30402..0660c40 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -309,7 +309,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			sstIndex := int(binary.LittleEndian.Uint32(r.Data[6:]))
-			if sstIndex > len(b.strings) {
+			if sstIndex >= len(b.strings) {
 				return nil, errors.New("xls: invalid sst index")
 			}
 			var fno uint16
-- 
2.43.0


From e2e36f4facbd15c3f5905e608a81369cf8a37a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 30/97] fix: xls: dialog sheets are recognized by the fDialog
 bit and yield an empty collection

---
 xls/sheets.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 0660c40..579ebfe 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -72,9 +72,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 		case RecTypeWsBool:
-			if (r.Data[1] & 0x10) != 0 {
-				// it's a dialog
-				return nil, nil
+			if (r.Data[0] & 0x10) != 0 {
+				// it's a dialog, there are no cells to extract
+				return res, nil
 			}
 
 		case RecTypeDimensions:
-- 
2.43.0


From eb288be86c15d5480c1e4e7cd6f7d99407986786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 31/97] fix: xls: content embedded in a sheet may itself embed
 content

---
 xls/sheets.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 579ebfe..15ec596 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -57,7 +57,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	inSubstream := 0
 	for idx, r := range b.substreams[ss] {
 		if inSubstream > 0 {
-			if r.RecType == RecTypeEOF {
+			if r.RecType == RecTypeBOF {
+				inSubstream++
+			} else if r.RecType == RecTypeEOF {
 				inSubstream--
 			}
 			continue
@@ -103,7 +105,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	var formulaRow, formulaCol uint16
 	for ridx, r := range b.substreams[ss] {
 		if inSubstream > 0 {
-			if r.RecType == RecTypeEOF {
+			if r.RecType == RecTypeBOF {
+				inSubstream++
+			} else if r.RecType == RecTypeEOF {
 				inSubstream--
 			} else if grate.Debug {
 				log.Println("      Unhandled sheet substream record type:", r.RecType, ridx)
-- 
2.43.0


From 73037f166ebb3e6853b777920901cf0da2a9fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 32/97] fix: xls: a sheet whose position designates no content
 is an error, not the workbook globals

---
 xls/sheets.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 15ec596..616c2c8 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -37,7 +37,10 @@ func (b *WorkBook) ListHidden() ([]string, error) {
 func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
 	for _, s := range b.sheets {
 		if s.Name == sheetName {
-			ss := b.pos2substream[int64(s.Position)]
+			ss, ok := b.pos2substream[int64(s.Position)]
+			if !ok {
+				return nil, errors.New("xls: sheet content not found")
+			}
 			return b.parseSheet(s, ss)
 		}
 	}
-- 
2.43.0


From fd41017a7ad68f088b55be52b946f567863b3a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 33/97] fix: xls: getting a sheet from a closed workbook is an
 error, not a crash

---
 xls/sheets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index 616c2c8..c3aa46c 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -35,6 +35,9 @@ func (b *WorkBook) ListHidden() ([]string, error) {
 
 // Get opens the named worksheet and return an iterator for its contents.
 func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
+	if len(b.substreams) == 0 {
+		return nil, errors.New("xls: workbook is closed")
+	}
 	for _, s := range b.sheets {
 		if s.Name == sheetName {
 			ss, ok := b.pos2substream[int64(s.Position)]
-- 
2.43.0


From 8adccd7cf6caa5e625ac3098279e728c17b613c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 34/97] fix: xls: streams that are not BIFF8 are reported
 instead of crashing

---
 xls/xls.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xls/xls.go b/xls/xls.go
index 15ff55c..62d7fa0 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -204,6 +204,10 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			}
 			nestedBOF++
 		}
+		if substr < 0 {
+			// not a BIFF stream
+			return grate.ErrNotInFormat
+		}
 		b.fpos += int64(4 + len(nr.Data))
 
 		// if there's a FilePass record, the data is encrypted
@@ -268,6 +272,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 				// done
 
 			case RecTypeBOF:
+				if len(nr.Data) < 16 {
+					return errors.New("xls: invalid file version")
+				}
 				b.h = &header{
 					Version:  binary.LittleEndian.Uint16(nr.Data[0:2]),
 					DocType:  binary.LittleEndian.Uint16(nr.Data[2:4]),
-- 
2.43.0


From 72e0730801503789d8144ae480b8a3392ae5c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 35/97] fix: xls: obfuscated workbooks keep their last record
 and report cut-off ones

---
 xls/xls.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xls/xls.go b/xls/xls.go
index 62d7fa0..739c59e 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -108,12 +108,15 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	replaceBlocks := []overlay{}
 
 	var err error
-	for err == nil && len(raw[pos:]) > 4 {
+	for err == nil && len(raw[pos:]) >= 4 {
 		o := overlay{}
 		o.Pos = pos
 		o.RecType = recordType(binary.LittleEndian.Uint16(raw[pos : pos+2]))
 		o.DataBytes = binary.LittleEndian.Uint16(raw[pos+2 : pos+4])
 		pos += 4
+		if len(raw[pos:]) < int(o.DataBytes) {
+			return io.ErrUnexpectedEOF
+		}
 
 		// copy to output and decryption stream
 		binary.Write(dec, binary.LittleEndian, o.RecType)
@@ -130,6 +133,9 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 
 		case RecTypeBoundSheet8:
 			// copy 32-bit position to output
+			if tocopy < 4 {
+				return io.ErrUnexpectedEOF
+			}
 			o.Data = raw[pos : pos+4]
 			pos += 4
 			dec.Write(zeros[:4])
@@ -212,6 +218,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 		// if there's a FilePass record, the data is encrypted
 		if nr.RecType == RecTypeFilePass && !isDecrypted {
+			if len(nr.Data) < 2 {
+				return io.ErrUnexpectedEOF
+			}
 			etype := binary.LittleEndian.Uint16(nr.Data)
 			switch etype {
 			case 1:
-- 
2.43.0


From 8a45202582867c07b4fc12ef839909e9a134f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 36/97] fix: xls: a shared string may leave one byte of
 formatting data before the record ends

---
 xls/strings.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/xls/strings.go b/xls/strings.go
index ae96981..990ca51 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -170,15 +170,6 @@ func parseSST(recs []*rec) ([]string, error) {
 			}
 
 			///////
-			blx := len(buf)
-			bly := len(buf) - 5
-			if blx > 5 {
-				blx = 5
-			}
-			if bly < 0 {
-				bly = 0
-			}
-
 			// this block will read the string data, but transparently
 			// handle continuing across records
 			if int(slen) > cap(current) {
@@ -187,8 +178,11 @@ func parseSST(recs []*rec) ([]string, error) {
 				current = current[:slen]
 			}
 			for j := 0; j < int(slen); j++ {
-				if len(buf) == 0 {
+				for len(buf) == 0 {
 					i++
+					if i >= len(recs) || len(recs[i].Data) == 0 {
+						return nil, io.ErrUnexpectedEOF
+					}
 					if (recs[i].Data[0] & 1) == 0 {
 						flags &= 0xFE
 					} else {
@@ -201,11 +195,11 @@ func parseSST(recs []*rec) ([]string, error) {
 					current[j] = uint16(buf[0])
 					buf = buf[1:]
 				} else { //16-bit
-					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
-					buf = buf[2:]
 					if len(buf) == 1 {
 						return nil, errors.New("xls: off by one")
 					}
+					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
+					buf = buf[2:]
 				}
 			}
 
-- 
2.43.0


From 7486095e03033a6c5e2c100829008a8adb53a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 37/97] fix: xls: formula text results keep every character
 across continuation records and encodings

---
 xls/sheets.go  | 48 +++++++++---------------------------------------
 xls/strings.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 39 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index c3aa46c..cf1e8f7 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -58,7 +58,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	var minCol, maxCol uint16
 
 	// temporary string buffer
-	us := make([]uint16, 8224)
+	us := make([]uint16, 0, 8224)
 
 	inSubstream := 0
 	for idx, r := range b.substreams[ss] {
@@ -270,47 +270,17 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			// at each gap indicates if the encoding switches
 			// to/from 8/16-bit characters.
 
-			charCount := binary.LittleEndian.Uint16(r.Data[:2])
-			flags := r.Data[2]
-			fstr := ""
-			if (flags & 1) == 0 {
-				fstr = string(r.Data[3:])
-			} else {
-				raw := r.Data[3:]
-				if int(charCount) > cap(us) {
-					us = make([]uint16, charCount)
-				}
-				us = us[:charCount]
-				for i := 0; i < int(charCount); i++ {
-					us[i] = binary.LittleEndian.Uint16(raw)
-					raw = raw[2:]
-				}
-				fstr = string(utf16.Decode(us))
-			}
+			charCount := int(binary.LittleEndian.Uint16(r.Data[:2]))
+			us = appendXLChars(us[:0], r.Data[2:], charCount)
 
-			if (ridx + 1) < len(b.substreams[ss]) {
-				ridx2 := ridx + 1
-				nrecs := len(b.substreams[ss])
-				for ridx2 < nrecs {
-					r2 := b.substreams[ss][ridx2]
-					if r2.RecType != RecTypeContinue {
-						break
-					}
-					if (r2.Data[0] & 1) == 0 {
-						fstr += string(r2.Data[1:])
-					} else {
-						raw := r2.Data[1:]
-						slen := len(raw) / 2
-						us = us[:slen]
-						for i := 0; i < slen; i++ {
-							us[i] = binary.LittleEndian.Uint16(raw)
-							raw = raw[2:]
-						}
-						fstr += string(utf16.Decode(us))
-					}
-					ridx2++
+			for ridx2 := ridx + 1; ridx2 < len(b.substreams[ss]) && len(us) < charCount; ridx2++ {
+				r2 := b.substreams[ss][ridx2]
+				if r2.RecType != RecTypeContinue {
+					break
 				}
+				us = appendXLChars(us, r2.Data, charCount)
 			}
+			fstr := string(utf16.Decode(us))
 			res.Set(int(formulaRow), int(formulaCol), fstr)
 			//log.Printf("String direct: %d %d '%s'", int(formulaRow), int(formulaCol), fstr)
 
diff --git a/xls/strings.go b/xls/strings.go
index 990ca51..ce71d37 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -60,6 +60,34 @@ func decodeXLUnicodeString(raw []byte) (string, int, error) {
 	return string(utf16.Decode(content)), cch, nil
 }
 
+// appendXLChars appends the characters of one record's part of a string, which
+// starts with a flag byte giving their encoding, up to a total of max characters.
+func appendXLChars(us []uint16, raw []byte, max int) []uint16 {
+	if len(raw) == 0 {
+		return us
+	}
+	flags := raw[0]
+	raw = raw[1:]
+	for len(us) < max {
+		if (flags & 1) == 0 {
+			// 16-bit characters but only the bottom 8bits
+			if len(raw) < 1 {
+				break
+			}
+			us = append(us, uint16(raw[0]))
+			raw = raw[1:]
+		} else {
+			// 16-bit characters
+			if len(raw) < 2 {
+				break
+			}
+			us = append(us, binary.LittleEndian.Uint16(raw))
+			raw = raw[2:]
+		}
+	}
+	return us
+}
+
 // 2.5.293
 func decodeXLUnicodeRichExtendedString(r io.Reader) (string, error) {
 	var cch, cRun uint16
-- 
2.43.0


From 08bf41f562be4a48d8cf1682fd5ccc10ecbf9306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 38/97] fix: xls: hyperlinks with a location keep their target

---
 xls/hyperlinks.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index 894bd45..d5eca90 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -65,7 +65,12 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 			us[i] = binary.LittleEndian.Uint16(raw)
 			raw = raw[2:]
 		}
-		linkText = string(utf16.Decode(us))
+		location := string(utf16.Decode(us))
+		if target := strings.Trim(linkText, " \v\f\t\r\n\x00"); target != "" {
+			// a location within the target
+			location = target + "#" + location
+		}
+		linkText = location
 	}
 
 	linkText = strings.Trim(linkText, " \v\f\t\r\n\x00")
-- 
2.43.0


From 17c643be9f5c5ab11b16111e55cf91609863712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 39/97] fix: xls: the 1904 date system of a workbook applies to
 its dates

---
 xls/xls.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xls/xls.go b/xls/xls.go
index 739c59e..0335251 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -312,6 +312,7 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 			case RecTypeDate1904:
 				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
+				b.nfmt.Mode1904(b.dateMode == 1)
 
 			case RecTypeFormat:
 				// Format maps a format ID to a code string
-- 
2.43.0


From d3ab8b681927343992a87c15c370e9ca6b1ec84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 40/97] fix: a boolean under a date format is rendered as TRUE
 or FALSE

---
 commonxl/dates.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index e4cb6d0..e4c2762 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -50,14 +50,24 @@ func dayFraction(frac float64) time.Duration {
 	return time.Duration(math.Round(frac*24*60*60*1000)) * time.Millisecond
 }
 
+// dateSerial gives the serial number to render as a date: text and booleans
+// are not dates even when they can be converted to a number.
+func dateSerial(v interface{}) (float64, bool) {
+	switch v.(type) {
+	case string, bool:
+		return 0, false
+	}
+	return convertToFloat64(v)
+}
+
 func timeFmtFunc(f string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		t, ok := v.(time.Time)
 		if !ok {
-			fval, ok := convertToFloat64(v)
-			if _, isText := v.(string); isText || !ok {
+			fval, ok := dateSerial(v)
+			if !ok {
 				// strings etc returned as-is
-				return fmt.Sprint(v)
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
@@ -73,10 +83,10 @@ func elapsedFmtFunc(rest string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		t, ok := v.(time.Time)
 		if !ok {
-			fval, ok := convertToFloat64(v)
-			if _, isText := v.(string); isText || !ok {
+			fval, ok := dateSerial(v)
+			if !ok {
 				// strings etc returned as-is
-				return fmt.Sprint(v)
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
@@ -92,10 +102,10 @@ func cnTimeFmtFunc(f string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		t, ok := v.(time.Time)
 		if !ok {
-			fval, ok := convertToFloat64(v)
-			if _, isText := v.(string); isText || !ok {
+			fval, ok := dateSerial(v)
+			if !ok {
 				// strings etc returned as-is
-				return fmt.Sprint(v)
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
-- 
2.43.0


From 003f03883ac54117bfd9d3cd6ee1134d217cd2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 41/97] fix: xlsx cells take only their own value text, whole

---
 xlsx/sheets.go | 93 +++++++++++++++++++++++++++++---------------------
 1 file changed, 54 insertions(+), 39 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index fc9c76b..88789e6 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -57,6 +57,8 @@ func (s *Sheet) parseSheet() error {
 
 	currentCellType := BlankCellType
 	currentCell := ""
+	cellText := ""
+	inText, inPhonetic := false, false
 	var fno uint16
 	var maxCol, maxRow int
 
@@ -64,44 +66,10 @@ func (s *Sheet) parseSheet() error {
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			if currentCell == "" {
-				continue
-			}
-			c, r := refToIndexes(currentCell)
-			if c >= 0 && r >= 0 {
-				var val interface{} = string(v)
-
-				switch currentCellType {
-				case BooleanCellType:
-					if v[0] == '1' {
-						val = true
-					} else {
-						val = false
-					}
-				case DateCellType:
-					log.Println("CELL DATE", val, fno)
-				case NumberCellType:
-					fval, err := strconv.ParseFloat(string(v), 64)
-					if err == nil {
-						val = fval
-					}
-					//log.Println("CELL NUMBER", val, numFormat)
-				case SharedStringCellType:
-					//log.Println("CELL SHSTR", val, currentCellType, numFormat)
-					si, _ := strconv.ParseInt(string(v), 10, 64)
-					val = s.d.strings[si]
-				case BlankCellType:
-					//log.Println("CELL BLANK")
-					// don't place any values
-					continue
-				case ErrorCellType, FormulaStringCellType, InlineStringCellType:
-					//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
-				default:
-					log.Println("CELL UNKNOWN", val, currentCellType, fno)
-				}
-				s.wrapped.Put(r, c, val, fno)
-			} else {
-				//log.Println("FAIL row/col: ", currentCell)
+			// NB one element's text can be divided over several tokens, and there
+			// are others (formulas, white space) that are not the cell's value
+			if inText && !inPhonetic {
+				cellText += string(v)
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -132,6 +100,7 @@ func (s *Sheet) parseSheet() error {
 					currentCellType = NumberCellType
 				}
 				currentCell = ax[1] // always an A1 style reference
+				cellText = ""
 				style := ax[2]
 				sid, _ := strconv.ParseInt(style, 10, 64)
 				if len(s.d.xfs) > int(sid) {
@@ -140,8 +109,11 @@ func (s *Sheet) parseSheet() error {
 					fno = 0
 				}
 				//log.Println("CELL", currentCell, sid, numFormat, currentCellType)
-			case "v":
+			case "v", "t":
 				//log.Println("CELL VALUE", ax)
+				inText = true
+			case "rPh":
+				inPhonetic = true
 
 			case "mergeCell":
 				ax := getAttrs(v.Attr, "ref")
@@ -197,7 +169,15 @@ func (s *Sheet) parseSheet() error {
 
 			switch v.Name.Local {
 			case "c":
+				err := s.putCell(currentCell, currentCellType, cellText, fno)
+				if err != nil {
+					return err
+				}
 				currentCell = ""
+			case "v", "t":
+				inText = false
+			case "rPh":
+				inPhonetic = false
 			case "row":
 				//currentRow = ""
 			}
@@ -212,3 +192,38 @@ func (s *Sheet) parseSheet() error {
 	}
 	return err
 }
+
+// putCell stores the value that a cell's complete text denotes.
+func (s *Sheet) putCell(ref string, ct CellType, text string, fno uint16) error {
+	c, r := refToIndexes(ref)
+	if text == "" || c < 0 || r < 0 {
+		return nil
+	}
+
+	var val interface{} = text
+	switch ct {
+	case BooleanCellType:
+		val = text == "1" || text == "true"
+	case DateCellType:
+		log.Println("CELL DATE", val, fno)
+	case NumberCellType:
+		fval, err := strconv.ParseFloat(text, 64)
+		if err == nil {
+			val = fval
+		}
+		//log.Println("CELL NUMBER", val, numFormat)
+	case SharedStringCellType:
+		//log.Println("CELL SHSTR", val, currentCellType, numFormat)
+		si, err := strconv.Atoi(strings.TrimSpace(text))
+		if err != nil || si < 0 || si >= len(s.d.strings) {
+			return errors.New("xlsx: invalid shared string index")
+		}
+		val = s.d.strings[si]
+	case ErrorCellType, FormulaStringCellType, InlineStringCellType:
+		//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
+	default:
+		log.Println("CELL UNKNOWN", val, ct, fno)
+	}
+	s.wrapped.Put(r, c, val, fno)
+	return nil
+}
-- 
2.43.0


From 29c6f5cde179a509305693828f58900b8ff339f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:29 +0000
Subject: [PATCH 42/97] fix: xlsx shared strings hold only the text of their
 runs

---
 xlsx/workbook.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index d789562..ae5ed45 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -183,17 +183,24 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 
 func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 	val := ""
+	inText, inPhonetic := false, false
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			val += string(v)
+			if inText && !inPhonetic {
+				val += string(v)
+			}
 		case xml.StartElement:
 			switch v.Name.Local {
 			case "si":
 				val = ""
 			case "t":
 				// no attributes to parse, we only want the CharData ...
+				inText = true
+			case "rPh":
+				// phonetic annotations are not part of the text
+				inPhonetic = true
 			case "sst":
 				// main container
 			default:
@@ -202,9 +209,13 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 				}
 			}
 		case xml.EndElement:
-			if v.Name.Local == "si" {
+			switch v.Name.Local {
+			case "si":
 				d.strings = append(d.strings, val)
-				continue
+			case "t":
+				inText = false
+			case "rPh":
+				inPhonetic = false
 			}
 		default:
 			if grate.Debug {
-- 
2.43.0


From 74570804300b20e1eccffb6df36f56c3866d48bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 43/97] fix: xlsx links over a region, and links inside the
 document

---
 xlsx/sheets.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 88789e6..fd2e297 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -151,8 +151,13 @@ func (s *Sheet) parseSheet() error {
 
 			case "hyperlink":
 				ax := getAttrs(v.Attr, "ref", "id")
-				col, row := refToIndexes(ax[0])
-				link := linkmap[ax[1]]
+				// a region's link belongs to its top-left cell
+				col, row := refToIndexes(strings.Split(ax[0], ":")[0])
+				link, external := linkmap[ax[1]]
+				if !external || col < 0 || row < 0 {
+					// links inside the document leave the cell as it is
+					continue
+				}
 				s.wrapped.Put(row, col, link, 0)
 				s.wrapped.SetURL(row, col, link)
 
-- 
2.43.0


From 3d82c649a9dea3a211216cafaff3a42ef5521ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 44/97] fix: xlsx merged regions reach exactly to the used
 area, with or without a dimension

---
 xlsx/sheets.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index fd2e297..bc97599 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -76,7 +76,6 @@ func (s *Sheet) parseSheet() error {
 			case "dimension":
 				ax := getAttrs(v.Attr, "ref")
 				if ax[0] == "A1" {
-					maxCol, maxRow = 1, 1
 					// short-circuit empty sheet
 					s.wrapped.Resize(1, 1)
 					continue
@@ -123,6 +122,13 @@ func (s *Sheet) parseSheet() error {
 				if len(dims) > 1 {
 					endCol, endRow = refToIndexes(dims[1])
 				}
+				// NB the dimension is optional, and may be smaller than the content
+				if maxRow < s.wrapped.NumRows-1 {
+					maxRow = s.wrapped.NumRows - 1
+				}
+				if maxCol < s.wrapped.NumCols-1 {
+					maxCol = s.wrapped.NumCols - 1
+				}
 				if endRow > maxRow {
 					endRow = maxRow
 				}
-- 
2.43.0


From 2ffa199eefad0595151f3c5b418721fbb019881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 45/97] fix: xlsx workbook part given by an absolute target

---
 xlsx/workbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index ae5ed45..52fd478 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -35,7 +35,7 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
 				}
 				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
-					d.primaryDoc = vals["Target"]
+					d.primaryDoc = d.rels[vals["Type"]][vals["Id"]]
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 8464c096d2c75c6f8d891c77ab2a0ae9c71a337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 46/97] fix: the 1904 date system of xlsx workbooks is applied

---
 xlsx/workbook.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 52fd478..ae2c7ac 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -80,6 +80,9 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 					err:     errNotLoaded,
 				}
 				d.sheets = append(d.sheets, s)
+			case "workbookPr":
+				ax := getAttrs(v.Attr, "date1904")
+				d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
 			case "workbook", "sheets":
 				// containers
 			default:
-- 
2.43.0


From fb19d616cbc6d0ea4bf5ad05d73aeeb706aa7583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 47/97] fix: applyNumberFormat="false" switches a number format
 off like "0"

---
 xlsx/workbook.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index ae2c7ac..ffa8f83 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -133,7 +133,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				ax := getAttrs(v.Attr, "numFmtId", "applyNumberFormat", "xfId")
 				if section == 1 {
 					// load base styles, but only save number format
-					if ax[1] == "0" {
+					if ax[1] == "0" || ax[1] == "false" {
 						baseNumFormats = append(baseNumFormats, "0")
 					} else {
 						baseNumFormats = append(baseNumFormats, ax[0])
@@ -148,7 +148,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 					}
 
 					// 2) check if this XF overrides the base format
-					if ax[1] == "0" {
+					if ax[1] == "0" || ax[1] == "false" {
 						// remove the format (if it was inherited)
 						numFmtID = "0"
 					} else {
-- 
2.43.0


From ae33abde063893b9044d14eaeddd0fd5a3e6e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 48/97] fix: compound files are closed once they are loaded

---
 xls/cfb/interface.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index ec5a6a9..26bd0af 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -13,6 +13,7 @@ func Open(filename string) (*Document, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	err = d.load(f)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 71977cf481da12a45bac00a8727791b79a94f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 49/97] fix: xlsx files are closed when opening them fails

---
 xlsx/xlsx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 3d5eaad..3fab8a8 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -46,6 +46,15 @@ func Open(filename string) (grate.Source, error) {
 	if err != nil {
 		return nil, err
 	}
+	d, err := openDocument(filename, f)
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return d, nil
+}
+
+func openDocument(filename string, f *os.File) (*Document, error) {
 	info, err := f.Stat()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b00b44b4afe711f61eca26ecdff8727a394bbeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 50/97] fix: every xlsx Get gives an independent collection

---
 xlsx/sheets.go   | 4 ----
 xlsx/workbook.go | 1 -
 xlsx/xlsx.go     | 9 ++++++---
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index bc97599..723d0aa 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -19,13 +19,9 @@ type Sheet struct {
 	name    string
 	docname string
 
-	err error
-
 	wrapped *commonxl.Sheet
 }
 
-var errNotLoaded = errors.New("xlsx: sheet not loaded")
-
 func (s *Sheet) parseSheet() error {
 	s.wrapped = &commonxl.Sheet{
 		Formatter: &s.d.fmt,
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index ffa8f83..aac284e 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -77,7 +77,6 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 					relID:   sheetID,
 					name:    sheetName,
 					docname: d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet"][sheetID],
-					err:     errNotLoaded,
 				}
 				d.sheets = append(d.sheets, s)
 			case "workbookPr":
diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 3fab8a8..d542564 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -169,10 +169,13 @@ func (d *Document) List() ([]string, error) {
 func (d *Document) Get(sheetName string) (grate.Collection, error) {
 	for _, s := range d.sheets {
 		if s.name == sheetName {
-			if s.err == errNotLoaded {
-				s.err = s.parseSheet()
+			// every caller gets its own copy to iterate
+			c := *s
+			err := c.parseSheet()
+			if err != nil {
+				return nil, err
 			}
-			return s.wrapped, s.err
+			return c.wrapped, nil
 		}
 	}
 	return nil, errors.New("xlsx: sheet not found")
-- 
2.43.0


From 4f5049f72d3a1ab63192e0fbca200fc5b189db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 51/97] fix: grate2tsv works on a single CPU

---
 cmd/grate2tsv/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 61550e4..73d0945 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -119,6 +119,9 @@ func main() {
 	// (e.g. each file-processor can use 2 cpus)
 	outMu := &sync.Mutex{}
 	nparallel := runtime.NumCPU() / 2
+	if nparallel < 1 {
+		nparallel = 1
+	}
 	procWG.Add(nparallel)
 	for i := 0; i < nparallel; i++ {
 		go runProcessor(filenameChan, outMu)
-- 
2.43.0


From 91aeb69a779329a146daa8fee4f1daf90795ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 52/97] fix: grate2tsv removes newlines without trimming too

---
 cmd/grate2tsv/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 73d0945..8fe84d2 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -240,8 +240,8 @@ func processFile(fn string) ([]stats, error) {
 				}
 				if *trimSpaces {
 					x = strings.TrimSpace(x)
-					row[i] = x
 				}
+				row[i] = x
 				if x != "" {
 					nonblank = true
 					if ps.NumCols < i {
-- 
2.43.0


From 3394a2dd330130df22351b4c3db8b009729fc4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 53/97] fix: grate2tsv counts the last column

---
 cmd/grate2tsv/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 8fe84d2..b1d17ae 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -244,8 +244,8 @@ func processFile(fn string) ([]stats, error) {
 				row[i] = x
 				if x != "" {
 					nonblank = true
-					if ps.NumCols < i {
-						ps.NumCols = i
+					if ps.NumCols < i+1 {
+						ps.NumCols = i + 1
 					}
 				}
 			}
-- 
2.43.0


From 71af73255a7f7f8ddb740c97fd28413e22b849b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 54/97] fix: grate2tsv never overwrites one sheet's output with
 another's

---
 cmd/grate2tsv/main.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index b1d17ae..d153ccd 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -166,6 +166,24 @@ var (
 	newlines = regexp.MustCompile("[ \n\r\t]+")
 )
 
+var (
+	usedMu    sync.Mutex
+	usedNames = make(map[string]bool)
+)
+
+// outputName gives every sheet a file of its own, also when base names or
+// sanitized sheet names coincide.
+func outputName(base string) string {
+	usedMu.Lock()
+	defer usedMu.Unlock()
+	name := base + ".tsv"
+	for i := 2; usedNames[name]; i++ {
+		name = fmt.Sprintf("%s.%d.tsv", base, i)
+	}
+	usedNames[name] = true
+	return name
+}
+
 type stats struct {
 	Filename  string
 	Hash      string
@@ -221,7 +239,7 @@ func processFile(fn string) ([]stats, error) {
 		var ox *output
 		var w io.Writer = ioutil.Discard
 		if !*pretend {
-			f, err := os.Create(subdir + "/" + fn2 + "." + s2 + ".tsv")
+			f, err := os.Create(outputName(subdir + "/" + fn2 + "." + s2))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From fc661ce12effa62fa2202edc74251aafac766440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 55/97] fix: xls regions reaching "to the end" of an empty
 sheet cover nothing

---
 xls/sheets.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index cf1e8f7..a927055 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -303,9 +303,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 
 		case RecTypeHLink:
 			firstRow := binary.LittleEndian.Uint16(r.Data[:2])
-			lastRow := binary.LittleEndian.Uint16(r.Data[2:4])
+			lastRow := int(binary.LittleEndian.Uint16(r.Data[2:4]))
 			firstCol := binary.LittleEndian.Uint16(r.Data[4:6])
-			lastCol := binary.LittleEndian.Uint16(r.Data[6:])
+			lastCol := int(binary.LittleEndian.Uint16(r.Data[6:]))
 			if int(firstCol) > int(maxCol) {
 				//log.Println("invalid hyperlink column")
 				continue
@@ -315,10 +315,10 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 			if lastRow == 0xFFFF { // placeholder value indicate "last"
-				lastRow = uint16(maxRow) - 1
+				lastRow = int(maxRow) - 1
 			}
 			if lastCol == 0xFF { // placeholder value indicate "last"
-				lastCol = uint16(maxCol) - 1
+				lastCol = int(maxCol) - 1
 			}
 
 			// decode the hyperlink datastructure and try to find the
@@ -330,19 +330,19 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			}
 
 			// apply merge cell rules (see RecTypeMergeCells below)
-			for rn := int(firstRow); rn <= int(lastRow); rn++ {
-				for cn := int(firstCol); cn <= int(lastCol); cn++ {
+			for rn := int(firstRow); rn <= lastRow; rn++ {
+				for cn := int(firstCol); cn <= lastCol; cn++ {
 					if rn == int(firstRow) && cn == int(firstCol) {
 						// TODO: provide custom hooks for how to handle links in output
 						res.Put(rn, cn, displayText+" <"+linkText+">", 0)
 					} else if cn == int(firstCol) {
 						// first and last column MAY be the same
-						if rn == int(lastRow) {
+						if rn == lastRow {
 							res.Put(rn, cn, grate.EndRowMerged, 0)
 						} else {
 							res.Put(rn, cn, grate.ContinueRowMerged, 0)
 						}
-					} else if cn == int(lastCol) {
+					} else if cn == lastCol {
 						// first and last column are NOT the same
 						res.Put(rn, cn, grate.EndColumnMerged, 0)
 					} else {
@@ -367,29 +367,29 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			raw := r.Data[2:]
 			for i := 0; i < int(cmcs); i++ {
 				firstRow := binary.LittleEndian.Uint16(raw[:2])
-				lastRow := binary.LittleEndian.Uint16(raw[2:4])
+				lastRow := int(binary.LittleEndian.Uint16(raw[2:4]))
 				firstCol := binary.LittleEndian.Uint16(raw[4:6])
-				lastCol := binary.LittleEndian.Uint16(raw[6:])
+				lastCol := int(binary.LittleEndian.Uint16(raw[6:]))
 				raw = raw[8:]
 
 				if lastRow == 0xFFFF { // placeholder value indicate "last"
-					lastRow = uint16(maxRow) - 1
+					lastRow = int(maxRow) - 1
 				}
 				if lastCol == 0xFF { // placeholder value indicate "last"
-					lastCol = uint16(maxCol) - 1
+					lastCol = int(maxCol) - 1
 				}
-				for rn := int(firstRow); rn <= int(lastRow); rn++ {
-					for cn := int(firstCol); cn <= int(lastCol); cn++ {
+				for rn := int(firstRow); rn <= lastRow; rn++ {
+					for cn := int(firstCol); cn <= lastCol; cn++ {
 						if rn == int(firstRow) && cn == int(firstCol) {
 							// should be a value there already!
 						} else if cn == int(firstCol) {
 							// first and last column MAY be the same
-							if rn == int(lastRow) {
+							if rn == lastRow {
 								res.Put(rn, cn, grate.EndRowMerged, 0)
 							} else {
 								res.Put(rn, cn, grate.ContinueRowMerged, 0)
 							}
-						} else if cn == int(lastCol) {
+						} else if cn == lastCol {
 							// first and last column are NOT the same
 							res.Put(rn, cn, grate.EndColumnMerged, 0)
 						} else {
-- 
2.43.0


From f1d2a1ab118bcb1d1eeb10d852b4d9715e12f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 56/97] fix: xlsx number format ids above 32767 keep their own
 definition

They were parsed as 16-bit signed integers, so every larger id became 32767
and all of them shared the first definition (C15).
---
 xlsx/workbook.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index aac284e..d532751 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -117,7 +117,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				// container
 			case "numFmt":
 				ax := getAttrs(v.Attr, "numFmtId", "formatCode")
-				fmtNo, _ := strconv.ParseInt(ax[0], 10, 16)
+				fmtNo, _ := strconv.ParseUint(ax[0], 10, 16)
 				d.fmt.Add(uint16(fmtNo), ax[1])
 
 			case "cellStyleXfs":
@@ -154,7 +154,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 						numFmtID = ax[0]
 					}
 
-					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
+					nfid, _ := strconv.ParseUint(numFmtID, 10, 16)
 					d.xfs = append(d.xfs, uint16(nfid))
 				} else {
 					panic("wheres is this xf??")
-- 
2.43.0


From 66b898028baf7b048a13a32008bf5087b57a0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 57/97] fix: simple: records are handed out as copies

Strings returned the file's own row, so a caller that edited it (as grate2tsv
does) changed what later reads and other Collections of the file delivered
(C02, C18).
---
 simple/simple.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple/simple.go b/simple/simple.go
index f1deaab..2e9a430 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -47,7 +47,8 @@ func (t *simpleFile) Next() bool {
 
 // Strings extracts values from the current record into a list of strings.
 func (t *simpleFile) Strings() []string {
-	return t.rows[t.iterRow]
+	// NB the rows are shared with other Collections, and with later calls
+	return append([]string{}, t.rows[t.iterRow]...)
 }
 
 // Formats extracts the format code for the current record into a list.
-- 
2.43.0


From 5313cf412ad8aa5d7426deaacd1e9531d3266402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 58/97] fix: uint values above the int64 range become floats,
 not negative integers

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 1003144..1b9f057 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -251,7 +251,7 @@ func NewCell(value interface{}) Cell {
 		c[1] = IntegerCell
 
 	case uint:
-		if int64(v) > int64(math.MaxInt64) {
+		if uint64(v) > math.MaxInt64 {
 			c[0] = float64(v)
 			c[1] = FloatCell
 		} else {
-- 
2.43.0


From 473c5ce76a55064aba200aeccf94213ec86d63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 59/97] fix: a sheet's cells are allocated when filled, not for
 the whole area of its dimensions

---
 commonxl/sheet.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 5ad4c0e..d6af58a 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -20,18 +20,8 @@ type Sheet struct {
 
 // Resize the sheet for the number of rows and cols given.
 // Newly added cells default to blank.
+// Cells are allocated when they are filled.
 func (s *Sheet) Resize(rows, cols int) {
-	for i := range s.Rows {
-		if i > rows {
-			break
-		}
-		n := cols - len(s.Rows[i])
-		if n <= 0 {
-			continue
-		}
-		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
-	}
-
 	if rows <= 0 {
 		rows = 1
 	}
@@ -42,11 +32,27 @@ func (s *Sheet) Resize(rows, cols int) {
 	s.NumRows = rows
 	s.NumCols = cols
 
-	for rows >= len(s.Rows) {
-		s.Rows = append(s.Rows, make([]Cell, cols))
+	if n := rows + 1 - len(s.Rows); n > 0 {
+		s.Rows = append(s.Rows, make([][]Cell, n)...)
 	}
 }
 
+// widen makes sure that the cell location given is allocated.
+func (s *Sheet) widen(row, col int) {
+	if n := col + 1 - len(s.Rows[row]); n > 0 {
+		s.Rows[row] = append(s.Rows[row], make([]Cell, n)...)
+	}
+}
+
+// record returns the cells of the current row, one for every column.
+func (s *Sheet) record() []Cell {
+	row := s.Rows[s.CurRow-1]
+	if n := s.NumCols - len(row); n > 0 {
+		row = append(row[:len(row):len(row)], make([]Cell, n)...)
+	}
+	return row[:s.NumCols]
+}
+
 // Put the value at the cell location given.
 func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	//log.Println(row, col, value, fmtNum)
@@ -66,6 +72,7 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 		}
 		s.Resize(s.NumRows, s.NumCols)
 	}
+	s.widen(row, col)
 
 	if spec, ok := value.(string); ok {
 		if spec == grate.EndRowMerged || spec == grate.EndColumnMerged || spec == grate.ContinueRowMerged || spec == grate.ContinueColumnMerged {
@@ -91,6 +98,7 @@ func (s *Sheet) Set(row, col int, value interface{}) {
 		log.Println("grate: cell out of bounds")
 		return
 	}
+	s.widen(row, col)
 
 	if len(s.Rows[row][col]) == 0 {
 		s.Rows[row][col] = NewCell("")
@@ -105,6 +113,7 @@ func (s *Sheet) SetURL(row, col int, link string) {
 		log.Println("grate: cell out of bounds")
 		return
 	}
+	s.widen(row, col)
 
 	s.Rows[row][col].SetURL(link)
 }
@@ -122,7 +131,7 @@ func (s *Sheet) Next() bool {
 // Raw extracts the raw Cell interfaces underlying the current row.
 func (s *Sheet) Raw() []Cell {
 	rr := make([]Cell, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
+	for i, cell := range s.record() {
 		rr[i] = cell.Clone()
 	}
 	return rr
@@ -131,7 +140,7 @@ func (s *Sheet) Raw() []Cell {
 // Strings extracts values from the current record into a list of strings.
 func (s *Sheet) Strings() []string {
 	res := make([]string, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
+	for i, cell := range s.record() {
 		if cell.Type() == BlankCell {
 			res[i] = ""
 			continue
@@ -155,7 +164,7 @@ func (s *Sheet) Strings() []string {
 // and special cases: "blank", "hyperlink" which are string types
 func (s *Sheet) Types() []string {
 	res := make([]string, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
+	for i, cell := range s.record() {
 		res[i] = cell.Type().String()
 	}
 	return res
@@ -165,7 +174,7 @@ func (s *Sheet) Types() []string {
 func (s *Sheet) Formats() []string {
 	ok := true
 	res := make([]string, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
+	for i, cell := range s.record() {
 		res[i], ok = builtInFormats[cell.FormatNo()]
 		if !ok {
 			res[i] = fmt.Sprint(cell.FormatNo())
@@ -179,7 +188,7 @@ func (s *Sheet) Formats() []string {
 //     bool, int64, float64, string, or time.Time
 // If invalid, returns ErrInvalidScanType
 func (s *Sheet) Scan(args ...interface{}) error {
-	row := s.Rows[s.CurRow-1]
+	row := s.record()
 	if len(args) > len(row) {
 		return fmt.Errorf("scan has %d destinations, but the record has %d columns", len(args), len(row))
 	}
-- 
2.43.0


From 53755d79606f54f0a347a2195d5da4a2affb23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 60/97] fix: xls: records of 65532 bytes and more are cut
 correctly

---
 xls/xls.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xls/xls.go b/xls/xls.go
index 0335251..812695d 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -372,6 +372,6 @@ func (b *WorkBook) nextRecord(raw []byte) (*rec, int, error) {
 		recPool.Put(rec)
 		return nil, 4, io.ErrUnexpectedEOF
 	}
-	rec.Data = raw[4 : 4+rec.RecSize]
-	return rec, int(4 + rec.RecSize), nil
+	rec.Data = raw[4 : 4+int(rec.RecSize)]
+	return rec, 4 + int(rec.RecSize), nil
 }
-- 
2.43.0


From e2c72e7a03d55ecda8ef342b5eaa49db23335748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 61/97] fix: xls: clear records of any size in an encrypted
 stream

---
 xls/xls.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xls/xls.go b/xls/xls.go
index 812695d..6a7b375 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"io"
 	"log"
+	"math"
 	"sync"
 
 	"github.com/pbnjay/grate"
@@ -96,7 +97,7 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	}
 
 	pos := 0
-	zeros := [8224]byte{}
+	zeros := make([]byte, math.MaxUint16)
 
 	type overlay struct {
 		Pos int
-- 
2.43.0


From 82a4886b4a2405627291c6685c8e6f033470b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 62/97] fix: xls: a string record only gives the text of a
 formula that awaits one

---
 xls/sheets.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index a927055..2895373 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -109,6 +109,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	inSubstream = 0
 
 	var formulaRow, formulaCol uint16
+	formulaText := false // the last formula's text is still to come
 	for ridx, r := range b.substreams[ss] {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeBOF {
@@ -225,6 +226,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		case RecTypeFormula:
 			formulaRow = binary.LittleEndian.Uint16(r.Data[:2])
 			formulaCol = binary.LittleEndian.Uint16(r.Data[2:4])
+			formulaText = false
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			fdata := r.Data[6:]
 			var fno uint16
@@ -236,6 +238,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				case 0:
 					// string in next record
 					// put placeholder now to record the numFmt
+					formulaText = true
 					res.Put(int(formulaRow), int(formulaCol), "", fno)
 				case 1:
 					// boolean
@@ -269,6 +272,10 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			// addition records up to 32k characters. A 1-byte flag
 			// at each gap indicates if the encoding switches
 			// to/from 8/16-bit characters.
+			if !formulaText {
+				continue
+			}
+			formulaText = false
 
 			charCount := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			us = appendXLChars(us[:0], r.Data[2:], charCount)
-- 
2.43.0


From 37ec5d57d78bc25f6a34de268648417e1391eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 63/97] fix: xls: a stray EOF record does not join the sheets
 that follow

---
 xls/xls.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xls/xls.go b/xls/xls.go
index 6a7b375..1626a05 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -201,7 +201,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 		raw = raw[no:]
 		switch nr.RecType {
 		case RecTypeEOF:
-			nestedBOF--
+			if nestedBOF > 0 {
+				nestedBOF--
+			}
 		case RecTypeBOF:
 			// when substreams are nested, keep them in the same grouping
 			if nestedBOF == 0 {
-- 
2.43.0


From f8d0065b100c3726c44e0da78e5fc1dcb4798a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 64/97] fix: xls: only the first substream describes the
 workbook

---
 xls/xls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xls/xls.go b/xls/xls.go
index 1626a05..bb8bfe0 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -259,6 +259,10 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			if len(nr.Data) == 0 {
 				continue
 			}
+			if ss > 0 && nr.RecType != RecTypeBOF {
+				// the first substream describes the workbook
+				continue
+			}
 
 			switch nr.RecType {
 			case RecTypeSST:
-- 
2.43.0


From ecc11a2edb879faf52c5af19422ccce8f5ee3977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 65/97] fix: xls: records shorter than their fields are an
 error, not a panic

---
 xls/sheets.go  | 11 +++++++++++
 xls/structs.go | 25 +++++++++++++++++++++++++
 xls/xls.go     |  3 +++
 3 files changed, 39 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index 2895373..d4245e2 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -3,6 +3,7 @@ package xls
 import (
 	"encoding/binary"
 	"errors"
+	"io"
 	"log"
 	"math"
 	"unicode/utf16"
@@ -80,12 +81,18 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 		case RecTypeWsBool:
+			if len(r.Data) < minSheetSize[r.RecType] {
+				return nil, io.ErrUnexpectedEOF
+			}
 			if (r.Data[0] & 0x10) != 0 {
 				// it's a dialog, there are no cells to extract
 				return res, nil
 			}
 
 		case RecTypeDimensions:
+			if len(r.Data) < minSheetSize[r.RecType] {
+				return nil, io.ErrUnexpectedEOF
+			}
 			// max = 0-based index of the row AFTER the last valid index
 			minRow = binary.LittleEndian.Uint32(r.Data[:4])
 			maxRow = binary.LittleEndian.Uint32(r.Data[4:8]) // max = 0x010000
@@ -122,6 +129,10 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			continue
 		}
 
+		if len(r.Data) < minSheetSize[r.RecType] {
+			return nil, io.ErrUnexpectedEOF
+		}
+
 		// sec 2.1.7.20.6 Common Productions ABNF:
 		/*
 			CELLTABLE = 1*(1*Row *CELL 1*DBCell) *EntExU2
diff --git a/xls/structs.go b/xls/structs.go
index d72448f..993f267 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -20,6 +20,31 @@ type rec struct {
 	Data    []byte     // len(rec.data) = rec.recsize
 }
 
+// minGlobalSize is the extent of the fields used of the workbook's records.
+var minGlobalSize = map[recordType]int{
+	RecTypeCodePage:    2,
+	RecTypeDate1904:    2,
+	RecTypeFormat:      5,
+	RecTypeXF:          4,
+	RecTypeBoundSheet8: 8,
+	RecTypeSST:         8,
+}
+
+// minSheetSize is the extent of the fields used of a sheet's records.
+var minSheetSize = map[recordType]int{
+	RecTypeWsBool:     1,
+	RecTypeDimensions: 12,
+	RecTypeBoolErr:    8,
+	RecTypeMulRk:      6,
+	RecTypeNumber:     14,
+	RecTypeRK:         10,
+	RecTypeFormula:    14,
+	RecTypeString:     2,
+	RecTypeLabelSst:   10,
+	RecTypeHLink:      32,
+	RecTypeMergeCells: 2,
+}
+
 type boundSheet struct {
 	Position    uint32 // A FilePointer as specified in [MS-OSHARED] section 2.2.1.5 that specifies the stream position of the start of the BOF record for the sheet.
 	HiddenState byte   // (2 bits) An unsigned integer that specifies the hidden state of the sheet. MUST be a value from the following table:
diff --git a/xls/xls.go b/xls/xls.go
index bb8bfe0..3c9c46c 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -263,6 +263,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 				// the first substream describes the workbook
 				continue
 			}
+			if len(nr.Data) < minGlobalSize[nr.RecType] {
+				return io.ErrUnexpectedEOF
+			}
 
 			switch nr.RecType {
 			case RecTypeSST:
-- 
2.43.0


From b10f793f827606776790a37a302b58db7df70532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 66/97] fix: xls: names and formats longer than their record
 are an error, not a panic

---
 xls/strings.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xls/strings.go b/xls/strings.go
index ce71d37..ceaaa75 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -14,6 +14,9 @@ func decodeShortXLUnicodeString(raw []byte) (string, int, error) {
 	cch := int(raw[0])
 	flags := raw[1]
 	raw = raw[2:]
+	if len(raw) < cch<<(flags&0x1) {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 
 	content := make([]uint16, cch)
 	if (flags & 0x1) == 0 {
@@ -40,6 +43,9 @@ func decodeXLUnicodeString(raw []byte) (string, int, error) {
 	cch := int(binary.LittleEndian.Uint16(raw[:2]))
 	flags := raw[2]
 	raw = raw[3:]
+	if len(raw) < cch<<(flags&0x1) {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 
 	content := make([]uint16, cch)
 	if (flags & 0x1) == 0 {
-- 
2.43.0


From fcc908b1eda8777ca91198b42658d3003c4e1e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 67/97] fix: xls: a truncated string table is an error, not a
 panic

---
 xls/strings.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xls/strings.go b/xls/strings.go
index ceaaa75..3696964 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -174,9 +174,9 @@ func parseSST(recs []*rec) ([]string, error) {
 	// from an 8-bit encoding to 16-bit or vice versa.
 
 	//totalRefs := binary.LittleEndian.Uint32(recs[0].Data[0:4])
-	numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
+	//numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
 
-	all := make([]string, 0, numStrings)
+	all := make([]string, 0, 64)
 	current := make([]uint16, 32*1024)
 
 	buf := recs[0].Data[8:]
@@ -186,6 +186,9 @@ func parseSST(recs []*rec) ([]string, error) {
 		var cbExtRs uint32
 
 		for len(buf) > 0 {
+			if len(buf) < 3 {
+				return nil, io.ErrUnexpectedEOF
+			}
 			slen := binary.LittleEndian.Uint16(buf)
 			buf = buf[2:]
 			flags = buf[0]
@@ -193,12 +196,18 @@ func parseSST(recs []*rec) ([]string, error) {
 
 			if (flags & 0x8) != 0 {
 				// rich formating data is present
+				if len(buf) < 2 {
+					return nil, io.ErrUnexpectedEOF
+				}
 				cRun := binary.LittleEndian.Uint16(buf)
 				cRunBytes = int(cRun) * 4
 				buf = buf[2:]
 			}
 			if (flags & 0x4) != 0 {
 				// phonetic string data is present
+				if len(buf) < 4 {
+					return nil, io.ErrUnexpectedEOF
+				}
 				cbExtRs = binary.LittleEndian.Uint32(buf)
 				buf = buf[4:]
 			}
@@ -249,6 +258,9 @@ func parseSST(recs []*rec) ([]string, error) {
 				} else {
 					cRunBytes -= len(buf)
 					i++
+					if i >= len(recs) {
+						return nil, io.ErrUnexpectedEOF
+					}
 					buf = recs[i].Data
 				}
 			}
@@ -260,6 +272,9 @@ func parseSST(recs []*rec) ([]string, error) {
 				} else {
 					cbExtRs -= uint32(len(buf))
 					i++
+					if i >= len(recs) {
+						return nil, io.ErrUnexpectedEOF
+					}
 					buf = recs[i].Data
 				}
 			}
-- 
2.43.0


From b2aef0215cbf06a8312e9fbca3903856f4624924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 68/97] fix: xls: more merged regions than the record holds is
 an error, not a panic

---
 xls/sheets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index d4245e2..dfece0c 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -384,6 +384,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			cmcs := binary.LittleEndian.Uint16(r.Data[:2])
 			raw := r.Data[2:]
 			for i := 0; i < int(cmcs); i++ {
+				if len(raw) < 8 {
+					return nil, io.ErrUnexpectedEOF
+				}
 				firstRow := binary.LittleEndian.Uint16(raw[:2])
 				lastRow := int(binary.LittleEndian.Uint16(raw[2:4]))
 				firstCol := binary.LittleEndian.Uint16(raw[4:6])
-- 
2.43.0


From 63b967a679e89e079ead53b9983b27af5f81916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:31 +0000
Subject: [PATCH 69/97] fix: xls: dimensions and regions beyond the limits of a
 sheet are cut to them

---
 xls/sheets.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index dfece0c..0c36e43 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -109,6 +109,14 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				log.Println("invalid dimensions")
 			}
 
+			// no sheet is larger than this
+			if maxRow > 0x00010000 {
+				maxRow = 0x00010000
+			}
+			if maxCol > 0x0100 {
+				maxCol = 0x0100
+			}
+
 			// pre-allocate cells
 			res.Resize(int(maxRow), int(maxCol))
 		}
@@ -337,6 +345,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			}
 			if lastCol == 0xFF { // placeholder value indicate "last"
 				lastCol = int(maxCol) - 1
+			} else if lastCol > 0xFF {
+				lastCol = 0xFF
 			}
 
 			// decode the hyperlink datastructure and try to find the
@@ -398,6 +408,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				}
 				if lastCol == 0xFF { // placeholder value indicate "last"
 					lastCol = int(maxCol) - 1
+				} else if lastCol > 0xFF {
+					lastCol = 0xFF
 				}
 				for rn := int(firstRow); rn <= lastRow; rn++ {
 					for cn := int(firstCol); cn <= lastCol; cn++ {
-- 
2.43.0


From 921b12c65de5b8ec45d9caaf6cdc57f5050ec881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 70/97] fix: xls: a truncated hyperlink is an error, not a
 panic

---
 xls/hyperlinks.go | 76 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index d5eca90..1a5599b 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"strings"
 	"unicode/utf16"
 )
@@ -18,34 +19,27 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	flags := binary.LittleEndian.Uint32(raw[4:8])
 	raw = raw[8:]
 	if (flags & hlstmfHasDisplayName) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		displayText, raw, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", err
 		}
-		displayText = string(utf16.Decode(us))
 	}
 
 	if (flags & hlstmfHasFrameName) != 0 {
 		// skip a HyperlinkString containing target Frame
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4+(slen*2):]
+		_, raw, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", err
+		}
 	}
 
 	if (flags & hlstmfHasMoniker) != 0 {
 		if (flags & hlstmfMonikerSavedAsStr) != 0 {
 			// read HyperlinkString containing the URL
-			slen = binary.LittleEndian.Uint32(raw[:4])
-			raw = raw[4:]
-			us := make([]uint16, slen)
-			for i := 0; i < int(slen); i++ {
-				us[i] = binary.LittleEndian.Uint16(raw)
-				raw = raw[2:]
+			linkText, raw, err = decodeHyperlinkString(raw)
+			if err != nil {
+				return "", "", err
 			}
-			linkText = string(utf16.Decode(us))
-
 		} else {
 			n := 0
 			var err error
@@ -58,14 +52,11 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	}
 
 	if (flags & hlstmfHasLocationStr) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		var location string
+		location, raw, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", err
 		}
-		location := string(utf16.Decode(us))
 		if target := strings.Trim(linkText, " \v\f\t\r\n\x00"); target != "" {
 			// a location within the target
 			location = target + "#" + location
@@ -78,7 +69,29 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	return
 }
 
+// decodeHyperlinkString decodes a text of 16-bit characters after their count,
+// and returns what follows it.
+func decodeHyperlinkString(raw []byte) (string, []byte, error) {
+	if len(raw) < 4 {
+		return "", nil, io.ErrUnexpectedEOF
+	}
+	slen := int(binary.LittleEndian.Uint32(raw[:4]))
+	raw = raw[4:]
+	if slen > len(raw)/2 {
+		return "", nil, io.ErrUnexpectedEOF
+	}
+	us := make([]uint16, slen)
+	for i := range us {
+		us[i] = binary.LittleEndian.Uint16(raw)
+		raw = raw[2:]
+	}
+	return string(utf16.Decode(us)), raw, nil
+}
+
 func parseHyperlinkMoniker(raw []byte) (string, int, error) {
+	if len(raw) < 16 {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 	classid := raw[:16]
 	no := 16
 
@@ -95,9 +108,15 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		}
 	}
 	if isURLMoniker {
+		if len(raw) < no+4 {
+			return "", 0, io.ErrUnexpectedEOF
+		}
 		length := binary.LittleEndian.Uint32(raw[no:])
 		no += 4
 		length /= 2
+		if int(length) > len(raw[no:])/2 {
+			return "", 0, io.ErrUnexpectedEOF
+		}
 		buf := make([]uint16, length)
 		for i := 0; i < int(length); i++ {
 			buf[i] = binary.LittleEndian.Uint16(raw[no:])
@@ -109,9 +128,15 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		return string(utf16.Decode(buf)), no, nil
 	}
 	if isFileMoniker {
+		if len(raw) < no+6 {
+			return "", 0, io.ErrUnexpectedEOF
+		}
 		//x := binary.LittleEndian.Uint16(raw[no:])        //cAnti
 		length := binary.LittleEndian.Uint32(raw[no+2:]) //ansiLength
 		no += 6
+		if len(raw[no:]) < int(length)+28 {
+			return "", 0, io.ErrUnexpectedEOF
+		}
 		buf := raw[no : no+int(length)]
 
 		// skip 24 more bytes for misc fixed properties
@@ -120,6 +145,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		length = binary.LittleEndian.Uint32(raw[no:]) // cbUnicodePathSize
 		no += 4
 		if length > 0 {
+			if length < 6 || int(length) > len(raw[no:]) {
+				return "", 0, io.ErrUnexpectedEOF
+			}
 			no += 6
 			length -= 6
 			buf2 := make([]uint16, length/2)
-- 
2.43.0


From 1d2da125efd611c9c4ec3c959ed96e99d1dc785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 71/97] fix: xlsx: parts that are not well-formed are an error,
 not a partial result

---
 xlsx/sheets.go   |  8 ++++----
 xlsx/workbook.go | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 723d0aa..d52557c 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -33,8 +33,8 @@ func (s *Sheet) parseSheet() error {
 	dec, clo, err := s.d.openXML(relsname)
 	if err == nil {
 		// rels might not exist for every sheet
-		tok, err := dec.RawToken()
-		for ; err == nil; tok, err = dec.RawToken() {
+		tok, err := dec.Token()
+		for ; err == nil; tok, err = dec.Token() {
 			if v, ok := tok.(xml.StartElement); ok && v.Name.Local == "Relationship" {
 				ax := getAttrs(v.Attr, "Id", "Type", "Target", "TargetMode")
 				if ax[3] == "External" && ax[1] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" {
@@ -58,8 +58,8 @@ func (s *Sheet) parseSheet() error {
 	var fno uint16
 	var maxCol, maxRow int
 
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.CharData:
 			// NB one element's text can be divided over several tokens, and there
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index d532751..de2ce18 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -13,8 +13,8 @@ import (
 )
 
 func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -57,8 +57,8 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 }
 
 func (d *Document) parseWorkbook(dec *xml.Decoder) error {
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -108,8 +108,8 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 	d.xfs = d.xfs[:0]
 
 	section := 0
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -186,8 +186,8 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 	val := ""
 	inText, inPhonetic := false, false
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.CharData:
 			if inText && !inPhonetic {
-- 
2.43.0


From 84ea2e7359f6c4c0fb6ea56679a5202e5e820559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 72/97] fix: xlsx: invalid style numbers and counts do not
 panic

---
 xlsx/sheets.go   |  2 +-
 xlsx/workbook.go | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index d52557c..57e7f31 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -98,7 +98,7 @@ func (s *Sheet) parseSheet() error {
 				cellText = ""
 				style := ax[2]
 				sid, _ := strconv.ParseInt(style, 10, 64)
-				if len(s.d.xfs) > int(sid) {
+				if sid >= 0 && len(s.d.xfs) > int(sid) {
 					fno = s.d.xfs[sid]
 				} else {
 					fno = 0
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index de2ce18..eeb5e7f 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -124,9 +124,8 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				section = 1
 			case "cellXfs":
 				section = 2
-				ax := getAttrs(v.Attr, "count")
-				n, _ := strconv.ParseInt(ax[0], 10, 64)
-				d.xfs = make([]uint16, 0, n)
+				// NB the count is optional
+				d.xfs = make([]uint16, 0, 64)
 
 			case "xf":
 				ax := getAttrs(v.Attr, "numFmtId", "applyNumberFormat", "xfId")
@@ -142,7 +141,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 					// 1) get base style so we can inherit format properly
 					baseID, _ := strconv.ParseInt(ax[2], 10, 64)
 					numFmtID := "0"
-					if len(baseNumFormats) > int(baseID) {
+					if baseID >= 0 && len(baseNumFormats) > int(baseID) {
 						numFmtID = baseNumFormats[baseID]
 					}
 
@@ -156,9 +155,8 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 
 					nfid, _ := strconv.ParseUint(numFmtID, 10, 16)
 					d.xfs = append(d.xfs, uint16(nfid))
-				} else {
-					panic("wheres is this xf??")
 				}
+				// any others (in differential styles) are not referenced by cells
 			default:
 				if grate.Debug {
 					log.Println("  Unhandled style xml tag", v.Name.Local, v.Attr)
-- 
2.43.0


From ff316b01bf58dfcc5878b93d1fe960df1b77a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:01 +0000
Subject: [PATCH 73/97] fix: xlsx: references that are invalid or beyond the
 largest sheet are ignored

---
 xlsx/sheets.go |  3 +++
 xlsx/types.go  | 29 +++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 57e7f31..044dc6e 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -118,6 +118,9 @@ func (s *Sheet) parseSheet() error {
 				if len(dims) > 1 {
 					endCol, endRow = refToIndexes(dims[1])
 				}
+				if startCol < 0 || startRow < 0 {
+					continue
+				}
 				// NB the dimension is optional, and may be smaller than the content
 				if maxRow < s.wrapped.NumRows-1 {
 					maxRow = s.wrapped.NumRows - 1
diff --git a/xlsx/types.go b/xlsx/types.go
index 427c0c0..24e1719 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -48,12 +48,23 @@ func (s staticCellType) String() string {
 func col2int(col string) int {
 	idx := 0
 	for _, c := range col {
+		if c < 'A' || c > 'Z' || idx > maxCols {
+			return -1
+		}
 		idx *= 26
 		idx += int(c - '@')
 	}
 	return idx - 1
 }
 
+// the size of the largest sheet
+const (
+	maxRows = 1048576
+	maxCols = 16384
+)
+
+// refToIndexes returns the 0-based indexes of a cell reference,
+// or -1, -1 when it is not one.
 func refToIndexes(r string) (column, row int) {
 	if len(r) < 2 {
 		return -1, -1
@@ -68,15 +79,25 @@ func refToIndexes(r string) (column, row int) {
 	i2 := strings.IndexByte(r[i1:], 'C')
 	if i2 == -1 {
 		rn, _ := strconv.ParseInt(r[i1:], 10, 64)
-		return col2int(col1), int(rn) - 1
+		return validIndexes(col2int(col1), int(rn)-1)
 	}
 
 	// R1C1 Reference Mode
-	col1 = r[i1:i2]
-	row1 := r[i2+1:]
+	if col1 != "R" {
+		return -1, -1
+	}
+	row1 := r[i1 : i1+i2]
+	col1 = r[i1+i2+1:]
 	cn, _ := strconv.ParseInt(col1, 10, 64)
 	rn, _ := strconv.ParseInt(row1, 10, 64)
-	return int(cn), int(rn) - 1
+	return validIndexes(int(cn)-1, int(rn)-1)
+}
+
+func validIndexes(column, row int) (int, int) {
+	if column < 0 || column >= maxCols || row < 0 || row >= maxRows {
+		return -1, -1
+	}
+	return column, row
 }
 
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
-- 
2.43.0


From b4178d961982c06328f8d9fc0ab92963d9ef8aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 74/97] fix: xlsx: a sheet whose relationships cannot be read
 is an error, not a sheet without links

---
 xlsx/sheets.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 044dc6e..10a9b68 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -43,6 +43,11 @@ func (s *Sheet) parseSheet() error {
 			}
 		}
 		clo.Close()
+		if err != io.EOF {
+			return err
+		}
+	} else if err != io.EOF {
+		return err
 	}
 
 	dec, clo, err = s.d.openXML(s.docname)
-- 
2.43.0


From c2b84ec1fef8784d961431f8a085fff875497ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:07 +0000
Subject: [PATCH 75/97] fix: xlsx: a dimension after the cells does not hide
 them

---
 xlsx/sheets.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 10a9b68..236091f 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -76,11 +76,6 @@ func (s *Sheet) parseSheet() error {
 			switch v.Name.Local {
 			case "dimension":
 				ax := getAttrs(v.Attr, "ref")
-				if ax[0] == "A1" {
-					// short-circuit empty sheet
-					s.wrapped.Resize(1, 1)
-					continue
-				}
 				dims := strings.Split(ax[0], ":")
 				if len(dims) == 1 {
 					maxCol, maxRow = refToIndexes(dims[0])
@@ -88,7 +83,15 @@ func (s *Sheet) parseSheet() error {
 					//minCol, minRow := refToIndexes(dims[0])
 					maxCol, maxRow = refToIndexes(dims[1])
 				}
-				s.wrapped.Resize(maxRow, maxCol)
+				// NB never smaller than the content
+				rows, cols := maxRow, maxCol
+				if rows < s.wrapped.NumRows {
+					rows = s.wrapped.NumRows
+				}
+				if cols < s.wrapped.NumCols {
+					cols = s.wrapped.NumCols
+				}
+				s.wrapped.Resize(rows, cols)
 				//log.Println("DIMENSION:", s.minRow, s.minCol, ">", s.maxRow, s.maxCol)
 			case "row":
 				//currentRow = ax["r"] // unsigned int row index
-- 
2.43.0


From 16a7a412eed4db690838e8aa5999df1fcdbe4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:31 +0000
Subject: [PATCH 76/97] fix: cfb: a lost entry in the list of FAT sectors is an
 error, it does not displace the table

---
 xls/cfb/cfb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 157fe3c..429797b 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -163,9 +163,11 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	d.minifat = nil
 
 	// step 1: read the DIFAT sector list
+	hole := false // NB all entries after a free one must be free
 	for i := 0; i < 109; i++ {
 		sid := h.DIFAT[i]
 		if sid == secFree {
+			hole = true
 			break
 		}
 		sector, err := d.sector(sid)
@@ -195,9 +197,13 @@ func (d *Document) load(rx io.ReadSeeker) error {
 			for i := 0; i < numFATentries-1; i++ {
 				sid2 := le.Uint32(difatSector)
 				if sid2 == secFree || sid2 == secEndOfChain {
+					hole = true
 					difatSector = difatSector[4:]
 					continue
 				}
+				if hole {
+					return errCorrupt
+				}
 
 				sector, err := d.sector(sid2)
 				if err != nil {
-- 
2.43.0


From 354ac027f98a724133991eb1ceba21906966042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:33 +0000
Subject: [PATCH 77/97] fix: commonxl: a number equals another cell only if
 that holds the number

---
 commonxl/cell.go | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 1b9f057..5f48535 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -339,28 +339,32 @@ func (c *Cell) SetFormatNumber(f uint16) {
 	}
 }
 
+// number returns the number that a cell's value denotes, if it denotes one.
+func (c Cell) number() (float64, bool) {
+	switch v := c[0].(type) {
+	case int64:
+		return float64(v), true
+	case float64:
+		return v, true
+	case bool:
+		if v {
+			return 1, true
+		}
+		return 0, true
+	case string:
+		return parseNumber(v)
+	}
+	return 0, false
+}
+
+// Equal returns true if both cells hold the same value. A number equals
+// the text that denotes it.
 func (c Cell) Equal(other Cell) bool {
 	if c.Type() == FloatCell || other.Type() == FloatCell ||
 		c.Type() == IntegerCell || other.Type() == IntegerCell {
-		v1, ok := c[0].(float64)
-		v1x, okx := c[0].(int64)
-		if okx {
-			v1 = float64(v1x)
-			ok = true
-		}
-		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v1)
-		}
-		v2, ok := other[0].(float64)
-		v2x, okx := other[0].(int64)
-		if okx {
-			v2 = float64(v2x)
-			ok = true
-		}
-		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v2)
-		}
-		return v1 == v2
+		v1, ok1 := c.number()
+		v2, ok2 := other.number()
+		return ok1 && ok2 && v1 == v2
 	}
 
 	return c.Less(other) == other.Less(c)
-- 
2.43.0


From 047c476a0fc4735151ef47e91903495f14a28b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 78/97] fix: commonxl: integers are equal only if all their
 digits are

---
 commonxl/cell.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 5f48535..44ee327 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -362,6 +362,11 @@ func (c Cell) number() (float64, bool) {
 func (c Cell) Equal(other Cell) bool {
 	if c.Type() == FloatCell || other.Type() == FloatCell ||
 		c.Type() == IntegerCell || other.Type() == IntegerCell {
+		x1, int1 := c[0].(int64)
+		x2, int2 := other[0].(int64)
+		if int1 && int2 {
+			return x1 == x2
+		}
 		v1, ok1 := c.number()
 		v2, ok2 := other.number()
 		return ok1 && ok2 && v1 == v2
-- 
2.43.0


From 2ba8e317d5641efb98d78dfa02e2f6b6d325ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:36 +0000
Subject: [PATCH 79/97] fix: commonxl: a blank cell equals only a blank cell

---
 commonxl/cell.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 44ee327..28fc91c 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -360,6 +360,9 @@ func (c Cell) number() (float64, bool) {
 // Equal returns true if both cells hold the same value. A number equals
 // the text that denotes it.
 func (c Cell) Equal(other Cell) bool {
+	if c.Type() == BlankCell || other.Type() == BlankCell {
+		return c.Type() == other.Type()
+	}
 	if c.Type() == FloatCell || other.Type() == FloatCell ||
 		c.Type() == IntegerCell || other.Type() == IntegerCell {
 		x1, int1 := c[0].(int64)
-- 
2.43.0


From c1521f49bebf4ae86339451bfc92094ec349b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:38 +0000
Subject: [PATCH 80/97] fix: commonxl: a cell can be compared with one never
 written

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 28fc91c..894bef7 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -379,7 +379,7 @@ func (c Cell) Equal(other Cell) bool {
 }
 
 func (c Cell) Less(other Cell) bool {
-	if len(c) == 0 {
+	if len(c) == 0 || len(other) == 0 {
 		return false
 	}
 	switch v1 := c[0].(type) {
-- 
2.43.0


From 2bd3c8d2cd11c5d95ab7607e0082258d0a7d7460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:40 +0000
Subject: [PATCH 81/97] fix: commonxl: a number and a text are ordered by the
 whole of the text

---
 commonxl/cell.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 894bef7..8c2635e 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -431,11 +431,12 @@ func (c Cell) Less(other Cell) bool {
 			}
 			return float64(v1) < v2
 		case string:
-			var x int64
-			_, err := fmt.Sscanf(v2, "%d", &x)
-			if err == nil {
+			if x, err := strconv.ParseInt(v2, 10, 64); err == nil {
 				return v1 < x
 			}
+			if x, ok := parseNumber(v2); ok {
+				return float64(v1) < x
+			}
 			return fmt.Sprint(v1) < v2
 		}
 	case float64:
@@ -459,9 +460,7 @@ func (c Cell) Less(other Cell) bool {
 		case float64:
 			return v1 < v2
 		case string:
-			var x float64
-			_, err := fmt.Sscanf(v2, "%g", &x)
-			if err == nil {
+			if x, ok := parseNumber(v2); ok {
 				return v1 < x
 			}
 			return fmt.Sprint(v1) < v2
@@ -475,16 +474,15 @@ func (c Cell) Less(other Cell) bool {
 		case bool:
 			return v2 && !boolStrings[v1]
 		case int64:
-			var x int64
-			_, err := fmt.Sscanf(v1, "%d", &x)
-			if err == nil {
+			if x, err := strconv.ParseInt(v1, 10, 64); err == nil {
 				return x < v2
 			}
+			if x, ok := parseNumber(v1); ok {
+				return x < float64(v2)
+			}
 			return v1 < fmt.Sprint(v2)
 		case float64:
-			var x float64
-			_, err := fmt.Sscanf(v1, "%g", &x)
-			if err == nil {
+			if x, ok := parseNumber(v1); ok {
 				return x < v2
 			}
 			return v1 < fmt.Sprint(v2)
-- 
2.43.0


From 8740d9cfde02e26a89b4ceb64e5024b75baed80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 82/97] fix: commonxl: cells that hold dates can be compared

---
 commonxl/cell.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 8c2635e..fa42d9a 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -465,6 +465,12 @@ func (c Cell) Less(other Cell) bool {
 			}
 			return fmt.Sprint(v1) < v2
 		}
+	case time.Time:
+		if v2, ok := other[0].(time.Time); ok {
+			return v1.Before(v2)
+		}
+		return other[0] != nil && fmt.Sprint(v1) < fmt.Sprint(other[0])
+
 	case string:
 		//return v1 < fmt.Sprint(other[0])
 
@@ -492,5 +498,8 @@ func (c Cell) Less(other Cell) bool {
 
 	}
 
+	if v2, ok := other[0].(time.Time); ok {
+		return fmt.Sprint(c[0]) < fmt.Sprint(v2)
+	}
 	panic("unable to compare cells (invalid internal type)")
 }
-- 
2.43.0


From 8a45f0bc36e4e3da217cad657fe20112afae7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 83/97] fix: simple: binary files are not delimited text

---
 simple/csv.go | 5 +++++
 simple/tsv.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/simple/csv.go b/simple/csv.go
index 89ff8fd..8cde427 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -4,6 +4,7 @@ import (
 	"encoding/csv"
 	"io"
 	"os"
+	"strings"
 
 	"github.com/pbnjay/grate"
 )
@@ -30,6 +31,10 @@ func OpenCSV(filename string) (grate.Source, error) {
 	ncols := make(map[int]int)
 	rec, err := s.Read()
 	for ; err == nil; rec, err = s.Read() {
+		if strings.IndexByte(strings.Join(rec, ""), 0) >= 0 {
+			// this is a binary file, not text
+			return nil, grate.ErrNotInFormat
+		}
 		ncols[len(rec)]++
 		total++
 		t.rows = append(t.rows, rec)
diff --git a/simple/tsv.go b/simple/tsv.go
index 957b067..64bc814 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -29,6 +29,10 @@ func OpenTSV(filename string) (grate.Source, error) {
 	total := 0
 	ncols := make(map[int]int)
 	for s.Scan() {
+		if strings.IndexByte(s.Text(), 0) >= 0 {
+			// this is a binary file, not text
+			return nil, grate.ErrNotInFormat
+		}
 		r := strings.Split(s.Text(), "\t")
 		ncols[len(r)]++
 		total++
-- 
2.43.0


From d4d6d3c67aac417c242842da030227a5149d8916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 84/97] fix: commonxl: numbers formatted as text keep their
 digits

A float in a cell of the text format was stored as text in exponent form
from seven digits on (5551234567 read as 5.551234567e+09).
---
 commonxl/cell.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index fa42d9a..bad71f4 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -197,7 +197,11 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 		}
 	}
 	if t == StringCell {
-		c[0] = fmt.Sprint(c[0])
+		if x, ok := c[0].(float64); ok && math.Abs(x) < 1e15 {
+			c[0] = strconv.FormatFloat(x, 'f', -1, 64)
+		} else {
+			c[0] = fmt.Sprint(c[0])
+		}
 		c[1] = StringCell
 	}
 	if t == DateCell {
-- 
2.43.0


From 4af5b9310f16360853367f17fcc27e129ec9022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 85/97] fix: commonxl: custom number formats are read token by
 token

Codes were rewritten with string replacements. Minutes next to hours were
shown as months (hh:mm), the letters of day names were replaced again
(dddd), AM/PM and elapsed fields were left alone, upper case codes were
constants, leading zeros (000) failed, decimals shown when needed (0.##)
were lost, a date with a section for text (yyyy/m/d;@) was shown as a Go
time, negative sections showed the sign a second time, signs came after
the currency, and text sections were constants.
---
 commonxl/dates.go   |  85 ++++++++
 commonxl/formats.go | 502 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 479 insertions(+), 108 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index e4c2762..0c07712 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -96,6 +96,91 @@ func elapsedFmtFunc(rest string) FmtFunc {
 	}
 }
 
+// codeTimeFunc renders the date and time fields of a number format code.
+func codeTimeFunc(toks []fmtToken) FmtFunc {
+	// find the 12-hour clock, and tell minutes from months
+	half := false
+	prev := -1
+	fields := append([]fmtToken(nil), toks...)
+	for i, t := range fields {
+		if t.kind != tokTime {
+			continue
+		}
+		f := strings.ToLower(t.text)
+		switch {
+		case strings.Contains(f, "/"):
+			half = true
+			fields[i].text = f
+			continue
+		case f[0] == 's' || strings.HasPrefix(f, "[s"):
+			if prev >= 0 && (fields[prev].text == "m" || fields[prev].text == "mm") {
+				fields[prev].text = "n" + fields[prev].text[1:]
+			}
+		case (f == "m" || f == "mm") && prev >= 0 && strings.Trim(fields[prev].text, "[h") == "":
+			f = "n" + f[1:]
+		}
+		fields[i].text = f
+		prev = i
+	}
+
+	return func(x *Formatter, v interface{}) string {
+		t, ok := v.(time.Time)
+		if !ok {
+			fval, ok := dateSerial(v)
+			if !ok {
+				// strings etc returned as-is
+				return identFunc(x, v)
+			}
+			t = x.ConvertToDate(fval)
+		}
+		s := ""
+		for _, tok := range fields {
+			f := tok.text
+			if tok.kind != tokTime {
+				s += f
+				continue
+			}
+			switch {
+			case f[0] == '[':
+				// NB a time.Duration would overflow after 292 years
+				n := t.Unix() - x.ConvertToDate(0).Unix()
+				if f[1] == 'h' {
+					n /= 3600
+				} else if f[1] == 'm' {
+					n /= 60
+				}
+				s += fmt.Sprintf("%0*d", len(f)-1, n)
+			case f[0] == '.':
+				ms := fmt.Sprintf("%03d", t.Nanosecond()/1e6) + strings.Repeat("0", len(f))
+				s += "." + ms[:len(f)-1]
+			case f == "a/p":
+				s += t.Format("PM")[:1]
+			case f == "上午/下午":
+				s += strings.NewReplacer("AM", "上午", "PM", "下午").Replace(t.Format("PM"))
+			case strings.Contains(f, "/"):
+				s += t.Format("PM")
+			case f[0] == 'h' && half:
+				s += fmt.Sprintf("%0*d", len(f), (t.Hour()+11)%12+1)
+			case f[0] == 'h':
+				s += fmt.Sprintf("%0*d", len(f), t.Hour())
+			default:
+				s += t.Format(timeFields[f])
+			}
+		}
+		return s
+	}
+}
+
+// timeFields are the Go layouts for the date and time fields of number format
+// codes (minutes are marked with an n).
+var timeFields = map[string]string{
+	"y": "06", "yy": "06", "yyy": "2006", "yyyy": "2006",
+	"m": "1", "mm": "01", "mmm": "Jan", "mmmm": "January",
+	"mmmmm": "Jan", // super ambiguous, replace with 3-letter month
+	"d":     "2", "dd": "02", "ddd": "Mon", "dddd": "Monday",
+	"n": "4", "nm": "04", "s": "5", "ss": "05",
+}
+
 // same as above but replaces "AM" and "PM" with chinese translations.
 // TODO: implement others
 func cnTimeFmtFunc(f string) FmtFunc {
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 65e7ce0..919087f 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -3,8 +3,10 @@ package commonxl
 import (
 	"errors"
 	"fmt"
-	"regexp"
+	"math"
+	"strconv"
 	"strings"
+	"time"
 )
 
 // Formatter contains formatting methods common to Excel spreadsheets.
@@ -47,7 +49,11 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 		return errors.New("grate/commonxl: cannot replace default number formats")
 	}
 
-	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
+	ff, ctype := makeFormatter(formatCode)
+	x.customCodes[fmtID] = ff
+	if ctype != BlankCell {
+		x.customCodeTypes[fmtID] = ctype
+	}
 	return nil
 }
 
@@ -62,140 +68,420 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 	return 0, false
 }
 
-var (
-	minsMatch = regexp.MustCompile("h.*m.*s")
-	nonEsc    = regexp.MustCompile(`([^"]|^)"`)
-	squash    = regexp.MustCompile(`[*_].`)
-	fixEsc    = regexp.MustCompile(`\\(.)`)
+// fmtToken is one element of a number format code.
+type fmtToken struct {
+	kind byte
+	text string
+}
 
-	formatMatchBrackets    = regexp.MustCompile(`\[[^\]]*\]`)
-	formatMatchTextLiteral = regexp.MustCompile(`"[^"]*"`)
+const (
+	tokText    = '"' // literal text
+	tokDigits  = '0' // digit placeholders, decimal point, grouping commas
+	tokExp     = 'E' // exponent
+	tokPercent = '%'
+	tokTime    = 'm' // date or time field
+	tokGeneral = 'G'
+	tokValue   = '@'
 )
 
-func makeFormatter(s string) (FmtFunc, CellType) {
-	//log.Printf("makeFormatter('%s')", s)
-	// remove any coloring marks
-	s = formatMatchBrackets.ReplaceAllString(s, "")
-	if strings.Contains(s, ";") {
-		parts := strings.Split(s, ";")
-		posFF, ctypePos := makeFormatter(parts[0])
-		rem := make([]FmtFunc, len(parts)-1)
-		for i, ps := range parts[1:] {
-			rem[i], _ = makeFormatter(ps)
+// readCode splits a number format code into its sections, and those into tokens.
+func readCode(code string) [][]fmtToken {
+	var res [][]fmtToken
+	var toks []fmtToken
+	rs := []rune(code)
+	add := func(kind byte, text string) {
+		if kind != tokTime && len(toks) > 0 && toks[len(toks)-1].kind == kind {
+			toks[len(toks)-1].text += text
+			return
 		}
-		return switchFmtFunc(posFF, rem...), ctypePos
+		toks = append(toks, fmtToken{kind, text})
 	}
+	hasPrefix := func(i int, s string) bool {
+		n := len([]rune(s))
+		return i+n <= len(rs) && strings.EqualFold(string(rs[i:i+n]), s)
+	}
+	for i := 0; i < len(rs); i++ {
+		c := rs[i]
+		switch {
+		case c == ';':
+			res = append(res, toks)
+			toks = nil
+		case c == '"':
+			for i++; i < len(rs) && rs[i] != '"'; i++ {
+				add(tokText, string(rs[i]))
+			}
+		case c == '\\' || c == '_' || c == '*':
+			// escaped, alignment and fill characters
+			i++
+			if c == '\\' && i < len(rs) {
+				add(tokText, string(rs[i]))
+			}
+		case c == '[':
+			n := i + 1
+			for n < len(rs) && rs[n] != ']' {
+				n++
+			}
+			inner := string(rs[i+1 : n])
+			if strings.HasPrefix(inner, "$") {
+				// currency symbol and locale
+				add(tokText, strings.SplitN(inner[1:], "-", 2)[0])
+			} else if f := strings.ToLower(inner); f != "" && strings.ContainsAny(f[:1], "hms") && strings.Trim(f, f[:1]) == "" {
+				// elapsed time
+				add(tokTime, "["+f)
+			}
+			i = n
+		case hasPrefix(i, "general"):
+			add(tokGeneral, "")
+			i += len("general") - 1
+		case hasPrefix(i, "am/pm"):
+			add(tokTime, "AM/PM")
+			i += len("am/pm") - 1
+		case hasPrefix(i, "a/p"):
+			add(tokTime, "A/P")
+			i += len("a/p") - 1
+		case hasPrefix(i, "上午/下午"):
+			add(tokTime, "上午/下午")
+			i += 4
+		case strings.ContainsRune("ymdhsYMDHS", c):
+			n := i
+			for n < len(rs) && rs[n] == c {
+				n++
+			}
+			add(tokTime, string(rs[i:n]))
+			i = n - 1
+		case c == '.' && len(toks) > 0 && toks[len(toks)-1].kind == tokTime &&
+			strings.Trim(toks[len(toks)-1].text, "[sS") == "" && hasPrefix(i, ".0"):
+			// fractions of a second
+			n := i + 1
+			for n < len(rs) && rs[n] == '0' {
+				n++
+			}
+			add(tokTime, string(rs[i:n]))
+			i = n - 1
+		case (c == 'E' || c == 'e') && (hasPrefix(i+1, "+0") || hasPrefix(i+1, "-0")) && len(toks) > 0 && toks[len(toks)-1].kind == tokDigits:
+			n := i + 2
+			for n < len(rs) && rs[n] == '0' {
+				n++
+			}
+			add(tokExp, string(rs[i:n]))
+			i = n - 1
+		case strings.ContainsRune("0#?.,", c):
+			add(tokDigits, string(c))
+		case c == '%':
+			add(tokPercent, "%")
+		case c == '@':
+			toks = append(toks, fmtToken{tokValue, ""})
+		default:
+			add(tokText, string(c))
+		}
+	}
+	return append(res, toks)
+}
 
-	// escaped characters, and quoted text
-	s2 := fixEsc.ReplaceAllString(s, "")
-	s2 = formatMatchTextLiteral.ReplaceAllString(s, "")
+func makeFormatter(s string) (FmtFunc, CellType) {
+	sections := readCode(s)
+	if len(sections) > 4 {
+		sections = sections[:4]
+	}
 
-	if strings.ContainsAny(s2, "ymdhs") {
-		// it's a date/time format
+	// the section for text comes last
+	textFF := identFunc
+	if last := sections[len(sections)-1]; len(sections) == 4 || hasToken(last, tokValue) {
+		textFF = textFmtFunc(last)
+		sections = sections[:len(sections)-1]
+	}
+	if len(sections) == 0 {
+		return textFF, StringCell
+	}
 
-		if loc := minsMatch.FindStringIndex(s); loc != nil {
-			// m or mm in loc[0]:loc[1] is a minute format
-			inner := s[loc[0]:loc[1]]
-			inner = strings.Replace(inner, "mm", "04", 1)
-			inner = strings.Replace(inner, "m", "4", 1)
-			s = s[:loc[0]] + inner + s[loc[1]:]
-		}
-		dfreps := [][]string{
-			{"hh", "15"}, {"h", "15"},
-			{"ss", "05"}, {"s", "5"},
-			{"mmmmm", "Jan"}, // super ambiguous, replace with 3-letter month
-			{"mmmm", "January"}, {"mmm", "Jan"},
-			{"mm", "01"}, {"m", "1"},
-			{"dddd", "Monday"}, {"ddd", "Mon"},
-			{"dd", "02"}, {"d", "2"},
-			{"yyyy", "2006"}, {"yy", "06"},
+	var ctype CellType
+	ffs := make([]FmtFunc, len(sections))
+	for i, toks := range sections {
+		var ct CellType
+		ffs[i], ct = makeSection(toks)
+		if i == 0 {
+			ctype = ct
 		}
-		if strings.Contains(s, "AM") || strings.Contains(s, "PM") {
-			dfreps[0][1] = "03"
-			dfreps[1][1] = "3"
+	}
+
+	return func(x *Formatter, v interface{}) string {
+		switch v.(type) {
+		case string:
+			return textFF(x, v)
+		case time.Time:
+			return ffs[0](x, v)
 		}
-		for _, dfr := range dfreps {
-			s = strings.Replace(s, dfr[0], dfr[1], 1)
+		val, ok := convertToFloat64(v)
+		switch {
+		case !ok:
+			return fmt.Sprint(v)
+		case val == 0 && len(ffs) > 2:
+			return ffs[2](x, v)
+		case val < 0 && len(ffs) > 1:
+			return ffs[1](x, magnitude(v))
+		case val < 0 && ctype != DateCell && hasNumber(sections[0]):
+			return "-" + ffs[0](x, magnitude(v))
 		}
+		return ffs[0](x, v)
+	}, ctype
+}
 
-		s = nonEsc.ReplaceAllString(s, `$1`)
-		s = squash.ReplaceAllString(s, ``)
-		s = fixEsc.ReplaceAllString(s, `$1`)
+func hasToken(toks []fmtToken, kind byte) bool {
+	for _, t := range toks {
+		if t.kind == kind {
+			return true
+		}
+	}
+	return false
+}
 
-		//log.Printf("   made time formatter '%s'", s)
-		return timeFmtFunc(s), DateCell
+// hasDigits tells if there is a digit placeholder, not only a point or a comma.
+func hasDigits(toks []fmtToken) bool {
+	for _, t := range toks {
+		if t.kind == tokDigits && strings.ContainsAny(t.text, "0#?") {
+			return true
+		}
 	}
+	return false
+}
 
-	var ff FmtFunc
-	var ctype CellType
-	if strings.ContainsAny(s, ".Ee") {
-		verb := "f"
-		if strings.ContainsAny(s, "Ee") {
-			verb = "E"
-		}
-		s = regexp.MustCompile("[eE]+[+-]0+").ReplaceAllString(s, "")
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.IndexByte(s2, '.')
-		i3 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
-		}
-		sf := fmt.Sprintf("%%%d.%d%s", i3-i1, i3-i2, verb)
-		//log.Printf("   made float formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
-		ctype = FloatCell
-	} else {
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
+func hasNumber(toks []fmtToken) bool {
+	return hasDigits(toks) || hasToken(toks, tokGeneral) || hasToken(toks, tokValue)
+}
+
+// magnitude is the absolute value of a number.
+func magnitude(v interface{}) interface{} {
+	if n, ok := v.(int64); ok && n != math.MinInt64 {
+		if n < 0 {
+			return -n
 		}
-		sf := fmt.Sprintf("%%%dd", i2-i1)
-		if (i2 - i1) == 0 {
-			sf = "%d"
+		return n
+	}
+	f, _ := convertToFloat64(v)
+	return math.Abs(f)
+}
+
+// makeSection creates the formatter for one section of a number format code.
+func makeSection(toks []fmtToken) (FmtFunc, CellType) {
+	isDate := false
+	for _, t := range toks {
+		if t.kind == tokTime && (!hasNumber(toks) || strings.ContainsAny(t.text, "ymdhs")) {
+			isDate = true
 		}
-		//log.Printf("   made int formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
-		ctype = IntegerCell
-		if mul != 1 {
-			// the value itself is a fraction
-			ctype = FloatCell
+	}
+	switch {
+	case isDate:
+		return codeTimeFunc(toks), DateCell
+	case hasDigits(toks):
+		for i := 1; i+1 < len(toks); i++ {
+			if toks[i].text == "/" && strings.Contains(toks[i-1].text, "?") && strings.Trim(toks[i+1].text, "?") == "" {
+				return fracFmtFunc(len(toks[i+1].text)), FloatCell
+			}
 		}
+		return numberFmtFunc(toks)
 	}
+	// the code does not say what the values are
+	return textFmtFunc(toks), BlankCell
+}
 
-	if strings.Contains(s, ",") {
-		ff = addCommas(ff)
-		//log.Printf("   added commas")
+// textFmtFunc renders literal text around the value.
+func textFmtFunc(toks []fmtToken) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		s := ""
+		for _, t := range toks {
+			if t.kind == tokValue || t.kind == tokGeneral {
+				s += identFunc(x, v)
+			} else {
+				s += t.text
+			}
+		}
+		return s
 	}
+}
 
-	surReg := regexp.MustCompile(`[0#?,.]+`)
-	prepost := surReg.Split(s, 2)
-	if len(prepost) > 0 && len(prepost[0]) > 0 {
-		prepost[0] = nonEsc.ReplaceAllString(prepost[0], `$1`)
-		prepost[0] = squash.ReplaceAllString(prepost[0], ``)
-		prepost[0] = fixEsc.ReplaceAllString(prepost[0], `$1`)
+// numberFmtFunc renders a number (without its sign) in the digit placeholders.
+func numberFmtFunc(toks []fmtToken) (FmtFunc, CellType) {
+	// find the digit placeholders
+	first, last := -1, -1
+	mul, expCode := 1.0, ""
+	for i, t := range toks {
+		switch t.kind {
+		case tokDigits:
+			if first < 0 {
+				first = i
+			}
+			last = i
+		case tokExp:
+			expCode = t.text
+			last = i
+		case tokPercent:
+			mul *= math.Pow(100, float64(len(t.text)))
+		}
+	}
+	pre, post := textFmtFunc(toks[:first])(nil, ""), textFmtFunc(toks[last+1:])(nil, "")
+
+	var whole []fmtToken // placeholders and text before the decimal point
+	decimals, minDecimals := 0, 0
+	isFloat := mul != 1 || expCode != ""
+	group, point := false, false
+	for _, t := range toks[first : last+1] {
+		if t.kind == tokExp {
+			continue
+		}
+		if t.kind != tokDigits {
+			if !point {
+				whole = append(whole, fmtToken{tokText, t.text})
+			}
+			continue
+		}
+		text := strings.TrimRight(t.text, ",")
+		// trailing commas scale by thousands
+		for n := len(t.text) - len(text); n > 0; n-- {
+			mul /= 1000
+		}
+		for _, c := range text {
+			switch {
+			case c == '.':
+				point = true
+			case c == ',':
+				group = true
+			case point:
+				decimals++
+				if c == '0' {
+					minDecimals = decimals
+				}
+			default:
+				whole = append(whole, fmtToken{tokDigits, string(c)})
+			}
+		}
 	}
-	if len(prepost) == 1 {
-		if prepost[0] == "@" {
-			return identFunc, StringCell
+	slots := 0
+	for _, t := range whole {
+		if t.kind == tokDigits {
+			slots++
+		}
+	}
+
+	ff := func(x *Formatter, v interface{}) string {
+		val, ok := convertToFloat64(v)
+		if _, isBool := v.(bool); isBool || !ok {
+			return fmt.Sprint(v)
+		}
+		s, exp := "", 0
+		if ival, isInt := v.(int64); isInt && mul == 1 && expCode == "" {
+			s = strconv.FormatInt(ival, 10)
+			if decimals > 0 {
+				s += "." + strings.Repeat("0", decimals)
+			}
+		} else {
+			val *= mul
+			if expCode != "" {
+				if slots > 1 {
+					// the exponent is a multiple of the digits before the point
+					if val != 0 {
+						exp = int(math.Floor(math.Log10(math.Abs(val))/float64(slots))) * slots
+					}
+					s = strconv.FormatFloat(scale10(val, -exp), 'f', decimals, 64)
+					if m, _ := strconv.ParseFloat(s, 64); math.Abs(m) >= math.Pow10(slots) {
+						exp += slots
+						s = strconv.FormatFloat(scale10(val, -exp), 'f', decimals, 64)
+					}
+				} else {
+					s = strconv.FormatFloat(val, 'E', decimals, 64)
+					if i := strings.IndexByte(s, 'E'); i >= 0 {
+						exp, _ = strconv.Atoi(s[i+1:])
+						s = s[:i]
+					}
+				}
+			} else {
+				if decimals == 0 {
+					val = math.Round(val)
+				}
+				s = strconv.FormatFloat(val, 'f', decimals, 64)
+			}
+		}
+
+		sign := ""
+		if strings.HasPrefix(s, "-") {
+			sign, s = "-", s[1:]
+		}
+		frac := ""
+		if i := strings.IndexByte(s, '.'); i >= 0 {
+			s, frac = s[:i], s[i+1:]
 		}
-		//log.Printf("   added static ('%s')", prepost[0])
-		return staticFmtFunc(prepost[0]), StringCell
+		for len(frac) > minDecimals && frac[len(frac)-1] == '0' {
+			frac = frac[:len(frac)-1]
+		}
+		if point {
+			frac = "." + frac
+		}
+		if expCode != "" {
+			e := strconv.Itoa(exp)
+			esign := ""
+			if exp < 0 {
+				e, esign = e[1:], "-"
+			} else if expCode[1] == '+' {
+				esign = "+"
+			}
+			if n := len(expCode) - 2 - len(e); n > 0 {
+				e = strings.Repeat("0", n) + e
+			}
+			frac += expCode[:1] + esign + e
+		}
+		return sign + pre + fillDigits(whole, strings.TrimLeft(s, "0"), group) + frac + post
+	}
+	if point || isFloat {
+		return ff, FloatCell
 	}
-	if len(prepost[0]) > 0 || len(prepost[1]) > 0 {
-		prepost[1] = nonEsc.ReplaceAllString(prepost[1], `$1`)
-		prepost[1] = squash.ReplaceAllString(prepost[1], ``)
-		prepost[1] = fixEsc.ReplaceAllString(prepost[1], `$1`)
+	return ff, IntegerCell
+}
 
-		ff = surround(prepost[0], ff, prepost[1])
-		//log.Printf("   added surround ('%s' ... '%s')", prepost[0], prepost[1])
+// scale10 multiplies with a power of ten.
+func scale10(v float64, exp int) float64 {
+	if exp < 0 {
+		return v / math.Pow10(-exp)
 	}
+	return v * math.Pow10(exp)
+}
 
-	return ff, ctype
+// fillDigits puts the digits of a whole number into the placeholders, from the
+// right. The first placeholder takes all the digits that are left.
+func fillDigits(whole []fmtToken, digits string, group bool) string {
+	slots := 0
+	for _, t := range whole {
+		if t.kind == tokDigits {
+			slots++
+		}
+	}
+	res := ""
+	count := 0
+	put := func(c string) {
+		if group && count > 0 && count%3 == 0 {
+			res = "," + res
+		}
+		res = c + res
+		count++
+	}
+	for i := len(whole) - 1; i >= 0; i-- {
+		t := whole[i]
+		if t.kind != tokDigits {
+			res = t.text + res
+			continue
+		}
+		slots--
+		n := 1
+		if slots == 0 {
+			n = len(digits)
+		}
+		if digits == "" && t.text == "0" {
+			put("0")
+		}
+		for ; n > 0 && digits != ""; n-- {
+			put(digits[len(digits)-1:])
+			digits = digits[:len(digits)-1]
+		}
+	}
+	return digits + res
 }
 
 // Get the number format func to use for formatting values,
-- 
2.43.0


From e2a320157d4bf776429d9c900a6a5d51992e7abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 86/97] fix: commonxl: number formats apply to every numeric
 type

---
 commonxl/fmt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index eda646d..f39ebe9 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -97,7 +97,10 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 	wantInt64 := strings.Contains(fs, "%d")
 	return func(x *Formatter, v interface{}) string {
 		switch val := v.(type) {
-		case int, uint, int64, uint64, int32, uint32, uint16, int16:
+		case float32:
+			return sprintfFunc(fs, mul)(x, float64(val))
+
+		case int, uint, int64, uint64, int32, uint32, uint16, int16, int8, uint8:
 			if wantInt64 && mul == 1 {
 				return fmt.Sprintf(fs, v)
 			}
-- 
2.43.0


From c5f95e0216f2b3e66dd04064b1904e34bbb9feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:13 +0000
Subject: [PATCH 87/97] fix: cfb: the streams of the root come first

A compound file may hold streams of the same name in several storages (an
embedded workbook has its own Workbook stream); the first in the order of the
directory was taken.
---
 xls/cfb/cfb.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 429797b..a8a8e57 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"io/ioutil"
 	"log"
+	"sort"
 	"unicode/utf16"
 
 	"github.com/pbnjay/grate"
@@ -299,6 +300,7 @@ func (d *Document) buildDirs() error {
 		}
 	}
 
+	var all []*directory // by stream id
 	br := bytes.NewReader(dirData)
 	for br.Len() > 0 {
 		dirent := &directory{}
@@ -306,6 +308,7 @@ func (d *Document) buildDirs() error {
 		if err != nil {
 			return err
 		}
+		all = append(all, dirent)
 		if d.header.MajorVersion == 3 {
 			// mask out upper 32bits
 			dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
@@ -333,6 +336,28 @@ func (d *Document) buildDirs() error {
 		d.dir = append(d.dir, dirent)
 	}
 
+	// step 4: list the contents of the root before those of other storages,
+	// which may have the same names (e.g. the Workbook of an embedded object)
+	nested := make(map[*directory]bool)
+	for _, e := range d.dir {
+		if e.ObjectType != typeStorage {
+			continue
+		}
+		todo := []uint32{e.ChildID}
+		for len(todo) > 0 {
+			id := todo[len(todo)-1]
+			todo = todo[:len(todo)-1]
+			if int64(id) >= int64(len(all)) || nested[all[id]] {
+				continue // no such entry, or seen before
+			}
+			nested[all[id]] = true
+			todo = append(todo, all[id].LeftSiblingID, all[id].RightSiblingID)
+		}
+	}
+	sort.SliceStable(d.dir, func(i, j int) bool {
+		return !nested[d.dir[i]] && nested[d.dir[j]]
+	})
+
 	return nil
 }
 
-- 
2.43.0


From e0c7b6d6287be64541b2c4ebedb99c025a5fe282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 88/97] fix: xlsx: rows and cells without a reference follow
 the one before

The r attribute of rows and cells is optional; such cells were dropped.
---
 xlsx/sheets.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 236091f..b48381c 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -3,6 +3,7 @@ package xlsx
 import (
 	"encoding/xml"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"path/filepath"
@@ -62,6 +63,7 @@ func (s *Sheet) parseSheet() error {
 	inText, inPhonetic := false, false
 	var fno uint16
 	var maxCol, maxRow int
+	curRow, curCol := 0, 0 // where a row or cell without a reference belongs
 
 	tok, err := dec.Token()
 	for ; err == nil; tok, err = dec.Token() {
@@ -96,6 +98,10 @@ func (s *Sheet) parseSheet() error {
 			case "row":
 				//currentRow = ax["r"] // unsigned int row index
 				//log.Println("ROW", currentRow)
+				curRow, curCol = curRow+1, 0
+				if n, err := strconv.Atoi(getAttrs(v.Attr, "r")[0]); err == nil {
+					curRow = n
+				}
 			case "c":
 				ax := getAttrs(v.Attr, "t", "r", "s")
 				currentCellType = CellType(ax[0])
@@ -103,6 +109,12 @@ func (s *Sheet) parseSheet() error {
 					currentCellType = NumberCellType
 				}
 				currentCell = ax[1] // always an A1 style reference
+				curCol++
+				if currentCell == "" {
+					currentCell = fmt.Sprintf("R%dC%d", curRow, curCol)
+				} else if c, r := refToIndexes(currentCell); c >= 0 {
+					curCol, curRow = c+1, r+1
+				}
 				cellText = ""
 				style := ax[2]
 				sid, _ := strconv.ParseInt(style, 10, 64)
-- 
2.43.0


From 8b7a2a260510e0a0efb5c98adba31c13b67e9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 89/97] fix: xlsx: escaped characters of a text are read

Texts hold characters that XML cannot, e.g. a carriage return, as _x000D_.
---
 xlsx/sheets.go   |  4 +++-
 xlsx/types.go    | 16 ++++++++++++++++
 xlsx/workbook.go |  2 +-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index b48381c..8853a52 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -249,7 +249,9 @@ func (s *Sheet) putCell(ref string, ct CellType, text string, fno uint16) error
 			return errors.New("xlsx: invalid shared string index")
 		}
 		val = s.d.strings[si]
-	case ErrorCellType, FormulaStringCellType, InlineStringCellType:
+	case FormulaStringCellType, InlineStringCellType:
+		val = unescape(text)
+	case ErrorCellType:
 		//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
 	default:
 		log.Println("CELL UNKNOWN", val, ct, fno)
diff --git a/xlsx/types.go b/xlsx/types.go
index 24e1719..5a1231d 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -2,8 +2,10 @@ package xlsx
 
 import (
 	"encoding/xml"
+	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 )
 
 type CellType string
@@ -100,6 +102,20 @@ func validIndexes(column, row int) (int, int) {
 	return column, row
 }
 
+var escapedChar = regexp.MustCompile("_x[0-9A-Fa-f]{4}_")
+
+// unescape replaces the _xHHHH_ escapes of a text by the characters they stand
+// for, section 22.9.2.19
+func unescape(text string) string {
+	return escapedChar.ReplaceAllStringFunc(text, func(m string) string {
+		n, err := strconv.ParseUint(m[2:6], 16, 16)
+		if err != nil || utf16.IsSurrogate(rune(n)) {
+			return m
+		}
+		return string(rune(n))
+	})
+}
+
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	res := make([]string, len(keys))
 	for _, a := range attrs {
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index eeb5e7f..34bffe9 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -211,7 +211,7 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 		case xml.EndElement:
 			switch v.Name.Local {
 			case "si":
-				d.strings = append(d.strings, val)
+				d.strings = append(d.strings, unescape(val))
 			case "t":
 				inText = false
 			case "rPh":
-- 
2.43.0


From 72a9a362ce66452f9585b4dbcfd4366648e2d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:11 +0000
Subject: [PATCH 90/97] fix: commonxl: values half way are rounded away from
 zero

---
 commonxl/fmt.go     | 27 +++++++++++++++++++++++++--
 commonxl/formats.go |  7 ++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f39ebe9..79d334b 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -93,8 +93,30 @@ func identFunc(x *Formatter, v interface{}) string {
 	return fmt.Sprint(v)
 }
 
+// halfUp prepares v for rounding to n decimals (of the mantissa, with verb 'e'):
+// a value half way between two of them is rounded away from zero. As in other
+// spreadsheet applications only the first 15 digits count.
+func halfUp(v float64, verb byte, n int) float64 {
+	v15, _ := strconv.ParseFloat(strconv.FormatFloat(v, 'e', 14, 64), 64)
+	s, exp := strconv.FormatFloat(v15, verb, -1, 64), ""
+	if i := strings.IndexByte(s, 'e'); i >= 0 {
+		s, exp = s[:i], s[i:]
+	}
+	if i := strings.IndexByte(s, '.'); i >= 0 && len(s) == i+n+2 && s[len(s)-1] == '5' {
+		v, _ = strconv.ParseFloat(s[:len(s)-1]+"6"+exp, 64)
+	}
+	return v
+}
+
 func sprintfFunc(fs string, mul int) FmtFunc {
 	wantInt64 := strings.Contains(fs, "%d")
+	verb, decimals := byte('f'), 0
+	if i := strings.IndexByte(fs, '.'); i >= 0 {
+		decimals = int(fs[i+1] - '0')
+	}
+	if strings.HasSuffix(fs, "E") {
+		verb = 'e'
+	}
 	return func(x *Formatter, v interface{}) string {
 		switch val := v.(type) {
 		case float32:
@@ -109,6 +131,7 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 
 		case float64:
 			val *= float64(mul)
+			val = halfUp(val, verb, decimals)
 			if wantInt64 {
 				v2 := math.Round(val)
 				if math.Abs(v2) >= math.MaxInt64 {
@@ -135,10 +158,10 @@ func engFmtFunc(n int) FmtFunc {
 		if f != 0 {
 			exp = int(math.Floor(math.Log10(math.Abs(f))/3)) * 3
 		}
-		s := strconv.FormatFloat(f/math.Pow10(exp), 'f', n, 64)
+		s := strconv.FormatFloat(halfUp(f/math.Pow10(exp), 'f', n), 'f', n, 64)
 		if m, _ := strconv.ParseFloat(s, 64); math.Abs(m) >= 1000 {
 			exp += 3
-			s = strconv.FormatFloat(f/math.Pow10(exp), 'f', n, 64)
+			s = strconv.FormatFloat(halfUp(f/math.Pow10(exp), 'f', n), 'f', n, 64)
 		}
 		return fmt.Sprintf("%sE%+d", s, exp)
 	}
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 919087f..a297a8f 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -381,19 +381,20 @@ func numberFmtFunc(toks []fmtToken) (FmtFunc, CellType) {
 					if val != 0 {
 						exp = int(math.Floor(math.Log10(math.Abs(val))/float64(slots))) * slots
 					}
-					s = strconv.FormatFloat(scale10(val, -exp), 'f', decimals, 64)
+					s = strconv.FormatFloat(halfUp(scale10(val, -exp), 'f', decimals), 'f', decimals, 64)
 					if m, _ := strconv.ParseFloat(s, 64); math.Abs(m) >= math.Pow10(slots) {
 						exp += slots
-						s = strconv.FormatFloat(scale10(val, -exp), 'f', decimals, 64)
+						s = strconv.FormatFloat(halfUp(scale10(val, -exp), 'f', decimals), 'f', decimals, 64)
 					}
 				} else {
-					s = strconv.FormatFloat(val, 'E', decimals, 64)
+					s = strconv.FormatFloat(halfUp(val, 'e', decimals), 'E', decimals, 64)
 					if i := strings.IndexByte(s, 'E'); i >= 0 {
 						exp, _ = strconv.Atoi(s[i+1:])
 						s = s[:i]
 					}
 				}
 			} else {
+				val = halfUp(val, 'f', decimals)
 				if decimals == 0 {
 					val = math.Round(val)
 				}
-- 
2.43.0


From bebc3e9b53023de631b832bf177ea78316e6b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:09 +0000
Subject: [PATCH 91/97] fix: commonxl: the code of format 56 ends its quote

---
 commonxl/formats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index a297a8f..db0c409 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -569,7 +569,7 @@ var builtInFormats = map[uint16]string{
 	53: `m"月"d"日"`,
 	54: `m"月"d"日"`,
 	55: `上午/下午 h"时"mm"分"`,
-	56: `上午/下午 h"时"mm"分"ss"秒`,
+	56: `上午/下午 h"时"mm"分"ss"秒"`,
 	57: `yyyy"年"m"月"`,
 	58: `m"月"d"日"`,
 
-- 
2.43.0


From 30c96451a22386a99671d78fed82420e85f11858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 92/97] fix: commonxl: an integer equals the text that denotes
 exactly it

---
 commonxl/cell.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index bad71f4..d9fdfec 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -361,6 +361,18 @@ func (c Cell) number() (float64, bool) {
 	return 0, false
 }
 
+// integer returns the integer that a cell's value is or that its text denotes.
+func (c Cell) integer() (int64, bool) {
+	switch v := c[0].(type) {
+	case int64:
+		return v, true
+	case string:
+		n, err := strconv.ParseInt(v, 10, 64)
+		return n, err == nil
+	}
+	return 0, false
+}
+
 // Equal returns true if both cells hold the same value. A number equals
 // the text that denotes it.
 func (c Cell) Equal(other Cell) bool {
@@ -369,8 +381,8 @@ func (c Cell) Equal(other Cell) bool {
 	}
 	if c.Type() == FloatCell || other.Type() == FloatCell ||
 		c.Type() == IntegerCell || other.Type() == IntegerCell {
-		x1, int1 := c[0].(int64)
-		x2, int2 := other[0].(int64)
+		x1, int1 := c.integer()
+		x2, int2 := other.integer()
 		if int1 && int2 {
 			return x1 == x2
 		}
-- 
2.43.0


From 5a523b164c4e65619bb12c657ca2fc370a57b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:55 +0000
Subject: [PATCH 93/97] fix: commonxl: truth values compare with numbers as 1
 and 0

---
 commonxl/cell.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index d9fdfec..9329849 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -406,22 +406,24 @@ func (c Cell) Less(other Cell) bool {
 		// F < F = F
 		// T < T = F
 		// T < F = F
-		if v1 {
-			return false
-		}
-
-		// if v2 is truthy, return true
 		switch v2 := other[0].(type) {
 		case nil:
 			return false
 		case bool:
-			return v2
+			return !v1 && v2
 		case int64:
-			return v2 != 0
+			if v1 {
+				return 1 < v2
+			}
+			return 0 < v2
 		case float64:
-			return v2 != 0.0
+			if v1 {
+				return 1 < v2
+			}
+			return 0 < v2
 		case string:
-			return boolStrings[v2]
+			// if v2 is truthy, return true
+			return !v1 && boolStrings[v2]
 		}
 
 	case int64:
-- 
2.43.0


From 3de56a8071748cc031e201cc1b6228454ec33265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:47 +0000
Subject: [PATCH 94/97] fix: commonxl: a fraction that makes a whole is added
 to the whole number

---
 commonxl/numbers.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/commonxl/numbers.go b/commonxl/numbers.go
index 6aec77b..c397861 100644
--- a/commonxl/numbers.go
+++ b/commonxl/numbers.go
@@ -17,6 +17,15 @@ func DecimalToWholeFraction(val float64, nn, nd int) (whole, num, den int) {
 	}
 	whole = int(wholeF)
 	num, den = DecimalToFraction(part, nn, nd)
+	if num == den {
+		// closest to the next whole number
+		num, den = 0, 1
+		if val < 0 {
+			whole--
+		} else {
+			whole++
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 900a17ac078d41b2073be392af70808c0d97aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:40 +0000
Subject: [PATCH 95/97] fix: commonxl: integers compare with floating numbers
 without rounding

---
 commonxl/cell.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 9329849..2338e48 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -373,6 +373,22 @@ func (c Cell) integer() (int64, bool) {
 	return 0, false
 }
 
+// lessIntFloat returns true if i is less than f, without rounding i.
+func lessIntFloat(i int64, f float64) bool {
+	if f >= 1<<63 {
+		return true
+	}
+	return f >= -1<<63 && (i < int64(f) || i == int64(f) && math.Trunc(f) < f)
+}
+
+// lessFloatInt returns true if f is less than i, without rounding i.
+func lessFloatInt(f float64, i int64) bool {
+	if f < -1<<63 {
+		return true
+	}
+	return f < 1<<63 && (int64(f) < i || int64(f) == i && f < math.Trunc(f))
+}
+
 // Equal returns true if both cells hold the same value. A number equals
 // the text that denotes it.
 func (c Cell) Equal(other Cell) bool {
@@ -388,6 +404,12 @@ func (c Cell) Equal(other Cell) bool {
 		}
 		v1, ok1 := c.number()
 		v2, ok2 := other.number()
+		if int1 && ok2 && v1 == v2 {
+			return !lessIntFloat(x1, v2) && !lessFloatInt(v2, x1)
+		}
+		if int2 && ok1 && v1 == v2 {
+			return !lessIntFloat(x2, v1) && !lessFloatInt(v1, x2)
+		}
 		return ok1 && ok2 && v1 == v2
 	}
 
@@ -441,13 +463,7 @@ func (c Cell) Less(other Cell) bool {
 		case int64:
 			return v1 < v2
 		case float64:
-			if v2 < math.MinInt64 {
-				return false
-			}
-			if v2 > math.MaxInt64 {
-				return true
-			}
-			return float64(v1) < v2
+			return lessIntFloat(v1, v2)
 		case string:
 			if x, err := strconv.ParseInt(v2, 10, 64); err == nil {
 				return v1 < x
@@ -468,16 +484,13 @@ func (c Cell) Less(other Cell) bool {
 			}
 			return v1 < x
 		case int64:
-			if v1 < math.MinInt64 {
-				return true
-			}
-			if v1 > math.MaxInt64 {
-				return false
-			}
-			return v1 < float64(v2)
+			return lessFloatInt(v1, v2)
 		case float64:
 			return v1 < v2
 		case string:
+			if x, err := strconv.ParseInt(v2, 10, 64); err == nil {
+				return lessFloatInt(v1, x)
+			}
 			if x, ok := parseNumber(v2); ok {
 				return v1 < x
 			}
@@ -506,6 +519,9 @@ func (c Cell) Less(other Cell) bool {
 			}
 			return v1 < fmt.Sprint(v2)
 		case float64:
+			if x, err := strconv.ParseInt(v1, 10, 64); err == nil {
+				return lessIntFloat(x, v2)
+			}
 			if x, ok := parseNumber(v1); ok {
 				return x < v2
 			}
-- 
2.43.0


From fcecd787fd438949be6b45a3a9908900193160ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:55 +0000
Subject: [PATCH 96/97] fix: xlsx: Office documents that are no workbook are
 not in this format

---
 xlsx/workbook.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 34bffe9..5368504 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -57,10 +57,16 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 }
 
 func (d *Document) parseWorkbook(dec *xml.Decoder) error {
+	isRoot := true
 	tok, err := dec.Token()
 	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
+			if isRoot && v.Name.Local != "workbook" {
+				// an Office document of another kind
+				return grate.ErrNotInFormat
+			}
+			isRoot = false
 			switch v.Name.Local {
 			case "sheet":
 				vals := make(map[string]string, 5)
-- 
2.43.0


From 3cbde26dd98aa8a9e0e399c9f3454c027b91ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:55 +0000
Subject: [PATCH 97/97] fix: xlsx: packages without a main document are not in
 this format

---
 xlsx/xlsx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index d542564..ff5b0b6 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -82,7 +82,7 @@ func openDocument(filename string, f *os.File) (*Document, error) {
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
 	if d.primaryDoc == "" {
-		return nil, errors.New("xlsx: invalid document")
+		return nil, grate.WrapErr(errors.New("xlsx: invalid document"), grate.ErrNotInFormat)
 	}
 
 	// parse the secondary relationships to primary doc
-- 
2.43.0

