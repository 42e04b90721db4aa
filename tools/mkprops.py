#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Open picks the highest-priority format that accepts the file",
 "For every set of registered formats, in every registration order, opening a file consults the formats one at a time in ascending priority order, each at most once, and returns the result of the first that accepts it. A format that reports the file is not in its format, directly or inside a wrapped error, is passed over; any other error ends the search and is returned; when every format declines, the unknown-format error is returned. With the bundled formats the outcome depends only on the file's bytes, never on its name.",
 ["histories", "configurations"], "every interleaving of registrations and opens, every outcome per format (accept, decline, wrapped decline, hard error), equal and distinct priorities, and every kind of content under every file name",
 "No test calls grate.Open or grate.Register at all; the tests open each format's package directly.",
 ["grate.go", "errs.go", "xls/xls.go", "xlsx/xlsx.go", "simple/tsv.go", "simple/csv.go"],
 [("Open loop over the sorted registry", "grate.go: Open"), ("priority sort on registration", "grate.go: Register"), ("error wrapping", "errs.go: WrapErr")],
 [("registry", "formats in priority order", "grate.go: srcTable")], ["grate.Open", "grate.Register", "errors.Is on the result"])

prop("C02", "Records come in order, exactly once, with consistent columns",
 "For every sheet or table of every supported format, advancing delivers the first record first and each following record exactly once, then reports the end and keeps reporting it. On every delivered record the strings, types and format codes have one entry per column in the same column order, reading them any number of times in any order neither changes them nor moves the position, and scanning stores exactly the record's values or returns an error (the invalid-scan-type error for an unsupported destination). A sheet is reported empty exactly when no record holds a value.",
 ["histories", "inputs"], "every sequence of advance, read and scan calls on tables of every small shape, in each of the four formats",
 "The tests walk three sample files once, only call Strings, and never call Types, Formats, Scan or IsEmpty.",
 ["commonxl/sheet.go", "simple/simple.go"],
 [("cursor", "commonxl/sheet.go: Next"), ("row accessors", "commonxl/sheet.go: Strings, Types, Formats, Scan"), ("plaintext cursor", "simple/simple.go: Next, Strings, Types, Formats, Scan")],
 [("cursor", "position of the current record", "commonxl.Sheet.CurRow, simple.simpleFile.iterRow")], ["grate.Collection"])

prop("C03", "Writing a cell changes only that cell, and growth loses nothing",
 "For every sequence of cell writes, text-result updates, hyperlink attachments and enlargements on a spreadsheet grid, each cell holds the value, type, number format and hyperlink last given to it, every other cell is unchanged, and untouched cells are blank. Writing outside the current bounds enlarges the grid to include that cell, never shrinks it, and keeps all existing content in place.",
 ["histories"], "every sequence of grid operations over small coordinates, plus long random sequences over large ones",
 "The tests only fill grids row by row from sample files and compare rendered values of existing cells.",
 ["commonxl/sheet.go", "commonxl/cell.go"],
 [("in-place growth", "commonxl/sheet.go: Resize"), ("cell writes", "commonxl/sheet.go: Put, Set, SetURL"), ("cell slots", "commonxl/cell.go: SetURL, SetFormatNumber, URL, FormatNo")],
 [("grid", "rows of cells and extents", "commonxl.Sheet.Rows, NumRows, NumCols")], ["commonxl.Sheet.Raw", "commonxl.Sheet.Strings"])

prop("C04", "Cell types follow number formats without destroying values",
 "For every value kind and every number format, the stored cell's type matches the kind of value it holds, and is the format's own type whenever the value can be converted to it (numbers become dates under date formats, fractions are truncated under integer formats, numeric text becomes a number under numeric formats, anything becomes text under text formats). Text that does not denote a number or date is kept as that text and is rendered as that text, blank input stays blank, and values written without a format keep their own kind. Converting a value to a type directly follows the same rules; as a truth value a number is whether it is not zero, a text is what its word states, and anything else stays as it is.",
 ["inputs"], "every value kind (booleans, every integer width, floats, numeric and non-numeric text, blank, times) times every built-in and custom number format class",
 "Unit tests never inspect cell types; the sample-file comparison treats a number as equal to any text.",
 ["commonxl/cell.go", "commonxl/sheet.go", "commonxl/formats.go", "commonxl/dates.go"],
 [("natural typing", "commonxl/cell.go: NewCell"), ("coercion", "commonxl/cell.go: NewCellWithType"), ("format to type table", "commonxl/formats.go: builtInFormatTypes, getCellType, makeFormatter")],
 [("cell", "value, type and format slots", "commonxl.Cell")], ["commonxl.Sheet.Put then Raw/Types/Strings", "commonxl.NewCellWithType"])

prop("C05", "A sector reader behaves as one contiguous seekable stream",
 "For every division of a byte string into pieces, including empty ones, and every sequence of reads and seeks, the reader returns exactly the bytes the concatenated string holds at the current position and advances by the number returned, reporting end of stream only at its end. Seeks relative to start, current position and end arrive at the requested offset when it lies within the stream (both ends included) and otherwise fail without moving.",
 ["histories", "inputs"], "every division of short strings, every sequence of reads and seeks with in-range and out-of-range offsets, and long random sequences at real sector sizes",
 "TestSliceReader runs one fixed walk over five equal pieces and never touches piece boundaries, the end, failure cases or empty pieces.",
 ["xls/cfb/slicereader.go"],
 [("piecewise read", "xls/cfb/slicereader.go: Read"), ("offset walk", "xls/cfb/slicereader.go: Seek")],
 [("position", "piece index and offset inside it", "cfb.SliceReader.Index, Offset")], ["cfb.SliceReader", "cfb.Document.Open"])

prop("C06", "Compound-file streams read back exactly in any sector layout",
 "For every well-formed compound file (both sector sizes, any placement and fragmentation of streams, allocation tables, mini-stream and directory over sectors, any number of directory entries), listing names exactly its streams, and opening one yields exactly the bytes stored under that name, at its exact length; where folders hold streams of the same name, the name stands for the one in the root, if there is one. This holds for streams kept in ordinary sectors, for short ones kept in the mini-stream, and when the allocation tables themselves span several or chained sectors.",
 ["inputs", "configurations"], "every allocation history of a few streams over shuffled sectors, stream sizes around each sector and cutoff boundary, and allocation tables from one sector up to chained ones",
 "Sample files are unfragmented, have four directory entries, one mini-allocation sector and no chained tables; the four cfb file tests do not even run.",
 ["xls/cfb/cfb.go", "xls/cfb/interface.go"],
 [("allocation table loading", "xls/cfb/cfb.go: load"), ("directory walk", "xls/cfb/cfb.go: buildDirs"), ("chain walk", "xls/cfb/cfb.go: getStreamReader, getMiniStreamReader"), ("lookup by name", "xls/cfb/interface.go: Open, List")],
 [("fat", "next-sector map", "cfb.Document.fat"), ("minifat", "next-mini-sector map", "cfb.Document.minifat")], ["cfb.Open", "cfb.Document.List", "cfb.Document.Open"])

prop("C07", "Cut-off or broken compound files yield errors, never wrong data",
 "For every compound file cut off at any byte, and for every stream whose sector chain leaves the file, ends before its declared length, or runs in a circle, or depends on a sector of the allocation table that is lost, or is shorter than the declared length, opening the file or the stream either fails with an error or yields exactly the bytes that were stored. The same holds when a link between directory entries is wrong, in which case a name may also yield another stream stored under it. A header that states another signature, byte order, version, sector size, mini sector size or cutoff than the format allows is refused; its other fields never change the data. It never crashes, never runs forever and never returns a stream shorter than its declared length as if it were complete.",
 ["crash_points", "fault_sequences"], "every truncation point of a family of compound files, and every single broken link (free, past the end of the file, early end, self-loop, back-loop) in stream, mini-stream, table and directory chains",
 "No test opens a damaged file.",
 ["xls/cfb/cfb.go", "xls/cfb/interface.go", "xls/xls.go"],
 [("bounds checks while loading", "xls/cfb/cfb.go: load, buildDirs"), ("bounds checks while walking chains", "xls/cfb/cfb.go: getStreamReader, getMiniStreamReader"), ("record truncation", "xls/xls.go: nextRecord")],
 [("data", "file image", "cfb.Document.data")], ["cfb.Open", "cfb.Document.Open", "xls.Open"])

prop("C08", "XLS sheets are listed in order and resolve to their own content",
 "For every XLS workbook, listing gives the visible sheet names in workbook order, listing hidden ones gives exactly the others, and getting a sheet by name delivers the content of that sheet's own part of the file, in whatever order the parts are stored. Content embedded inside a sheet (such as charts, nested to any depth) contributes no cells and does not disturb what follows it; unknown names, dialog sheets and unsupported file versions are errors or empty, never another sheet's content.",
 ["inputs", "configurations"], "every number, visibility and naming of sheets, every physical order of sheet parts, every placement of embedded parts",
 "Sample files have a few visible sheets stored in listed order without embedded content.",
 ["xls/xls.go", "xls/sheets.go", "xls/strings.go"],
 [("substream grouping", "xls/xls.go: loadFromStream2"), ("position lookup", "xls/sheets.go: Get"), ("embedded content skipping", "xls/sheets.go: parseSheet"), ("visibility", "xls/sheets.go: List, ListHidden")],
 [("substreams", "records grouped by top-level part", "xls.WorkBook.substreams, pos2substream")], ["xls.Open", "WorkBook.List", "WorkBook.ListHidden", "WorkBook.Get"])

prop("C09", "XLS strings survive any record split and encoding switch",
 "For every table of shared strings and every formula text result, the text delivered equals the text stored, however it is divided over continuation records and however each part is encoded (one or two bytes per character), with or without formatting runs and phonetic data attached. Every string keeps its own index: no string is lost, merged, shifted or altered by what precedes it.",
 ["inputs", "configurations"], "every division of every short string table at every legal break point with every encoding choice per part, plus long tables at real record sizes",
 "Sample files contain at most a couple of naturally occurring splits.",
 ["xls/strings.go", "xls/sheets.go", "xls/xls.go"],
 [("continued table decoding", "xls/strings.go: parseSST"), ("continued formula text", "xls/sheets.go: parseSheet, String record"), ("gathering continuation records", "xls/xls.go: loadFromStream2")],
 [("strings", "decoded table", "xls.WorkBook.strings")], ["Strings() of cells that reference each table entry"])

prop("C10", "XLS cell records give the stored values at the stored positions",
 "For every sequence of cell records in an XLS sheet (numbers, compact numbers single and in runs, booleans, errors, shared text, formulas with number, text, boolean, error or empty results), each cell of the delivered sheet holds the last value stored at its row and column with the number format its style selects, and every other cell is blank. Compact number encodings decode to the exact integer, floating or hundredth value they denote, positive or negative.",
 ["inputs", "histories"], "every short sequence of cell records with boundary rows, columns, values and style indexes, plus long random sequences",
 "Two sample files cover some record kinds with one value each; several encodings never occur.",
 ["xls/sheets.go", "xls/structs.go", "xls/xls.go"],
 [("record dispatch", "xls/sheets.go: parseSheet"), ("compact numbers", "xls/structs.go: RKNumber"), ("styles", "xls/xls.go: XF and Format records")],
 [("grid", "cells placed so far", "commonxl.Sheet")], ["WorkBook.Get then Raw/Strings/Types/Scan"])

prop("C11", "Merged regions are marked cell by cell around the kept value",
 "For every set of disjoint merged regions in an XLS or XLSX sheet, the top-left cell keeps its own value; the other cells of its left column read as the row-continuation marker, ending with the row-end marker in the last row; and in every row each later column reads as the column-continuation marker, ending with the column-end marker in the last column. Cells outside the regions are unaffected, regions reaching beyond the sheet's used area never enlarge an XLSX sheet, and both formats mark the same region identically.",
 ["inputs"], "every rectangle in a small grid, pairs of disjoint rectangles, whole-row and whole-column regions, with and without values underneath, in both formats",
 "Only the shape of the few merges in sample files is exercised, and only where the expected file lists them.",
 ["xls/sheets.go", "xlsx/sheets.go", "grate.go", "commonxl/sheet.go"],
 [("XLS merge expansion", "xls/sheets.go: parseSheet, MergeCells"), ("XLSX merge expansion", "xlsx/sheets.go: parseSheet, mergeCell"), ("marker cells", "commonxl/sheet.go: Put")],
 [("grid", "cells placed so far", "commonxl.Sheet")], ["Strings() of the sheet"])

prop("C12", "Hyperlinks attach to their cell and disturb no other cell",
 "For every hyperlink starting in an XLS sheet's used area (web, file, plain-text or in-document target; with or without display text, frame name or in-document location; over one cell or a region), its top-left cell reads as the display text followed by the full target in angle brackets, and a region is marked like a merged one. For every external hyperlink in an XLSX sheet the (top-left) cell is typed as hyperlink and reads as the target; an in-document XLSX hyperlink leaves the cell's own content unchanged. No other cell is affected.",
 ["inputs"], "every combination of hyperlink parts and target kinds, at every small region, before and after other cells",
 "Sample files contain only a few hyperlinks of one kind and tests never check cell types.",
 ["xls/hyperlinks.go", "xls/sheets.go", "xlsx/sheets.go", "commonxl/cell.go"],
 [("hyperlink decoding", "xls/hyperlinks.go: decodeHyperlinks, parseHyperlinkMoniker"), ("XLS placement", "xls/sheets.go: parseSheet, HLink"), ("XLSX placement", "xlsx/sheets.go: parseSheet, hyperlink")],
 [("grid", "cells placed so far", "commonxl.Sheet")], ["Strings() and Types() of the sheet"])

prop("C13", "Password-obfuscated XLS reads identically to the plain workbook",
 "For every workbook stream obfuscated with the default password, whatever its record types, sizes and positions relative to the 1024-byte cipher blocks, opening it delivers exactly what opening the plain workbook delivers. The decryptor's output depends only on the bytes written, not on how the writes are divided; a key check that fails and unsupported encryption kinds are errors. A stream that is cut off inside a record is refused, and one cut off between records reads as the plain stream cut off there.",
 ["inputs", "configurations"], "every short sequence of record kinds and sizes placed at every phase of the cipher blocks, and every division of writes around block boundaries",
 "No test file is encrypted and the crypto package has no tests.",
 ["xls/crypto/rc4.go", "xls/crypto/crypto.go", "xls/xls.go"],
 [("block cipher stream", "xls/crypto/rc4.go: Write, Flush, startBlock"), ("cleartext overlays", "xls/xls.go: loadFromStreamWithDecryptor"), ("key check", "xls/crypto/rc4.go: Verify")],
 [("cipher position", "block number and offset", "crypto.rc4Writer.block, offset")], ["xls.Open", "crypto.NewBasicRC4"])

prop("C14", "XLSX cells deliver every stored value at its reference",
 "For every XLSX worksheet (cells and rows with references in any order, or without: then each follows the one before it), each referenced cell holds the value its type denotes (number, boolean, shared text, in-place text including every formatted run, formula text result, error) and every other cell is blank, whether or not used-area information, formula text or white space between elements is present and however the character data is divided. Escaped characters of a text (_xHHHH_) are read as what they stand for. Shared text is the concatenation of its own runs, without phonetic annotations, and every entry keeps its index.",
 ["inputs"], "every short sequence of cells of every type at boundary references, with every serialization choice",
 "Sample files come from one producer and one serialization style.",
 ["xlsx/sheets.go", "xlsx/types.go", "xlsx/workbook.go"],
 [("sheet event loop", "xlsx/sheets.go: parseSheet"), ("references", "xlsx/types.go: refToIndexes, col2int"), ("shared strings", "xlsx/workbook.go: parseSharedStrings")],
 [("grid", "cells placed so far", "commonxl.Sheet")], ["Document.Get then Raw/Strings/Types"])

prop("C15", "XLSX parts, sheet names and styles resolve by their relationships",
 "For every XLSX package, whatever the part names, folders, relationship identifiers, relative or absolute targets and part order, listing gives the sheet names in workbook order and getting a name delivers the content of exactly the part its relationship designates. A cell's number format is the one its style index selects among the cell styles (none when the style switches it off or is absent), custom format codes included, and the workbook's 1904 date setting applies to its dates.",
 ["inputs", "configurations"], "every permutation of sheets, identifiers and targets over a few parts, every target spelling, every style table of a few entries",
 "Sample packages all use the same default part names, order and relative targets.",
 ["xlsx/xlsx.go", "xlsx/workbook.go", "xlsx/sheets.go"],
 [("relationship resolution", "xlsx/workbook.go: parseRels"), ("sheet table", "xlsx/workbook.go: parseWorkbook"), ("styles", "xlsx/workbook.go: parseStyles"), ("lookup", "xlsx/xlsx.go: Get, List, openXML")],
 [("relationship table", "type to id to part", "xlsx.Document.rels")], ["xlsx.Open", "Document.List", "Document.Get"])

prop("C16", "Number formats register once and built-in ones render as defined",
 "For every history of custom format registrations, built-in formats never change, the first definition of a custom identifier stays in force and later ones are refused, \"General\" maps to general rendering, and applying an unknown identifier reports that without failing. Every built-in numeric format renders every value with its defined sign, grouping, decimals, percent scaling, currency and zero conventions, values half way between two renderings going away from zero, and every built-in identifier reports its defined format code.",
 ["histories", "inputs"], "every short registration history over built-in, custom and unknown identifiers; every built-in numeric format applied to signed values around every digit-group, rounding and zero boundary",
 "The only number-format tests cover booleans and a comma helper (which fails); registration is untested.",
 ["commonxl/formats.go", "commonxl/fmt.go"],
 [("registration", "commonxl/formats.go: Add, Get, Apply"), ("renderers", "commonxl/fmt.go: goFormatters, addCommas, addNegParens, sprintfFunc, switchFmtFunc")],
 [("custom formats", "identifier to renderer", "commonxl.Formatter.customCodes")], ["commonxl.Formatter.Add/Get/Apply", "Sheet.Strings", "Sheet.Formats"])

prop("C17", "Date serials map to the right calendar instant and rendering",
 "For every date serial number, in the 1900 and the 1904 date system, the resulting instant is the system's epoch plus that many days in the Gregorian calendar, with fractions of a day giving the time to the millisecond; consecutive serials are consecutive days across every month, year and leap-day boundary. Every built-in date or time format renders an instant with its defined fields in its defined order, and the workbook's date system is the one applied.",
 ["inputs", "configurations"], "every day serial from 1900 to 2200 (and samples to 9999) in both systems, times over the day, and every built-in date format",
 "TestDateFormats only checks that formatting does not crash on ten dates; no test checks a conversion.",
 ["commonxl/dates.go", "commonxl/fmt.go", "commonxl/formats.go", "xls/xls.go", "xlsx/workbook.go"],
 [("serial conversion", "commonxl/dates.go: ConvertToDate"), ("date rendering", "commonxl/dates.go: timeFmtFunc, cnTimeFmtFunc"), ("date system selection", "commonxl/formats.go: Mode1904")],
 [("date system", "1900 or 1904", "commonxl.Formatter.flags")], ["Formatter.ConvertToDate", "Formatter.Apply", "Sheet.Strings on real files"])

prop("C18", "Workbooks and collections never influence one another",
 "For every history of opening, reading and closing any number of workbooks, in one or many goroutines, each collection delivers its own file's content from the first record, regardless of what else is open, being read, or was closed before or meanwhile. Getting a sheet again gives an independent, complete collection; collections stay readable after their workbook is closed, and asking a closed workbook for a sheet is an error.",
 ["histories", "schedules"], "every interleaving of open, get, advance and close over a few workbooks of each format, and concurrent use of separate workbooks under the race detector",
 "Tests open one workbook at a time, read each sheet once, and close it last.",
 ["xls/xls.go", "xls/sheets.go", "xlsx/xlsx.go", "simple/simple.go"],
 [("record recycling", "xls/xls.go: recPool, Close, nextRecord"), ("sheet caching", "xlsx/xlsx.go: Get"), ("per-source cursor", "simple/simple.go: Get")],
 [("record pool", "recycled records shared by all workbooks", "xls.recPool")], ["grate.Open, Source.Get, Collection.Next/Strings, Source.Close"])

prop("C19", "File handles are released after close and on every failed open",
 "For every history of successful and failed opens over every format, once a source has been closed, or its open has failed at any stage, the process holds no open handle on that file. This does not depend on garbage collection.",
 ["histories", "fault_sequences"], "every short history of open, get and close over files that each format accepts, declines, or fails on at each stage",
 "No test looks at descriptors; leaks are masked by finalizers.",
 ["xls/cfb/interface.go", "xls/xls.go", "xlsx/xlsx.go", "simple/tsv.go", "simple/csv.go", "grate.go"],
 [("close on load", "xls/cfb/interface.go: Open"), ("close on failure and on Close", "xlsx/xlsx.go: Open, Close"), ("deferred close", "simple/tsv.go, simple/csv.go")],
 [("open handles", "descriptors held per file", "process")], ["/proc/self/fd of the process that uses the library"])

prop("C20", "Delimited text is split exactly and TSV and CSV are told apart",
 "For every text file, the TSV reader delivers one record per line with the fields between tabs verbatim, and the CSV reader delivers the records and fields that standard comma-separated quoting defines, including embedded separators, quotes and line breaks. Each declines files whose column counts are irregular in the documented way, a file without any tab is not taken for TSV, a malformed CSV is declined as not in format, and a file that holds a NUL byte is binary and declined by both.",
 ["inputs"], "every text up to a bounded length over separators, quotes, line breaks and a letter, and every column-count profile around the detection thresholds",
 "There are no tests for delimited text at all.",
 ["simple/tsv.go", "simple/csv.go", "simple/simple.go"],
 [("line splitting", "simple/tsv.go: OpenTSV"), ("record reading", "simple/csv.go: OpenCSV"), ("shape heuristics", "simple/tsv.go, simple/csv.go")],
 [("rows", "parsed records", "simple.simpleFile.rows")], ["simple.OpenTSV", "simple.OpenCSV", "grate.Open"])

prop("C21", "grate2tsv extracts every file exactly once at any parallelism",
 "For every list of input files and any number of processors, the extraction command terminates, reports exactly one result line per sheet (or one error line per unreadable file) and leaves for every non-empty sheet one output file that holds all of its rows completely, each row intact and in order. Options for newline removal, trimming and blank-row skipping each act on their own, and reported row and column counts match the output.",
 ["schedules", "inputs", "configurations"], "every interleaving of a small number of workers, results and clean-up, every small set of readable, unreadable and empty inputs, and every option combination",
 "The commands have no tests.",
 ["cmd/grate2tsv/main.go"],
 [("fan-out and shutdown", "cmd/grate2tsv/main.go: main, runProcessor"), ("row output", "cmd/grate2tsv/main.go: processFile")],
 [("pending outputs", "files waiting to be flushed", "cmd/grate2tsv: cleanup, outpool")], ["results directory and results.txt after the process exits"])

prop("C22", "Fraction formatting finds every exactly representable fraction",
 "For every value that equals a whole number plus a fraction whose denominator has at most the requested number of digits, the fraction format renders exactly that whole number and that fraction in lowest terms, with the sign once in front. Every other value is rendered as one of the two fractions of at most so many digits that it lies between with none in between them - in lowest terms, its own sign once in front - and as a whole number when that fraction makes one.",
 ["inputs"], "every signed whole part and every fraction with denominator up to 99, wide ranges of those with three and four digits, and thousands of values between them with the two fractions they lie between",
 "The test table holds about thirty values.",
 ["commonxl/numbers.go", "commonxl/fmt.go"],
 [("continued-fraction search", "commonxl/numbers.go: DecimalToFraction, DecimalToWholeFraction"), ("rendering", "commonxl/fmt.go: fracFmtFunc")],
 [("convergents", "current and previous approximation", "commonxl/numbers.go: DecimalToFraction")], ["Formatter.Apply for the fraction formats", "commonxl.DecimalToWholeFraction"])

prop("C23", "grater prints every record of every sheet of every readable file",
 "For every list of files, the grater command prints, for each file in order and each of its sheets in order, every record as its values separated by tabs, one record to a line, and nothing of a file or sheet it cannot read, whose error goes to standard error and does not stop the files and sheets after it. The verbose mode adds its own lines and changes none of the records.",
 ["inputs", "configurations"], "every short list of readable, broken, missing and multi-sheet files, with and without the verbose switch",
 "The commands have no tests.",
 ["cmd/grater/main.go"],
 [("file and sheet loop", "cmd/grater/main.go: main")],
 [("position", "current file and sheet", "cmd/grater: main")], ["standard output and standard error of the process"])

prop("C24", "A damaged .xls workbook is refused or read for what it still says",
 "Whatever bytes a workbook stream holds - records cut short, lost, doubled, retyped or out of place, counts, lengths, indexes and positions that point outside of what is there, bytes changed, lost or added, the end missing - opening it and reading its sheets never panics, never hangs and never takes memory out of proportion. A stream whose workbook part cannot be read is refused when opened; a sheet that cannot be read is refused on its own; and every cell whose records are whole has its value and place. Damage inside one sheet leaves every other sheet as it was.",
 ["inputs", "faults"], "every single damage to every record and to every byte of a workbook that uses every kind of record, and combinations of several",
 "The tests only read whole files.",
 ["xls/xls.go", "xls/sheets.go", "xls/strings.go", "xls/hyperlinks.go", "commonxl/sheet.go"],
 [("record split", "xls/xls.go: nextRecord, loadFromStream2"), ("sheet records", "xls/sheets.go: parseSheet"), ("string table", "xls/strings.go: parseSST")],
 [("substreams", "records of each part by position", "xls: WorkBook.substreams, pos2substream"), ("shared tables", "strings and cell formats", "xls: WorkBook.strings, xfs")],
 ["xls.Open and its error", "WorkBook.List", "WorkBook.Get and its error", "the cells of the sheet"])

prop("C25", "A damaged .xlsx workbook is refused or read for what it still says",
 "Whatever a package holds - parts missing, cut short, not well-formed or not matching their checksum, elements lost, doubled, renamed, exchanged or out of place, attributes missing or with impossible numbers and references - opening it and reading its sheets never panics, never hangs and never takes memory out of proportion. A package whose own parts (relationships, workbook, styles, strings) cannot be read is refused when opened; a sheet that cannot be read to its end is refused on its own instead of showing a part of its rows; and every cell that is whole has its value and place. Damage inside one sheet leaves every other sheet as it was.",
 ["inputs", "faults"], "every single damage to every element, attribute, text and part of a package that uses every element the library reads, and combinations of several",
 "The tests only read whole files.",
 ["xlsx/xlsx.go", "xlsx/workbook.go", "xlsx/sheets.go", "xlsx/types.go", "commonxl/sheet.go"],
 [("workbook parts", "xlsx/workbook.go: parseRels, parseWorkbook, parseStyles, parseSharedStrings"), ("sheet elements", "xlsx/sheets.go: parseSheet"), ("references", "xlsx/types.go: refToIndexes")],
 [("parts", "elements of each part", "xlsx: Document"), ("shared tables", "strings and cell formats", "xlsx: Document.strings, xfs")],
 ["xlsx.Open and its error", "Document.List", "Document.Get and its error", "the cells of the sheet"])

prop("C26", "Cells compare as the values they hold",
 "For every two cells, Equal and Less say how their values compare: numbers compare by value whatever holds them - an integer (to its last digit), a floating number, or a text that as a whole denotes a number; two texts compare by their code points; truth values false before true, and with numbers as 1 and 0; an integer with a text that writes one to the last digit; times by instant, whatever their zone. A number never equals a text that does not denote it, a time equals only times, and a blank (or never written) cell equals blanks only and is neither less nor greater than anything. Equal gives the same answer from both sides, every cell equals itself, at most one of Equal, Less and its reverse holds, the order is transitive among cells of one kind, and no comparison panics. Number formats and hyperlinks on the cells do not matter.",
 ["inputs"], "every ordered pair of cells of every kind, and numbers against close neighbours in every way to hold them",
 "The tests use Equal to judge sample files but never test it: it could call any number equal to any text.",
 ["commonxl/cell.go"],
 [("equality", "commonxl/cell.go: Cell.Equal"), ("order", "commonxl/cell.go: Cell.Less"), ("numbers in text", "commonxl/cell.go: parseNumber")],
 [("cell", "value and type slots", "commonxl.Cell")], ["Cell.Equal", "Cell.Less"])

prop("C27", "Binary files are never taken for delimited text",
 "For every file that holds a NUL byte, grate.Open never delivers delimited text: a workbook that is cut off, damaged, or had bytes inserted or removed is opened by its own format or refused with an error, and compound files, archives (Office documents and packages of other kinds among them), images and UTF-16 text that are no workbook are reported as of unknown format. A cut-off .xlsx is refused wherever it ends. Whole workbooks and whole texts are opened with their own format.",
 ["inputs", "faults"], "every kind of file under every single damage at every place, and combinations of several",
 "The tests only open whole files, each with the package of its format.",
 ["simple/tsv.go", "simple/csv.go", "xls/xls.go", "xls/cfb/cfb.go", "xlsx/xlsx.go", "grate.go"],
 [("text openers", "simple/tsv.go: OpenTSV, simple/csv.go: OpenCSV"), ("workbook openers", "xls/xls.go: Open, xlsx/xlsx.go: Open"), ("search", "grate.go: Open")],
 [("verdicts", "what each format says about the file", "grate.OpenFunc")], ["grate.Open and its error", "the kind of source"])

prop("C28", "Custom number and date formats render as their code says",
 "For every custom format code of one to four sections, a number is shown by the section for its sign (positive, negative, zero; the negative section shows the magnitude, a single section shows the sign before everything else), with the literal text, currency, leading zeros, digits between literals, grouping, decimals that always show and decimals that show only when needed, percent, thousands scaling and exponent that the code asks for; a date or time shows its fields in the order of the code, in either case, minutes told from months by the hour before or the second after, with the 12-hour clock under AM/PM, elapsed hours, minutes or seconds in brackets, and fractions of a second; text is shown by the section for text and otherwise as itself. A code with date fields makes date cells, one with decimals, percent or exponent float cells, other placeholders integer cells. Values half way between two renderings go away from zero. The same holds in .xls and .xlsx workbooks that define the code.",
 ["inputs"], "every shape of number placeholders and every short sequence of date fields, random codes of up to four sections, each against values around every rounding, grouping and sign boundary",
 "One existing test uses a custom code, for booleans.",
 ["commonxl/formats.go", "commonxl/dates.go", "commonxl/fmt.go"],
 [("code reading", "commonxl/formats.go: readCode, makeFormatter"), ("numbers", "commonxl/formats.go: numberFmtFunc, fillDigits"), ("dates", "commonxl/dates.go: codeTimeFunc")],
 [("custom formats", "identifier to renderer and cell type", "commonxl.Formatter.customCodes, customCodeTypes")], ["Formatter.Add/Apply", "Sheet.Strings, Sheet.Types", "the same on real .xls and .xlsx files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
