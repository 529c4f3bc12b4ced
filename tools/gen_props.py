#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state="", observe="", hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Saved bytes do not depend on thread schedule or hash seeds",
  "Saving a workbook writes byte-for-byte the same file for every interleaving of the worker threads that assemble the worksheets, for every wake-up order and spurious wake-up, and for every seed of the process's hash tables. The save always terminates, without deadlock and without a panic.",
  ["schedules"], "all interleavings of the per-worksheet assembly threads at basic-block granularity, and all hash seeds, for any workbook",
  "a test runs one interleaving the OS happens to pick, with one hash seed, and compares with a stored file",
  ["src/packager.rs", "src/workbook.rs", "src/worksheet.rs", "src/shared_strings_table.rs", "src/styles.rs"],
  "Packager::assemble_file spawns a scoped thread per worksheet; HashMaps keyed by Format, image hash and cell feed the id assignment in Workbook::save_internal",
  "worksheet writers, image/format/string id tables", "bytes returned by save, save_to_buffer and save_to_writer")
p("C02", "A save that reports Ok delivered the complete file; faults become Err",
  "If the destination of a save (a path, or a writer passed to save_to_writer, buffered or not) fails at any operation - create, write, seek, flush, full disk, a write that accepts nothing - the save returns Err, and it returns Ok only when the destination then holds exactly the bytes of a fault-free save. It never panics or hangs because of such a fault.",
  ["fault_sequences"], "every position and kind of a failing destination operation, alone and in sequences, for every save entry point and any workbook",
  "tests write to a healthy disk; a lost error shows only when one specific operation out of hundreds fails",
  ["src/packager.rs", "src/workbook.rs"],
  "Workbook::save/save_to_writer/save_internal, Packager::assemble_file and ZipWriter::finish; every `?`, unwrap and Drop on that path",
  "destination file", "result of save* and content of the destination")
p("C03", "Short writes, short reads and interrupted calls are invisible",
  "When the operating system transfers fewer bytes than asked for or interrupts calls (EINTR) on the destination, on temporary worksheet storage or on image and VBA input files, the operation still succeeds and the saved file is byte-for-byte the one produced without such interference. An operation that still reports the interruption as an error is tolerated; a different file is not.",
  ["fault_sequences"], "every pattern of short transfers and EINTR on all files the library touches",
  "local disks practically never do this, so tests cannot produce it",
  ["src/packager.rs", "src/worksheet.rs", "src/image.rs", "src/vml.rs", "src/workbook.rs"],
  "write_all/read_to_end/io copy loops in Packager::write_worksheet_file, Image::new, add_vba_project and the constant memory file writer",
  "", "bytes of the saved file")
p("C04", "A failed save leaves the workbook intact and the save can be retried",
  "If a save fails - at any point, because of an I/O error of the destination or of temporary storage, or because validation rejected the workbook - then the workbook stays usable and, after the cause is removed, saving it again writes the same file as if the failed attempt had never been made, including when more data was added in between (the same bytes when nothing was added, otherwise the same content up to the numbering of shared strings, styles and axis ids). A fault of temporary storage may instead surface as a panic.",
  ["fault_sequences", "histories"], "every fault position in any number of failed saves followed by further edits and a successful save",
  "tests never save after a failed save; state left half-updated by the failure shows only in the next file",
  ["src/workbook.rs", "src/worksheet.rs", "src/packager.rs", "src/drawing.rs", "src/chart.rs"],
  "Workbook::save_internal mutates worksheets (reset, id remapping, relationship lists, drained VML info, temp file position) before and while writing",
  "Worksheet::reset, rel lists, vml infos, dxf indices, temp file offset", "bytes of the retried save")
p("C05", "Saving is repeatable: earlier saves never change what a later save writes",
  "For any sequence of edits, intermediate saves (to any destination) do not influence later output: the file written after a sequence of edits is the one written when the same edits are made without the intermediate saves, up to the numbering of shared strings, styles and axis ids; saving twice in a row writes the same bytes twice. (A save completes the rows mentioned so far in constant and low memory mode, and gives a workbook without sheets its default sheet.)",
  ["histories"], "all interleavings of edits and saves",
  "the test suite saves a workbook once, or twice with nothing in between; stale ids need an edit between two saves",
  ["src/workbook.rs", "src/worksheet.rs", "src/chart.rs", "src/drawing.rs", "src/table.rs", "src/conditional_format.rs"],
  "Workbook::reset/save_internal and Worksheet::reset, prepare_* functions that write ids, names and flags back into user objects",
  "table ids and names, dxf ids, drawing lists, active sheet flags, hidden rows", "bytes of each save")
p("C06", "Temporary storage faults never lead to a file with missing data",
  "In constant and low memory mode, if the temporary storage fails in any way (full, I/O error on write, read or seek, cannot be created), then no save returns Ok with a file that differs from the fault-free one: the failure surfaces as an Err (or a panic naming it), not as lost or damaged cells.",
  ["fault_sequences"], "every position and kind of failing temporary-file operation in any write/save history",
  "tests use a healthy temporary directory; buffered writers hide failing writes until long after the call",
  ["src/worksheet.rs", "src/packager.rs", "src/workbook.rs", "src/xmlwriter.rs"],
  "Worksheet::file_writer (BufWriter over a temp file), flush_last_row, Packager::write_worksheet_file",
  "temp file content and BufWriter buffer", "result of writes and saves, and the sheet data of the saved file")
p("C07", "Memory modes agree: the same writes give the same sheet",
  "For data written in row order, a worksheet in constant memory, low memory or standard mode holds the same cells - values, formulas, types, formats - row and column settings, merged ranges and attached objects, whatever was flushed to temporary storage when, and whichever modes the other worksheets of the workbook use. (Chart caches, cell spans and the rows hidden by autofilter conditions are limited to standard worksheets by design.)",
  ["programs", "histories", "configurations"], "all row-ordered write programs, all assignments of modes to sheets, all points at which rows are flushed and saves happen",
  "tests compare a few fixed files per mode and never mix modes, saves and row options",
  ["src/worksheet.rs", "src/workbook.rs", "src/packager.rs"],
  "flush_to_row/flush_data_row/flush_last_row and write-ahead buffer versus write_data_table; global versus local string and format tables",
  "current_row, write_ahead, data_table", "decoded worksheet parts of the saved files")
p("C08", "Worksheets written from several threads resolve to what was written",
  "When several threads fill different worksheets of one workbook at the same time (low memory and constant memory worksheets share string and format tables with the workbook), then under every interleaving every cell of the saved file shows the value and the format that its thread wrote, and no thread deadlocks or panics.",
  ["schedules"], "all interleavings of concurrent worksheet writers at basic-block granularity, with any overlap of strings and formats",
  "the few threaded tests run one OS-chosen interleaving; a lost race needs two threads inside a window of a few instructions",
  ["src/worksheet.rs", "src/workbook.rs", "src/shared_strings_table.rs"],
  "Arc<RwLock<HashMap<Format, u32>>> (format_xf_index_global) and Arc<Mutex<SharedStringsTable>> shared with the workbook",
  "global format and string index tables", "decoded cells and styles of the saved file")
p("C09", "Every cell reads back as last written",
  "After any history of writes, overwrites, clears, merges, row/column writes and saves, each cell of each saved worksheet holds exactly the value, type, formula and result last written to it (with documented conversions only), no cell appears that was not written, and text survives unchanged, including control characters, leading and trailing blanks and XML metacharacters.",
  ["histories", "programs"], "all histories of cell operations on all sheets, checked at every save",
  "tests check fixed small tables; loss depends on the order of overwrites, clears and saves and on row boundaries (spans, flushes)",
  ["src/worksheet.rs", "src/shared_strings_table.rs", "src/shared_strings.rs", "src/xmlwriter.rs"],
  "insert_cell/data_table, shared string ids, write_data_table, XML escaping",
  "data_table, string table", "decoded sheetData of every save against a reference model")
p("C10", "Every cell, row and column shows the format it was given",
  "For any number of formats in any order and on any sheets, with saves and edits in between, each cell, row, column, conditional format and table column in the saved file resolves through the style tables to a record with exactly the font, fill, border, number format, alignment and protection of the Format it was given, row and column formats apply to cells without one, and equal formats are stored once.",
  ["histories", "programs"], "all histories of format use across sheets, modes and saves",
  "tests use a handful of formats with fixed numbering; wrong remapping needs particular orders of first use across sheets",
  ["src/format.rs", "src/styles.rs", "src/workbook.rs", "src/worksheet.rs"],
  "format_xf_index_local/global, format_dxf_index, prepare_format_properties, global_xf_indices remapping, Styles::write_*",
  "xf, font, fill, border, numFmt and dxf tables", "decoded styles.xml records of every s= and dxfId= reference")
p("C11", "Every saved package is internally consistent",
  "In every file that any history of calls produces, all parts are well-formed XML with a declared content type, every relationship id is unique, used and resolves to an existing part (or is external), no part is orphaned, zip entries are unique with correct sizes and checksums, and ids that must be unique or in range (sheets, tables, drawings, styles, strings, defined names, priorities) are.",
  ["histories", "programs"], "all combinations and orders of feature use over all sheets, with saves in between",
  "consistency breaks for particular combinations of features on particular sheets; tests mostly use one feature at a time",
  ["src/packager.rs", "src/content_types.rs", "src/relationship.rs", "src/workbook.rs", "src/worksheet.rs", "src/drawing.rs", "src/vml.rs"],
  "numbering of parts and relationship ids in Packager and prepare_drawings/prepare_vml/prepare_tables, xmlwriter escaping",
  "part counters and relationship lists", "the whole saved package, part by part")
p("C12", "Images, charts, notes, shapes and buttons stay where they were put",
  "In every saved file each inserted object - floating, embedded, background and header/footer images, charts, chartsheets, notes, text boxes, buttons and their links - is found on the worksheet and cell it was inserted at, with its own content (the exact image bytes, note text and author, chart series and title, alternative text), whatever other objects were inserted on whichever sheets in whichever order.",
  ["histories", "programs"], "all sequences of object insertions over all sheets, with saves in between",
  "mix-ups need several kinds of objects on several sheets; tests place one or two kinds on one sheet",
  ["src/workbook.rs", "src/worksheet.rs", "src/drawing.rs", "src/vml.rs", "src/comment.rs", "src/chart.rs", "src/image.rs", "src/packager.rs", "src/rich_value*.rs"],
  "prepare_drawings, prepare_embedded_images, prepare_vml, drawing/vml relationships and image de-duplication by hash",
  "image ids, drawing ids, author ids", "objects resolved through relationships in the saved package")
p("C13", "Tables, rules, filters and links stay attached to their ranges",
  "In every saved file each table, conditional format, data validation, autofilter and its conditions, sparkline, hyperlink, merged range and protected range appears exactly once, on the worksheet and range it was added to and with the content it was given, whatever else was added in whichever order and however often the workbook was saved.",
  ["histories", "programs"], "all sequences of such additions over all sheets, with saves in between",
  "tests use one such feature per file and one save; loss or cross-talk needs combinations",
  ["src/worksheet.rs", "src/table.rs", "src/conditional_format.rs", "src/data_validation.rs", "src/sparkline.rs", "src/filter.rs", "src/url.rs"],
  "maps keyed by range in Worksheet, relationship ids for tables and links, table numbering, extension lists",
  "", "decoded worksheet and table parts against a reference model")
p("C14", "Workbook structure matches the calls that made it",
  "In every saved file worksheets and chartsheets appear exactly in the current order under their names, names are unique, visibility, tab selection and the active and first sheet are as last set, defined names (user, print area, titles, autofilter) refer to the right sheet and range, and sheet views, panes, print and protection settings are on the sheet they were set on.",
  ["histories", "programs"], "all sequences of adding, renaming, reordering, hiding and activating sheets and setting their options, with saves in between",
  "tests use fixed sheet orders and one save",
  ["src/workbook.rs", "src/worksheet.rs", "src/app.rs"],
  "Workbook::worksheets vector, set_active_worksheets, prepare_defined_names, write_sheets and the app.xml titles",
  "sheet list, defined names", "decoded workbook.xml, app.xml and sheet views against a reference model")
p("C15", "A rejected call has no effect",
  "A call that returns an error (limits exceeded, bad order, overlapping merge or table, invalid name, unsupported parameter) leaves the workbook as it was: any history with rejected calls inserted anywhere saves the same bytes as the history without them.",
  ["histories"], "all positions of rejected calls of every kind in any history, on every kind of worksheet",
  "tests check only that the error is returned, never what the half-done call left behind",
  ["src/worksheet.rs", "src/workbook.rs"],
  "argument checks that run after dimensions, formats, padding cells, ranges or flags were already recorded",
  "dimensions, merged and table range lists, data_table", "bytes of the saved file with and without the rejected calls")
p("C16", "Unreadable or damaged image and VBA files give an error, not a crash",
  "Loading an image or VBA project whose file cannot be opened or fails while being read, or which is truncated or corrupted at any byte, returns Ok or Err - it never panics, hangs or consumes memory without bound - and a read error or missing file is always reported as Err; if the image is accepted, exactly the bytes read are stored in the saved file.",
  ["fault_sequences", "inputs"], "every truncation point, byte corruption and failing read of files of every supported type",
  "tests load intact files; each truncation or corruption is one of very many",
  ["src/image.rs", "src/workbook.rs", "src/worksheet.rs"],
  "Image::new, new_from_buffer, process_* header parsers and add_vba_project(_with_signature)",
  "", "result of the loading call, steps and memory used, media parts of the saved file")
p("C17", "Temporary files stay in the chosen place and are always cleaned up",
  "The library creates files only at the paths the caller named and in the temporary directory (the one set with set_tempdir for worksheets added after it), and when a workbook is dropped - after success, failure or panic, with any number of threads and saves - no temporary file and no open file handle remains.",
  ["fault_sequences", "histories"], "every fault position and every history of saves, failures and drops in all memory modes",
  "leaks and stray files are invisible to tests that look only at the output file",
  ["src/worksheet.rs", "src/workbook.rs", "src/packager.rs"],
  "tempfile creation in Worksheet::new/Workbook::add_worksheet_with_*; ownership of file handles in Packager",
  "open descriptors, directory entries", "descriptor table and directory of the simulated file system at the end of each run")
p("C18", "All save entry points deliver the same file",
  "save to a path, save_to_buffer and save_to_writer (with any Write + Seek target, including buffered ones) of the same workbook deliver identical bytes, in any order and combination, and a path that already holds a longer file afterwards holds exactly the new one.",
  ["histories", "configurations"], "all sequences of saves through all entry points and destinations",
  "tests compare at most one entry point against a stored file",
  ["src/workbook.rs", "src/packager.rs"],
  "Workbook::save, save_to_buffer, save_to_writer all go through save_internal and a ZipWriter over different writers",
  "", "bytes at the destination")
p("C19", "Workbooks are independent of each other",
  "Any number of workbooks built and saved at the same time on different threads, or interleaved call by call on one thread, each produce byte-for-byte the file they produce alone.",
  ["schedules", "histories"], "all interleavings of building and saving several workbooks",
  "each test builds one workbook; shared hidden state would show only under interleaving",
  ["src/workbook.rs", "src/worksheet.rs", "src/format.rs", "src/formula.rs", "src/chart.rs"],
  "process-wide state (OnceLock defaults, lookup tables) and anything else shared between Workbook values",
  "", "bytes of each workbook's save")
p("C20", "The clock affects only the creation time, which is the current UTC time",
  "For any wall-clock time and any clock jumps while a workbook is built and saved, the recorded creation time is the UTC time at which the workbook's properties were created, written as a valid ISO 8601 date, and no other byte of the file depends on the clock; with a creation time set by the user no byte does.",
  ["schedules", "configurations"], "all clock readings from 1970 to 9999 including leap days, month and year ends, and all jumps",
  "tests pin the creation date or ignore it, so the code that converts the clock is exercised at one time only",
  ["src/datetime.rs", "src/properties.rs", "src/core.rs", "src/workbook.rs"],
  "ExcelDateTime::utc_now/unix_time_to_rfc3339 and DocProperties::new",
  "", "docProps/core.xml and the remaining parts, under a simulated clock")
p("C21", "A crash during save never leaves a file that passes as complete",
  "If the process or machine dies at any point while a workbook is being saved to a path, with any subset of not yet synced writes lost, what remains at the path is either the complete correct file or is recognisably not a valid package (no usable central directory, or sizes or checksums that do not match); it never reads as a valid package with other or fewer data.",
  ["crash_points"], "every crash point between any two writes, with lost or torn trailing writes",
  "a test cannot kill the process between two particular writes nor drop cached pages",
  ["src/packager.rs", "src/workbook.rs"],
  "order of writes to the destination: parts first, central directory last; nothing before the end makes the file look complete",
  "", "every prefix and lossy subset of the recorded writes, read by a strict package reader")
p("C22", "Chart caches show the cell data at the time of each save",
  "The values cached in each chart series (values, categories, names) equal the cells of the referenced range as they are at the time of the save, for any history of chart insertion, writes before and after it, overwrites and repeated saves, on any sheets.",
  ["histories"], "all orders of writing data, inserting charts, overwriting and saving, across sheets",
  "tests write the data first, insert the chart and save once",
  ["src/workbook.rs", "src/worksheet.rs", "src/chart.rs"],
  "prepare_chart_cache_data, get_cache_data and the data cache in ChartRange",
  "chart range caches", "numCache/strCache in the saved chart parts against the model's cells")
p("C23", "Serialized structs land in their columns and rows",
  "For any interleaving of serialize() calls of several registered structs with ordinary writes and saves, the headers and every field value appear exactly once, in the column of their header and in the row order of the calls, with the configured formats, and reported dimensions match the file.",
  ["histories"], "all interleavings of serialization of several types on several sheets with writes and saves",
  "tests serialize one or two structs in a fixed order and save once",
  ["src/serializer.rs", "src/worksheet.rs"],
  "SerializerState (current struct, field and row positions) in Worksheet",
  "serializer_state", "decoded cells against a reference model")
p("C24", "Rows and columns have the sizes, outlines and visibility last set",
  "For any history of row and column settings - heights, widths, hiding and unhiding, outline groups and their collapsing, default height, hidden unused rows, position of the outline symbols - mixed with cell writes, formats and saves, every saved worksheet shows each row and column with exactly the settings last given to it, and no other row or column has any.",
  ["histories", "programs"], "all histories of row and column settings on all sheets and memory modes, checked at every save",
  "tests set one option per row or column and save once; one setting losing another needs several on the same row, some after a save or a flush",
  ["src/worksheet.rs"],
  "changed_rows, col_options, write_row/write_cols and the row attributes of write_data_table and flush_data_row",
  "changed_rows, changed_cols", "row, cols and sheetFormatPr elements of every save against a reference model")
json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")

# Properties that deterministic simulation cannot decide here.
p("N01", "Formula text is translated as documented",
  "Every formula string is stored with exactly the documented changes: the leading equals sign and array braces removed, newer functions given their _xlfn. prefixes, dynamic functions recognised, and everything else (string literals, names) untouched.",
  ["inputs"], "all formula strings",
  "tests list examples of function names; the interaction with literals, names and nesting is unbounded",
  ["src/formula.rs"], "Formula::expand_formula and the future function tables", "", "formula text in the sheet")
p("N02", "Date and time values convert to the right serial number",
  "Every representable date and time converts to the Excel serial number that denotes it, and from_serial_datetime/from_timestamp are its inverses, over the whole supported range including leap days and the 1900 epoch.",
  ["inputs"], "all dates from 1899-12-31 to 9999-12-31 and all times",
  "tests sample dates",
  ["src/datetime.rs"], "ExcelDateTime::to_excel, from_serial_datetime, from_timestamp", "", "return values")
p("N03", "A1 references and sheet names are quoted and formatted correctly",
  "Every row/column pair converts to the right A1 reference and back, and a sheet name is quoted in formulas and defined names exactly when Excel requires it, with embedded quotes doubled.",
  ["inputs"], "all cell positions and sheet names",
  "tests sample positions and names",
  ["src/utility.rs"], "column_number_to_name, row_col_to_cell, quote_sheet_name", "", "return values")
p("N04", "Autofit widths follow the text metrics",
  "autofit() gives each column the width of its longest cell according to the documented font metrics, including numbers, dates, multi-line text, headers with filters and user-set widths.",
  ["inputs"], "all cell texts",
  "tests sample texts",
  ["src/worksheet.rs", "src/utility.rs"], "Worksheet::autofit and pixel width tables", "", "column widths")
p("N05", "Password hashes match Excel's algorithm",
  "The sheet protection hash written for any password is the one Excel's legacy algorithm computes.",
  ["inputs"], "all passwords", "tests sample passwords",
  ["src/utility.rs", "src/worksheet.rs"], "hash_password", "", "password attribute of sheetProtection")

with open(json_path, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
