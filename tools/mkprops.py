import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Every history of edits is a correct history of a simple table",
"After any sequence of successful operations that create a table, append or delete rows and columns, rename the table or its columns, and set cells (typed, untyped, by name or by index, zero/NaN fills included), the table's name, column names, column types, row count and every cell equal those of a trivial reference table that went through the same sequence. Every way of reading a cell (typed, untyped, by column name or index, the MustGet forms) returns that same last-written value, a new row or column holds the zero value of its type, and the library's own validity checks accept the table.",
["histories","schedules"],"for all sequences of valid edits issued by any number of interleaved clients on their own tables",
"The tests run one short scripted sequence per method; they never mix appends, deletes, renames and sets, so index maps and rows that drift apart only after a particular sequence are never seen.",
["gotables.go","helpers.go"],"rows slice-of-slices plus colNames/colTypes/colNamesMap kept in step by AppendCol/DeleteCol/RenameCol/AppendRow/DeleteRows/SetVal and the typed accessors",
[("colNamesMap","name to index map that must follow every column edit"),("rows","one slice per row, as long as the column list")],["public getters after every step"])

p("P02","An operation that reports failure changes nothing",
"When an operation on a table or table set is given an invalid argument (unknown or duplicate column, table or row, an index out of range, a value of the wrong type, an invalid name or type, a nil table), it returns an error (or, where it has none to return, says no or -1) instead of succeeding silently or panicking. After that error every observable part of every table and table set involved (name, columns, types, rows, cells, sort keys, struct shape, membership) is exactly what it was before the call.",
["histories","fault_sequences"],"for all histories with failing calls injected at any point, each followed by further use of the same table",
"The tests assert that an error comes back for some bad arguments; none looks at the table afterwards, and multi-column or multi-row operations that fail half-way are not tried.",
["gotables.go","helpers.go","sort.go"],"argument checks at the head of each method, before the first mutation",
[("rows/colNames/sortKeys","all must be untouched by a failing call")],["observation of the table before and after the failing call"])

p("P03","Rearranging a table loses, invents and misplaces no cell",
"Any sequence of reordering, swapping, renaming and reversing columns or rows, ordering columns by sort keys, appending rows taken from another table, and cutting a table out of a row range leaves every cell under its own column name, with its own type, in the row it belongs to. Rows and columns that an operation does not name keep their contents and relative order, and the source tables are unchanged.",
["histories"],"for all sequences of rearrangements and all choices of columns and rows",
"The tests check one rearrangement of one small table, and for swaps only the column names and types, so cells left behind under the wrong name go unnoticed.",
["gotables.go","sort.go"],"ReorderCols*, NewTableReorderCols*, SwapCols*, OrderColsBySortKeys, Reverse, AppendRowsFromTable, AppendColsFromTable, NewTableFromRows",
None,["cells read by name before and after"])

p("P04","A table set is a faithful ordered registry of its tables",
"After any sequence of appending, deleting and renaming tables, a table set holds exactly the tables that were put in and not taken out, in the order they were appended, each reachable by its current name and by its index. No two tables of a set have the same name, a table that is not in the set is reported as missing, and renaming through the set, or copying the set, affects only the named table or the copy.",
["histories"],"for all sequences of registry operations, with invalid ones injected anywhere",
"The tests add two or three tables once; they do not interleave deletion, renaming and lookup.",
["gotables.go"],"TableSet.tables slice, AppendTable/DeleteTable*/RenameTable/GetTable*/TableIndex/HasTable/Copy",
[("tables","ordered slice of tables")],["TableCount, GetTableByTableIndex, GetTable, HasTable, TableIndex"])

p("P05","Saving as text and loading again after a restart gives the same tables",
"A table set or table written as text (aligned, unaligned, as a file, in struct or tabular shape) and read back by a fresh process gives the same table names in the same order, and for each the same columns, types, rows, cells and shape (struct shape being stored for a table with columns and at most one row), to the last bit of every integer, float (any NaN staying a NaN), instant in time and string. This holds for every supported column type and every value of it, for any history that led to the table and any number of save/restart/load cycles, and loading one table out of a file or text gives exactly that table, or an error if it does not hold that table (or, where no table is named, does not hold exactly one). (Excluded, because the text format does not store them: nested tables, rows of a table without columns, runes that are not Unicode code points, and times outside years 0-9999 or whose zone offset is not in whole minutes. Names are ASCII letters, digits and underscores.)",
["histories","inputs","crash_points"],"for all tables reachable by edits, all column types and values, and restarts between any two operations",
"The round-trip tests use a handful of literal tables whose numbers are small and whose strings have no unusual characters.",
["gotables.go","parser.go"],"StringPadded/printMatrix, StringUnpadded, WriteFile to the file system and parser.parseString/getRowSlice back",
None,["observation of the table before saving and after loading"])

p("P06","A save or load that storage spoils is reported, never silently short",
"If writing a file reports success, the file then holds the complete text of the table or table set, readable and writable by its owner (with the permissions asked for, if any, when the file is new); if the disk is full, a write is cut short, or an open, write or close fails, the write reports an error. If reading a file meets a storage error, the load reports an error and returns no table, never a table built from part of the file, and never panics; interrupted or short reads and writes that the system allows have no effect on the outcome.",
["fault_sequences","histories"],"for all sequences of open/write/read/close failures, short transfers, interruptions and full disks at any system call of any save or load",
"The tests run on a working disk: no system call ever fails, stops short or is interrupted.",
["gotables.go","parser.go"],"WriteFile, NewTableSetFromFile/NewTableFromFile* and the parser's parseFile over the os package",
None,["return value against the bytes in the simulated file"])

p("P07","A torn or damaged text file is rejected at the right line, never a crash",
"Text that was truncated, torn or corrupted (by a crash during a save, lost blocks, or flipped or spliced bytes) either is rejected with an error or loads as well-formed tables that pass the library's own validity checks; no damage makes a reader panic, hang or exit. When a well-formed table set has a single line replaced by one that cannot be valid there, the error names that line's number. Text cut off at the end of a complete line between rows loads as exactly the tables and rows before the cut.",
["crash_points","fault_sequences","inputs"],"for all crash points during a save and all byte- and line-level damage to saved text",
"The tests feed a few dozen hand-written bad inputs and hardly ever compare the line number.",
["parser.go","gotables.go"],"parser.parseString state machine, getRowSlice, splitSliceString, gotFilePos",
[("parser.fileName / line number","used in the error message")],["error text and returned table set"])

p("P08","JSON messages between nodes carry tables exactly",
"A table or table set encoded as JSON is valid JSON, and decoding it on another node gives the same set name, table names, columns, types, rows, cells (nested tables included, to any depth) and struct shape, exactly, for every supported column type and value. If the contents cannot be represented, encoding reports an error rather than sending something that decodes differently. The outcome does not depend on what the sender or receiver did before, and decoding the same message again gives the same tables again. Decoding one table out of a message that does not hold it (or, where none is named, does not hold exactly one) is an error.",
["histories","inputs","schedules"],"for all tables reachable by edits and all sequences of sends, duplicate and reordered deliveries and restarts",
"The tests round-trip a few fixed tables, with small integers and plain strings; integers above 2^53 or strings with control characters are not tried.",
["json.go"],"getTableAsJSON_recursive and newTableFromJSON_recursive",None,["observation of sender's table at send against receiver's table"])

p("P09","YAML messages between nodes carry tables exactly",
"A table set encoded as YAML and decoded on another node gives the same table set name, table names, columns, types, rows, cells (nested tables included) and struct shape, exactly, for every supported column type and value. If the contents cannot be represented, encoding reports an error rather than sending something empty or something that decodes differently. Decoding the same message again gives the same tables again.",
["histories","inputs","schedules"],"for all tables reachable by edits and all sequences of sends, duplicate and reordered deliveries and restarts",
"The tests round-trip a few fixed table sets; integral floats, large integers, special strings and deep nesting are not combined.",
["yaml.go"],"GetTableSetAsMap/getTableAsMap and newTableFromYAML_recursive over yaml.v3",None,["observation of sender's table set at send against receiver's"])

p("P10","Gob messages between nodes carry tables exactly",
"A table or table set encoded as gob and decoded by another process gives the same names, columns, types, rows, cells, struct shape and sort keys, exactly, for every supported column type and value other than nested tables and times, which gob encoding documents as unsupported and must refuse; a decoded table can be used like the original (sorted, searched, edited, encoded again). If the contents cannot be represented, encoding reports an error rather than sending something that decodes differently. Encoding changes nothing in the table.",
["histories","inputs","schedules"],"for all tables reachable by edits (sort keys set or not) and all sequences of sends, duplicate and reordered deliveries and restarts",
"The tests encode a few fixed tables, none of which has sort keys set.",
["gob.go"],"exportTable/importTable and TableExported",[("SortKeys","exported and restored with the table")],["observation of sender's table at send against receiver's"])

p("P11","Damaged or foreign messages never bring the receiver down",
"A JSON, YAML or gob message that was truncated, corrupted, spliced with another, or is well-formed but does not describe a table makes the decoder return an error or else yields tables that pass the library's own validity checks and can be read and encoded again; it never panics, hangs, exits or grows without bound. After a rejected message the same receiver decodes a following good message correctly.",
["fault_sequences","inputs","histories"],"for all damage to messages in transit, and all orders of good and bad messages",
"The tests decode almost only well-formed messages; the few bad ones have no wrong-typed, missing or extra elements.",
["json.go","yaml.go","gob.go"],"type assertions and index arithmetic over the decoded generic maps, and importTable",None,["decoder return values, receiver survival"])

p("P12","Clients working on their own tables do not disturb one another",
"When several goroutines each work on their own tables (parsing, formatting, editing, sorting, searching, merging, nesting, walking, copying, shuffling, encoding and decoding), every interleaving gives each of them exactly the results, error messages and line numbers included, that it would get alone, and there is no data race.",
["schedules"],"for all interleavings of the statements of clients that share no table",
"The tests are sequential; package-level state shared behind the callers' backs only shows under particular interleavings.",
["parser.go","gotables.go","tree.go","json.go","sort.go"],"package-level variables and caches (line counters, error counters, depth counters, compare-function tables, pseudo-random source)",
[("package variables","must not carry one client's state into another's call")],["each client's results against its solo run; Go race detector"])

p("P13","Any number of goroutines can read one table at the same time",
"When several goroutines only read the same table or table set (getting cells, counting, searching, comparing, formatting, encoding, walking, copying, cutting out rows), every interleaving gives each reader the result it would get alone, there is no data race, and the table is never changed, not even temporarily.",
["schedules"],"for all interleavings of the statements of concurrent readers",
"The tests are sequential; a read that temporarily modifies the table cannot be noticed.",
["gotables.go","helpers.go","sort.go","tree.go","json.go","yaml.go","gob.go"],"read-only methods on *Table and *TableSet",None,["each reader's results against its solo run; the shared tables as an auditing reader sees them in between; Go race detector"])

p("P14","Copies and extracts are snapshots: later edits on either side stay there",
"A copy of a table or table set, a deep copy, a table cut out of a row range or found by a search range, and a reordered new table each have the contents of their source at that moment. After that, and likewise for a table merged from others or made of the unique rows of one, no sequence of edits, renames, sorts or deletions on either one is visible in the other, byte slices included; for a deep copy this also holds for nested tables at every depth.",
["histories"],"for all histories of edits interleaved on source and copies, and copies of copies",
"The tests compare a copy with its source right after copying; they do not edit one side and inspect the other for every type.",
["gotables.go","tree.go"],"Copy, CopyCols, CopyDeep, TableSet.Copy, NewTableFromRows, NewTableFromRowsBySearchRange, NewTableReorderCols, Merge, SortUnique",None,["observation of the other side after each edit"])

p("P15","Sorting orders the rows by the keys and searching finds exactly the matches",
"After sorting by any list of keys, each ascending or reversed, of any sortable column types, the rows are a permutation of the original rows in key order, row contents intact. On such a table, for any search values, searching for first, last or the whole range returns exactly the first and last row whose keys equal those values, and reports not-found (an error) when there is none. Sort keys set on a table stay what was set through edits, column renames, reorderings and repeated sorts, and a key whose column is deleted goes with it. (NaN, which has no order, is excluded from keys.)",
["histories","inputs"],"for all histories that set keys, edit, rename or delete columns, sort again and search for present and absent values",
"The tests sort small tables once and search for a few values; equal runs, absent values at either end, reversed multi-key orders and key columns that change later are not combined.",
["sort.go"],"compare functions per type, sortByKeys, searchByKeysFirst/Last, SearchRange, sort key bookkeeping",
[("sortKeys","ordered key list with reverse flags and compare functions")],["rows after Sort, indices returned by Search*"])

p("P16","Merging replicas and removing duplicates keep every fact exactly once",
"Merging two tables with the same sort keys gives one row for each distinct key that appears in either, with the union of their columns, sorted by the keys; each non-key cell holds the first table's value, or the second's where the first has no value (the type's zero or NaN) or has no such column or key. A float cell that neither table has a value for is NaN. Where both tables have sort keys and they differ, those of the first are used; where only one has sort keys, they are used. Removing duplicates by sort keys gives, for each distinct key and in key order, exactly one row, each of whose other cells is a value from the original rows with that key, and not a missing one if one of them has a value. Neither operation changes the tables it is given, and replicas that merge each other's facts, in whatever order and however often, end up with the same facts. (NaN as a key is excluded.)",
["histories","inputs"],"for all pairs of tables with compatible keys (overlapping, disjoint, empty, different columns) reached by independent edit histories, merged in any order or repeatedly",
"The tests merge two or three fixed tables with overlapping keys.",
["merge.go","sort.go"],"Merge's combine, sort and row-pair reduction; SortUnique",None,["merged table against the reference merge"])

p("P17","Nested tables: nesting, walking and circular references",
"Walking a table or table set visits every table and cell reachable through nesting exactly once, parents before children and rows and cells in order, calling each given visitor and stopping at the first error a visitor returns, which is passed on; it terminates on every input. A structure in which a table contains itself at any depth, or sits in more than one cell, is reported as a circular reference (an error) by the checks, by the walk and by the JSON and YAML encoders, which do not hang or crash on it, and a structure in which every table has one place is not. The error of a check or a walk is recognised by HasCircRefError, and names a table that really occurs more than once. Grouping rows under a parent by its sort keys puts every child row under exactly the parent rows with equal keys, and an empty table under a parent row that no child row matches.",
["histories","fault_sequences"],"for all nesting structures built by any history, and visitors failing at any visit",
"The tests walk two or three fixed trees with visitors that never fail and one- or two-table circles.",
["tree.go","nest.go","errors.go","json.go","yaml.go"],"Walk with circRefMap, IsValidTableNesting, HasCircularReference, isCircularReference, Nest",None,["sequence of visitor calls, errors"])

p("P18","Shuffling keeps every row, and the pseudorandom shuffle is repeatable",
"Both shuffles leave the table with exactly the rows it had, each intact, in some order, whatever random numbers and clock readings they draw. The pseudorandom shuffle of the same table gives the same order every time: in any process, after any history, whatever else draws random numbers; the random shuffle gives different orders for different clock readings.",
["histories","schedules"],"for all tables, all random streams and clock readings, and all histories of other random-number use",
"One example test fixes one order; the rest of the randomness is outside the tests' control.",
["gotables.go"],"ShufflePseudorandom and ShuffleRandom over math/rand and time.Now",None,["row multiset, row order across runs"])

p("P19","Piped input is delivered whole, or the timeout is reported, never a mixture",
"Reading piped input with a timeout returns the complete input, byte for byte, if the writer finishes before the timeout, however the input is chunked and delayed; if not, it returns a timeout error once the timeout has passed and not before. A read error is reported as an error. After a timeout nothing is lost: the next read returns the whole of the input that the timed-out one was waiting for, and there is no data race.",
["schedules","fault_sequences"],"for all chunkings, delays and failures of the input relative to the timeout",
"The tests cannot pipe input with chosen timing; the timeout paths are not run.",
["util.go"],"UtilGulpFromPipe and UtilGulpFromPipeWithTimeout over os.Stdin, a goroutine and time.After",None,["returned string and error, simulated time of return, race detector"])

p("P20","Comparison tells two replicas apart exactly when they differ",
"Two tables compare equal exactly when they have the same name, the same row count, the same set of columns with the same types (in any order) and the same value in every cell, row by row; two table sets compare equal exactly when they have equal tables in the same order. Replicas that went through the same edits compare equal, and any single differing cell, type, column or row, nested cells included, makes them compare different, symmetrically. (A NaN differs from everything.)",
["histories"],"for all pairs of replicas whose edit histories agree or diverge at any point",
"The tests compare a few fixed pairs, mostly differing in an obvious place.",
["gotables.go"],"Table.Equals, TableSet.Equals",None,["result against the comparison of observed contents"])

p("P21","A CSV export carries the whole table to any CSV reader",
"Read by a standard CSV reader, the CSV export of a table with columns gives one heading record, with the column names or the substitutes given for them (an empty substitute leaves the column's own name), and then exactly one record per row in row order, with one field per column in column order. Each field is the text of its cell: strings exactly, integers and booleans, floats that parse back to the same value (NaN is empty), runes as characters, times in RFC 3339 as the same instant to the nanosecond, byte slices as lists, nested tables as their name in brackets; GetValAsString gives the same text of a cell (of a NaN, NaN). A wrong number of substitutes, or a nil table, is refused, and exporting changes nothing. (Excluded: runes that are not Unicode code points, and times RFC 3339 cannot express.)",
["histories","inputs"],"for all tables reachable by edits, all cell values and headings (quotes, commas, line breaks and empty values included)",
"The tests export a fixed table or two, without empty values in a single column, special characters or extreme numbers.",
["gotables.go","helpers.go"],"GetTableAsCSV over encoding/csv, GetValAsString",None,["parsed CSV against the table at the time of sending"])

p("P23","Text written by other hands loads as what it says, however it is laid out",
"A well-formed text of a table set may be laid out and spelled freely: any run of spaces and tabs between columns, indented lines, white space at line ends, comment lines, extra blank lines between tables, LF or CRLF line ends, a missing last line end, a one-row table in struct or tabular shape, and any spelling of a value (binary, octal, hexadecimal, leading-zero and plus-signed integers, fixed or exponent floats, string and rune escapes, times with or without trailing zeros and with Z or a numeric offset). Loading it by any route (string, file with short or interrupted reads, one table by name) gives exactly the tables it says: set name, table names in order, shapes, columns, types, rows and cells. What was loaded can be edited, saved and loaded again like any other table.",
["inputs","histories","fault_sequences"],"for all well-formed texts, of all tables reachable by edits, whatever was loaded before",
"The tests load text in the layout the library itself prints; unusual spacing, comments, line ends and literals appear in a few fixed examples each, never together.",
["parser.go"],"parser.parseString, getRowSlice, parseInt, parseUint, splitSliceString",None,["loaded tables against the tables the text was written from"])

p("P24","JSON and YAML by other programs is taken over as what it says, or refused",
"Another program may write a table set as JSON or YAML in a style of its own: the entries of a map in any order, any white space, comments and flow or block style (YAML), any quoting and escapes of strings, integers with a zero fraction or an exponent (JSON), floats with any number of digits, times with or without trailing zeros and with Z or a numeric offset, data and isStructShape left out where they say nothing. Decoding gives exactly the tables it says, floats rounded to the nearest of the column's type. A cell that says what its column cannot hold (a number out of range or with a fraction in an integer column, a text or a list in a number column, a number that is no byte in a byte slice, null outside a table column) is refused and never wrapped, truncated, rounded to an integer, zeroed or put into another column; so are a cell too many in a row, a JSON cell named after another column, data or rows that are no lists, unknown column types, duplicate or impossible column names, and a missing or misplaced table set name, list of tables, table name or list of columns.",
["inputs","histories"],"for all well-formed messages, of all tables reachable by edits, and every single odd cell or structure in them",
"The tests decode what the library itself encoded, and a few fixed damaged messages; ranges, notations, key order and quoting of other writers are not sampled.",
["json.go","yaml.go"],"NewTableSetFromJSON, newTableFromJSON_recursive, NewTableSetFromYAML, newTableFromYAML_recursive",None,["decoded tables against the tables the message was written from, and exact rational arithmetic for odd numbers"])

p("P22","Generated Go source compiles and round-trips the table",
"The generated struct type and conversion functions compile, and converting a table to a slice of structs and back gives an equal table.",
["inputs","programs"],"for all tables without nested tables",
"The tests compare generated text with fixed text; they do not compile it.",
["generate.go"],"GenerateTypeStruct, GenerateTypeStructSliceFromTable, GenerateTypeStructSliceToTable",None,["generated program's behaviour"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
