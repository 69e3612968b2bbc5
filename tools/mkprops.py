#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
U="recovery/utils/utils.go"; I="recovery/ibdata/parse.go"; F="recovery/ibdata/format.go"
R="recovery/redo/parse.go"; M="recovery/redo/mlog.go"; C="cmd/db-recovery/command.go"
TESTS="The stable tests only call the logger and insert three columns into an empty list; "
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=TESTS+why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p("C01","Stored integers are recovered as exactly the number stored",
 "Every signed or unsigned TINYINT, SMALLINT, MEDIUMINT, INT and BIGINT column value, and every BIT value of 1 to 8 bytes, is recovered as exactly the number the server stored. This holds for every bit pattern of the stored bytes, whatever bytes follow the field. The fixed-width big-endian and little-endian integer readers underneath return exactly the number their bytes spell.",
 ["inputs"],"all stored byte strings of every integer width, signed and unsigned (2^64 values for BIGINT/BIT)",
 "no stored integer is ever decoded by them, and a sample cannot cover sign, width and range corners of 2^64 patterns.",
 [U],[("GetIntValue/GetUintValue sign and width decoding",U),("MatchReadFrom1..8 big-endian readers",U),("ParseData type dispatch",U)],obs=["value printed in the recovered statement"])
p("C02","Stored dates and times are recovered as the instant stored",
 "A DATE, YEAR, TIMESTAMP, DATETIME, or TIME (declared without fractional digits) value in the server's 5.6/5.7 on-disk encoding is recovered as exactly the date and time stored, over the whole range of the type, in 24-hour notation that the server accepts back. A TIMESTAMP is shown in the local time zone; fractions of a second are dropped. The result depends only on the bytes of the field, not on what follows it.",
 ["inputs"],"every stored value of each temporal type (24-bit, 32-bit and 40-bit encodings) and every following byte",
 "no temporal value is ever decoded by them.",
 [U],[("ParseDate/ParseTime/ParseTimeStamp/ParseDateTime/GetTimeFormat",U),("ParseData type dispatch",U)],obs=["value printed in the recovered statement"])
p("C03","Text, binary and floating-point values are recovered without alteration",
 "VARCHAR, TEXT and other variable-length text is recovered byte for byte; fixed-length text differs from the stored bytes at most by dropped trailing padding spaces; BLOB, BINARY and VARBINARY values are recovered as the hexadecimal form of exactly the stored bytes, and FLOAT and DOUBLE as exactly the stored IEEE number. Only the bytes of the field itself are used.",
 ["inputs"],"every byte string of every length, for every text, binary and floating column type",
 "no column value is decoded by them.",
 [U],[("ParseData type dispatch",U),("ParseBlob, ParseFloat, ParseDouble",U)],obs=["value printed in the recovered statement"])
p("C04","Compressed log integers decode to the value encoded",
 "Every integer written in the log's variable-length encodings (the 1-5 byte form of 32-bit values, and both 64-bit forms built on it) decodes to exactly the value encoded, and the decoder advances by exactly the number of bytes of the encoding. A 1-5 byte form that is cut short by the end of the data is reported as an error, not as a value.",
 ["inputs"],"all 2^32 / 2^64 values and all positions in a buffer",
 "no compressed integer is decoded by them; each width boundary and the high word of 64-bit values need their own proof.",
 [U],[("MatchParseCompressed, MatchGetCompressedSize",U),("MatchUllReadComPressed, MatchUllReadMuchCompressed, MachUllGetMuchCompressedSize",U)],obs=["table ids, field numbers and lengths read from undo and redo records"])
p("C05","Page and log block headers are read from their on-disk fields",
 "Every field of the file page header, the index page header, the data dictionary header and the redo log block header is read from exactly the bytes the InnoDB format assigns to it, for every page and block content. The page body handed on starts where the header ends.",
 ["inputs"],"every 16 KiB page and 512-byte block content",
 "the tests that would read a page need a fixture that is not in the repository and always fail.",
 [I,R],[("parseFilHeader, parsePageHeader, parseSysPageHeader",I),("readRedoBlockHeader",R)],obs=["which pages and blocks are used, and how"])
p("C06","COMPACT rows: every column is read from its own bytes",
 "For a record in the COMPACT row format and any column layout, each column of the row is located exactly where the format puts it: NULL exactly when its bit in the null bitmap is set, fixed-length columns by their declared length, variable-length columns by the one- or two-byte length stored in front of the record (two bytes only if the column can exceed 255 bytes and the stored high bit is set). Columns are laid end to end with no gap or overlap.",
 ["inputs"],"every column layout (any number of nullable, fixed and variable columns), null bitmap and length bytes",
 "no record is located by them; the null-bitmap walk crosses a byte boundary only with nine or more nullable columns.",
 [I,U],[("ibRecInitOffsetsNew",I),("GetFixedLength, RecGetNthField, RecGetNthFieldOffs",U)],state=[("offset array","end offset of each column plus NULL and external flags",I)],obs=["values printed in the recovered statement"])
p("C07","REDUNDANT rows: every column is read from its own bytes",
 "For a record in the REDUNDANT row format and any number of columns, each column ends exactly where the record's end-offset array says (1-byte or 2-byte entries, as the record's own flag says) and starts where the previous one ends. A column is NULL exactly when the NULL flag of its entry is set, and the external-storage flag never changes where a column ends.",
 ["inputs"],"every record header and number of columns, 1-byte and 2-byte offset entries",
 "no record is located by them.",
 [I,U],[("ibRecInitOffsetsOld",I),("RecGet1byteOffsFlag, Rec1GetFieldEndInfo, Rec2GetFieldEndInfo, RecGetNthFieldOffs",U)],state=[("offset array","end offset of each column plus NULL and external flags",I)],obs=["dictionary rows and values printed in the recovered statement"])
p("C08","A row's values belong to that row, and NULL is only NULL",
 "In a recovered row every column holds the value decoded from that record's own bytes for that column with that column's declared type, or NULL if and only if the record stores NULL there. No value is carried over from another record or column, and a stored text equal to the word NULL stays text.",
 ["inputs"],"every record, column layout and sequence of records on a page",
 "no record is parsed by them, and carry-over only shows across two or more records.",
 [I,F,U],[("parseRecords",I),("checkFieldSize",I),("makeReplaceIntoStatement NULL handling",F)],obs=["values printed in the recovered statement"])
p("C09","A page yields exactly the records on its chain, in order, and always ends",
 "Parsing a page follows the record chain from its start (the free list in recovery mode, otherwise the first user record) through each record's next pointer, interpreted as the page's row format says, and yields those records in that order, each at most once, stopping at the end of the chain, at the end-of-page record, outside the page, or at a record whose column sizes contradict the table. It terminates for every page content, including chains that loop.",
 ["inputs"],"every page content, both row formats, both modes",
 "no page is parsed by them; cyclic and out-of-page chains occur only in damaged pages, which is what the tool is for.",
 [I],[("parsePage",I)],obs=["number and order of recovered rows"])
p("C10","Rows are recovered only from the pages the chosen mode asks for",
 "From the data file, statements come exactly from clustered-index leaf pages, taken in file order, each page number once; in recovery mode only from such pages whose free list is non-empty and inside the page and whose garbage counter is non-zero, reading the free list, and otherwise from the page's live record chain. A trailing partial page is never parsed. An unknown table is reported as an error and yields no statement.",
 ["inputs","configurations"],"every data file content and length, both modes, every table choice",
 "the tests that would read a data file need a fixture that is not in the repository and always fail.",
 [I,U],[("ParseDataPage page filter",I),("parseFile",I),("ReadNextBytes",U),("getTableColumnsFromDict",I)],obs=["recovered statements; returned error"])
p("C11","One well-formed REPLACE statement per recovered row",
 "For every recovered row exactly one complete statement is printed, naming the given database and table and listing the row's values in column order with the engine's internal columns left out, values separated by commas. Text is quoted and escaped, binary values are wrapped in unhex, BIT values are binary-digit literals of the stored number, and NULL is an unquoted NULL.",
 ["inputs"],"every row: any number and kind of columns and values",
 "no statement is ever generated by them.",
 [F],[("makeReplaceIntoStatement",F),("EscapeValue",U)],obs=["standard output"])
p("C12","Escaping is exact: the quoted literal reads back as the original text",
 "For every byte string, the escaped form placed between single quotes is one complete SQL string literal and the server's unescaping rules turn it back into exactly the original bytes; no quote or backslash of the data can end the literal early.",
 ["inputs"],"every byte string of every length, including invalid UTF-8",
 "the escaper is never called by them.",
 [U],[("EscapeValue",U)],obs=["quoted values in standard output"])
p("C13","Redo data is the in-order payload of the log blocks",
 "From each redo file, after the four header blocks, the log data that is interpreted is exactly the payload bytes of the successive blocks, without block headers and trailers, up to each block's stored length, in file order and files in the order given, ending at the first empty, malformed or incomplete block of that file. An unreadable file is reported as an error.",
 ["inputs","configurations"],"every redo file content and length, any list of files, any per-block length value",
 "the tests that would read a redo log need a fixture that is not in the repository and always fail.",
 [R,U],[("ParseRedoLogs",R),("readRedoBlockHeader",R),("ReadNextBytes",U)],obs=["recovered statements; returned error"])
p("C14","Every redo record is skipped by exactly its own length",
 "For each redo record type of the supported server versions, a well-formed record is consumed by exactly the number of bytes the log format gives it, so the record that follows is read from its true start; a byte that cannot start a known record is skipped alone. This includes index descriptions of any size, NULL field values in updates, and records that carry two names.",
 ["inputs"],"every record type, body content and position in the log",
 "no redo record is parsed by them; a single mis-skipped record type silently loses the records after it.",
 [R,M,U],[("parseRedoBlockData dispatch",R),("mlog* handlers",M),("ParseIndex, ParseInsertRecord",U)],obs=["which undo records are found"])
p("C15","An update undo record yields the row's key and old column values",
 "For a well-formed undo record of an update of a known table, the recovered statement is built from exactly the key values and the old values of exactly the columns the record names, each decoded with that column's declared type, NULL when stored as NULL; other undo record kinds yield no statement. After any undo record, parsing resumes at exactly the end of that record by its stored length, whether or not it could be decoded.",
 ["inputs"],"every undo record content and every table definition",
 "no undo record is parsed by them.",
 [M],[("mlogUndoInsert",M),("getTableByTableID, getPrimaryKey, getColumnsByName, getColumnByPos",M)],obs=["statements printed in redo mode"])
p("C16","The UPDATE statement restores the old values of that row only",
 "The statement generated for an update undo record sets exactly the recovered columns to their old values, separated by commas, and restricts it to the row by equality on every key column joined by AND; NULL is set as an unquoted NULL, and every other value is a quoted and escaped literal.",
 ["inputs"],"every list of old values and key values, of any length",
 "no statement is ever generated by them.",
 [R],[("makeSQL",R)],obs=["standard output in redo mode"])
p("C17","Redo recovery prints only the chosen database and table",
 "With a database and/or a table name given, redo recovery prints statements only for tables matching every name that was given, and for all of those; with neither given it prints statements for all tables.",
 ["inputs","configurations"],"every combination of given/empty database and table names and every table definition",
 "no redo record is parsed by them.",
 [M,R,C],[("mlogUndoInsert filter",M),("NewParse",R),("FromRedoFile wiring",C)],obs=["standard output in redo mode"])
p("C18","The clustered column order is key, internal columns, then the rest",
 "For a table with a primary key the physical column order used to read rows is the key columns in key order, then the transaction id and roll pointer, then all other columns in table order; for a table with a generated row id it is row id, transaction id, roll pointer, then all columns in table order. No column is lost, duplicated or altered.",
 ["inputs"],"every table: any number of columns, any key of any length over any columns in any order",
 "one test inserts three columns into an empty list; it covers no key, no reordering and no aliasing.",
 [I],[("moveColumns2First, movePrimaryKeyFirst",I),("addInternalColumns, addInternalColumn, addColumns",I)],state=[("TableMap","table definitions by table id",I)],obs=["which column each value is attributed to"])
p("C19","Dictionary rows become exactly the table, column and index definitions",
 "Every row of the dictionary's tables, columns, indexes and fields tables is reflected in the table definitions: database and table name, table id and space; column name, type, position, length, nullability, signedness and binary flag as the stored type code says; index id, name, type, and its columns in stored order. A row changes nothing but the definition it names.",
 ["inputs"],"every set of dictionary rows",
 "no dictionary is parsed by them.",
 [I],[("getAllTables, getAllColumns, getAllIndexes, getAllFields",I)],state=[("TableMap","table definitions by table id",I)],obs=["recovered statements"])
p("C20","Damaged redo data never crashes or hangs the tool",
 "For every byte content of the log data, redo recovery terminates and returns to its caller normally or with an error; it never crashes and never loops without advancing.",
 ["inputs"],"every byte sequence of every length as log data",
 "only damaged or truncated input triggers it, and no redo data is parsed by them.",
 [R,M,U],[("parseRedoBlockData loop",R),("mlog* handlers",M),("bounds checks in utils",U)],obs=["process exit; returned error"])
p("C21","A damaged page never crashes or hangs data-file recovery",
 "For every content of a data page and every table definition, parsing the page terminates and returns normally, so that the remaining pages are still recovered.",
 ["inputs"],"every 16 KiB page content and every table definition with at least one column",
 "only damaged pages trigger it, and no page is parsed by them.",
 [I,U],[("parsePage",I)],obs=["process exit; remaining pages' statements"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
