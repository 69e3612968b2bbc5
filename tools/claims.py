COMMON = "Unbounded over inputs below 2^40 bytes. Trusted: govc itself, go/ssa, z3/cvc5, the library models listed in the evidence; logging is taken to have no effect. "
CLAIMS = {
 "C01": COMMON + "ParseData and the MatchReadFrom*/GetIntValue/GetUintValue decoders against a big-endian specification.",
 "C02": COMMON + "Temporal decoders against the on-disk formats; time.Unix/Format are uninterpreted.",
 "C03": COMMON + "ParseData's text/binary/float cases; strings.TrimRight is uninterpreted.",
 "C04": COMMON + "Compressed readers against the format's encoder, with round-trip lemmas.",
 "C12": COMMON + "EscapeValue against the escaping function, and a lemma that the server's lexer reads it back.",
 "C05": COMMON + "The four header readers against the field offsets of the format.",
 "C11": COMMON + "makeReplaceIntoStatement's whole output against a recursive statement grammar; the formatting verbs are uninterpreted functions of the value.",
 "C06": COMMON + "ibRecInitOffsetsNew's offset array against a recursive specification of the COMPACT format, for any column layout; requires a page below 64 KiB and at least as many columns as nullable ones.",
 "C07": COMMON + "ibRecInitOffsetsOld's offset array against the record's own end-offset array, 1-byte and 2-byte entries.",
 "C08": COMMON + "parseRecords and checkFieldSize against a recursive specification of the recovered row: each column's value, NULL flag and definition from its own bytes; for the supported column types and fields that lie inside the page.",
 "C14": COMMON + "The redo record handlers and the loop over records against the record lengths of the format, for logs that are sequences of whole records; handlers are called under contract. What an undo record prints is an event of its call.",
 "C20": COMMON + "parseRedoBlockData and every handler and reader below it: no panic for any log data, and a termination measure for every loop. ParseRedoLogs, which reads the files block by block, is included.",
 "C09": COMMON + "parsePage against a recursive specification of the record chain: which records are handled, in which order, each once, and why it stops; one row per record. Each record's handling is an event of the calls made for it; what a row holds is C06, C07 and C08.",
 "C21": COMMON + "parsePage and every decoder below it: no panic leaves parsePage for any page content and any table definition, and every loop has a termination measure.",
 "C13": COMMON + "ParseRedoLogs and ReadNextBytes against a specification of the payload as the concatenation of the blocks' data areas, over any list of files of any length; a file is a byte sequence that does not change during the run.",
 "C16": COMMON + "makeSQL's whole output against a recursive statement grammar; the formatting verbs are uninterpreted functions of the value.",
}
NOT_APPLICABLE = {}
