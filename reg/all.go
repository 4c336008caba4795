package reg

var end = []string{"end"}

// All lists the harnesses.
var All = []H{
	{Prop: "C01", Pkg: "core", Name: "C01_codec", Reach: end, Bounds: [2]string{"all 64 header bytes symbolic, 5 further symbolic bytes, any previous header", "same"}},
	{Prop: "C01", Pkg: "core", Name: "C01_fragments", Reach: end, Bounds: [2]string{"all 64 header bytes symbolic; one cut at any position, pieces of at most 1..9 bytes, end reported with the last piece", "two cuts at any positions"}},
	{Prop: "C01", Pkg: "core", Name: "C01_short", Reach: end, Bounds: [2]string{"every length 0..63, all bytes symbolic, 3 ways of delivery", "same"}},
	{Prop: "C01", Pkg: "core", Name: "C01_layout", Reach: end, Bounds: [2]string{"one file of 0..3 symbolic bytes, single and split", "same"}},

	{Prop: "C02", Pkg: "core", Name: "C02_isready", Reach: []string{"accepted", "refused"}, Bounds: [2]string{"all 64 header bytes symbolic", "same"}},
	{Prop: "C02", Pkg: "core", Name: "C02_open", Reach: []string{"opened", "refused"}, Bounds: [2]string{"24 signature bytes symbolic with a sound rest (0 or 1 file, single or split), or all header bytes and 4 more symbolic and not acceptable", "same"}},

	{Prop: "C03", Pkg: "core", Name: "C03_roundtrip", Reach: end, Bounds: [2]string{"every value of every scalar type; strings of 0..4 arbitrary bytes", "strings of 0..8 bytes"}},
	{Prop: "C03", Pkg: "core", Name: "C03_uintlen", Reach: []string{"ok", "panic"}, Bounds: [2]string{"every value, every length", "same"}},
	{Prop: "C03", Pkg: "core", Name: "C03_reject", Reach: end, Bounds: [2]string{"tags of 0..13 arbitrary bytes", "0..21 bytes"}},

	{Prop: "C04", Pkg: "core", Name: "C04_time12", Reach: end, Bounds: [2]string{"seconds in -2^62..2^62, every nanosecond", "same"}},
	{Prop: "C04", Pkg: "core", Name: "C04_millis", Reach: end, Bounds: [2]string{"seconds in -2^36..2^36 (year 4147), every nanosecond", "same"}},
	{Prop: "C04", Pkg: "core", Name: "C04_time8", Reach: end, Bounds: [2]string{"milliseconds in -2^36*1000..2^36*1000", "same"}},
	{Prop: "C04", Pkg: "core", Name: "C04_accessors", Reach: end, Bounds: [2]string{"one of 4 times of 12 bytes (seconds -2^62..2^62) or 8 bytes (32-bit seconds), the others absent or fixed", "same"}},
	{Prop: "C04", Pkg: "core", Name: "C04_packfile", Reach: end, Bounds: [2]string{"source times with seconds -2^62..2^62", "same"}},
	{Prop: "C04", Pkg: "core", Name: "C04_packforeign", Reach: end, Bounds: [2]string{"modification time with seconds -2^62..2^62; file information without OS data, or of a nested package file", "same"}},

	{Prop: "C05", Pkg: "core", Name: "C05_walk", Reach: []string{"end", "whole", "broken"}, Bounds: [2]string{"every byte string of 0..13 bytes, with and without bytes behind it", "0..18 bytes"}},
	{Prop: "C05", Pkg: "core", Name: "C05_lookup", Reach: []string{"present", "absent"}, Bounds: [2]string{"every byte string of 0..13 bytes, every ID", "0..18 bytes"}},
	{Prop: "C05", Pkg: "core", Name: "C05_pos", Reach: end, Bounds: [2]string{"every byte string of 0..11 bytes", "0..15 bytes"}},
	{Prop: "C05", Pkg: "core", Name: "C05_big", Reach: end, Bounds: [2]string{"tag lengths 127, 128, 255, 256, 257, 32767, 32768, 65535, complete or one byte short", "same"}},

	{Prop: "C06", Pkg: "core", Name: "C06_edit", Reach: end, Bounds: [2]string{"0..3 tags of any distinct IDs, contents of 0..2 bytes, spare capacity 0, 2, 5, 64; any edit with any ID and 0..3 bytes", "0..4 tags"}},
	{Prop: "C06", Pkg: "core", Name: "C06_two", Reach: end, Bounds: [2]string{"0..2 tags of 0..1 bytes, spare capacity 0 or 5, two edits with 0..2 bytes", "0..3 tags"}},
	{Prop: "C06", Pkg: "core", Name: "C06_copy", Reach: end, Bounds: [2]string{"0..2 tags of 0..2 bytes, spare capacity 0 or 5; an edit of a copy and then of the original", "same"}},
	{Prop: "C06", Pkg: "core", Name: "C06_big", Reach: end, Bounds: [2]string{"values of 254..257, 65534, 65535 bytes, ends symbolic, replaced by each other or deleted", "same"}},
	{Prop: "C06", Pkg: "core", Name: "C06_iter", Reach: end, Bounds: [2]string{"7 edits through an iterator, any ID and value", "same"}},

	{Prop: "C08", Pkg: "core", Name: "C08_header", Reach: []string{"opened", "refused", "file"}, Bounds: [2]string{"all 64 header bytes symbolic (table offset at least 64) over nothing, 5 symbolic bytes, a table with one file or an empty table", "same"}},
	{Prop: "C08", Pkg: "core", Name: "C08_inside", Reach: []string{"opened", "refused"}, Bounds: [2]string{"all 64 header bytes symbolic, table of at most 7 bytes inside the header", "table of at most 12 bytes"}},
	{Prop: "C08", Pkg: "core", Name: "C08_table", Reach: []string{"opened", "refused"}, Bounds: [2]string{"any count, data offset and size; tables of 0..12 symbolic bytes", "tables of 0..17 bytes"}},
	{Prop: "C08", Pkg: "core", Name: "C08_entry", Reach: []string{"opened", "refused", "file"}, Bounds: [2]string{"one file with a name tag and 9..10 symbolic bytes of further tags, any count, data offset and size", "9..14 bytes, or 14..16 symbolic bytes of tags without a name given"}},
	{Prop: "C08", Pkg: "core", Name: "C08_stream", Reach: []string{"opened", "refused", "file"}, Bounds: [2]string{"from a stream (lengths less than 16 or 65535): tables of 0..8 symbolic bytes, or one file with a name and 10 more symbolic bytes of tags", "0..13 bytes; 9..12 bytes of tags"}},
	{Prop: "C08", Pkg: "core", Name: "C08_two", Reach: []string{"opened", "refused", "two"}, Bounds: [2]string{"two files with names of 0..2 symbolic bytes, offsets and sizes of 1, 4 or 8 symbolic bytes, any data area", "both files of each width"}},
	{Prop: "C08", Pkg: "core", Name: "C08_repeat", Reach: []string{"opened", "refused", "file"}, Bounds: [2]string{"one file with a second offset, size or name tag of 0, 1 or 8 bytes before or behind the others, values of 4 bytes", "values of 1, 4 or 8 bytes, 3 tag orders"}},
	{Prop: "C08", Pkg: "core", Name: "C08_cut", Reach: []string{"opened", "refused", "two"}, Bounds: [2]string{"a package with info and 2 files cut at any place, or with any one byte behind the signature replaced by any other", "same"}},
	{Prop: "C08", Pkg: "core", Name: "C08_info", Reach: []string{"opened", "refused"}, Bounds: [2]string{"all header bytes symbolic, table in the last 8 bytes of the header or behind it, 0..7 symbolic bytes behind it (length less than 16 or 65535), or a header cut at any place", "0..12 bytes"}},

	{Prop: "C07", Pkg: "core", Name: "C07_table", Reach: end, Bounds: [2]string{"any data area; info with 0..1 tags; 0..2 files with names of 0..2 symbolic bytes, any offset and size, the first with a further tag of any ID and 0..2 bytes; read from a buffer and a stream in pieces", "0..3 files, all ways of delivery"}},
	{Prop: "C07", Pkg: "core", Name: "C07_big", Reach: []string{"end", "refused"}, Bounds: [2]string{"tag sets or info of 255..257, 32767, 32768, 65534..65537, 131072 bytes", "same"}},

	{Prop: "C09", Pkg: "core", Name: "C09_pack", Reach: end, Bounds: [2]string{"0..2 files with names of 1..2 and contents of 0..2 symbolic bytes, a further tag of any ID, info with 0..1 tags; single and split; 3 openers", "0..3 files, contents of 0..3 bytes"}},
	{Prop: "C09", Pkg: "core", Name: "C09_again", Reach: end, Bounds: [2]string{"2 finalisations, in split form with a file before each; a tag, a name or a file changed between; 3 openers", "3 finalisations"}},
	{Prop: "C09", Pkg: "core", Name: "C09_many", Reach: end, Bounds: [2]string{"6 files of fixed names, one of 0, 1, 300, 4095..4097, 33000, 65472, 65536 bytes (3 symbolic); single and split; 3 openers", "same"}},

	{Prop: "C10", Pkg: "core", Name: "C10_append", Reach: end, Bounds: [2]string{"info, 0..1 files, then 2 rounds of 0..2 and 0..1 new files, symbolic names (of 1 byte for new files) and contents of 0..2 bytes; single and split; 3 openers", "0..2 files, 3 rounds, names of 1..2 bytes"}},
	{Prop: "C10", Pkg: "core", Name: "C10_failed", Reach: []string{"fault", "failed", "end"}, Bounds: [2]string{"3 files of 4 symbolic bytes, two before appending and one after it; any one of them fails to be packed with 1..3 bytes transferred; appended with the same object or an opened one; single and split", "same"}},
	{Prop: "C10", Pkg: "core", Name: "C10_edit", Reach: end, Bounds: [2]string{"3 files, one of them deleted, renamed or kept before or after a new file of symbolic name and 0..3 bytes is appended", "same"}},

	{Prop: "C11", Pkg: "core", Name: "C11_extents", Reach: end, Bounds: [2]string{"0..2 files of any size below 2^60 behind any amount of data below 2^62; new and appended, single and split; packed by PackData, or by PackFile with any reported size", "0..3 files"}},

	{Prop: "C12", Pkg: "core", Name: "C12_exists", Reach: end, Bounds: [2]string{"a symbolic name of 1..2 bytes in any spelling, in the package and in a view; 5 operations", "1..3 bytes"}},
	{Prop: "C12", Pkg: "core", Name: "C12_new", Reach: []string{"exists", "new"}, Bounds: [2]string{"an existing name of 1..2 and a new one of 1..3 arbitrary bytes, in the package and in a view", "same"}},

	{Prop: "C13", Pkg: "core", Name: "C13_names", Reach: []string{"end", "deleted"}, Bounds: [2]string{"3 files with clean names of 1, 3 and 1..3 symbolic bytes, whole package or view; one operation with names of 1 or 3 bytes", "two operations"}},
	{Prop: "C13", Pkg: "core", Name: "C13_dir", Reach: []string{"end", "two", "exists"}, Bounds: [2]string{"3 files with clean names of 3, 3 and 5 symbolic bytes; directories empty, '.', of 1 byte with or without a separator, of 3 bytes", "whole package or view"}},

	{Prop: "C14", Pkg: "core", Name: "C14_ops", Reach: end, Bounds: [2]string{"4 operations of 6 kinds with symbolic keys of one byte, starting with an empty map", "5 operations"}},
	{Prop: "C14", Pkg: "core", Name: "C14_filled", Reach: end, Bounds: [2]string{"2 operations with symbolic keys on a map of 0..4 entries", "3 operations"}},
	{Prop: "C14", Pkg: "core", Name: "C14_range", Reach: end, Bounds: [2]string{"3 entries, stop at any, any operation with any key at any entry", "same"}},

	{Prop: "C15", Pkg: "core", Name: "C15_readdir", Reach: []string{"end", "many", "none"}, Bounds: [2]string{"3 files with clean names of 3, 5 and 3 symbolic bytes; directories of 0..3 bytes; every order of map iteration", "names of 3, 5 and 5 bytes, directories of 0..5 bytes"}},
	{Prop: "C15", Pkg: "core", Name: "C15_limit", Reach: []string{"end", "eof"}, Bounds: [2]string{"a tree of 7 files in 7 orders, root or directory, any 3 limits; every order of map iteration", "same"}},
	{Prop: "C15", Pkg: "core", Name: "C15_open", Reach: []string{"file", "dir", "none"}, Bounds: [2]string{"3 files with clean names of 1, 3 and 5 symbolic bytes, paths of 0..5 symbolic bytes", "same"}},

	{Prop: "C16", Pkg: "core", Name: "C16_view", Reach: []string{"end", "none", "opened", "listed"}, Bounds: [2]string{"3 files with clean names of 3, 5 and 3 symbolic bytes, views of directories of 0..3 bytes, relative names of 1..3 bytes", "names of 3, 5 and 5 bytes"}},
	{Prop: "C16", Pkg: "core", Name: "C16_root", Reach: end, Bounds: [2]string{"5 files of fixed names, 3 views, paths of 0..4 symbolic bytes", "same"}},
	{Prop: "C16", Pkg: "core", Name: "C16_nested", Reach: []string{"end", "none", "noouter"}, Bounds: [2]string{"3 files with clean names of 5, 7 and 3 symbolic bytes, two nested views of 1 symbolic byte each", "same"}},
	{Prop: "C16", Pkg: "core", Name: "C16_change", Reach: end, Bounds: [2]string{"3 files with clean names of 3, 5 and 1 symbolic bytes; 7 operations with names of 1..3 symbolic bytes", "same"}},

	{Prop: "C17", Pkg: "core", Name: "C17_lookup", Reach: []string{"file", "second", "dir", "none"}, Bounds: [2]string{"2 packages of 2 files with symbolic names of 1..3 bytes, one of them possibly a view; paths of 0..3 bytes", "also 3 packages"}},
	{Prop: "C17", Pkg: "core", Name: "C17_keys", Reach: end, Bounds: [2]string{"2 packages of 2 files with symbolic names of 1..3 bytes, one of them possibly a view", "also 3 packages"}},
	{Prop: "C17", Pkg: "core", Name: "C17_list", Reach: []string{"end", "none"}, Bounds: [2]string{"2 packages of 2 files with symbolic names of 1..3 bytes, one of them possibly a view; directories of 0..1 bytes, every n, every order of map iteration", "also 3 packages"}},
	{Prop: "C17", Pkg: "core", Name: "C17_sub", Reach: []string{"end", "none", "file"}, Bounds: [2]string{"2 packages of 2 files with symbolic names of 1..3 bytes, one of them possibly a view; directory and name of 1 byte", "also 3 packages"}},
	{Prop: "C17", Pkg: "core", Name: "C17_empty", Reach: end, Bounds: [2]string{"names of 0..3 arbitrary bytes; 3 packages, one fails to close", "same"}},
	{Prop: "C17", Pkg: "core", Name: "C17_pack", Reach: []string{"end", "view"}, Bounds: [2]string{"package numbers of 0..3 arbitrary bytes, a view of the reserved name", "same"}},

	{Prop: "C18", Pkg: "core", Name: "C18_reader", Reach: end, Bounds: [2]string{"first, middle or last file of 0..2 symbolic bytes; single and split; 3 openers; 2 operations (read of 0..3 bytes, read at any offset, seek by up to 2^60 from any whence)", "0..3 bytes, reads of 0..5 bytes, 3 operations"}},
	{Prop: "C18", Pkg: "core", Name: "C18_twice", Reach: end, Bounds: [2]string{"two of three files opened at once, in any order of use; single and split; 3 openers", "same"}},
	{Prop: "C18", Pkg: "core", Name: "C18_bounds", Reach: []string{"inside", "outside"}, Bounds: [2]string{"every 64-bit offset and size that lies outside; inside, those near the ends of the package; single and split; 3 openers", "every one inside too"}},
	{Prop: "C18", Pkg: "core", Name: "C18_big", Reach: end, Bounds: [2]string{"files of 10 sizes up to 131072 behind data of 10 sizes; single and split; 3 openers", "same"}},
	{Prop: "C18", Pkg: "core", Name: "C18_missing", Reach: end, Bounds: [2]string{"3 openers", "same"}},

	{Prop: "C19", Pkg: "core", Name: "C19_pieces", Reach: end, Bounds: [2]string{"files of 0..5 symbolic bytes in pieces of any or at most 1..3 bytes; package and union; unknown names of 2 bytes", "same"}},
	{Prop: "C19", Pkg: "core", Name: "C19_fails", Reach: end, Bounds: [2]string{"files of 1..5 symbolic bytes that fail or end after any number of bytes; package and union", "same"}},
	{Prop: "C19", Pkg: "core", Name: "C19_disk", Reach: end, Bounds: [2]string{"files of 0, 1, 3, 600, 5000 bytes at 3 places; single and split; 3 openers; package and union", "same"}},
	{Prop: "C19", Pkg: "core", Name: "C19_cut", Reach: []string{"end", "whole"}, Bounds: [2]string{"a data file cut to any length; 3 openers; package and union", "same"}},

	{Prop: "C20", Pkg: "core", Name: "C20_create", Reach: []string{"refused", "opened", "kept"}, Bounds: [2]string{"0..2 files of 2 symbolic bytes; single and split; stop at every byte of every write", "same"}},
	{Prop: "C20", Pkg: "core", Name: "C20_append", Reach: []string{"refused", "opened", "kept"}, Bounds: [2]string{"no or one file, one file of 0..2 or 20 symbolic bytes appended, the first deleted, renamed or kept; single and split; stop at every byte of every write of appending", "same"}},
	{Prop: "C20", Pkg: "core", Name: "C20_table", Reach: []string{"refused", "opened"}, Bounds: [2]string{"appended data of symbolic bytes in the exact place of the old table; stop at every byte of every write of appending", "same"}},
	{Prop: "C20", Pkg: "core", Name: "C20_split", Reach: []string{"refused", "opened", "kept"}, Bounds: [2]string{"a split package of 3 files changed by packing, deleting or renaming; stop at every byte of every write since the first finalisation", "same"}},
	{Prop: "C20", Pkg: "core", Name: "C20_again", Reach: []string{"refused", "opened"}, Bounds: [2]string{"a package of 3 files finalised again after deleting, renaming or nothing; stop at every byte", "same"}},
	{Prop: "C20", Pkg: "core", Name: "C20_begin", Reach: []string{"refused", "opened"}, Bounds: [2]string{"a new package begun over a finished one of the same kind; stop at every byte", "same"}},

	{Prop: "C21", Pkg: "core", Name: "C21_pack", Reach: []string{"covered", "fault", "failed", "end"}, Bounds: [2]string{"3 files of 3..5 symbolic bytes packed by PackData and PackFile; one fault at any I/O call of packing, nothing or 1..3 bytes transferred; single and split; then a retry and finalisation", "same"}},
	{Prop: "C21", Pkg: "core", Name: "C21_two", Reach: []string{"covered", "fault", "failed", "end"}, Bounds: [2]string{"as C21_pack with two faults at any two I/O calls", "same"}},
	{Prop: "C21", Pkg: "core", Name: "C21_frame", Reach: []string{"covered", "fault", "end"}, Bounds: [2]string{"begin, pack, finalise, open to append or not, pack, finalise; one fault at any I/O call; single and split; with and without package info", "same"}},
	{Prop: "C21", Pkg: "core", Name: "C21_read", Reach: []string{"covered", "fault", "end"}, Bounds: [2]string{"OpenStream, GetPackageInfo, Header.ReadFrom and FTT.ReadFrom of a package of 2 files; one fault at any read or seek: error, part transferred, or premature end", "same"}},
	{Prop: "C21", Pkg: "core", Name: "C21_write", Reach: []string{"covered", "fault", "end"}, Bounds: [2]string{"FTT.WriteTo and Header.WriteTo; one fault at any write", "same"}},

	{Prop: "C22", Pkg: "core", Name: "C22_case", Reach: end, Bounds: [2]string{"strings of 0..5 symbolic bytes; ToSlash, ToLower, ToUpper, ToKey", "0..6 bytes"}},
	{Prop: "C22", Pkg: "core", Name: "C22_key", Reach: end, Bounds: [2]string{"strings of 0..4 symbolic bytes", "0..5 bytes"}},
	{Prop: "C22", Pkg: "core", Name: "C22_join", Reach: end, Bounds: [2]string{"two strings of 0..3 symbolic bytes each; JoinPath and JoinFilePath", "0..4 bytes each"}},
	{Prop: "C22", Pkg: "core", Name: "C22_name", Reach: end, Bounds: [2]string{"strings of 0..5 symbolic bytes", "0..6 bytes"}},
	{Prop: "C22", Pkg: "core", Name: "C22_ext", Reach: end, Bounds: [2]string{"strings of 0..5 symbolic bytes", "0..6 bytes"}},

	{Prop: "C23", Pkg: "core", Name: "C23_any", Reach: []string{"known", "unknown", "end"}, Bounds: [2]string{"strings of 0..4 symbolic bytes; variables in a map or not, values of 0..2 symbolic bytes", "0..5 bytes"}},
	{Prop: "C23", Pkg: "core", Name: "C23_parts", Reach: []string{"known", "unknown", "end"}, Bounds: [2]string{"2 parts, each a symbolic character, a reference of one of three forms, an unfinished reference or plain text; 3 names; values of 0..1 symbolic bytes", "2..3 parts"}},
	{Prop: "C23", Pkg: "core", Name: "C23_name", Reach: []string{"known", "unknown", "end"}, Bounds: [2]string{"one reference of any form with a name of 1..3 symbolic bytes at any position in the path", "1..4 bytes"}},

	{Prop: "C31", Pkg: "core", Name: "C31_pkg", Reach: []string{"bad", "match", "end"}, Bounds: [2]string{"2 names of 1 and 3 symbolic bytes; patterns of 0..2 symbolic bytes or of four forms with two symbolic characters", "0..3 symbolic bytes"}},
	{Prop: "C31", Pkg: "core", Name: "C31_view", Reach: []string{"bad", "match", "end"}, Bounds: [2]string{"a view of 2 symbolic names among 5; patterns as above, also through fs.Glob", "0..3 symbolic bytes"}},
	{Prop: "C31", Pkg: "core", Name: "C31_union", Reach: []string{"bad", "match", "end"}, Bounds: [2]string{"2 packages of 2 names with symbolic names that may coincide; patterns as above", "0..3 symbolic bytes"}},

	{Prop: "C32", Pkg: "core", Name: "C32_agree", Reach: []string{"opened", "refused", "end"}, Bounds: [2]string{"info of 0..2 tags with symbolic IDs and 0..2 symbolic bytes; packages begun, finalised, opened to append, finalised again; single and split; read in fragments of 1..4 bytes", "same"}},
	{Prop: "C32", Pkg: "core", Name: "C32_cut", Reach: []string{"opened", "refused", "end"}, Bounds: [2]string{"a package with two info tags cut at every length; fragments of 1..3 bytes", "same"}},
	{Prop: "C32", Pkg: "core", Name: "C32_any", Reach: []string{"opened", "refused", "end"}, Bounds: [2]string{"symbolic header fields and 0..7 symbolic bytes of the table", "0..9 bytes"}},

	{Prop: "C24", Pkg: "cmds", Name: "C24_any", Reach: []string{"bad", "done"}, Bounds: [2]string{"a package with one name of 1..4 symbolic bytes; destination given in three forms, existing or made by the tool", "1..5 bytes"}},
	{Prop: "C24", Pkg: "cmds", Name: "C24_up", Reach: []string{"bad"}, Bounds: [2]string{"eight forms of names with steps up and 0..2 symbolic bytes, before or after an ordinary file", "same"}},
	{Prop: "C25", Pkg: "cmds", Name: "C25_files", Reach: end, Bounds: [2]string{"3 files of 0..2 symbolic bytes in directories, one name symbolic; default and three modes; single and split; into an empty and a used destination", "same"}},
	{Prop: "C25", Pkg: "cmds", Name: "C25_names", Reach: end, Bounds: [2]string{"a file whose name is 2..3 symbolic characters of $ A % * ; ~ and space, with variable A in the environment; 3 opening modes", "same"}},
	{Prop: "C25", Pkg: "cmds", Name: "C25_two", Reach: end, Bounds: [2]string{"2 packages with a name in common and 0..2 symbolic bytes", "same"}},
	{Prop: "C25", Pkg: "cmds", Name: "C25_times", Reach: []string{"times", "end"}, Bounds: [2]string{"symbolic modification and access times from 1970 to 2038 with nanoseconds, present or not; three modes; with and without the option", "same"}},
	{Prop: "C25", Pkg: "cmds", Name: "C25_fault", Reach: end, Bounds: [2]string{"ten kinds of failures at the package, its data or the destination; three modes; single and split", "same"}},
	{Prop: "C26", Pkg: "cmds", Name: "C26_pack", Reach: end, Bounds: [2]string{"two folders with 4 files of 0..2 symbolic bytes at the top and in a directory, one name with a symbolic byte; single and split; new or over older files", "0..3 bytes"}},
	{Prop: "C26", Pkg: "cmds", Name: "C26_tags", Reach: end, Bounds: [2]string{"two folders with 3 files of 0..2 symbolic bytes or 513 bytes with a symbolic one around the 512th; all options of the tool", "0..3 bytes"}},
	{Prop: "C26", Pkg: "cmds", Name: "C26_fail", Reach: end, Bounds: [2]string{"eleven kinds of failures at the source or the destination; single and split; with and without content types", "same"}},
	{Prop: "C26", Pkg: "cmds", Name: "C26_self", Reach: end, Bounds: [2]string{"destination inside of a source folder, new or used before; single and split", "same"}},
	{Prop: "C27", Pkg: "lua", Name: "C27_set", Reach: []string{"set", "bad", "end"}, Bounds: [2]string{"28 named tags by name or number and an unknown tag of any ID; few values of each form; settag, addtag, settags, addtags; tag present before or not", "same"}},
	{Prop: "C27", Pkg: "lua", Name: "C27_value", Reach: []string{"set", "bad", "end"}, Bounds: [2]string{"a tag of each kind; numbers of any value, strings of 0..2 symbolic characters (0..3 for text, lengths 65535 and 65536), booleans, other values", "strings of up to 4 symbolic characters"}},
	{Prop: "C27", Pkg: "lua", Name: "C27_keys", Reach: []string{"refused", "accepted", "end"}, Bounds: [2]string{"keys: any number, any string of 0..4 characters, names of protected tags, values of other types; ten calls", "strings of 0..6 characters"}},
	{Prop: "C27", Pkg: "lua", Name: "C27_file", Reach: end, Bounds: [2]string{"ten calls, eight names of files", "same"}},
	{Prop: "C27", Pkg: "lua", Name: "C27_tables", Reach: []string{"bad", "end"}, Bounds: [2]string{"tables of 0..2 entries of ten kinds; tags present before or not; five calls", "tables of 0..3 entries"}},
	{Prop: "C27", Pkg: "lua", Name: "C27_del", Reach: end, Bounds: [2]string{"28 named tags by name or number and an unknown tag of any ID, of 0..2 symbolic bytes, among other tags or not", "same"}},
	{Prop: "C27", Pkg: "lua", Name: "C27_all", Reach: end, Bounds: [2]string{"28 named tags by name or number and an unknown tag of any ID; few values of each form; with or without alias", "same"}},
	{Prop: "C27", Pkg: "lua", Name: "C27_loaded", Reach: end, Bounds: [2]string{"a package of 2 files with label, more tags or an alias, saved and loaded by the same or another object; 2 calls of settag, settags, addtag, addtags or deltag, values of 0, 3 or 5 symbolic characters; all tags of all files and of the package after each", "3 calls"}},
	{Prop: "C27", Pkg: "lua", Name: "C27_info", Reach: end, Bounds: [2]string{"0..2 changes of label or of whole info, symbolic values of 0..1 characters", "0..3 changes"}},
	{Prop: "C28", Pkg: "lua", Name: "C28_sums", Reach: end, Bounds: [2]string{"contents of 0..2 symbolic bytes, one or two files, secrets of 0..2 symbolic bytes or of up to 5000 bytes with two symbolic, each option alone, all options but one, options switched between files; putdata and putfile; single and split", "contents of 0..3 bytes, every combination of options"}},
	{Prop: "C28", Pkg: "lua", Name: "C28_given", Reach: end, Bounds: [2]string{"each of ten tags given by script with all options on, symbolic content of one byte", "same"}},
	{Prop: "C28", Pkg: "lua", Name: "C28_mime", Reach: end, Bounds: [2]string{"nine extensions, four kinds of content", "same"}},
	{Prop: "C28", Pkg: "lua", Name: "C28_fid", Reach: end, Bounds: [2]string{"0..3 operations: put with automatic or given symbolic identifier, load and append, option switched, identifier changed", "0..4 operations"}},
	{Prop: "C29", Pkg: "lua", Name: "C29_steps", Reach: end, Bounds: [2]string{"4 calls of load, begin, append, putdata, putfile, delalias, flush, finalize for a single and a split package in any order, of them up to one that has to fail, and one append by another object; contents of 2 symbolic bytes", "5 calls"}},
	{Prop: "C29", Pkg: "lua", Name: "C29_deep", Reach: end, Bounds: [2]string{"6 calls in any legal order, an append by another object among them", "7 calls"}},
	{Prop: "C29", Pkg: "lua", Name: "C29_parts", Reach: end, Bounds: [2]string{"single package with data part and split one without it, of 0..2 files, loaded and appended", "same"}},
	{Prop: "C30", Pkg: "par", Name: "C30_map", Reach: end, Bounds: [2]string{"any 2 of 9 operations, any keys and values, maps of 0..2 pairs, every schedule of lock acquisitions", ""}},
	{Prop: "C30", Pkg: "par", Name: "C30_range", Reach: end, Bounds: [2]string{"Range with changes by its function and any other operation, every schedule", ""}},
	{Prop: "C30", Pkg: "par", Name: "C30_map3", Reach: end, Thorough: true, Bounds: [2]string{"", "any 3 of 9 operations, any keys and values, maps of 1 pair, every schedule"}},
	{Prop: "C30", Pkg: "par", Name: "C30_pack", Reach: end, Bounds: [2]string{"any 2 of 9 operations that pack, rename, alias or look up, 4 names, one-file and split packages, every schedule of lock acquisitions", ""}},
	{Prop: "C30", Pkg: "par", Name: "C30_any", Reach: end, Bounds: [2]string{"any 2 of 21 operations of a package, 4 names, one-file and split, every schedule", "the same, also with the directories swapped"}},
	{Prop: "C30", Pkg: "par", Name: "C30_many", Reach: end, Bounds: [2]string{"3 threads that pack 2 files each, names that coincide, every schedule", "3 threads that pack 3 files each"}},
	{Prop: "C30", Pkg: "par", Name: "C30_read", Reach: end, Bounds: [2]string{"any 2 of 7 reading operations, 3 names, three openers, package or union, every schedule", ""}},
	{Prop: "C30", Pkg: "par", Name: "C30_any3", Reach: end, Thorough: true, ThoroughS: 900, Bounds: [2]string{"", "any 3 of 21 operations of a package, the first with 4 names, every schedule"}},
	{Prop: "C33", Pkg: "lua", Name: "C33_query", Reach: end, Bounds: [2]string{"0..2 files of 0..2 symbolic bytes (at most one of them empty), an alias or a deletion, a label of 0..2 symbolic characters; single and split package; while it is open, before and after edits, flushed, finalized and loaded", "0..3 files"}},
	{Prop: "C33", Pkg: "lua", Name: "C33_glob", Reach: []string{"list", "end"}, Bounds: [2]string{"three names, patterns of 0..2 symbolic characters", "0..3"}},
	{Prop: "C33", Pkg: "lua", Name: "C33_props", Reach: end, Bounds: [2]string{"two settings, of each flag, the secret of two symbolic characters, or of properties that are only read", ""}},
	{Prop: "C33", Pkg: "lua", Name: "C33_hex", Reach: []string{"to", "from", "bad"}, Bounds: [2]string{"0..2 symbolic bytes to text, 0..3 symbolic characters to bytes; 16..40000 bytes with three symbolic to text and back", "0..3 and 0..4"}},
	{Prop: "C33", Pkg: "lua", Name: "C33_time", Reach: end, Bounds: [2]string{"five moments of years 1..9999, one of them with 256 offsets of 10 ms", "four of them with the offsets"}},
	{Prop: "C33", Pkg: "lua", Name: "C33_path", Reach: []string{"match", "end"}, Bounds: [2]string{"ten functions on a path of 0..3 symbolic characters", ""}},
	{Prop: "C33", Pkg: "lua", Name: "C33_disk", Reach: end, Bounds: [2]string{"a directory of 0..3 files and a subdirectory; names, limits -1..3 and seven patterns by forks", ""}},
	{Prop: "C34", Pkg: "cmds", Name: "C34_build", Reach: []string{"done", "failed"}, Bounds: [2]string{"1..2 scripts, each a good one with a symbolic character of data, a missing one, one of bad syntax, one that raises an error first or last and one with an error of package", "1..3 scripts"}},
	{Prop: "C06", Pkg: "core", Name: "C06_many", Reach: end, Bounds: [2]string{"a tag set of 20 tags of 0..299 bytes; set, add or delete with any ID, values of eight lengths 0..300, three capacities", ""}},
	{Prop: "C09", Pkg: "core", Name: "C09_count", Reach: end, Bounds: [2]string{"300 files, one of 2, 70000, 131073 or 2^20+1 bytes (three symbolic); single and split; 3 openers", ""}},
	{Prop: "C10", Pkg: "core", Name: "C10_long", Reach: end, Bounds: [2]string{"6 rounds of appending up to 3 files of 0..70000 bytes (three of each symbolic) in any rotation, with long tags; single and split; 3 openers", ""}},
	{Prop: "C13", Pkg: "core", Name: "C13_tree", Reach: end, Bounds: [2]string{"a renamed directory of ten in a tree of 17 files to one of eight, one with a symbolic character; with a view or without", ""}},
	{Prop: "C13", Pkg: "core", Name: "C13_many", Reach: end, Bounds: [2]string{"two of rename, alias, delete on four names of a tree of 17 files", ""}},
	{Prop: "C14", Pkg: "core", Name: "C14_large", Reach: end, Bounds: [2]string{"40 or 300 entries and a symbolic key, then two operations of five", ""}},
	{Prop: "C15", Pkg: "core", Name: "C15_tree", Reach: []string{"file", "dir", "none"}, Bounds: [2]string{"a tree of 17 files of depth up to 11; eleven paths, or one with a symbolic character in the place of one of the first nine", ""}},
	{Prop: "C15", Pkg: "core", Name: "C15_walk", Reach: end, Bounds: [2]string{"a walk of a tree of 17 files in any rotation and one of a symbolic name", ""}},
	{Prop: "C16", Pkg: "core", Name: "C16_deep", Reach: []string{"none", "end", "match"}, Bounds: [2]string{"nine directories of a tree of 17 files, eleven paths in it or with a symbolic first character, five patterns", ""}},
	{Prop: "C17", Pkg: "core", Name: "C17_large", Reach: []string{"file", "dir", "none"}, Bounds: [2]string{"three packages of 7..11 files with shared names, in three orders, one of them a view or not; paths as for C15_tree", ""}},
	{Prop: "C19", Pkg: "core", Name: "C19_large", Reach: end, Bounds: [2]string{"a file of 32767, 32768, 65535, 65536, 70000, 131073 or 2^20+1 bytes (three symbolic) among others; single and split; 3 openers, 3 views", ""}},
	{Prop: "C21", Pkg: "core", Name: "C21_large", Reach: []string{"fault", "covered", "end"}, Bounds: [2]string{"one fault of 24 calls while three files of 300, 70000 and 33000 bytes are packed; partial transfers of 1, 20000 or 32767 bytes", ""}},
	{Prop: "C22", Pkg: "core", Name: "C22_long", Reach: end, Bounds: [2]string{"seven strings of 6..23 characters, any one of the characters symbolic; seven functions", ""}},
	{Prop: "C23", Pkg: "core", Name: "C23_long", Reach: end, Bounds: [2]string{"three of eight references with three separators, one value with a symbolic character", ""}},
	{Prop: "C31", Pkg: "core", Name: "C31_tree", Reach: []string{"match", "bad", "end"}, Bounds: [2]string{"18 patterns over a tree of 17 files and one of a symbolic name", ""}},
	{Prop: "C32", Pkg: "core", Name: "C32_large", Reach: []string{"opened", "end"}, Bounds: [2]string{"labels of ten lengths 127..65000, headers read in pieces; info cut off at four places", ""}},
	{Prop: "C20", Pkg: "core", Name: "C20_large", Reach: []string{"refused", "opened", "kept"}, Bounds: [2]string{"10 files of 0..70000 bytes (three symbolic), the last 4 appended or not; single and split; stop at 4 places of any write", ""}},
	{Prop: "C25", Pkg: "cmds", Name: "C25_large", Reach: end, Bounds: [2]string{"76 files, one of 511..2^20+1 bytes (three symbolic), directories of 1..7 levels; single and split; three modes", ""}},
	{Prop: "C26", Pkg: "cmds", Name: "C26_large", Reach: end, Bounds: [2]string{"two folders with 77 files, as in C25_large, links or not; single and split", ""}},
	{Prop: "C28", Pkg: "lua", Name: "C28_large", Reach: end, Bounds: [2]string{"contents of eleven lengths 255..2^20+1 with one or two symbolic bytes, each option and type by content; putdata and putfile", ""}},
	{Prop: "C35", Pkg: "core", Name: "C35_open", Reach: end, Bounds: [2]string{"a package of 3 files, single or split, 3 openers, an operation of five on ten names, directly or through a union", "two operations"}},
	{Prop: "C35", Pkg: "core", Name: "C35_bad", Reach: end, Bounds: [2]string{"a missing package, a directory, a cut at any byte, a broken signature, a broken tag set; missing data files with 3 openers", ""}},
	{Prop: "C35", Pkg: "core", Name: "C35_union", Reach: end, Bounds: [2]string{"unions of 0..3 packages of any opener, some of them closed already", ""}},
	{Prop: "C35", Pkg: "lua", Name: "C35_script", Reach: end, Bounds: [2]string{"4 calls of ten, among them failing ones, for a single and a split package", "5 calls"}},
	{Prop: "C35", Pkg: "cmds", Name: "C35_tools", Reach: end, Bounds: [2]string{"packing and extraction of 40 files with 16 file descriptors; single and split; three modes", ""}},
	{Prop: "C13", Pkg: "lua", Name: "C13_script", Reach: end, Bounds: [2]string{"a package of four files; one of five edits with names among seven and one of a symbolic character, by script and by package functions", "two edits"}},
	{Prop: "C36", Pkg: "core", Name: "C36_read", Reach: []string{"none", "no file", "no dir", "end"}, Bounds: [2]string{"a package, a view, unions of two and of none and a view of one; five names and names of 1..4 symbolic characters; five operations", ""}},
	{Prop: "C36", Pkg: "core", Name: "C36_write", Reach: []string{"exist", "missing", "dir", "end"}, Bounds: [2]string{"four operations with two names, each one of five or of a symbolic character; with a view or without", "two symbolic characters"}},
	{Prop: "C36", Pkg: "core", Name: "C36_entry", Reach: []string{"taken", "refused"}, Bounds: [2]string{"any data area, any offset and size of 0, 2 or 8 bytes or not a number, five names or none", ""}},
	{Prop: "C36", Pkg: "core", Name: "C36_file", Reach: []string{"refused"}, Bounds: [2]string{"any offset and size that are not inside of the package file; single and split; 3 openers", ""}},
	{Prop: "C36", Pkg: "core", Name: "C36_head", Reach: []string{"taken", "unfit", "cut"}, Bounds: [2]string{"any position and size of a table of one entry", ""}},
	{Prop: "C36", Pkg: "core", Name: "C36_missing", Reach: end, Bounds: [2]string{"a missing file or directory; OpenFile and 3 openers", ""}},
	{Prop: "C36", Pkg: "core", Name: "C36_pass", Reach: []string{"failed", "end"}, Bounds: [2]string{"a failure of any one of the seeks or of the reads", ""}},
	{Prop: "C36", Pkg: "core", Name: "C36_codec", Reach: []string{"cut", "read"}, Bounds: [2]string{"all numbers, in pieces of 1..3 bytes, cut anywhere", ""}},
	{Prop: "C36", Pkg: "lua", Name: "C36_script", Reach: end, Bounds: [2]string{"16 calls of scripts with three names or one of two symbolic characters", ""}},
	{Prop: "C33", Pkg: "lua", Name: "C33_string", Reach: end, Bounds: [2]string{"0..3 files, aliases or not, up to two info tags of two symbolic characters", ""}},
	{Prop: "C33", Pkg: "lua", Name: "C33_env", Reach: end, Bounds: [2]string{"0..3 symbolic characters, after one of seven references or alone; a variable of a symbolic value", "0..4 characters"}},
	{Prop: "C12", Pkg: "lua", Name: "C12_script", Reach: end, Bounds: [2]string{"five calls onto an existing name in both spellings, with tags and settings or not", ""}},
	{Prop: "C37", Pkg: "cmds", Name: "C37_extract", Reach: []string{"good", "bad"}, Bounds: [2]string{"six forms of sources and five of destinations, each with paths that end with a symbolic character, and four of modes; single and split; files there before or not", ""}},
	{Prop: "C37", Pkg: "cmds", Name: "C37_pack", Reach: []string{"good", "bad"}, Bounds: [2]string{"seven forms of sources and five of destinations, each with paths that end with a symbolic character; single and split; a package there before or not", ""}},
	{Prop: "C10", Pkg: "core", Name: "C10_layout", Reach: end, Bounds: [2]string{"two files of 2 and 3 symbolic bytes, 0, 1, 64 or 5000 unused bytes behind the header, 0 or 3 behind data, tags table behind data or before it; single and split; 3 openers; two appended files of 0..3 bytes", ""}},
	{Prop: "C18", Pkg: "core", Name: "C18_far", Far: true, Reach: end, Bounds: [2]string{"files of 3 symbolic bytes at 7 places from 2^24 to 2^40, by mmap and fsys; and files as large as that by fsys", ""}},
	{Prop: "C19", Pkg: "core", Name: "C19_huge", Reach: []string{"exact"}, Bounds: [2]string{"every size from 2^26 to 2^36; package and union, and views", ""}},
	{Prop: "C14", Pkg: "core", Name: "C14_drain", Reach: end, Bounds: [2]string{"2..130 entries put and up to all removed from the end, start or middle, then four operations, one of them of five on one of four keys", ""}},
	{Prop: "C16", Pkg: "core", Name: "C16_odd", Reach: []string{"end", "none"}, Bounds: [2]string{"enumeration of views; 3 names of 2..4 symbolic bytes of any kind but backslashes", ""}},
	{Prop: "C34", Pkg: "cmds", Name: "C34_ways", Reach: end, Bounds: [2]string{"34 ways of a script to fail or not to fail, alone or before or after another script", ""}},
	{Prop: "C21", Pkg: "core", Name: "C21_kinds", Reach: []string{"covered", "fault", "end"}, Bounds: [2]string{"17 errors, each at any I/O call while two files are packed and finalised, or a package or its info is read; nothing or a byte transferred; single and split", ""}},
	{Prop: "C24", Pkg: "cmds", Name: "C24_forms", Reach: []string{"bad", "done", "end"}, Bounds: [2]string{"names of 55 forms with what may be expanded, decoded or cleaned, alone, in a directory or after another file", ""}},
	{Prop: "C26", Pkg: "cmds", Name: "C26_places", Reach: end, Bounds: [2]string{"eleven pairs of places of two folders with 5 files, three of 0..1 symbolic bytes; links, an old package or not", ""}},
	{Prop: "C15", Pkg: "core", Name: "C15_again", Reach: end, Bounds: [2]string{"directories of a package of three files, asked for before and after each of one or two changes of seven kinds", ""}},
	{Prop: "C19", Pkg: "core", Name: "C19_again", Reach: end, Bounds: [2]string{"contents of a package of three files, asked for before and after each of one or two changes of seven kinds", ""}},
	{Prop: "C31", Pkg: "core", Name: "C31_again", Reach: end, Bounds: [2]string{"patterns of a package of three files, asked for before and after each of one or two changes of seven kinds", ""}},
	{Prop: "C16", Pkg: "core", Name: "C16_again", Reach: end, Bounds: [2]string{"all queries of a view before and after a change through it or in the package", ""}},
	{Prop: "C17", Pkg: "core", Name: "C17_again", Reach: end, Bounds: [2]string{"all queries of a union of two packages before and after a change of one of them, of their order or number", "two changes"}},
	{Prop: "C14", Pkg: "core", Name: "C14_during", Reach: end, Bounds: [2]string{"maps of 2..300 entries with symbolic values, changed inside of a range at one or all entries in eight ways", ""}},
	{Prop: "C09", Pkg: "core", Name: "C09_source", Reach: end, Bounds: [2]string{"a file of twelve sizes 0..70000 (three symbolic bytes) from sources of six kinds: pieces of any or at most 1, 5, 512, 4096, 32768 bytes, with empty reads or not, the end with the last data or after it; PackData and PackFile", ""}},
	{Prop: "C07", Pkg: "core", Name: "C07_sizes", Reach: end, Bounds: [2]string{"tables of 17 sizes of 64..131072 bytes, powers of two and multiples of 1024 among them, up to two bytes more or less; few symbolic bytes", ""}},
	{Prop: "C19", Pkg: "core", Name: "C19_slow", Reach: []string{"whole", "failed"}, Bounds: [2]string{"files of twelve sizes 100..70000 (three symbolic bytes) in pieces of 7, 500, 4096 bytes, a half or all but one, that end or fail in four places or do not; package, union, and views", ""}},
	{Prop: "C21", Pkg: "core", Name: "C21_short", Reach: []string{"short", "whole"}, Bounds: [2]string{"files of 1..70000 bytes; one of the first four writes of data transfers 0, 1, 4, 4096 or 30000 bytes without an error", ""}},
	{Prop: "C28", Pkg: "lua", Name: "C28_keys", Reach: end, Bounds: [2]string{"3 files put to two packages of own secrets of two symbolic bytes, that are replaced or not before each; each option alone or all", "4 files"}},
	{Prop: "C34", Pkg: "cmds", Name: "C34_twice", Reach: end, Bounds: [2]string{"3 of five paths of three scripts, in any order and repeated", "4 paths"}},
	{Prop: "C17", Pkg: "core", Name: "C17_broken", Reach: []string{"bad", "good"}, Bounds: [2]string{"two packages of two files with symbolic names of 1..3 characters, one of which does not open, read, or ends early", "three packages"}},
	{Prop: "C26", Pkg: "cmds", Name: "C26_types", Reach: end, Bounds: [2]string{"two files of one or two folders, six extensions, contents of five kinds, few symbolic bytes; MIME types on", ""}},
	{Prop: "C03", Pkg: "core", Name: "C03_several", Reach: end, Bounds: [2]string{"two tags of any of nine kinds and values made before they are used", ""}},
	{Prop: "C04", Pkg: "core", Name: "C04_several", Reach: end, Bounds: [2]string{"two tags of any times made before they are used", ""}},
	{Prop: "C25", Pkg: "cmds", Name: "C25_each", Reach: end, Bounds: [2]string{"two files of one or several packages with any times of 1970..2038, each with any of the two tags; three opening modes", "three files"}},
	{Prop: "C33", Pkg: "lua", Name: "C33_huge", Reach: end, Bounds: [2]string{"1..2 files of seven sizes of 0..2^42, beside of or inside of each other", "1..3 files"}},
	{Prop: "C17", Pkg: "core", Name: "C17_many", Reach: end, Bounds: [2]string{"two packages of 2, 300, 1100 or 2500 files, a half of them shared", ""}},
	{Prop: "C27", Pkg: "lua", Name: "C27_many", Reach: end, Bounds: [2]string{"tables of six tags in six orders, any of which are there before; three calls", ""}},
	{Prop: "C27", Pkg: "lua", Name: "C27_infos", Reach: end, Bounds: [2]string{"info of one of 28 named tags by name or number or of an unknown tag, few values of each form, with or without other tag; package written single or split, and loaded", "same"}},
	{Prop: "C26", Pkg: "cmds", Name: "C26_gaps", Reach: end, Bounds: [2]string{"lists of two folders with empty elements at four places, files of 0..1 symbolic bytes; single and split", ""}},
	{Prop: "C25", Pkg: "cmds", Name: "C25_gaps", Reach: end, Bounds: [2]string{"lists of two packages with empty elements at four places, files of a symbolic byte; single and split, all modes", ""}},
	{Prop: "C33", Pkg: "lua", Name: "C33_dir", Reach: end, Bounds: [2]string{"directories of 0, 1, 16, 100 and 130 files; seven forms of limits", ""}},
	{Prop: "C28", Pkg: "lua", Name: "C28_loaded", Reach: end, Bounds: [2]string{"a package of 1..3 files, each without identifier or with one of six, loaded by the same, a new or a used object; two files put", ""}},
}
