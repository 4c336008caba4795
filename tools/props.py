#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Package header encodes and decodes exactly",
"Every header value is written as exactly 64 little-endian bytes (24-byte signature, then record count, table offset, table size, data offset, data size), and both ways of decoding those bytes, from a buffer and from a stream, give back the same header and the same reported record count, table size and data size. A stream that delivers the bytes in fragments gives the same result as one that delivers them at once, and fewer than 64 bytes is always an error.",
["inputs","fault_sequences"],"all 2^512 header images, all ways a reader may split 64 bytes, all truncation points",
"Tests only ever see headers the writer itself produced, read in one piece; no test decodes an arbitrary 64-bit field, a fragmented stream or a truncated header.",
["wpk.go","util/uintio.go"],[("Header.Parse","wpk.go"),("Header.ReadFrom","wpk.go"),("Header.WriteTo","wpk.go")],
[("Header","five 64-bit fields behind a 24-byte signature","wpk.go")])

p("C02","Only finished packages and split packages in progress can be opened",
"A package is accepted for reading only if its first 24 bytes are exactly the ready signature, or exactly the prebuild signature while its header says the data lives in a separate file. A single-file package that is still being built is refused with the not-ready error, and any other signature with the bad-signature error, whatever the rest of the file contains.",
["inputs"],"all 24-byte signatures and all header field values",
"TestBrokenDB samples one prebuild header; no test changes a single signature byte or combines the prebuild signature with other header fields.",
["wpk.go"],[("Header.IsReady","wpk.go"),("FTT.OpenStream gate","wpk.go"),("GetPackageInfo gate","wpk.go")])

p("C03","Scalar tag values survive encoding for every value",
"Encoding a boolean, byte, 16/32/64-bit integer, variable-length unsigned integer, float or string as a tag and decoding it with the matching accessor returns the same value bit for bit, and each decoder rejects (not-ok, zero value) every tag whose length is not one of the lengths of its type. The variable-length unsigned encoding uses the shortest of 1, 2, 4 and 8 bytes that holds the value, little-endian, and an explicit length of any other size panics.",
["inputs"],"all 2^64 integers, all float bit patterns, all tag contents up to the stated length",
"Existing tests encode a couple of constants; the length boundaries (0xff/0x100, 0xffff/0x10000, 2^32) and wrong-length tags are never exercised.",
["tagset.go","util/uintio.go"],[("UintTag/TagUint","tagset.go"),("Uint16Tag..NumberTag","tagset.go"),("util.GetU16..SetF64","util/uintio.go")])

p("C04","Stored times read back as the time that was stored",
"A time stored as a 12-byte tag reads back as the same instant with nanosecond precision, and a time stored as an 8-byte tag reads back as the same instant truncated to the millisecond, through every accessor: as a time, as Unix milliseconds, and through the modification, access, change and birth time of a packed file. The presence queries for change and birth time answer whether that tag is present.",
["inputs"],"all instants whose Unix milliseconds fit in 64 bits, both encodings, all four time tags, present or absent",
"No test reads a time tag back at all; negative instants, sub-millisecond parts and the second encoding need values nobody samples.",
["tagset.go"],[("TimeTag/UnixmsTag","tagset.go"),("TagRaw.TagTime/TagUnixms","tagset.go"),("ModTime/AccessTime/ChangeTime/BirthTime","tagset.go")])

p("C05","Walking a tag set of arbitrary bytes is safe and exact",
"For any byte string interpreted as a tag set, iteration yields in order exactly the tags whose header and content lie inside it, then stops as 'passed' if the string ended on a tag boundary and 'failed' otherwise, and never reads outside it, panics or loops. Count, presence, lookup by ID and the file position and size accessors agree with that walk, and presence or lookup of an ID that is not there is negative.",
["inputs"],"every byte string up to the stated length as a tag set, every tag ID",
"TestTagset walks one well-formed set; truncated headers, lengths pointing past the end, ID 0, duplicates and empty tags are never generated.",
["tagset.go"],[("TagsetIterator.Next","tagset.go"),("TagsetRaw.Get/Has/Num/Pos","tagset.go")])

p("C06","Editing a tag set changes exactly the tag that was asked for",
"Put, add, set and delete on a tag set behave as on an ordered map from ID to bytes: set replaces the value in place or appends, add appends only if absent, delete removes only that tag, the reported result says which happened, and every other tag keeps its order and content, whatever the lengths and whatever spare capacity the underlying storage has. Editing a copy never changes the original.",
["inputs","histories"],"tag sets with up to three tags of symbolic IDs and contents, any spare capacity, any edit, then any second edit",
"TestTagset edits with one fixed sequence; in-place growth over shared storage depends on capacity and on which of several tags grows, which no test varies.",
["tagset.go"],[("TagsetRaw.SetOk/AddOk/DelOk/Put","tagset.go"),("CopyTagset","tagset.go")])

p("C07","The file tags table survives being written and read back",
"A tags table written to a stream and read back, either from a buffer or from a stream, has the same package info, the same file names in the same order, and byte-identical tag sets, and both readers and the writer report exactly the number of bytes the table occupies. A tag set larger than 65535 bytes is refused with the range error instead of being written wrongly, and a stream that delivers its bytes in fragments changes nothing.",
["inputs","fault_sequences"],"tables of up to three entries with symbolic tags, with and without info, all reader fragmentations",
"Tests round-trip tables through whole packages with fixed contents in one piece; they never see sizes at the 16-bit limit or a fragmented stream.",
["wpk.go"],[("FTT.WriteTo","wpk.go"),("FTT.Parse","wpk.go"),("FTT.ReadFrom","wpk.go")])

p("C08","A corrupt or hostile package file is rejected cleanly",
"Opening any byte string as a package either fails with an error or yields a table in which every file has a name, an offset and a size, no two files share a name, and every file lies completely inside the data area the header declares. It never panics, loops forever, or allocates memory out of proportion to the size of the file.",
["inputs"],"all file images with symbolic header and symbolic table bytes up to the stated size",
"Tests open only packages made by the library; the offsets, sizes and lengths that overflow or point outside need 64-bit values no sample hits.",
["wpk.go","tagset.go"],[("FTT.OpenStream","wpk.go"),("FTT.Parse","wpk.go"),("FTT.CheckTagset","wpk.go")])

p("C09","What is packed is what is read back",
"After files are packed into a new package and the package is finalised, opening it from disk shows exactly the packed names, and each file's content, size and attached tags and the package info are byte-identical to what was given, for single-file and split packages and for every way of opening nested files. This includes empty files, empty packages with info, and packages that were finalised several times.",
["inputs","histories","configurations"],"up to three files with symbolic names, contents and sizes; single-file or split; zero to two intermediate syncs; all three openers",
"Tests pack a fixed set of media files once per mode; empty contents, empty packages, intermediate syncs and symbolic contents are not sampled.",
["writer.go","wpk.go","bulk/bulk.go","fsys/fsys.go","mmap/mmap.go"],[("FTT.Begin/Sync","writer.go"),("Package.PackData","writer.go"),("FTT.OpenFile","wpk.go")])

p("C10","Appending to a package preserves everything already in it",
"Reopening a finished package for appending, adding files and finalising leaves every earlier file with its name, tags and content unchanged, adds exactly the new files, and never writes over existing data. The same holds for any number of append rounds, in single-file and split form.",
["histories","inputs","configurations"],"up to two append rounds of up to two files with symbolic content after an initial package, single-file and split",
"TestAppendDiscrete does one fixed sequence; data overlap depends on sizes and on the number of rounds.",
["writer.go","wpk.go"],[("FTT.Append","writer.go"),("FTT.Sync","writer.go"),("Package.PackData","writer.go")])

p("C11","Packed file extents never overlap, whatever their sizes",
"Every file packed into a package is recorded with the offset where its data was really written and its exact size, data extents of different files do not overlap each other, the header or the tags table, and the recorded data size covers them all. This holds for data sizes over the whole range of file offsets, not only small ones.",
["inputs","histories"],"three consecutive packings with arbitrary 63-bit sizes, with syncs in between, single-file and split",
"Tests write a few megabytes; the arithmetic at 2^16, 2^31, 2^32 and beyond is unreachable by real files.",
["writer.go","tagset.go","wpk.go"],[("Package.PackData","writer.go"),("Package.BaseTagset","wpk.go"),("FTT.Sync","writer.go")])

p("C12","A name already in the package is never packed over",
"Packing a file, adding an alias or renaming onto a name that already exists (under any spelling that normalises to it) fails with an already-exists error and has no effect: the existing file, all other files and the written data stay as they were. Packing under a new name makes exactly that name appear.",
["inputs","histories"],"two packed files with symbolic names including backslash spellings and workspaces, then any packing or alias or rename",
"Duplicate handling is tested with one literal name; separators, workspaces and interaction with earlier names are not varied.",
["writer.go","wpk.go"],[("Package.PackData duplicate check","writer.go"),("PutAlias/Rename","writer.go")])

p("C13","Rename, alias and delete change names only, as documented",
"Renaming moves an entry to the new name, an alias adds the new name with the same data and tags, deleting removes one name, and renaming a directory moves exactly the files below it (stopping with an error at an existing target, or skipping it when asked to) and returns their number. In every case each entry's recorded path equals its name, all other tags and all other entries stay unchanged, and the result survives finalising and reopening.",
["inputs","histories"],"packages of up to four files with symbolic names and tags, any one or two of these operations with symbolic arguments",
"Tests rename one fixed path; prefix collisions, existing targets, and length changes of the stored path are not sampled.",
["writer.go","wpk.go","tagset.go"],[("Package.Rename","writer.go"),("Package.RenameDir","writer.go"),("Package.PutAlias","writer.go"),("Package.DelTagset","wpk.go")])

p("C14","The sequenced map is an insertion-ordered map",
"Any sequence of operations on the sequenced map (poke, push, pop, delete, lookup, length, range) gives the results of an insertion-ordered map: lookups return the last value stored, poke keeps the position of an existing key, push refuses an existing key, pop removes the newest entry, delete keeps the order of the rest, and range visits every entry once in order and stops when told. Changing the map inside a range callback does not disturb that range.",
["histories","inputs"],"all operation sequences of the stated length with symbolic keys and values",
"There is no test of the map itself; order and index bookkeeping depend on the operation history.",
["util/seqmap.go"],[("SeqMap.Poke/Push/Pop/Delete","util/seqmap.go"),("SeqMap.Range","util/seqmap.go")])

p("C15","Directory listings show the tree the file names describe",
"Reading a directory of a package lists each direct child exactly once, files as files and subdirectories as directories, sorted by name, with nothing else; a limit of n entries returns at most n of them and successive calls on an opened directory continue until all were returned and then report end of file. Opening a path or asking for its info succeeds exactly for existing files and for directories that are prefixes of existing files (the reserved name @pack aside), and a directory that does not exist is reported as an error.",
["inputs","histories"],"packages of up to four files with symbolic slash-separated names, every directory argument, every n",
"TestPackDir lists one tree; order comes from a Go map and collisions of name prefixes (a, a/b, ab) are not sampled.",
["dir.go","wpk.go"],[("FTT.ReadDirN","dir.go"),("FTT.OpenDir","dir.go"),("Package.Open/ReadDir","wpk.go")])

p("C16","A subdirectory view is the package restricted to that directory",
"A view of a subdirectory succeeds exactly if some file lies below it, and through it every operation (lookup, read, list, glob, enumerate, stat, packing, rename) on a relative name has the effect of the same operation on the full name, never showing or touching a file outside the subdirectory. Nested views compose.",
["inputs"],"packages of up to three files with symbolic names, every subdirectory, every relative name",
"Tests use one subdirectory; sibling directories sharing a prefix and nested views are where containment breaks.",
["wpk.go"],[("Package.Sub","wpk.go"),("Package.FullPath/TrimPath","wpk.go"),("Package.Enum","wpk.go")])

p("C17","A union shows the first package that has the name",
"In a union of packages every lookup (open, read, stat, enumerate, glob, list) sees each name exactly once and gives the file of the first package that contains it; directories show the merged children of all packages sorted by name, a limit n returns at most n, and a name found in no package is reported as not existing. A subdirectory view of a union is the union of the subdirectory views.",
["inputs","configurations"],"two or three packages of up to two files each with symbolic names and contents, every query",
"TestUnion has one fixed overlap; precedence in listings and the counting of duplicates depend on which package holds which name.",
["union.go"],[("Union.Open/ReadFile/Stat","union.go"),("Union.ReadDirN","union.go"),("Union.AllKeys/Glob","union.go")])

p("C18","Nested file readers expose exactly their file and nothing else",
"Through each of the three openers, reading, reading at an offset and seeking in a nested file behave as on an in-memory file with exactly the recorded content: never a byte before or after it, end of file at its end, and the same results from all three openers. A file position outside the package data is an error and not a crash or a wider view, and info, close and repeated open behave alike.",
["inputs","configurations"],"symbolic offset and size over the whole range, symbolic content, symbolic read/seek operations, three openers, offsets around page boundaries",
"Tests read whole files from small packages; page-boundary offsets, partial reads, seeks and bad positions are not sampled.",
["bulk/bulk.go","fsys/fsys.go","mmap/mmap.go"],[("NewSliceFile","bulk/bulk.go"),("NewChunkFile","fsys/fsys.go"),("NewMappedFile","mmap/mmap.go")])

p("C19","Reading a whole file returns all of it or an error",
"Reading a named file in one call returns exactly its bytes without an error, also when it is empty or the underlying reader delivers it in pieces, and returns an error rather than short or padded data when the data cannot be read completely. The returned bytes are the caller's own copy, and an unknown name is a not-exist error.",
["inputs","fault_sequences"],"file sizes including 0, all reader fragmentations, all fault positions, package and union",
"Tests compare sizes of non-empty files read in one piece from memory.",
["wpk.go","union.go"],[("Package.ReadFile","wpk.go"),("Union.ReadFile","union.go")])

p("C20","A crash while writing never leaves a package that opens wrongly",
"If writing stops at any byte of any write while a package is created, appended to or finalised, the file that is left is either refused as not ready or opens with only intact files: every file it lists has the name, tags and content that were packed. For a split package every state reached at a completed sync remains readable at every completed write until appending or the next sync begins.",
["crash_points","inputs"],"every crash byte of the write stream for creation, append and sync, single-file and split, symbolic contents",
"TestBrokenDB cuts off at one point between operations; crash points inside a sync are never exercised.",
["writer.go","wpk.go"],[("FTT.Begin prebuild signature","writer.go"),("FTT.Sync ordering of table and header","writer.go"),("FTT.Append","writer.go")])

p("C21","An I/O error is always reported and never recorded as success",
"If any read, write or seek fails or comes up short while a package is begun, packed into, appended to, finalised, opened or queried for info, the operation returns an error. A file whose packing failed does not appear in the package, and files packed before and after it remain correct.",
["fault_sequences","inputs"],"one injected fault at any I/O call, of any kind (error, short write, premature end), in every operation",
"No test injects a fault.",
["writer.go","wpk.go","util/uintio.go"],[("error returns of Begin/Append/Sync/PackData","writer.go"),("OpenStream/ReadFrom","wpk.go")])

p("C22","Path helpers normalise and join paths exactly",
"Slash conversion, lower- and upper-casing and key conversion change exactly the ASCII characters they are meant to and nothing else, never modify their argument, and are idempotent. Joining gives one separator between the parts with '.' and empty parts neutral, the bare-name helper strips directories and everything from the first dot of the name, and the tags and data path helpers replace only the extension of the last element.",
["inputs"],"all strings up to the stated length over all byte values",
"The examples show one or two strings each.",
["util/strutil.go","dir.go"],[("ToSlash/ToLower/ToUpper/ToKey","util/strutil.go"),("JoinPath/JoinFilePath/PathName","util/strutil.go"),("MakeTagsPath/MakeDataPath","dir.go")])

p("C23","Environment variables in paths are expanded exactly",
"Every $VAR, ${VAR} and %VAR% in a path whose name is known is replaced by its value, looked up first in the given map and then in the environment; every other character, including unknown or malformed references, is kept as is; references are taken from left to right. The result never contains characters from neither source, at any position of the reference, including the very end.",
["inputs","configurations"],"all strings up to the stated length over a symbolic alphabet, known and unknown names, map and environment",
"The example covers a dozen literal strings; references at the end and one-letter names are not among them.",
["util/strutil.go"],[("Envfmt","util/strutil.go")])

p("C24","Extraction never writes outside the destination directory",
"Whatever names a package contains, the extraction tool creates or changes files and directories only inside the destination directory; a name that would lead outside is refused.",
["inputs"],"packages with names over a symbolic alphabet including dots, slashes, backslashes and empty elements",
"There is no test of the tool.",
["cmd/extract/extract.go"],[("readpackage","cmd/extract/extract.go")])

p("C25","Extraction reproduces every packed file",
"Extracting a package writes every file of it under the destination with its name and exactly its content, for each opening mode and for single-file and split packages, and stops with a reported error when a file cannot be written. With the original-times option, files that carry access and modification times get those times, and no file gets the times of another one.",
["inputs","configurations","fault_sequences"],"packages of up to two files with symbolic contents, three modes, single-file and split, one injected fault",
"There is no test of the tool.",
["cmd/extract/extract.go"],[("readpackage","cmd/extract/extract.go"),("openpackage","cmd/extract/extract.go")])

p("C26","The pack tool packs every file of its sources or reports failure",
"The pack tool produces a package that contains every regular file below the given folders under its relative name with exactly its content, and with the options on, its MIME type and link. If a source file cannot be read, walked or packed the tool reports the failure and does not leave a package that looks finished but lacks files.",
["inputs","configurations","fault_sequences"],"source trees of up to three files with symbolic contents, single-file and split, mime and link options, one injected fault",
"There is no test of the tool.",
["cmd/pack/pack.go"],[("writepackage","cmd/pack/pack.go"),("checkargs","cmd/pack/pack.go")])

p("C27","Scripts can set and read every tag value and cannot touch protected ones",
"In the scripting API a value set for a tag is read back as the value that was set under the documented conversion for that tag, a value or key that cannot be converted raises an error and changes nothing, and the offset, size and path tags can never be changed by any tag call. Table forms (settags, addtags, deltags) have the effect of the single-tag forms applied to each entry and report the documented count.",
["inputs","programs"],"symbolic tag IDs, symbolic numbers, booleans and strings, every tag call",
"The Lua tests run a few scripts with literal values.",
["luawpk/luawpk.go","luawpk/nametid.go"],[("ValueToTID/ValueToTag/TagToValue","luawpk/nametid.go"),("TableToTagset","luawpk/nametid.go"),("wpksettag..wpkdeltags","luawpk/luawpk.go")])

p("C28","Automatic tags describe the whole packed file",
"With automatic tags enabled, every file put by a script carries exactly the enabled checksum and MAC tags, each computed over the complete content of that file and keyed with the configured secret, a MIME tag, and a file ID different from that of every other file in the package, including files that were there before appending. Tags are not added when the option is off.",
["inputs","configurations","histories"],"symbolic contents, every combination of options, putdata and putfile, begin and load-append",
"The Lua tests never compare a checksum with the content.",
["luawpk/adjusttags.go","luawpk/luawpk.go"],[("adjusttagset","luawpk/adjusttags.go"),("adjustcrc32c..adjustsha512","luawpk/adjusttags.go")])

p("C29","Script package life cycle errors are reported and lose nothing",
"Script calls that need an open writer raise an error when there is none, begin, append and load raise an error when one is open, and flush raises an error for a single-file package. A sequence of load, begin, append, put, flush and finalise in any legal order produces a package that opens with exactly the files put.",
["histories","configurations"],"all call sequences of the stated length, single-file and split",
"The scripts follow the one legal order.",
["luawpk/luawpk.go"],[("wpkbegin/wpkappend/wpkfinalize/wpkflush","luawpk/luawpk.go")])

p("C30","Concurrent use of one package is free of races and lost files",
"Any two operations on one open package (packing, renaming, aliasing, setting, deleting and looking up files, listing, reading, package info, sync) or on one sequenced map may run at the same time without a data race, a deadlock or a panic, and the package can be finished and read afterwards with the content of every file intact. Operations of a sequenced map, and packing, renaming, aliasing and looking up of files in a package, have the outcome that they would have one after the other in some order: no file is lost, overwritten or packed twice under one name, extents of packed files do not overlap, and a lookup sees a file as it was before or after a change. Opening and parsing of a package and beginning it anew are not meant to run along with other operations; deletion or replacement of a tagset along with renaming of the same file is only free of races.",
["schedules"],"every schedule, at the granularity of lock acquisitions, of any two operations (three in the thorough tier) on a package of two files or a map of up to two pairs; data races are decided for each schedule over symbolic moments of events",
"TestPutFiles runs goroutines without the race detector and without comparing contents; a schedule is sampled, not quantified.",
["util/seqmap.go","writer.go","wpk.go"],[("SeqMap.mux","util/seqmap.go"),("FTT.mux","writer.go")])

p("C31","Glob returns exactly the matching names",
"Globbing a package or union returns every visible name that matches the pattern under the standard path matching rules, each once, and no other; a malformed pattern is reported as an error. Backslashes in the pattern are treated as separators.",
["inputs"],"packages of up to three files with symbolic names, all patterns up to the stated length",
"Tests glob one literal pattern.",
["wpk.go","union.go"],[("Package.Glob","wpk.go"),("Union.Glob","union.go")])

p("C32","Quick package info agrees with a full open",
"Reading only the package info from any file gives exactly the header fields and the info tags that opening the package gives, and fails cleanly whenever the header or the info cannot be read; it never returns unread or padded bytes as info.",
["inputs","fault_sequences"],"all finished packages with symbolic info, freshly begun split packages, all truncations and fragmentations",
"TestInfo reads one package.",
["wpk.go"],[("GetPackageInfo","wpk.go"),("FTT.OpenStream","wpk.go")])

p("C33","Script queries and helper functions answer as documented",
"The package properties and methods that scripts have describe the package as it is: recnum counts its distinct data records, tagnum its names, sumsize adds up the sizes of all names, fftsize is the size of the tags table as it is written, datasize the size of the data; hasfile, filesize and glob agree with the names in the package, the label and all settings read back as they were set, and properties that are only read cannot be set. The helper functions are exact: bin2hex and hex2bin are inverse and hex2bin refuses anything but pairs of hexadecimal digits; milli2time and time2milli are inverse to the millisecond; path.match(name, pattern) tells whether the name matches the pattern; the other path functions give the results of the standard path library; path.glob and path.enum list exactly the matching files and the entries of a directory (at most n if n > 0); checkfile tells files, directories and missing names apart.",
["inputs","histories"],"all strings and numbers up to the stated lengths, small packages and directories",
"Tests run four fixed scripts and check none of these results.",
["luawpk/luawpk.go","luawpk/luapath.go","luawpk/runlvm.go"],[("property getters and wpksumsize/wpkglob/wpkhasfile/wpkfilesize","luawpk/luawpk.go"),("pathfuncs","luawpk/luapath.go"),("InitLuaVM","luawpk/runlvm.go")])

p("C34","The build tool runs its scripts in order and reports failure",
"The build tool runs the given scripts one after another, each with the directory of the script in scrdir, and stops with a nonzero exit status at the first script that cannot be read or parsed or that raises an error; what earlier scripts have finalised stays, and later scripts are not run. If all scripts end well, it exits with zero.",
["inputs","fault_sequences"],"all sequences of scripts of the stated kinds and number",
"Tests run single good scripts.",
["cmd/build/build.go","luawpk/runlvm.go"],[("main","cmd/build/build.go"),("RunLuaVM","luawpk/runlvm.go")])

p("C35","Everything that is opened is closed again",
"Reading, packing, loading and building hold a file descriptor or a mapping only as long as their caller holds something open: a closed file, package, opener or union holds nothing, a failed call leaves nothing open, a file stays readable when another one is closed, and a script holds the files of the package it is writing and nothing else. The tools pack and extract any number of files with few descriptors.",
["inputs","fault_sequences"],"all operations, names and failures of the stated kinds within the stated number of steps",
"Tests open few files, never look at descriptors and fail on no path.",
["wpk.go","union.go","bulk/bulk.go","mmap/mmap.go","fsys/fsys.go","luawpk/luawpk.go","luawpk/luapath.go","cmd/extract/extract.go","cmd/pack/pack.go"],[("OpenFile, ReadFile","wpk.go"),("Union.Close","union.go"),("NewMappedFile","mmap/mmap.go"),("NewChunkFile","fsys/fsys.go"),("wpkbegin, wpkputfile","luawpk/luawpk.go"),("readpackage","cmd/extract/extract.go"),("writepackage","cmd/pack/pack.go")])

p("C36","Refusals tell what kind of failure it is and what it is about",
"A name that is not there is refused with an error that is fs.ErrNotExist, and a name already taken with one that is fs.ErrExist, with that name in a *fs.PathError, by packages, views and unions alike; scripts get the name in the text of the error. A table entry that is not allowed is refused with an ErrTag that has the name of the entry, the tag concerned and a documented reason that really applies, as is opening a file that lies outside of its package; a table of a wrong size is refused with ErrSignFTT and a cut one with an end-of-file error. The reason of a failed read, write or seek is passed on, and fixed-width numbers are read whole or not at all.",
["inputs","fault_sequences"],"all names, offsets, sizes and table positions of the stated kinds",
"Tests check that good calls succeed and look at no error.",
["wpk.go","dir.go","union.go","writer.go","tagset.go","util/uintio.go","luawpk/luawpk.go"],[("CheckTagset, ErrTag, OpenStream, Sub, Stat, ReadFile","wpk.go"),("OpenDir, ReadDirN","dir.go"),("Union lookups","union.go"),("Rename, PutAlias, RenameDir, PackData","writer.go"),("PosIn","tagset.go"),("ReadU16..WriteU64","util/uintio.go")])

p("C37","Tools that are called with wrong arguments change no file",
"If a source of the pack or the extraction tool is missing or of the wrong kind, no source or no destination is given, the destination directory does not exist (and is not to be made), or the opening mode is unknown, the tool exits with a nonzero status and every file on disk stays as it was; in particular an existing package is not truncated and no files of the good sources are written. With right arguments it does its work and exits with zero.",
["inputs"],"all sources and destinations of the stated forms, with paths that differ from existing ones in any character",
"Nothing tests the command line of the tools.",
["cmd/extract/extract.go","cmd/pack/pack.go","dir.go"],[("checkargs","cmd/extract/extract.go"),("checkargs","cmd/pack/pack.go"),("DirExists, FileExists","dir.go")])

p("N01","Stored digests are cryptographically sound",
"The digest and MAC values stored by the scripting API cannot feasibly be forged or collided without the secret.",
["inputs"],"all contents and adversaries",
"A statement about hash functions, not about this code.",
["luawpk/adjusttags.go"],[("crypto/hmac and hash packages","luawpk/adjusttags.go")])

p("N02","A memory-mapped file stays valid while its package file is truncated",
"Reading a nested file through a memory mapping while another process truncates the package file on disk returns an error instead of terminating the reader.",
["schedules","fault_sequences"],"all external truncations during a read",
"Depends on the operating system's page fault handling.",
["mmap/mmap.go"],[("NewMappedFile","mmap/mmap.go")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
