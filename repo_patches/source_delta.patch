From 885d353c9eea167642ba8cf9b533203f4f5ddb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 01/48] fix: read fixed-size fields and tables completely

io.Reader.Read may deliver fewer bytes than asked for without an error, so a
header, length field, tagset or table read from a stream that delivers its
data in pieces was silently left partly unread.
---
 util/uintio.go | 10 +++++-----
 wpk.go         | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/util/uintio.go b/util/uintio.go
index 31112b3..62305e7 100644
--- a/util/uintio.go
+++ b/util/uintio.go
@@ -56,27 +56,27 @@ func SetF64(b []byte, f float64) {
 }
 
 func ReadU16(r io.Reader) (u uint16, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
 	return
 }
 
 func ReadU32(r io.Reader) (u uint32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
 	return
 }
 
 func ReadU64(r io.Reader) (u uint64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
 	return
 }
 
 func ReadF32(r io.Reader) (f float32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
 	return
 }
 
 func ReadF64(r io.Reader) (f float64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index a5cb640..89dbb54 100644
--- a/wpk.go
+++ b/wpk.go
@@ -196,7 +196,7 @@ func (hdr *Header) Parse(buf []byte) (n int64, err error) {
 
 // ReadFrom reads header from stream as binary data of constant length.
 func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
-	if _, err = r.Read(hdr.signature[:]); err != nil {
+	if _, err = io.ReadFull(r, hdr.signature[:]); err != nil {
 		return
 	}
 	n += SignSize
@@ -409,7 +409,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		n += PTStssize
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -437,7 +437,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		}
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -518,7 +518,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	// read header
 	var hdr Header
 	var hdrbuf [HeaderSize]byte
-	if _, err = r.Read(hdrbuf[:]); err != nil {
+	if _, err = io.ReadFull(r, hdrbuf[:]); err != nil {
 		return
 	}
 	hdr.Parse(hdrbuf[:])
@@ -536,7 +536,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// read file tags
 	var fttbuf = make([]byte, hdr.fttsize)
-	if _, err = r.Read(fttbuf); err != nil {
+	if _, err = io.ReadFull(r, fttbuf); err != nil {
 		return
 	}
 	var fttsize int64
@@ -770,7 +770,7 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	}
 
 	ts = make(TagsetRaw, tsl)
-	if _, err = r.Read(ts); err != nil {
+	if _, err = io.ReadFull(r, ts); err != nil {
 		return
 	}
 
-- 
2.43.0


From 9d6e6050e2cf672a1f88b107eb373185ca66b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 02/48] fix: decode access, change and birth times as they are
 stored

---
 tagset.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tagset.go b/tagset.go
index 115386f..c05d2bc 100644
--- a/tagset.go
+++ b/tagset.go
@@ -507,22 +507,22 @@ func (ts TagsetRaw) Info() (fs.FileInfo, error) {
 // AccessTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) AccessTime() time.Time {
-	var t, _ = ts.TagUint64(TIDatime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDatime)
+	return t
 }
 
 // ChangeTime returns file change timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) ChangeTime() time.Time {
-	var t, _ = ts.TagUint64(TIDctime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDctime)
+	return t
 }
 
 // BirthTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) BirthTime() time.Time {
-	var t, _ = ts.TagUint64(TIDbtime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDbtime)
+	return t
 }
 
 // HasChangeTime is times.Timespec interface implementation.
-- 
2.43.0


From bdb4bf29844de3b265ae83b93552863ac5a014b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 03/48] fix: pack files of file systems without OS time stamps

---
 writer.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/writer.go b/writer.go
index 25a043f..857f999 100644
--- a/writer.go
+++ b/writer.go
@@ -169,6 +169,21 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 	return
 }
 
+// timespec returns timestamps of the file with given info. It gives nil if
+// the file system of this file provides nothing except modification time.
+func timespec(fi fs.FileInfo) (tsp times.Timespec) {
+	if tsp, ok := fi.(times.Timespec); ok {
+		return tsp
+	}
+	// times.Get expects file info that is received from the OS
+	defer func() {
+		if recover() != nil {
+			tsp = nil
+		}
+	}()
+	return times.Get(fi)
+}
+
 // PackFile puts file with given file handle into package and associate keyname "fkey" with it.
 func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts TagsetRaw, err error) {
 	var fi os.FileInfo
@@ -179,15 +194,17 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 		return
 	}
 
-	//ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
-	var tsp = times.Get(fi)
-	ts = ts.Put(TIDmtime, TimeTag(tsp.ModTime()))
-	ts = ts.Put(TIDatime, TimeTag(tsp.AccessTime()))
-	if tsp.HasChangeTime() {
-		ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
-	}
-	if tsp.HasBirthTime() {
-		ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+	ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
+	if tsp := timespec(fi); tsp != nil {
+		if t := tsp.AccessTime(); !t.IsZero() {
+			ts = ts.Put(TIDatime, TimeTag(t))
+		}
+		if tsp.HasChangeTime() {
+			ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
+		}
+		if tsp.HasBirthTime() {
+			ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+		}
 	}
 	pkg.SetTagset(fkey, ts)
 	return
-- 
2.43.0


From f59eea19115683254e07de3ea98aca9c73412ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 04/48] fix: do not take the end of a tagset for a tag with ID
 0

---
 tagset.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/tagset.go b/tagset.go
index c05d2bc..af2ffcb 100644
--- a/tagset.go
+++ b/tagset.go
@@ -243,9 +243,7 @@ func (ts TagsetRaw) Num() (n int) {
 // Has checks existence of tag with given ID.
 func (ts TagsetRaw) Has(tid TID) bool {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	return tsi.tid == tid
+	return tsi.find(tid)
 }
 
 // GetTag returns TagRaw with given identifier.
@@ -253,13 +251,8 @@ func (ts TagsetRaw) Has(tid TID) bool {
 // returns false.
 func (ts TagsetRaw) Get(tid TID) (TagRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.Failed() {
-		return nil, false // io.ErrUnexpectedEOF
-	}
-	if tsi.tid != tid {
-		return nil, false // ErrNoTag
+	if !tsi.find(tid) {
+		return nil, false // ErrNoTag or io.ErrUnexpectedEOF
 	}
 	return TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]), true
 }
@@ -288,9 +281,7 @@ func (ts TagsetRaw) Add(tid TID, tag TagRaw) TagsetRaw {
 // Returns true if it added.
 func (ts TagsetRaw) AddOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid == tid {
+	if tsi.find(tid) {
 		return ts, false
 	}
 	return ts.Put(tid, tag), true
@@ -307,9 +298,7 @@ func (ts TagsetRaw) Set(tid TID, tag TagRaw) TagsetRaw {
 // appends it to tagset. Returns true if new one added.
 func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	if !tsi.find(tid) {
 		return ts.Put(tid, tag), true
 	}
 
@@ -334,9 +323,7 @@ func (ts TagsetRaw) Del(tid TID) TagsetRaw {
 // DelOk deletes tag with given ID. Returns true if tagset was modified.
 func (ts TagsetRaw) DelOk(tid TID) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	if !tsi.find(tid) {
 		return ts, false // ErrNoTag
 	}
 	ts = append(ts[:tsi.tag-PTStagsz-PTStidsz], ts[tsi.pos:]...)
@@ -624,6 +611,16 @@ func (tsi *TagsetIterator) Next() (ok bool) {
 	return
 }
 
+// find carries to the next tag with given ID. Returns false if there is no one.
+func (tsi *TagsetIterator) find(tid TID) bool {
+	for tsi.Next() {
+		if tsi.tid == tid {
+			return true
+		}
+	}
+	return false
+}
+
 // Put is the stub to disable any changes to data content of iterator.
 func (tsi *TagsetIterator) Put(tid TID, tag TagRaw) TagsetRaw {
 	panic(ErrTsiConst)
-- 
2.43.0


From 530fae453d369024dc098df90b53f8e1f7f1a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 05/48] fix: do not lose file position on repeated tags

---
 tagset.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/tagset.go b/tagset.go
index af2ffcb..111afeb 100644
--- a/tagset.go
+++ b/tagset.go
@@ -416,17 +416,8 @@ func (ts TagsetRaw) TagUnixms(tid TID) (int64, bool) {
 // Pos returns file offset and file size in package.
 // Those values required to be present in any tagset.
 func (ts TagsetRaw) Pos() (offset, size uint) {
-	var tsi, n = ts.Iterator(), 2
-	for tsi.Next() && n > 0 {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		case TIDsize:
-			size, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		}
-	}
+	offset, _ = ts.TagUint(TIDoffset)
+	size, _ = ts.TagUint(TIDsize)
 	return
 }
 
-- 
2.43.0


From 1bf268ab384e1aba6f39c0cc956e7699dbf21855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:42 +0000
Subject: [PATCH 06/48] fix: do not corrupt following tags when a tag grows in
 place

---
 tagset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagset.go b/tagset.go
index 111afeb..2faacd7 100644
--- a/tagset.go
+++ b/tagset.go
@@ -307,7 +307,7 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
 		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
-		var suff = ts[tsi.pos:]
+		var suff = CopyTagset(ts[tsi.pos:]) // can be overwritten if the tag grows in place
 		ts = append(ts[:tsi.tag], tag...)
 		ts = append(ts, suff...)
 	}
-- 
2.43.0


From 130b4a449005ce3c017b472ef0dcd8cbbe9b912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 07/48] fix: do not corrupt following tags when a tag grows in
 place (format)

---
 tagset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagset.go b/tagset.go
index 2faacd7..90dc0fe 100644
--- a/tagset.go
+++ b/tagset.go
@@ -307,7 +307,7 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
 		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
-		var suff = CopyTagset(ts[tsi.pos:]) // can be overwritten if the tag grows in place
+		var suff = CopyTagset(ts[tsi.pos:])           // can be overwritten if the tag grows in place
 		ts = append(ts[:tsi.tag], tag...)
 		ts = append(ts, suff...)
 	}
-- 
2.43.0


From d33e64d628c95f5b922e293427c7dd510c725753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 08/48] fix: check bounds of tags table and of nested files
 without overflow

---
 wpk.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/wpk.go b/wpk.go
index 89dbb54..7461fcc 100644
--- a/wpk.go
+++ b/wpk.go
@@ -308,29 +308,26 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 	var offset, size uint
 	var ispath, isoffset, issize bool
 
-	// find expected tags
+	// check up that tagset is not broken
 	var tsi = ts.Iterator()
 	for tsi.Next() {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, isoffset = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDsize:
-			size, issize = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDpath:
-			fkey, ispath = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagStr()
-		}
 	}
 	if tsi.Failed() {
 		err = io.ErrUnexpectedEOF
 		return
 	}
 
+	// find expected tags, same as they will be found at access to file
+	offset, isoffset = ts.TagUint(TIDoffset)
+	size, issize = ts.TagUint(TIDsize)
+	fkey, ispath = ts.TagStr(TIDpath)
+
 	// check tags existence
 	if !ispath {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
 		return
 	}
-	if ftt.tsm.Has(fkey) { // prevent same file from repeating
+	if ftt.tsm.Has(util.ToSlash(fkey)) { // prevent same file from repeating
 		err = &ErrTag{fs.ErrExist, fkey, TIDpath}
 		return
 	}
@@ -344,11 +341,11 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 	}
 
 	// check up offset and size
-	if uint64(offset) < ftt.datoffset || uint64(offset) > ftt.datoffset+ftt.datsize {
+	if uint64(offset) < ftt.datoffset || uint64(offset)-ftt.datoffset > ftt.datsize {
 		err = &ErrTag{ErrOutOff, fkey, TIDoffset}
 		return
 	}
-	if uint64(offset+size) > ftt.datoffset+ftt.datsize {
+	if uint64(size) > ftt.datsize-(uint64(offset)-ftt.datoffset) {
 		err = &ErrTag{ErrOutSize, fkey, TIDsize}
 		return
 	}
@@ -360,9 +357,17 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 // It's high performance method without extra allocations calls.
 func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	{
+		if n+PTStssize > int64(len(buf)) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
+		if n+int64(tsl) > int64(len(buf)) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -378,6 +383,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	}
 
 	for {
+		if n+PTStssize > int64(len(buf)) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
@@ -385,6 +394,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			break // end marker was reached
 		}
 
+		if n+int64(tsl) > int64(len(buf)) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
-- 
2.43.0


From e501796d42e68e56fc1832ecd27c9476dbd10714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 09/48] fix: do not trust table size of a corrupt header, read
 info of an empty package

---
 wpk.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 7461fcc..dd2a983 100644
--- a/wpk.go
+++ b/wpk.go
@@ -538,9 +538,23 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	// check up that tags table is placed inside of the stream,
+	// and its size is enough for declared number of records
+	var end int64
+	if end, err = r.Seek(0, io.SeekEnd); err != nil {
+		return
+	}
+	if hdr.fttoffset > uint64(end) || hdr.fttsize > uint64(end)-hdr.fttoffset {
+		err = io.ErrUnexpectedEOF
+		return
+	}
+	if hdr.fttcount > hdr.fttsize/PTStssize {
+		err = ErrSignFTT
+		return
+	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
-	if hdr.fttcount == 0 || hdr.fttsize == 0 {
+	if hdr.fttsize == 0 { // tags table is not written yet
 		return
 	}
 	// go to file tags table start
-- 
2.43.0


From db4c364020dc026de1cb36d94a640beb1778640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:14 +0000
Subject: [PATCH 10/48] fix: do not write tags table over the data on repeated
 sync

---
 writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/writer.go b/writer.go
index 857f999..3234876 100644
--- a/writer.go
+++ b/writer.go
@@ -132,6 +132,12 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
+	if wpf == nil || wpf == wpt {
+		// return to the data end, as it was before
+		if _, err = wpt.Seek(datend, io.SeekStart); err != nil {
+			return
+		}
+	}
 	// update data offset/pos
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
-- 
2.43.0


From 3255d501dce032db96cf905d3265aa50b6d8296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:37 +0000
Subject: [PATCH 11/48] fix: open empty files by memory mapping

---
 mmap/mmap.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index fdc5626..e9b2d9e 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -30,6 +30,13 @@ func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
+	if size == 0 { // there is nothing to map
+		f = &MappedFile{
+			PkgReader: bytes.NewReader(nil),
+			tags:      ts,
+		}
+		return
+	}
 	// create mapped memory block
 	var mmap mm.MMap
 	if mmap, err = mm.MapRegion(fwpk, int(sizex), mm.RDONLY, 0, int64(offsetx)); err != nil {
@@ -51,6 +58,9 @@ func (f *MappedFile) Stat() (fs.FileInfo, error) {
 
 // Close unmaps memory and closes mapped memory handle.
 func (f *MappedFile) Close() error {
+	if f.MMap == nil { // nothing was mapped
+		return nil
+	}
 	return f.Unmap()
 }
 
-- 
2.43.0


From 02f829a151a07f423f23eec4723a7ee9fcb62d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 12/48] fix: rename directories with backslashes and root
 directory

---
 writer.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/writer.go b/writer.go
index 3234876..c118694 100644
--- a/writer.go
+++ b/writer.go
@@ -233,14 +233,21 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 	return nil
 }
 
-// RenameDir renames all files in package with 'olddir' path to 'newdir' path.
-func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
-	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
-		olddir += "/"
+// dirprefix returns slash-terminated prefix of all files in given directory.
+func dirprefix(dir string) string {
+	if dir == "" || dir == "." {
+		return ""
 	}
-	if len(newdir) > 0 && newdir[len(newdir)-1] != '/' {
-		newdir += "/"
+	dir = util.ToSlash(dir)
+	if dir[len(dir)-1] != '/' {
+		dir += "/"
 	}
+	return dir
+}
+
+// RenameDir renames all files in package with 'olddir' path to 'newdir' path.
+func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	olddir, newdir = dirprefix(olddir), dirprefix(newdir)
 	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, olddir) {
 			var newkey = newdir + fkey[len(olddir):]
-- 
2.43.0


From c0e99452868ecf9df5f6b50f5f89748f4c02cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 13/48] fix: list directories sorted, each entry once, continue
 on successive calls

---
 dir.go   | 108 ++++++++++++++++++++++++++++++++++++++++---------------
 union.go |  54 ++++------------------------
 wpk.go   |   2 +-
 3 files changed, 87 insertions(+), 77 deletions(-)

diff --git a/dir.go b/dir.go
index bb0c918..3a18c40 100644
--- a/dir.go
+++ b/dir.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk/util"
@@ -30,6 +31,34 @@ func MakeDataPath(fpath string) string {
 type PackDirFile struct {
 	TagsetRaw // has fs.FileInfo interface
 	ftt       *FTT
+	rest      dirrest
+}
+
+// dirrest is the rest of directory entries for successive ReadDir calls.
+type dirrest struct {
+	list []fs.DirEntry
+	read bool // list was received
+}
+
+// next returns next n entries, or all of them if n <= 0.
+func (dr *dirrest) next(n int, readdir func() ([]fs.DirEntry, error)) (list []fs.DirEntry, err error) {
+	if !dr.read {
+		if dr.list, err = readdir(); err != nil {
+			return
+		}
+		dr.read = true
+	}
+	if n > 0 {
+		if len(dr.list) == 0 {
+			return nil, io.EOF
+		}
+		if n < len(dr.list) {
+			list, dr.list = dr.list[:n:n], dr.list[n:]
+			return
+		}
+	}
+	list, dr.list = dr.list, nil
+	return
 }
 
 // fs.ReadDirFile interface implementation.
@@ -49,7 +78,9 @@ func (f *PackDirFile) Close() error {
 
 // fs.ReadDirFile interface implementation.
 func (f *PackDirFile) ReadDir(n int) (matches []fs.DirEntry, err error) {
-	return f.ftt.ReadDirN(f.Path(), n)
+	return f.rest.next(n, func() ([]fs.DirEntry, error) {
+		return f.ftt.ReadDirN(f.Path(), -1)
+	})
 }
 
 // DirExists check up directory existence.
@@ -84,47 +115,66 @@ func TempPath(fname string) string {
 // ReadDirN returns fs.DirEntry array with nested into given package directory presentation.
 // It's core function for ReadDirFile and ReadDirFS structures.
 func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
-	fulldir = util.ToSlash(fulldir)
-	var found = map[string]fs.DirEntry{}
+	var dl dirlist
+	dl.add(ftt, util.ToSlash(fulldir))
+	return dl.first(fulldir, n)
+}
+
+// dirlist is builder of directory presentation.
+type dirlist struct {
+	list  []fs.DirEntry
+	found map[string]Void // names that already are in the list
+}
+
+// add puts to list nested into given directory files and subdirectories
+// that have no same names at the list.
+func (dl *dirlist) add(ftt *FTT, fulldir string) {
+	if dl.found == nil {
+		dl.found = map[string]Void{}
+	}
 	var prefix string
 	if fulldir != "." && fulldir != "" {
 		prefix = fulldir + "/" // set terminated slash
 	}
 
 	ftt.tsm.Range(func(fkey string, ts TagsetRaw) bool {
-		if strings.HasPrefix(fkey, prefix) {
-			var suffix = fkey[len(prefix):]
-			var sp = strings.IndexByte(suffix, '/')
-			if sp < 0 { // file detected
-				found[suffix] = ts
-				n--
-			} else { // dir detected
-				var subdir = util.JoinPath(prefix, suffix[:sp])
-				if _, ok := found[subdir]; !ok {
-					var dts = TagsetRaw{}.
-						Put(TIDpath, StrTag(subdir))
-					var f = &PackDirFile{
-						TagsetRaw: dts,
-						ftt:       ftt,
-					}
-					found[subdir] = f
-					n--
-				}
+		if !strings.HasPrefix(fkey, prefix) {
+			return true
+		}
+		var name = fkey[len(prefix):]
+		var de fs.DirEntry = ts
+		if sp := strings.IndexByte(name, '/'); sp >= 0 { // dir detected
+			name = name[:sp]
+			de = &PackDirFile{
+				TagsetRaw: TagsetRaw{}.
+					Put(TIDpath, StrTag(prefix+name)),
+				ftt: ftt,
 			}
 		}
-		return n != 0
+		if _, ok := dl.found[name]; !ok {
+			dl.found[name] = Void{}
+			dl.list = append(dl.list, de)
+		}
+		return true
 	})
+}
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
+// first returns sorted by names list with not more than n entries if n > 0,
+// and io.EOF if there is less than n entries.
+func (dl *dirlist) first(dir string, n int) ([]fs.DirEntry, error) {
+	if len(dl.list) == 0 && dir != "." && dir != "" {
+		return nil, &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
 	}
+	sort.Slice(dl.list, func(i, j int) bool {
+		return dl.list[i].Name() < dl.list[j].Name()
+	})
 	if n > 0 {
-		err = io.EOF
+		if n <= len(dl.list) {
+			return dl.list[:n], nil
+		}
+		return dl.list, io.EOF
 	}
-	return
+	return dl.list, nil
 }
 
 // OpenDir returns PackDirFile structure associated with group of files in package
diff --git a/union.go b/union.go
index 9984f15..ae902ec 100644
--- a/union.go
+++ b/union.go
@@ -18,6 +18,7 @@ type Void = struct{}
 type UnionDir struct {
 	TagsetRaw
 	*Union
+	rest dirrest
 }
 
 // fs.ReadDirFile interface implementation.
@@ -43,7 +44,9 @@ func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
 			return nil, ErrOtherSubdir
 		}
 	}
-	return f.ReadDirN(dir, n)
+	return f.rest.next(n, func() ([]fs.DirEntry, error) {
+		return f.ReadDirN(dir, -1)
+	})
 }
 
 // Union glues list of packages into single filesystem.
@@ -155,54 +158,11 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 // and returns a list of directory entries sorted by filename.
 func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	dir = util.ToSlash(dir)
-	var found = map[string]fs.DirEntry{}
-	var ni = n
+	var dl dirlist
 	for _, pkg := range u.List {
-		var fulldir = pkg.FullPath(dir)
-		var prefix string
-		if fulldir != "." {
-			prefix = fulldir + "/" // set terminated slash
-		}
-
-		pkg.tsm.Range(func(fkey string, ts TagsetRaw) bool {
-			if strings.HasPrefix(fkey, prefix) {
-				var suffix = fkey[len(prefix):]
-				var sp = strings.IndexByte(suffix, '/')
-				if sp < 0 { // file detected
-					found[suffix] = ts
-					ni--
-				} else { // dir detected
-					var subdir = util.JoinPath(prefix, suffix[:sp])
-					if _, ok := found[subdir]; !ok {
-						var dts = TagsetRaw{}.
-							Put(TIDpath, StrTag(subdir))
-						var f = &PackDirFile{
-							TagsetRaw: dts,
-							ftt:       pkg.FTT,
-						}
-						found[subdir] = f
-						ni--
-					}
-				}
-			}
-			return ni != 0
-		})
-
-		if ni == 0 {
-			break
-		}
-	}
-
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
-	}
-	if ni > 0 {
-		err = io.EOF
+		dl.add(pkg.FTT, pkg.FullPath(dir))
 	}
-	return
+	return dl.first(dir, n)
 }
 
 // ReadDir reads the named directory
diff --git a/wpk.go b/wpk.go
index dd2a983..6b903c5 100644
--- a/wpk.go
+++ b/wpk.go
@@ -732,7 +732,7 @@ func (pkg *Package) Glob(pattern string) (res []string, err error) {
 // and returns a list of directory entries sorted by filename.
 // fs.ReadDirFS interface implementation.
 func (pkg *Package) ReadDir(dir string) ([]fs.DirEntry, error) {
-	var fulldir = pkg.FullPath(dir)
+	var fulldir = pkg.FullPath(util.ToSlash(dir))
 	return pkg.FTT.ReadDirN(fulldir, -1)
 }
 
-- 
2.43.0


From eef1a35f3ac058ee473ddfb59d2a77a4f3401491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:17 +0000
Subject: [PATCH 14/48] fix: return only type bits as the type of directory
 entry

---
 tagset.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tagset.go b/tagset.go
index 90dc0fe..7c68364 100644
--- a/tagset.go
+++ b/tagset.go
@@ -470,10 +470,7 @@ func (ts TagsetRaw) Sys() interface{} {
 
 // Type is for fs.DirEntry interface compatibility.
 func (ts TagsetRaw) Type() fs.FileMode {
-	if ts.Has(TIDsize) { // file size is absent for dir
-		return 0444
-	}
-	return fs.ModeDir
+	return ts.Mode().Type()
 }
 
 // Info returns the FileInfo for the file or subdirectory described by the entry.
-- 
2.43.0


From bc21b442c47ad4c3255d39d879094c0b486b948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 15/48] fix: give info of directories

---
 union.go | 7 ++++++-
 wpk.go   | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/union.go b/union.go
index ae902ec..57d6900 100644
--- a/union.go
+++ b/union.go
@@ -97,7 +97,7 @@ func (u *Union) Sub(dir string) (fs.FS, error) {
 	return &u1, nil
 }
 
-// Stat returns a fs.FileInfo describing the file.
+// Stat returns a fs.FileInfo describing the file or directory.
 // If union have more than one file with the same name, info of the first will be returned.
 // fs.StatFS implementation.
 func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
@@ -108,6 +108,11 @@ func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
 			return ts, nil
 		}
 	}
+	for _, pkg := range u.List {
+		if fi, err := pkg.Stat(fpath); err == nil {
+			return fi, nil
+		}
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
 }
 
diff --git a/wpk.go b/wpk.go
index 6b903c5..12f898d 100644
--- a/wpk.go
+++ b/wpk.go
@@ -702,12 +702,15 @@ func (pkg *Package) Sub(dir string) (sub fs.FS, err error) {
 	return
 }
 
-// Stat returns a fs.FileInfo describing the file.
+// Stat returns a fs.FileInfo describing the file or directory.
 // fs.StatFS interface implementation.
 func (pkg *Package) Stat(fkey string) (fs.FileInfo, error) {
 	if ts, is := pkg.GetTagset(fkey); is {
 		return ts, nil
 	}
+	if f, err := pkg.OpenDir(pkg.FullPath(util.ToSlash(fkey))); err == nil {
+		return f.Stat()
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fkey, Err: fs.ErrNotExist}
 }
 
@@ -758,7 +761,7 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 // Open implements access to nested into package file or directory by filename.
 // fs.FS implementation.
 func (pkg *Package) Open(dir string) (fs.File, error) {
-	var fullname = pkg.FullPath(dir)
+	var fullname = pkg.FullPath(util.ToSlash(dir))
 	if fullname == PackName {
 		var ts = pkg.BaseTagset(0, uint(pkg.datoffset+pkg.datsize), "wpk")
 		return pkg.Tagger.OpenTagset(ts)
-- 
2.43.0


From 5bc9bb15291e9c6ce235c7c2d487091531007967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 16/48] fix: list union directories of packages with different
 workspaces

---
 union.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/union.go b/union.go
index 57d6900..2d97620 100644
--- a/union.go
+++ b/union.go
@@ -18,6 +18,7 @@ type Void = struct{}
 type UnionDir struct {
 	TagsetRaw
 	*Union
+	dir  string // path of directory in the union
 	rest dirrest
 }
 
@@ -38,14 +39,8 @@ func (f *UnionDir) Close() error {
 
 // fs.ReadDirFile interface implementation.
 func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
-	var dir = f.Path()
-	if len(f.List) > 0 {
-		if dir = f.List[0].TrimPath(dir); dir == "" {
-			return nil, ErrOtherSubdir
-		}
-	}
 	return f.rest.next(n, func() ([]fs.DirEntry, error) {
-		return f.ReadDirN(dir, -1)
+		return f.ReadDirN(f.dir, -1)
 	})
 }
 
@@ -220,6 +215,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 				f = &UnionDir{
 					TagsetRaw: dts,
 					Union:     u,
+					dir:       dir,
 				}
 				return false
 			}
-- 
2.43.0


From 124eca2357c3c9eb0ea6707fec64901d8a5f1556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 17/48] fix: open files of the view with reserved name in union

---
 union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union.go b/union.go
index 2d97620..5a47443 100644
--- a/union.go
+++ b/union.go
@@ -182,7 +182,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 	}
 
 	if len(u.List) > 0 {
-		if fulldir := u.List[0].FullPath(dir); strings.HasPrefix(fulldir, PackName+"/") {
+		if fulldir := u.List[0].FullPath(dir); fulldir == dir && strings.HasPrefix(fulldir, PackName+"/") {
 			var idx, err = strconv.ParseUint(dir[len(PackName)+1:], 10, 32)
 			if err != nil {
 				return nil, &fs.PathError{Op: "open", Path: dir, Err: err}
-- 
2.43.0


From e2f31af7b923fdba7019cb0d5d8ee55012a937ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 18/48] fix: refuse positions of nested files out of package
 bounds

---
 bulk/bulk.go |  5 ++++-
 fsys/fsys.go | 11 ++++++++++-
 mmap/mmap.go | 10 +++++++++-
 tagset.go    | 15 +++++++++++++++
 4 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/bulk/bulk.go b/bulk/bulk.go
index 2a5592e..1bde3f2 100644
--- a/bulk/bulk.go
+++ b/bulk/bulk.go
@@ -17,7 +17,10 @@ type SliceFile struct {
 
 // NewSliceFile creates SliceFile file structure based on given tags slice.
 func NewSliceFile(bulk []byte, ts wpk.TagsetRaw) (f *SliceFile, err error) {
-	var offset, size = ts.Pos()
+	var offset, size uint
+	if offset, size, err = ts.PosIn(uint(len(bulk))); err != nil {
+		return
+	}
 	f = &SliceFile{
 		PkgReader: bytes.NewReader(bulk[offset : offset+size]),
 		tags:      ts,
diff --git a/fsys/fsys.go b/fsys/fsys.go
index bb0ad31..2b2edeb 100644
--- a/fsys/fsys.go
+++ b/fsys/fsys.go
@@ -27,7 +27,16 @@ func NewChunkFile(fpath string, ts wpk.TagsetRaw) (f *ChunkFile, err error) {
 	if wpkf, err = os.Open(fpath); err != nil {
 		return
 	}
-	var offset, size = ts.Pos()
+	var fi fs.FileInfo
+	if fi, err = wpkf.Stat(); err != nil {
+		wpkf.Close()
+		return
+	}
+	var offset, size uint
+	if offset, size, err = ts.PosIn(uint(fi.Size())); err != nil {
+		wpkf.Close()
+		return
+	}
 	f = &ChunkFile{
 		PkgReader: io.NewSectionReader(wpkf, int64(offset), int64(size)),
 		wpkf:      wpkf,
diff --git a/mmap/mmap.go b/mmap/mmap.go
index e9b2d9e..f141b30 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -25,8 +25,16 @@ type MappedFile struct {
 
 // NewMappedFile maps nested to package file based on given tags slice.
 func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
+	// check up that file is inside of the package
+	var fi fs.FileInfo
+	if fi, err = fwpk.Stat(); err != nil {
+		return
+	}
+	var offset, size uint
+	if offset, size, err = ts.PosIn(uint(fi.Size())); err != nil {
+		return
+	}
 	// calculate paged size/offset
-	var offset, size = ts.Pos()
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
diff --git a/tagset.go b/tagset.go
index 7c68364..702f384 100644
--- a/tagset.go
+++ b/tagset.go
@@ -421,6 +421,21 @@ func (ts TagsetRaw) Pos() (offset, size uint) {
 	return
 }
 
+// PosIn returns file offset and file size values defined by tags in the set,
+// and checks that the file is placed inside of data with given total size.
+func (ts TagsetRaw) PosIn(total uint) (offset, size uint, err error) {
+	offset, size = ts.Pos()
+	if offset > total {
+		err = &ErrTag{ErrOutOff, ts.Path(), TIDoffset}
+		return
+	}
+	if size > total-offset {
+		err = &ErrTag{ErrOutSize, ts.Path(), TIDsize}
+		return
+	}
+	return
+}
+
 // Path returns path of nested into package file.
 // Path required to be present in any tagset.
 func (ts TagsetRaw) Path() string {
-- 
2.43.0


From aa4e1826ad384c31605d08997af97b40765b7a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:46 +0000
Subject: [PATCH 19/48] fix: read files completely by ReadFile

---
 union.go | 6 ++++--
 wpk.go   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/union.go b/union.go
index 5a47443..935ae1c 100644
--- a/union.go
+++ b/union.go
@@ -147,8 +147,10 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 
 			var size = ts.Size()
 			var buf = make([]byte, size)
-			_, err = f.Read(buf)
-			return buf, err
+			if _, err = io.ReadFull(f, buf); err != nil {
+				return nil, err
+			}
+			return buf, nil
 		}
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fpath, Err: fs.ErrNotExist}
diff --git a/wpk.go b/wpk.go
index 12f898d..00ba8c9 100644
--- a/wpk.go
+++ b/wpk.go
@@ -752,8 +752,10 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 
 		var size = ts.Size()
 		var buf = make([]byte, size)
-		_, err = f.Read(buf)
-		return buf, err
+		if _, err = io.ReadFull(f, buf); err != nil {
+			return nil, err
+		}
+		return buf, nil
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fkey, Err: fs.ErrNotExist}
 }
-- 
2.43.0


From ed4bc0f69c65f3fbc3c5557ddc4156a83ac08658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 20/48] fix: do not leave readable header over incomplete tags
 table

---
 writer.go | 57 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/writer.go b/writer.go
index c118694..3ea2d39 100644
--- a/writer.go
+++ b/writer.go
@@ -87,18 +87,6 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 			return
 		}
 		fftpos = HeaderSize
-
-		// write file tags table
-		if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
-			return
-		}
-		if _, err = ftt.WriteTo(wpt); err != nil {
-			return
-		}
-		// get writer end marker and setup the file tags table size
-		if fftend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
 	} else { // single package file
 		// get tags table offset as actual end of file
 		datpos = HeaderSize
@@ -106,25 +94,13 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 			return
 		}
 		fftpos = datend
-
-		// write file tags table
-		if _, err = ftt.WriteTo(wpt); err != nil {
-			return
-		}
-		// get writer end marker and setup the file tags table size
-		if fftend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
 	}
 
-	// rewrite true header
+	// write prebuild header, so nobody reads incomplete tags table
 	var hdr = Header{
-		signature: [SignSize]byte(util.S2B(SignReady)),
-		fttcount:  uint64(ftt.tsm.Len()),
+		signature: [SignSize]byte(util.S2B(SignBuild)),
 		fttoffset: uint64(fftpos),
-		fttsize:   uint64(fftend - fftpos),
 		datoffset: uint64(datpos),
-		datsize:   uint64(datend - datpos),
 	}
 	if _, err = wpt.Seek(0, io.SeekStart); err != nil {
 		return
@@ -132,6 +108,35 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
+
+	// write file tags table
+	if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
+		return
+	}
+	if _, err = ftt.WriteTo(wpt); err != nil {
+		return
+	}
+	// get writer end marker and setup the file tags table size
+	if fftend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
+		return
+	}
+
+	// rewrite header with true settings, and then true signature
+	hdr.fttcount = uint64(ftt.tsm.Len())
+	hdr.fttsize = uint64(fftend - fftpos)
+	hdr.datsize = uint64(datend - datpos)
+	if _, err = wpt.Seek(0, io.SeekStart); err != nil {
+		return
+	}
+	if _, err = hdr.WriteTo(wpt); err != nil {
+		return
+	}
+	if _, err = wpt.Seek(0, io.SeekStart); err != nil {
+		return
+	}
+	if _, err = wpt.Write(util.S2B(SignReady)); err != nil {
+		return
+	}
 	if wpf == nil || wpf == wpt {
 		// return to the data end, as it was before
 		if _, err = wpt.Seek(datend, io.SeekStart); err != nil {
-- 
2.43.0


From bc22ccaf6a4aa9110721626f59e5613dce979266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 21/48] fix: expand variables at the end of path

---
 util/strutil.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index 8f3985e..469413b 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -206,7 +206,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					mode, p1 = 1, i+1
 					i += 2
 				} else if i < fl-3 && b[i+1] == '{' && VarCharFirst[b[i+2]] {
@@ -275,13 +275,21 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			el += len(env) - len(v) - 1
 			n++
 		}
-		mode = 0
 	}
+	mode = 0
 
 	if n == 0 { // there is no changes
 		return fpath
@@ -293,7 +301,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					pe = i
 					mode, p1 = 1, i+1
 					i += 2
@@ -361,9 +369,19 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			copy(e[j:], env)
+		} else {
+			copy(e[j:], b[pc:])
 		}
 		mode = 0
 	} else { // copy remainder
-- 
2.43.0


From ad4a32c862240010b8c1a7804f59b9ce58c84a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 22/48] fix: do not read info of a package without tags table

---
 wpk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wpk.go b/wpk.go
index 00ba8c9..9ad2b1c 100644
--- a/wpk.go
+++ b/wpk.go
@@ -789,6 +789,9 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	if hdr.fttsize == 0 { // tags table is not written yet
+		return
+	}
 
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
-- 
2.43.0


From 3456334491f9780f46c49f4a125edf01d5388cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 23/48] fix: do not extract files outside of destination path

---
 cmd/extract/extract.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 84d5519..db3c5bf 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -4,9 +4,11 @@ import (
 	"errors"
 	"flag"
 	"io"
+	"io/fs"
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk"
@@ -30,7 +32,8 @@ var (
 var pkg = wpk.NewPackage()
 
 var (
-	ErrNoWay = errors.New("no way to here")
+	ErrNoWay   = errors.New("no way to here")
+	ErrOutside = errors.New("file name leads outside of destination path")
 )
 
 func parseargs() {
@@ -134,6 +137,12 @@ func readpackage() (err error) {
 					next = err == nil
 				}()
 
+				// package can be received from anywhere, so its names can not be trusted
+				if !filepath.IsLocal(filepath.FromSlash(fkey)) {
+					err = &fs.PathError{Op: "extract", Path: fkey, Err: ErrOutside}
+					return
+				}
+
 				var fullpath = util.JoinPath(DstPath, fkey)
 				if err = os.MkdirAll(path.Dir(fullpath), os.ModePerm); err != nil {
 					return
-- 
2.43.0


From 4c951290e92b47ff7dd7f154c82f14c6ad730e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 24/48] fix: report failures of tools by exit status

---
 cmd/build/build.go     | 2 +-
 cmd/extract/extract.go | 4 ++--
 cmd/pack/pack.go       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/build/build.go b/cmd/build/build.go
index 2f6f3b0..9cf12c7 100644
--- a/cmd/build/build.go
+++ b/cmd/build/build.go
@@ -12,7 +12,7 @@ func main() {
 	for _, fpath := range os.Args[1:] {
 		if err := lw.RunLuaVM(util.Envfmt(fpath, nil)); err != nil {
 			log.Println(err.Error())
-			return
+			os.Exit(1)
 		}
 	}
 }
diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index db3c5bf..5ba751f 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -192,13 +192,13 @@ func readpackage() (err error) {
 func main() {
 	parseargs()
 	if checkargs() > 0 {
-		return
+		os.Exit(1)
 	}
 
 	log.Println("starts")
 	if err := readpackage(); err != nil {
 		log.Println(err.Error())
-		return
+		os.Exit(1)
 	}
 	log.Println("done.")
 }
diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index ed3d4c2..f73267b 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -180,13 +180,13 @@ func writepackage() (err error) {
 func main() {
 	parseargs()
 	if checkargs() > 0 {
-		return
+		os.Exit(1)
 	}
 
 	log.Println("starts")
 	if err := writepackage(); err != nil {
 		log.Println(err.Error())
-		return
+		os.Exit(1)
 	}
 	log.Println("done.")
 }
-- 
2.43.0


From 265e37a466bcb53062401c40fae4ef4af6881b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 25/48] fix: sniff content type by content of file

---
 cmd/pack/pack.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index f73267b..fa797c8 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"bytes"
 	"flag"
 	"io"
 	"io/fs"
@@ -149,8 +148,8 @@ func writepackage() (err error) {
 					}
 					// read a chunk to decide between utf-8 text and binary
 					var buf [sniffLen]byte
-					var n int64
-					if n, err = io.CopyN(bytes.NewBuffer(buf[:]), file, sniffLen); err != nil && err != io.EOF {
+					var n int
+					if n, err = io.ReadFull(file, buf[:]); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 						return err
 					}
 					ctype = http.DetectContentType(buf[:n])
-- 
2.43.0


From 5ac1bd3a56446638efc7321f112d45225fd2f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 26/48] fix: report failures of packing of source folders

---
 cmd/pack/pack.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index fa797c8..d961c1b 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -110,7 +110,7 @@ func writepackage() (err error) {
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
 		var num, sum int64
-		fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
+		err = fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
 			if err != nil {
 				return err
 			}
@@ -164,6 +164,9 @@ func writepackage() (err error) {
 			pkg.SetTagset(fkey, ts)
 			return nil
 		})
+		if err != nil {
+			return
+		}
 		log.Printf("packed: %d files on %d bytes", num, sum)
 	}
 
-- 
2.43.0


From e12ad5da5bd262047a913c15978aa7ba501ba7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 27/48] fix: do not pack the package into itself

---
 cmd/pack/pack.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index d961c1b..1515563 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -106,6 +106,15 @@ func writepackage() (err error) {
 		w = fwpf
 	}
 
+	// package files can be placed inside of source folders
+	var fipkg, fidat fs.FileInfo
+	if fipkg, err = os.Stat(pkgfile); err != nil {
+		return
+	}
+	if fidat, err = os.Stat(datfile); err != nil {
+		return
+	}
+
 	// write all source folders
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
@@ -126,6 +135,14 @@ func writepackage() (err error) {
 			}
 			defer file.Close()
 
+			var fi fs.FileInfo
+			if fi, err = file.Stat(); err != nil {
+				return err
+			}
+			if os.SameFile(fi, fipkg) || os.SameFile(fi, fidat) {
+				return nil // file is the package itself
+			}
+
 			if ts, err = pkg.PackFile(w, file, fkey); err != nil {
 				return err
 			}
-- 
2.43.0


From 6c88f6f70073ce4e18a5b6080509a59590c598b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 28/48] fix: report tag values of table that can not be
 converted

---
 luawpk/nametid.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 07a38b0..0d485c0 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -301,7 +301,6 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or string names associated ID values. Lua-table values can be strings, numbers,
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
-	var err error
 	var errs []error
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
@@ -317,7 +316,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 			errk = &ErrProtected{tid}
 			errs = append(errs, errk)
 		}
-		if tag, errv = ValueToTag(tid, v); err != nil {
+		if tag, errv = ValueToTag(tid, v); errv != nil {
 			errs = append(errs, errv)
 		}
 
-- 
2.43.0


From 0b84ce3a3913d890165b6a062c607ea61f999406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 29/48] fix: refuse numbers out of range of tags and tag
 identifiers

---
 luawpk/nametid.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 0d485c0..68732b3 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -131,11 +131,24 @@ var (
 	ErrBadTagVal = errors.New("tag value type is not string or boolean or 'tag' userdata")
 )
 
+// numToUint converts Lua number to unsigned integer with discarded fraction.
+// Error returns on numbers out of range.
+func numToUint(n lua.LNumber) (uint, error) {
+	if n > -1 && n < 1<<64 {
+		return uint(n), nil
+	}
+	return 0, ErrBadTagVal
+}
+
 // ValueToTID converts LValue to uint16 tag identifier.
 // Numbers converts explicitly, strings converts to uint16
 // values which they presents. Error returns on any other case.
 func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	if n, ok := k.(lua.LNumber); ok {
+		if !(n > -1 && n < 1<<16) {
+			err = ErrBadTagKey
+			return
+		}
 		tid = wpk.TID(n)
 	} else if name, ok := k.(lua.LString); ok {
 		if n, ok := NameTid[string(name)]; ok {
@@ -158,7 +171,11 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 	switch TidType[tid] {
 	case TTbin:
 		if val, ok := v.(lua.LNumber); ok {
-			tag = wpk.UintTag(uint(val))
+			var n uint
+			if n, err = numToUint(val); err != nil {
+				return
+			}
+			tag = wpk.UintTag(n)
 		} else if val, ok := v.(lua.LString); ok {
 			tag, err = hex.DecodeString(string(val))
 		} else {
@@ -188,12 +205,20 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 		}
 	case TTuint:
 		if val, ok := v.(lua.LNumber); ok {
-			tag = wpk.UintTag(uint(val))
+			var n uint
+			if n, err = numToUint(val); err != nil {
+				return
+			}
+			tag = wpk.UintTag(n)
 		} else if val, ok := v.(lua.LString); ok {
 			var i int
 			if i, err = strconv.Atoi(string(val)); err != nil {
 				return
 			}
+			if i < 0 {
+				err = ErrBadTagVal
+				return
+			}
 			tag = wpk.UintTag(uint(i))
 		} else if val, ok := v.(lua.LBool); ok {
 			if val {
@@ -226,6 +251,10 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 		}
 	case TTtime:
 		if val, ok := v.(lua.LNumber); ok {
+			if !(val >= -1<<63 && val < 1<<63) {
+				err = ErrBadTagVal
+				return
+			}
 			var milli = int64(val)
 			var t = time.Unix(milli/1000, (milli%1000)*1000000)
 			tag = wpk.UnixmsTag(t)
-- 
2.43.0


From 54e662edb32aa8d8b434804ad9d8fa2a1f678264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 30/48] fix: delete tags by table with any values

---
 luawpk/luawpk.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 7ed474b..de840ca 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -1152,8 +1152,18 @@ func wpkdeltags(ls *lua.LState) int {
 	var fkey = ls.CheckString(2)
 	var lt = ls.CheckTable(3)
 
-	var opts wpk.TagsetRaw
-	if opts, err = TableToTagset(lt, opts); err != nil {
+	var tids []wpk.TID
+	var errs []error
+	lt.ForEach(func(k lua.LValue, v lua.LValue) {
+		if tid, err := ValueToTID(k); err != nil {
+			errs = append(errs, err)
+		} else if tid == wpk.TIDoffset || tid == wpk.TIDsize || tid == wpk.TIDpath {
+			errs = append(errs, &ErrProtected{tid})
+		} else {
+			tids = append(tids, tid)
+		}
+	})
+	if err = errors.Join(errs...); err != nil {
 		return 0
 	}
 
@@ -1164,10 +1174,9 @@ func wpkdeltags(ls *lua.LState) int {
 	}
 
 	ts = wpk.CopyTagset(ts)
-	var optsi = opts.Iterator()
 	var n = 0
-	for optsi.Next() {
-		if ts, ok = ts.DelOk(optsi.TID()); ok {
+	for _, tid := range tids {
+		if ts, ok = ts.DelOk(tid); ok {
 			n++
 		}
 	}
-- 
2.43.0


From 3cc3afb1ec87c11d8396514d40cd9bbd2ff7d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 31/48] fix: refuse tag values with length out of range

---
 luawpk/luawpk.go  | 7 ++++++-
 luawpk/nametid.go | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index de840ca..d269e5d 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -241,8 +241,13 @@ func setlabel(ls *lua.LState) int {
 	var pkg = CheckPack(ls, 1)
 	var label = ls.CheckString(2)
 
+	var tag, err = ValueToTag(wpk.TIDlabel, lua.LString(label))
+	if err != nil {
+		ls.RaiseError(err.Error())
+		return 0
+	}
 	pkg.SetInfo(wpk.CopyTagset(pkg.GetInfo()).
-		Set(wpk.TIDlabel, wpk.StrTag(label)))
+		Set(wpk.TIDlabel, tag))
 	return 0
 }
 
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 68732b3..7745731 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -129,6 +130,7 @@ func (e *ErrProtected) Error() string {
 var (
 	ErrBadTagKey = errors.New("tag key type is not number or string")
 	ErrBadTagVal = errors.New("tag value type is not string or boolean or 'tag' userdata")
+	ErrTagLong   = errors.New("tag value is too long")
 )
 
 // numToUint converts Lua number to unsigned integer with discarded fraction.
@@ -284,6 +286,9 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 			return
 		}
 	}
+	if err == nil && len(tag) > math.MaxUint16 {
+		err = ErrTagLong // length of tag does not fit to its field
+	}
 	return
 }
 
-- 
2.43.0


From 961531b656d9117e9acc3d84b4f6a63f50ffd52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 32/48] fix: give the same name for tag each time

---
 luawpk/nametid.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 7745731..3c98ebf 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -103,7 +103,10 @@ var NameTid = map[string]wpk.TID{
 var TidName = func() map[wpk.TID]string {
 	var tn = map[wpk.TID]string{}
 	for name, tid := range NameTid {
-		tn[tid] = name
+		// tag with several names has one name for any case
+		if old, ok := tn[tid]; !ok || len(name) > len(old) {
+			tn[tid] = name
+		}
 	}
 	return tn
 }()
-- 
2.43.0


From cccd572c76313c968e13e2cee10991330107ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 33/48] fix: do not put file with tags that can not be
 converted

---
 luawpk/luawpk.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index d269e5d..dc22c79 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -707,6 +707,11 @@ func wpkputdata(ls *lua.LState) int {
 
 	var r = strings.NewReader(data)
 
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var w = pkg.wpt
 	if pkg.wpf != nil {
 		w = pkg.wpf
@@ -720,8 +725,9 @@ func wpkputdata(ls *lua.LState) int {
 		return 0
 	}
 
-	if ts, err = TableToTagset(tags, ts); err != nil {
-		return 0
+	var optsi = opts.Iterator()
+	for optsi.Next() {
+		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
 
 	pkg.SetupTagset(ts)
@@ -752,6 +758,11 @@ func wpkputfile(ls *lua.LState) int {
 	}
 	defer file.Close()
 
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var w = pkg.wpt
 	if pkg.wpf != nil {
 		w = pkg.wpf
@@ -765,8 +776,9 @@ func wpkputfile(ls *lua.LState) int {
 		return 0
 	}
 
-	if ts, err = TableToTagset(tags, ts); err != nil {
-		return 0
+	var optsi = opts.Iterator()
+	for optsi.Next() {
+		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
 
 	pkg.SetupTagset(ts)
-- 
2.43.0


From 1cf488245f1e6edac226523c930465389c3df996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 34/48] fix: automatic file IDs repeat IDs of loaded or tagged
 files

---
 luawpk/adjusttags.go | 14 ++++++++++++++
 luawpk/luawpk.go     |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/luawpk/adjusttags.go b/luawpk/adjusttags.go
index e716808..27880d3 100644
--- a/luawpk/adjusttags.go
+++ b/luawpk/adjusttags.go
@@ -161,6 +161,20 @@ func adjustsha512(ts wpk.TagsetRaw, r io.ReadSeeker, skip bool, secret []byte) (
 	return ts.Put(wpk.TIDsha512, mac.Sum(nil)), nil
 }
 
+// usefid notes file ID of given tagset as used one,
+// to make next automatic ID different from it.
+func (pkg *LuaPackage) usefid(ts wpk.TagsetRaw) {
+	if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid > pkg.fidcount {
+		pkg.fidcount = fid
+	}
+}
+
+// SetupTagset puts tagset into tags table of package.
+func (pkg *LuaPackage) SetupTagset(ts wpk.TagsetRaw) {
+	pkg.usefid(ts)
+	pkg.Package.SetupTagset(ts)
+}
+
 func (pkg *LuaPackage) adjusttagset(r io.ReadSeeker, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 	var err error
 
diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index dc22c79..e095ddf 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -484,6 +484,11 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
+	// continue files IDs of loaded package
+	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
+		pkg.usefid(ts)
+		return true
+	})
 
 	return 0
 }
-- 
2.43.0


From 5aca6e4ebb0bcfee3fc570068012f2b97efe82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 35/48] fix: new package has files of the package that was
 opened before

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 3ea2d39..da685cc 100644
--- a/writer.go
+++ b/writer.go
@@ -42,6 +42,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
+	// new package has no files
+	ftt.tsm.Init(0)
 	// update data offset/pos
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
-- 
2.43.0


From d908bea62ce9dba30d61e984418d05d88e09a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 36/48] fix: failed loading of package spoils the package
 loaded before

---
 luawpk/luawpk.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index e095ddf..582923e 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -479,10 +479,12 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 
-	// open package file
-	if err = pkg.OpenFile(pkgpath); err != nil {
+	// open package file, on failure package remains as is
+	var ftt = &wpk.FTT{}
+	if err = ftt.OpenFile(pkgpath); err != nil {
 		return 0
 	}
+	pkg.FTT = ftt
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 	// continue files IDs of loaded package
 	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
-- 
2.43.0


From 899040cb441ac5f379ba7571ccf5f69feb32d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 37/48] fix: failed begin or append leaves package as open for
 writing

---
 luawpk/luawpk.go | 62 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 582923e..fc78066 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -495,6 +495,32 @@ func wpkload(ls *lua.LState) int {
 	return 0
 }
 
+// openwriters opens files of package to write. Data part is opened
+// if its path is given only.
+func openwriters(pkgpath, datpath string, flag int) (wpt, wpf wpk.WriteSeekCloser, err error) {
+	var ft, fd *os.File
+	if ft, err = os.OpenFile(pkgpath, flag, 0755); err != nil {
+		return
+	}
+	if datpath != "" {
+		if fd, err = os.OpenFile(datpath, flag, 0755); err != nil {
+			ft.Close()
+			return
+		}
+		wpf = fd
+	}
+	wpt = ft
+	return
+}
+
+// closewriters closes files of package that were opened to write.
+func closewriters(wpt, wpf wpk.WriteSeekCloser) {
+	wpt.Close()
+	if wpf != nil {
+		wpf.Close()
+	}
+}
+
 func wpkbegin(ls *lua.LState) int {
 	var err error
 	defer func() {
@@ -511,23 +537,19 @@ func wpkbegin(ls *lua.LState) int {
 		return 0
 	}
 
-	// create package file
-	if pkg.wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
+	// create package files
+	var wpt, wpf wpk.WriteSeekCloser
+	if wpt, wpf, err = openwriters(pkgpath, datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC); err != nil {
 		return 0
 	}
-	if datpath != "" {
-		if pkg.wpf, err = os.OpenFile(datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
-			return 0
-		}
-	}
-	// setup file representation
-	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 	// starts new package
-	if err = pkg.Begin(pkg.wpt, pkg.wpf); err != nil {
+	if err = pkg.Begin(wpt, wpf); err != nil {
+		closewriters(wpt, wpf)
 		return 0
 	}
+	// setup file representation
+	pkg.pkgpath, pkg.datpath = pkgpath, datpath
+	pkg.wpt, pkg.wpf = wpt, wpf
 
 	return 0
 }
@@ -546,21 +568,17 @@ func wpkappend(ls *lua.LState) int {
 		return 0
 	}
 
-	// open package file
-	if pkg.wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
+	// open package files
+	var wpt, wpf wpk.WriteSeekCloser
+	if wpt, wpf, err = openwriters(pkg.pkgpath, pkg.datpath, os.O_WRONLY); err != nil {
 		return 0
 	}
-	if pkg.datpath != "" {
-		if pkg.wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
-			return 0
-		}
-	}
 	// starts to append files
-	if err = pkg.Append(pkg.wpt, pkg.wpf); err != nil {
+	if err = pkg.Append(wpt, wpf); err != nil {
+		closewriters(wpt, wpf)
 		return 0
 	}
+	pkg.wpt, pkg.wpf = wpt, wpf
 
 	return 0
 }
-- 
2.43.0


From 68a4703798e33e7cbe09555024bc590de3112f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 38/48] fix: appending to splitted package loaded without data
 part overwrites tags table

---
 luawpk/luawpk.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index fc78066..198b14d 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -568,9 +568,18 @@ func wpkappend(ls *lua.LState) int {
 		return 0
 	}
 
+	// data part is only at splitted package
+	var datpath string
+	if pkg.IsSplitted() {
+		if datpath = pkg.datpath; datpath == "" && pkg.pkgpath != "" {
+			err = ErrDataClosed
+			return 0
+		}
+	}
+
 	// open package files
 	var wpt, wpf wpk.WriteSeekCloser
-	if wpt, wpf, err = openwriters(pkg.pkgpath, pkg.datpath, os.O_WRONLY); err != nil {
+	if wpt, wpf, err = openwriters(pkg.pkgpath, datpath, os.O_WRONLY); err != nil {
 		return 0
 	}
 	// starts to append files
-- 
2.43.0


From 635ced93bb4abc83c076cee18ba26c54b1e3ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 39/48] fix: pop from sequenced map with write lock

---
 util/seqmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 4479db5..2fec692 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -65,8 +65,8 @@ func (m *SeqMap[K, T]) Poke(key K, val T) {
 }
 
 func (m *SeqMap[K, T]) Pop() (key K, val T, ok bool) {
-	m.mux.RLock()
-	defer m.mux.RUnlock()
+	m.mux.Lock()
+	defer m.mux.Unlock()
 
 	if n := len(m.seq) - 1; n >= 0 {
 		key, val, ok = m.seq[n].key, m.seq[n].val, true
-- 
2.43.0


From 2d9ff53b0a3801a3d86a8338230f110b1b089db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 40/48] fix: race on reading of package info and data size

---
 wpk.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 9ad2b1c..01c55fb 100644
--- a/wpk.go
+++ b/wpk.go
@@ -281,17 +281,23 @@ func (ftt *FTT) TagsetNum() int {
 
 // IsSplitted returns true if package is splitted on tags and data files.
 func (ftt *FTT) IsSplitted() bool {
+	ftt.mux.Lock()
+	defer ftt.mux.Unlock()
 	return ftt.datoffset == 0
 }
 
 // DataSize returns package data size from files tags table.
 // This value changed on FTT open or sync operation.
 func (ftt *FTT) DataSize() uint {
+	ftt.mux.Lock()
+	defer ftt.mux.Unlock()
 	return uint(ftt.datsize)
 }
 
 // GetInfo returns package information tagset if it present.
 func (ftt *FTT) GetInfo() TagsetRaw {
+	ftt.mux.Lock()
+	defer ftt.mux.Unlock()
 	return ftt.info
 }
 
@@ -765,7 +771,10 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 func (pkg *Package) Open(dir string) (fs.File, error) {
 	var fullname = pkg.FullPath(util.ToSlash(dir))
 	if fullname == PackName {
-		var ts = pkg.BaseTagset(0, uint(pkg.datoffset+pkg.datsize), "wpk")
+		pkg.mux.Lock()
+		var size = pkg.datoffset + pkg.datsize
+		pkg.mux.Unlock()
+		var ts = pkg.BaseTagset(0, uint(size), "wpk")
 		return pkg.Tagger.OpenTagset(ts)
 	}
 
-- 
2.43.0


From 543854cd282607c34582d5dc21c6f3b2574f93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 41/48] fix: pack a file at once for other writers

---
 writer.go | 72 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/writer.go b/writer.go
index da685cc..3cb3071 100644
--- a/writer.go
+++ b/writer.go
@@ -150,38 +150,43 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	return
 }
 
-// PackData puts data streamed by given reader into package as a file
-// and associate keyname "fkey" with it.
-func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
-	if _, ok := pkg.GetTagset(fkey); ok {
+// packdata puts data streamed by given reader into package as a file with keyname "fkey",
+// and adds tags by given function if it has. It's made at once for other writers.
+func (pkg *Package) packdata(w io.WriteSeeker, r io.Reader, fkey string, addtags func(TagsetRaw) TagsetRaw) (ts TagsetRaw, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
+	if pkg.HasTagset(fkey) {
 		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrExist}
 		return
 	}
 
+	// get offset and put provided data
 	var offset, size int64
-	if func() {
-		pkg.mux.Lock()
-		defer pkg.mux.Unlock()
-
-		// get offset and put provided data
-		if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
-		if size, err = io.Copy(w, r); err != nil {
-			return
-		}
-		// update actual package data size
-		pkg.datsize += uint64(size)
-	}(); err != nil {
+	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
+		return
+	}
+	if size, err = io.Copy(w, r); err != nil {
 		return
 	}
+	// update actual package data size
+	pkg.datsize += uint64(size)
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
+	if addtags != nil {
+		ts = addtags(ts)
+	}
 	pkg.SetTagset(fkey, ts)
 	return
 }
 
+// PackData puts data streamed by given reader into package as a file
+// and associate keyname "fkey" with it.
+func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+	return pkg.packdata(w, r, fkey, nil)
+}
+
 // timespec returns timestamps of the file with given info. It gives nil if
 // the file system of this file provides nothing except modification time.
 func timespec(fi fs.FileInfo) (tsp times.Timespec) {
@@ -203,24 +208,21 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 	if fi, err = file.Stat(); err != nil {
 		return
 	}
-	if ts, err = pkg.PackData(w, file, fkey); err != nil {
-		return
-	}
-
-	ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
-	if tsp := timespec(fi); tsp != nil {
-		if t := tsp.AccessTime(); !t.IsZero() {
-			ts = ts.Put(TIDatime, TimeTag(t))
-		}
-		if tsp.HasChangeTime() {
-			ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
-		}
-		if tsp.HasBirthTime() {
-			ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+	return pkg.packdata(w, file, fkey, func(ts TagsetRaw) TagsetRaw {
+		ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
+		if tsp := timespec(fi); tsp != nil {
+			if t := tsp.AccessTime(); !t.IsZero() {
+				ts = ts.Put(TIDatime, TimeTag(t))
+			}
+			if tsp.HasChangeTime() {
+				ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
+			}
+			if tsp.HasBirthTime() {
+				ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+			}
 		}
-	}
-	pkg.SetTagset(fkey, ts)
-	return
+		return ts
+	})
 }
 
 // Rename tagset with file name 'fkey1' to 'fkey2'.
-- 
2.43.0


From c20a188eb93f943b28e13c15938949876418dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 42/48] fix: rename and make alias at once for other writers

---
 writer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/writer.go b/writer.go
index 3cb3071..215f93c 100644
--- a/writer.go
+++ b/writer.go
@@ -228,6 +228,9 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 // Rename tagset with file name 'fkey1' to 'fkey2'.
 // Keeps link to original file name.
 func (pkg *Package) Rename(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "rename", Path: fkey1, Err: fs.ErrNotExist}
@@ -256,6 +259,9 @@ func dirprefix(dir string) string {
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	olddir, newdir = dirprefix(olddir), dirprefix(newdir)
 	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, olddir) {
@@ -280,6 +286,9 @@ func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int,
 // PutAlias makes clone tagset with file name 'fkey1' and replace name tag
 // in it to 'fkey2'. Keeps link to original file name.
 func (pkg *Package) PutAlias(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "putalias", Path: fkey1, Err: fs.ErrNotExist}
-- 
2.43.0


From 8f16cdcf2d8148edaa491795daeef9660bcafdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 43/48] fix: arguments of path.match are swapped in Lua API

---
 luawpk/luapath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index ae9f989..5c6aa49 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -100,7 +100,7 @@ func pathmatch(ls *lua.LState) int {
 	var name = ls.CheckString(1)
 	var pattern = ls.CheckString(2)
 
-	var matched, err = path.Match(name, pattern)
+	var matched, err = path.Match(pattern, name)
 	if err != nil {
 		ls.RaiseError(err.Error())
 		return 0
-- 
2.43.0


From 1f493cfb9c5a1ff158a1f45b7e7875b5dab69991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 44/48] fix: enumeration of empty directory with limit fails in
 Lua API

---
 luawpk/luapath.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index 5c6aa49..cd043db 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -1,6 +1,7 @@
 package luawpk
 
 import (
+	"io"
 	"os"
 	"path"
 	"path/filepath"
@@ -146,7 +147,7 @@ func pathenum(ls *lua.LState) int {
 	defer dir.Close()
 
 	var names []string
-	if names, err = dir.Readdirnames(n); err != nil {
+	if names, err = dir.Readdirnames(n); err != nil && err != io.EOF {
 		ls.RaiseError(err.Error())
 		return 0
 	}
-- 
2.43.0


From 1dd36bfe9a96aa9a1524c76476831a5e12143e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 45/48] fix: size of tags table does not include package info
 in Lua API

---
 luawpk/luawpk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 198b14d..cf058af 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -297,6 +297,8 @@ func getfftsize(ls *lua.LState) int {
 		size += len(ts) + wpk.PTStssize
 		return true
 	})
+	size += wpk.PTStssize + len(pkg.GetInfo()) // package info
+	size += wpk.PTStssize                      // end marker
 	ls.Push(lua.LNumber(size))
 	return 1
 }
-- 
2.43.0


From 4ec9eed968151b231f87ade54b69b8fb6449f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 46/48] fix: empty file is not counted with the next one in
 number of records

---
 luawpk/luawpk.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index cf058af..5e31ddb 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -137,10 +137,11 @@ func setterPack(ls *lua.LState) int {
 func tostringPack(ls *lua.LState) int {
 	var pkg = CheckPack(ls, 1)
 
-	var m = map[uint]wpk.Void{}
+	var m = map[[2]uint]wpk.Void{}
 	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
 		if offset, ok := ts.TagUint(wpk.TIDoffset); ok {
-			m[offset] = wpk.Void{} // count unique offsets
+			var size, _ = ts.TagUint(wpk.TIDsize)
+			m[[2]uint{offset, size}] = wpk.Void{} // count unique blocks, empty one has offset of the next
 		}
 		return true
 	})
@@ -273,10 +274,11 @@ func getdatpath(ls *lua.LState) int {
 
 func getrecnum(ls *lua.LState) int {
 	var pkg = CheckPack(ls, 1)
-	var m = map[uint]wpk.Void{}
+	var m = map[[2]uint]wpk.Void{}
 	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
 		if offset, ok := ts.TagUint(wpk.TIDoffset); ok {
-			m[offset] = wpk.Void{}
+			var size, _ = ts.TagUint(wpk.TIDsize)
+			m[[2]uint{offset, size}] = wpk.Void{}
 		}
 		return true
 	})
-- 
2.43.0


From 494e6fd83b4778ff6d51f50d4845dd189ad6535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 47/48] fix: failed close or change of times of extracted file
 is not reported

---
 cmd/extract/extract.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 5ba751f..e341a47 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -162,10 +162,18 @@ func readpackage() (err error) {
 					var atime, aok = ts.TagTime(wpk.TIDatime)
 					var mtime, mok = ts.TagTime(wpk.TIDmtime)
 					if aok && mok {
-						defer os.Chtimes(fullpath, atime, mtime)
+						defer func() {
+							if err1 := os.Chtimes(fullpath, atime, mtime); err == nil {
+								err = err1
+							}
+						}()
 					}
 				}
-				defer dst.Close()
+				defer func() {
+					if err1 := dst.Close(); err == nil {
+						err = err1
+					}
+				}()
 
 				var n int64
 				if n, err = io.Copy(dst, src); err != nil {
-- 
2.43.0


From a5029058aeaacf128039e8696f335590c4fddd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 48/48] fix: failed close of written package file is not
 reported

---
 cmd/pack/pack.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index 1515563..67da125 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -81,13 +81,21 @@ func writepackage() (err error) {
 	if fwpk, err = os.OpenFile(pkgfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644); err != nil {
 		return
 	}
-	defer fwpk.Close()
+	defer func() {
+		if err1 := fwpk.Close(); err == nil {
+			err = err1
+		}
+	}()
 
 	if Split {
 		if fwpf, err = os.OpenFile(datfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644); err != nil {
 			return
 		}
-		defer fwpf.Close()
+		defer func() {
+			if err1 := fwpf.Close(); err == nil {
+				err = err1
+			}
+		}()
 
 		log.Printf("destination tags part:  %s\n", pkgfile)
 		log.Printf("destination files part: %s\n", datfile)
-- 
2.43.0

