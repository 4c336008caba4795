package core

import (
	"io"
	"io/fs"
	"syscall"
	"time"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

func sameTime(t time.Time, sec int64, nsec int64) bool {
	return sym.And(t.Unix() == sec, int64(t.Nanosecond()) == nsec)
}

// anyTime is a time with any second in the range and any nanosecond.
func anyTime(name string, lim int64) (time.Time, int64, int64) {
	sec, nsec := sym.Int64(name+".sec"), sym.Int64(name+".nsec")
	sym.Assume(sym.And(sym.And(sec >= -lim, sec <= lim), sym.And(nsec >= 0, nsec < 1000000000)))
	return time.Unix(sec, nsec), sec, nsec
}

// C04_time12: nanosecond precision for every representable instant.
func C04_time12() {
	t, sec, nsec := anyTime("t", 1<<62)
	tag := wpk.TimeTag(t)
	sym.Assert(len(tag) == 12, "time tag has 12 bytes")
	sym.Assert(le(tag[:8]) == uint64(sec) && le(tag[8:]) == uint64(nsec), "time tag holds seconds and nanoseconds")
	r, ok := tag.TagTime()
	sym.Assert(ok && sameTime(r, sec, nsec), "12-byte tag reads back as the same instant")
	ts := wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag("x")).Put(wpk.TIDmtime, tag)
	r, ok = ts.TagTime(wpk.TIDmtime)
	sym.Assert(ok && sameTime(r, sec, nsec), "12-byte tag in a tagset reads back as the same instant")
	sym.Observe("sec", sec)
	sym.Reach("end")
}

// msLim bounds seconds for the millisecond forms (64-bit milliseconds).
func msLim() int64 { return 1 << 36 }

// C04_millis: the millisecond forms, of both tag lengths.
func C04_millis() {
	t, sec, nsec := anyTime("t", msLim())
	var ms int64
	ok := false
	tag := wpk.UnixmsTag(t)
	want := sec*1000 + int64(uint64(nsec)/1000000)
	sym.Assert(len(tag) == 8, "millisecond tag has 8 bytes")
	sym.Assert(int64(le(tag)) == want, "millisecond tag holds Unix milliseconds")
	ms, ok = tag.TagUnixms()
	sym.Assert(ok && ms == want, "8-byte tag reads back in milliseconds")
	ms, ok = wpk.TimeTag(t).TagUnixms()
	sym.Assert(ok && ms == want, "12-byte tag reads back in milliseconds")
	sym.Observe("ms", ms)
	sym.Reach("end")
}

// C04_time8: every 8-byte tag reads back as the instant with that many milliseconds.
func C04_time8() {
	a, b := sym.Int64("a"), sym.Int64("b")
	sym.Assume(sym.And(sym.And(a >= 0, a <= msLim()), sym.And(b >= 0, b < 1000)))
	sec, k, ms := a, b, a*1000+b
	if sym.Bool("before1970") {
		ms = -ms
		if b == 0 {
			sec = -a
		} else {
			sec, k = -a-1, 1000-b
		}
		sym.Assert(ms%1000 == -b, "lemma: remainder")
	} else {
		sym.Assert(ms%1000 == b, "lemma: remainder")
	}
	r, ok := wpk.Uint64Tag(uint64(ms)).TagTime()
	sym.Assert(ok, "8-byte tag is a time")
	sym.Assert(r.Unix() == sec, "8-byte tag reads back as the same second")
	sym.Assert(r.Nanosecond() == int(k*1000000), "8-byte tag reads back as the same millisecond")
	sym.Observe("sec", r.Unix())
	sym.Reach("end")
}

// C04_accessors: each named accessor decodes its own tag, of either length.
func C04_accessors() {
	tids := []wpk.TID{wpk.TIDmtime, wpk.TIDatime, wpk.TIDctime, wpk.TIDbtime}
	what := []string{"modification", "access", "change", "birth"}
	var ts wpk.TagsetRaw
	n := sym.IntRange("which", 0, 3)
	others := sym.Bool("others")
	form12 := sym.Bool("form12")
	var t time.Time
	var sec, nsec int64
	for i, tid := range tids {
		switch {
		case i != n:
			if others {
				ts = ts.Put(tid, wpk.TimeTag(time.Unix(int64(100+i), int64(i))))
			}
		case form12:
			t, sec, nsec = anyTime("t", 1<<62)
			ts = ts.Put(tid, wpk.TimeTag(t))
		default:
			s, ms := sym.Uint32("s"), sym.Uint16("ms")
			sym.Assume(ms < 1000)
			sec, nsec = int64(s), int64(ms)*1000000
			ts = ts.Put(tid, wpk.UnixmsTag(time.Unix(sec, nsec)))
		}
	}
	got := []time.Time{ts.ModTime(), ts.AccessTime(), ts.ChangeTime(), ts.BirthTime()}
	for i := range tids {
		if i == n {
			sym.Assert(sameTime(got[i], sec, nsec), what[i]+" time")
		} else if others {
			sym.Assert(sameTime(got[i], int64(100+i), int64(i)), what[i]+" time beside another")
		}
	}
	sym.Assert(ts.HasChangeTime() == (n == 2 || others), "change time presence")
	sym.Assert(ts.HasBirthTime() == (n == 3 || others), "birth time presence")
	sym.Reach("end")
}

type memFile struct {
	r   io.Reader
	fi  fs.FileInfo
	err error
}

func (f *memFile) Stat() (fs.FileInfo, error) { return f.fi, f.err }
func (f *memFile) Read(b []byte) (int, error) { return f.r.Read(b) }
func (f *memFile) Close() error               { return nil }

type memInfo struct {
	size int64
	sys  any
	mt   time.Time
}

func (i *memInfo) Name() string       { return "x" }
func (i *memInfo) Size() int64        { return i.size }
func (i *memInfo) Mode() fs.FileMode  { return 0644 }
func (i *memInfo) ModTime() time.Time { return i.mt }
func (i *memInfo) IsDir() bool        { return false }
func (i *memInfo) Sys() any           { return i.sys }

// C04_packfile: the times of a packed file are those of the source.
func C04_packfile() {
	m, ms, mn := anyTime("m", 1<<62)
	_, as, an := anyTime("a", 1<<62)
	_, cs, cn := anyTime("c", 1<<62)
	st := &syscall.Stat_t{
		Mtim: syscall.Timespec{Sec: ms, Nsec: mn},
		Atim: syscall.Timespec{Sec: as, Nsec: an},
		Ctim: syscall.Timespec{Sec: cs, Nsec: cn},
	}
	pkg := wpk.NewPackage()
	w := newMem()
	sym.Assert(pkg.Begin(w, nil) == nil, "Begin")
	f := &memFile{r: &Frag{B: []byte("abc")}, fi: &memInfo{size: 3, sys: st, mt: m}}
	_, err := pkg.PackFile(w, f, "x")
	sym.Assert(err == nil, "PackFile")
	sym.Assert(pkg.Sync(w, nil) == nil, "Sync")
	q := wpk.NewPackage()
	sym.Assert(q.OpenStream(&Frag{B: w.B}) == nil, "reopen")
	ts, ok := q.GetTagset("x")
	sym.Assert(ok, "file is listed")
	sym.Assert(sameTime(ts.ModTime(), ms, mn), "modification time of a packed file")
	sym.Assert(sameTime(ts.AccessTime(), as, an), "access time of a packed file")
	sym.Assert(ts.HasChangeTime(), "change time is there")
	sym.Assert(sameTime(ts.ChangeTime(), cs, cn), "change time of a packed file")
	sym.Assert(!ts.HasBirthTime(), "no birth time")
	sym.Reach("end")
}

// C04_packforeign: a file of a file system without OS information keeps its modification time.
func C04_packforeign() {
	m, ms, mn := anyTime("m", 1<<62)
	pkg := wpk.NewPackage()
	w := newMem()
	sym.Assert(pkg.Begin(w, nil) == nil, "Begin")
	var fi fs.FileInfo
	if sym.Bool("nested") {
		fi = wpk.TagsetRaw{}.Put(wpk.TIDsize, wpk.UintTag(3)).Put(wpk.TIDmtime, wpk.TimeTag(m))
	} else {
		fi = &memInfo{size: 3, mt: m}
	}
	ts, err := pkg.PackFile(w, &memFile{r: &Frag{B: []byte("abc")}, fi: fi}, "x")
	sym.Assert(err == nil, "PackFile")
	sym.Assert(sameTime(ts.ModTime(), ms, mn), "modification time of a file that is not from the OS")
	sym.Reach("end")
}
