package core

import (
	"bytes"
	"io"
	"io/fs"
	"time"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// plan tells which steps of input and output fail, and how.
type plan struct {
	step int
	fail [2]int // numbers of steps that fail, counted from 1
	kind int
	part int // bytes transferred by a short transfer
	hits int
	err  error // what is reported
}

// why is the error of a fault.
func (p *plan) why(reading bool) error {
	switch {
	case p.err == nil:
		return errIO
	case reading && p.err == io.EOF: // it would be the end of stream
		return io.ErrUnexpectedEOF
	}
	return p.err
}

// Kinds of faults.
const (
	nothing = iota // nothing is transferred, and an error is returned
	partly         // some bytes are transferred, and an error is returned
	ended          // the stream ends too early
)

func (p *plan) next() bool {
	p.step++
	if p.step == p.fail[0] || p.step == p.fail[1] {
		p.hits++
		return true
	}
	return false
}

// covered notes that faults at all steps are tried.
func covered(p *plan, max int) {
	if p.step < max {
		sym.Reach("covered")
	}
}

// since runs the step and tells whether a fault happened in it.
func (p *plan) since(f func()) bool {
	n := p.hits
	f()
	return p.hits != n
}

// somePlan is a plan of one fault or of two in the steps up to max.
func somePlan(max, faults int, kinds ...int) *plan {
	p := &plan{}
	p.kind = kinds[sym.IntRange("kind", 0, len(kinds)-1)]
	if p.kind == partly {
		p.part = sym.IntRange("part", 1, 3)
	}
	p.fail[0] = sym.IntRange("fail", 0, max)
	if faults > 1 {
		p.fail[1] = sym.IntRange("again", p.fail[0], max)
	}
	return p
}

// rig is a file in memory with faults.
type rig struct {
	b   []byte
	pos int64
	p   *plan
}

func (f *rig) Write(p []byte) (int, error) {
	n, err := len(p), error(nil)
	if f.p.next() {
		err = f.p.why(false)
		if n = 0; f.p.kind == partly {
			n = f.p.part
		}
		if n >= len(p) {
			n = len(p) - 1
		}
		if n < 0 {
			n = 0
		}
	}
	if end := f.pos + int64(n); n > 0 && end > int64(len(f.b)) {
		nb := make([]byte, end)
		copy(nb, f.b)
		f.b = nb
	}
	copy(f.b[f.pos:], p[:n])
	f.pos += int64(n)
	return n, err
}

func (f *rig) Read(p []byte) (int, error) {
	fail := f.p.next()
	if fail && f.p.kind == ended {
		return 0, io.EOF
	}
	n := 0
	if f.pos < int64(len(f.b)) {
		n = copy(p, f.b[f.pos:])
	}
	if fail {
		if f.p.kind == nothing {
			return 0, f.p.why(true)
		}
		if n > f.p.part {
			n = f.p.part
		}
		if n == len(p) && n > 0 {
			n--
		}
		f.pos += int64(n)
		return n, f.p.why(true)
	}
	f.pos += int64(n)
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *rig) Seek(off int64, whence int) (int64, error) {
	if f.p.next() {
		return 0, f.p.why(false)
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.b))
	}
	f.pos = off
	return off, nil
}

// work is a package being written to files with faults.
type work struct {
	*wpk.Package
	p        *plan
	wpt, wpf *rig
	want     []packed
}

func (w *work) f2() io.WriteSeeker {
	if w.wpf == nil {
		return nil
	}
	return w.wpf
}

// do runs a step, demands a report of a fault, and gives whether it went well.
func (w *work) do(f func() error) bool {
	var err error
	hit := w.p.since(func() { err = f() })
	if hit {
		sym.Assert(err != nil, "a failure of input or output is reported")
		sym.Reach("fault")
	} else {
		sym.Assert(err == nil, "nothing fails without a reason")
	}
	return err == nil
}

func (w *work) put(name string, data []byte, file bool) {
	dst := w.wpt
	if w.wpf != nil {
		dst = w.wpf
	}
	src := &rig{b: data, p: w.p}
	var ts wpk.TagsetRaw
	ok := w.do(func() (err error) {
		if file {
			f := &memFile{r: src, fi: &memInfo{size: int64(len(data)), mt: time.Unix(77, 0)}}
			if w.p.next() {
				f.err = w.p.why(false)
			}
			ts, err = w.PackFile(dst, f, name)
		} else {
			ts, err = w.PackData(dst, src, name)
		}
		return
	})
	sym.Assert(w.HasTagset(name) == ok, "a file is in the package if and only if packing it went well")
	if ok {
		w.want = append(w.want, packed{name, data, wpk.CopyTagset(ts)})
	} else {
		sym.Reach("failed")
	}
}

// finish opens what was written and demands all files that were packed.
func (w *work) finish() {
	q := wpk.NewPackage()
	must(q.OpenStream(bytes.NewReader(w.wpt.b)), "a finished package opens")
	sym.Assert(q.TagsetNum() == len(w.want), "exactly the files that were packed are listed")
	data := w.wpt.b
	if w.wpf != nil {
		data = w.wpf.b
	}
	for _, f := range w.want {
		ts, ok := q.GetTagset(f.name)
		sym.Assert(ok && sym.EqBytes(ts, f.ts), "tags of files packed before and after a failure are kept")
		off, size := ts.Pos()
		sym.Assert(size == uint(len(f.data)) && off+size <= uint(len(data)), "extent of files packed before and after a failure is kept")
		sym.Assert(sym.EqBytes(data[off:off+size], f.data), "content of files packed before and after a failure is kept")
	}
	sym.Reach("end")
}

// C21_pack: faults while files are packed.
func C21_pack() {
	c21pack(1)
}

// C21_two: two faults while files are packed.
func C21_two() {
	c21pack(2)
}

func c21pack(faults int) {
	p := somePlan(19, faults, nothing, partly)
	w := &work{Package: wpk.NewPackage(), p: &plan{}, wpt: &rig{}}
	if sym.Bool("split") {
		w.wpf = &rig{}
	}
	w.wpt.p = w.p
	if w.wpf != nil {
		w.wpf.p = w.p
	}
	if !w.do(func() error { return w.Begin(w.wpt, w.f2()) }) {
		return
	}
	*w.p = *p
	file := sym.Bool("file")
	w.put("a", sym.Bytes("a", 4), file)
	w.put("b", sym.Bytes("b", 5), !file)
	w.put("c", sym.Bytes("c", 3), file)
	covered(w.p, 19)
	// the finish is without faults
	w.p.fail = [2]int{}
	if !w.HasTagset("b") && sym.Bool("retry") {
		w.put("b", sym.Bytes("b2", 2), file)
	}
	w.do(func() error { return w.Sync(w.wpt, w.f2()) })
	w.finish()
}

// C21_frame: faults while a package is begun, finalised and opened to append.
func C21_frame() {
	w := &work{Package: wpk.NewPackage(), p: somePlan(100, 1, nothing, partly), wpt: &rig{}}
	if sym.Bool("split") {
		w.wpf = &rig{p: w.p}
	}
	w.wpt.p = w.p
	if sym.Bool("info") {
		w.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag(sym.String("label", 2))))
	}
	if !w.do(func() error { return w.Begin(w.wpt, w.f2()) }) {
		return
	}
	w.put("a", sym.Bytes("a", 2), false)
	if !w.do(func() error { return w.Sync(w.wpt, w.f2()) }) {
		return
	}
	w.finish()
	if sym.Bool("append") {
		w.Package = wpk.NewPackage()
		if !w.do(func() error { return w.OpenStream(w.wpt) }) {
			return
		}
		w.wpt.pos = 0
		if !w.do(func() error { return w.Append(w.wpt, w.f2()) }) {
			return
		}
	}
	w.put("b", sym.Bytes("b", 3), false)
	if !w.do(func() error { return w.Sync(w.wpt, w.f2()) }) {
		return
	}
	covered(w.p, 100)
	w.finish()
}

// written makes a finished package and the table of it.
func written() []byte {
	var m Mem
	pkg := wpk.NewPackage()
	pkg.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag("label")))
	must(pkg.Begin(&m, nil), "package is begun")
	_, err := pkg.PackData(&m, bytes.NewReader(sym.Bytes("data", 3)), "a")
	must(err, "file is packed")
	_, err = pkg.PackData(&m, bytes.NewReader(nil), "bb")
	must(err, "file is packed")
	must(pkg.Sync(&m, nil), "package is finalised")
	return m.B
}

// C21_read: faults while a package or a part of it is read.
func C21_read() {
	b := written()
	w := &work{Package: wpk.NewPackage(), p: somePlan(20, 1, nothing, partly, ended)}
	r := &rig{b: b, p: w.p}
	how := sym.IntRange("how", 0, 3)
	ok := w.do(func() (err error) {
		switch how {
		case 0:
			err = w.OpenStream(r)
		case 1:
			_, _, err = wpk.GetPackageInfo(r)
		case 2:
			var hdr wpk.Header
			_, err = hdr.ReadFrom(r)
		case 3:
			var hdr wpk.Header
			hdr.Parse(b)
			w.Init(&hdr)
			r.pos = int64(le(b[32:40]))
			_, err = w.ReadFrom(r)
		}
		return
	})
	if ok && (how == 0 || how == 3) {
		sym.Assert(w.TagsetNum() == 2, "all is read")
		covered(w.p, 20)
	}
	sym.Reach("end")
}

// C21_write: faults while a table or a header is written.
func C21_write() {
	b := written()
	q := wpk.NewPackage()
	must(q.OpenStream(bytes.NewReader(b)), "package opens")
	w := &work{Package: q, p: somePlan(12, 1, nothing, partly)}
	r := &rig{p: w.p}
	if sym.Bool("header") {
		var hdr wpk.Header
		hdr.Parse(b)
		if w.do(func() (err error) { _, err = hdr.WriteTo(r); return }) {
			sym.Assert(sym.EqBytes(r.b, b[:wpk.HeaderSize]), "the header is written whole")
		}
	} else if w.do(func() (err error) { _, err = q.WriteTo(r); return }) {
		covered(w.p, 12)
		sym.Assert(len(r.b) == int(le(b[40:48])), "the table is written whole")
	}
	sym.Reach("end")
}

// late is an error that says that it is for a short time only.
type late struct{}

func (late) Error() string   { return "try again" }
func (late) Timeout() bool   { return true }
func (late) Temporary() bool { return true }

// C21_kinds: faults of all kinds of errors.
func C21_kinds() {
	errs := []error{
		io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe, fs.ErrClosed, fs.ErrExist, fs.ErrNotExist,
		fs.ErrInvalid, fs.ErrPermission, fs.SkipDir, fs.SkipAll, late{}, &fs.PathError{Op: "write", Path: "p", Err: io.EOF}, wpk.ErrSignPre, wpk.ErrSignBad,
	}
	p := somePlan(44, 1, nothing, partly)
	sym.Assume(p.part < 2)
	p.err = errs[sym.IntRange("err", 0, len(errs)-1)]
	if sym.Bool("read") {
		w := &work{Package: wpk.NewPackage(), p: p}
		r := &rig{b: written(), p: p}
		if sym.Bool("info") {
			w.do(func() (err error) {
				_, _, err = wpk.GetPackageInfo(r)
				return
			})
		} else if w.do(func() error { return w.OpenStream(r) }) {
			sym.Assert(w.TagsetNum() == 2, "all is read")
		}
		sym.Reach("end")
		return
	}
	w := &work{Package: wpk.NewPackage(), p: p, wpt: &rig{p: p}}
	if sym.Bool("split") {
		w.wpf = &rig{p: p}
	}
	if !w.do(func() error { return w.Begin(w.wpt, w.f2()) }) {
		return
	}
	w.put("a", sym.Bytes("a", 2), false)
	w.put("b", []byte("other"), true)
	if w.do(func() error { return w.Sync(w.wpt, w.f2()) }) {
		covered(p, 44)
		w.finish()
	}
}
