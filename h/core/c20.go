package core

import (
	"bytes"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// journal is the sequence of all writes to the files of a package.
type journal struct {
	ops []jop
}

type jop struct {
	file int
	off  int64
	b    []byte
}

// jfile is a file in memory that journals writes.
type jfile struct {
	Mem
	j  *journal
	id int
}

func (f *jfile) Write(p []byte) (int, error) {
	f.j.ops = append(f.j.ops, jop{f.id, f.Pos, append([]byte(nil), p...)})
	return f.Mem.Write(p)
}

// size is the number of bytes of all writes, counting one more for each write.
func (j *journal) size() (n int) {
	for _, o := range j.ops {
		n += len(o.b) + 1
	}
	return
}

// crash gives the files as they are when writing stops at a byte of a write.
func (j *journal) crash(at int) (files [2][]byte, whole bool) {
	for _, o := range j.ops {
		b := o.b
		if at <= len(b) {
			b = b[:at]
			at = -1
		} else {
			at -= len(b) + 1
		}
		if len(b) > 0 {
			end := int(o.off) + len(b)
			if end > len(files[o.file]) {
				nb := make([]byte, end)
				copy(nb, files[o.file])
				files[o.file] = nb
			}
			copy(files[o.file][o.off:], b)
		}
		if at < 0 {
			return files, len(b) == len(o.b) || len(b) == 0
		}
	}
	return files, true
}

// past is a package that is written with a crash possible.
type past struct {
	*wpk.Package
	j        journal
	wpt, wpf *jfile
	ever     []packed // all that was ever packed, under every name it had
	now      []packed
	marks    []mark // completed syncs
}

// mark is a completed sync.
type mark struct {
	end, next int // size of the journal after it, and when the next one began
	list      []packed
}

func newPast(split bool) *past {
	p := &past{Package: wpk.NewPackage()}
	p.wpt = &jfile{j: &p.j, id: 0}
	if split {
		p.wpf = &jfile{j: &p.j, id: 1}
		must(p.Begin(p.wpt, p.wpf), "package is begun")
	} else {
		must(p.Begin(p.wpt, nil), "package is begun")
	}
	return p
}

func (p *past) put(name string, data []byte) {
	w := p.wpt
	if p.wpf != nil {
		w = p.wpf
	}
	ts, err := p.PackData(w, bytes.NewReader(data), name)
	must(err, "file is packed")
	f := packed{name, data, wpk.CopyTagset(ts)}
	p.ever, p.now = append(p.ever, f), append(p.now, f)
}

func (p *past) rename(k int, name string) {
	f := p.now[k]
	must(p.Rename(f.name, name), "file is renamed")
	ts, _ := p.GetTagset(name)
	f.name, f.ts = name, wpk.CopyTagset(ts)
	p.now = append(append(append([]packed{}, p.now[:k]...), p.now[k+1:]...), f)
	p.ever = append(p.ever, f)
}

func (p *past) del(k int) {
	p.DelTagset(p.now[k].name)
	p.now = append(append([]packed{}, p.now[:k]...), p.now[k+1:]...)
}

func (p *past) sync() {
	begin := p.j.size()
	if n := len(p.marks); n > 0 {
		p.marks[n-1].next = begin
	}
	if p.wpf != nil {
		must(p.Sync(p.wpt, p.wpf), "package is finalised")
	} else {
		must(p.Sync(p.wpt, nil), "package is finalised")
	}
	p.marks = append(p.marks, mark{p.j.size(), -1, append([]packed{}, p.now...)})
}

// reopen opens the finished package to append.
func (p *past) reopen() {
	q := wpk.NewPackage()
	must(q.OpenStream(bytes.NewReader(p.wpt.B)), "package is opened to append")
	p.Package = q
	p.wpt.Pos = 0
	if p.wpf != nil {
		p.wpf.Pos = 0
		must(p.Append(p.wpt, p.wpf), "append starts")
	} else {
		must(p.Append(p.wpt, nil), "append starts")
	}
}

// check demands that a crash at any byte from one leaves nothing wrong.
func (p *past) check(from int) {
	p.checkAt(sym.IntRange("crash", from, p.j.size()))
}

func (p *past) checkAt(at int) {
	total := p.j.size()
	files, whole := p.j.crash(at)
	data := files[0]
	if p.wpf != nil {
		data = files[1]
	}
	q := wpk.NewPackage()
	err := q.OpenStream(bytes.NewReader(files[0]))
	if p.wpf != nil && whole {
		for _, m := range p.marks {
			if at >= m.end && (m.next < 0 || at <= m.next) {
				sym.Assert(err == nil && q.TagsetNum() == len(m.list), "a completed state of a split package stays readable")
				sym.Reach("kept")
			}
		}
	}
	if at == total {
		sym.Assert(err == nil && q.TagsetNum() == len(p.now), "a finished package opens")
	}
	if err != nil {
		if whole && p.wpf == nil {
			sym.Assert(err == wpk.ErrSignPre || len(files[0]) < wpk.HeaderSize, "a package in progress is refused as not ready")
		}
		sym.Reach("refused")
		return
	}
	q.Enum(func(name string, ts wpk.TagsetRaw) bool {
		hit := false
		for _, f := range p.ever {
			if f.name != name {
				continue
			}
			off, size := ts.Pos()
			if size != uint(len(f.data)) || off > uint(len(data)) || size > uint(len(data))-off {
				continue
			}
			hit = sym.Or(hit, sym.And(sym.EqBytes(ts, f.ts), sym.EqBytes(data[off:off+size], f.data)))
		}
		sym.Assert(hit, "every file that is listed is one that was packed, with its tags and content")
		return true
	})
	sym.Reach("opened")
}

// C20_create: a new package.
func C20_create() {
	p := newPast(sym.Bool("split"))
	n := sym.IntRange("files", 0, 2)
	for i := 0; i < n; i++ {
		p.put(string(rune('a'+i)), sym.Bytes("data"+string(rune('a'+i)), 2))
	}
	p.sync()
	p.check(0)
}

// C20_append: new files behind a finished package.
func C20_append() {
	p := newPast(sym.Bool("split"))
	has := sym.Bool("has") // package was not empty
	if has {
		p.put("a", sym.Bytes("old", 2))
	}
	p.sync()
	from := p.j.size()
	p.reopen()
	n := sym.IntRange("size", 0, 3)
	if n == 3 {
		n = 20 // room for a table
	}
	p.put("b", sym.Bytes("new", n))
	edits := 0
	if has {
		edits = 2
	}
	switch sym.IntRange("edit", 0, edits) {
	case 1:
		p.del(0)
	case 2:
		p.rename(0, "c")
	}
	p.sync()
	p.check(from)
}

// C20_table: data that looks like a table in the place of the old table.
func C20_table() {
	p := newPast(false)
	d := sym.Bytes("old", 1)
	p.put("a", d)
	p.sync()
	from := p.j.size()
	size := int(le(p.wpt.B[40:48]))
	p.reopen()
	p.put("b", sym.Bytes("new", size))
	p.sync()
	p.check(from)
}

// C20_split: states of a split package that change the table in place.
func C20_split() {
	p := newPast(true)
	names := []string{"a", "b", "cc"}
	for i, n := range names {
		p.put(n, sym.Bytes(n, 1+i%2))
	}
	p.sync()
	from := p.j.size()
	if sym.Bool("reopen") {
		p.reopen()
	}
	switch sym.IntRange("edit", 0, 3) {
	case 0:
		p.put(strings.Repeat("n", sym.IntRange("len", 1, 2)), sym.Bytes("new", 1))
	case 1:
		p.del(sym.IntRange("which", 0, 2))
	case 2:
		p.rename(sym.IntRange("which", 0, 2), "d")
	case 3:
		p.rename(0, "d")
		p.rename(0, "a")
	}
	p.sync()
	p.check(from)
}

// C20_again: a finished single-file package that is finalised again.
func C20_again() {
	p := newPast(false)
	for i, n := range []string{"a", "b", "c"} {
		p.put(n, sym.Bytes(n, 1+i%2))
	}
	p.sync()
	from := p.j.size()
	switch sym.IntRange("edit", 0, 2) {
	case 1:
		p.del(sym.IntRange("which", 0, 2))
	case 2:
		p.rename(sym.IntRange("which", 0, 2), "d")
	}
	p.sync()
	p.check(from)
}

// C20_begin: a new package in the place of an old one.
func C20_begin() {
	p := newPast(sym.Bool("was.split"))
	p.put("a", sym.Bytes("a", 2))
	p.sync()
	from := p.j.size()
	p.Package = wpk.NewPackage()
	split := p.wpf != nil
	p.now, p.marks = nil, nil
	p.wpt.Pos = 0
	if split {
		p.wpf.Pos = 0
		must(p.Begin(p.wpt, p.wpf), "package is begun")
	} else {
		must(p.Begin(p.wpt, nil), "package is begun")
	}
	p.put("b", sym.Bytes("b", 2))
	p.sync()
	p.check(from)
}

// C20_large: many files, and large ones; writing stops at some places of any write.
func C20_large() {
	split := sym.Bool("split")
	p := newPast(split)
	from := 0
	for i := 0; i < 6; i++ {
		p.put(forest[i], blob("old"+string(rune('0'+i)), []int{33000, 0, 3, 300, 1, 70000}[i]))
	}
	p.sync()
	if sym.Bool("more") {
		from = p.j.size()
		p.reopen()
		for i := 6; i < 10; i++ {
			p.put(forest[i], blob("new"+string(rune('0'+i)), []int{5, 33000, 0, 300}[i-6]))
		}
		p.sync()
	}
	var at []int
	sum := 0
	for _, o := range p.j.ops {
		for _, k := range []int{0, 1, len(o.b) / 2, len(o.b)} {
			if sum+k >= from && (len(at) == 0 || at[len(at)-1] < sum+k) {
				at = append(at, sum+k)
			}
		}
		sum += len(o.b) + 1
	}
	p.checkAt(at[sym.IntRange("crash", 0, len(at)-1)])
}
