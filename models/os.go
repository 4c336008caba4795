package models

import (
	"io"
	"io/fs"
	"os"
	"sort"
	"syscall"
	"time"
)

// node is a file, directory or symbolic link of the file system in memory.
type node struct {
	name   string
	dir    bool
	link   bool
	data   []byte
	hole   int64 // zeros before the data, of a sparse file
	target string
	kids   []*node
	parent *node
	mode   fs.FileMode
	at, mt time.Time
	ino    uint64
	full   bool // no space is left
}

var vroot *node
var inoN uint64

func mk(p *node, name string) *node {
	inoN++
	n := &node{name: name, parent: p, ino: inoN, at: time.Unix(1600000000, 0), mt: time.Unix(1600000000, 0)}
	p.kids = append(p.kids, n)
	return n
}

func root() *node {
	if vroot == nil {
		vroot = &node{dir: true, mode: 0755}
		vroot.parent = vroot
		for _, s := range []string{"r", "tmp"} {
			n := mk(vroot, s)
			n.dir, n.mode = true, 0777
		}
		d := mk(vroot, "dev")
		d.dir, d.mode = true, 0755
		f := mk(d, "full")
		f.full, f.mode = true, 0666
	}
	return vroot
}

func (n *node) size() int64 { return n.hole + int64(len(n.data)) }

// bytes are all bytes of the file.
func (n *node) bytes() []byte {
	if n.hole > 0 {
		n.data, n.hole = append(make([]byte, n.hole), n.data...), 0
	}
	return n.data
}

// resize cuts the file or fills it up by zeros; large empty space costs nothing.
func (n *node) resize(size int64) {
	if len(n.data) == 0 && size >= 1<<24 {
		n.data, n.hole = nil, size
		return
	}
	nd := make([]byte, size)
	copy(nd, n.bytes())
	n.data = nd
}

func (n *node) kid(name string) *node {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

// walk resolves a path. It gives the directory of the last element, the name of
// the last element and the node if it exists.
func walk(cur *node, path string, follow bool, depth int) (dir *node, name string, n *node, e syscall.Errno) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if depth > 8 {
		return nil, "", nil, syscall.ELOOP
	}
	for i := 0; i < len(path); i++ {
		if path[i] == 0 {
			return nil, "", nil, syscall.EINVAL
		}
	}
	i := 0
	if path[0] == '/' {
		cur = root()
	}
	n, dir = cur, cur.parent
	name = "."
	for {
		slash := false
		for i < len(path) && path[i] == '/' {
			i++
			slash = true
		}
		if slash && n != nil && !n.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if i >= len(path) {
			return
		}
		j := i
		for j < len(path) && path[j] != '/' {
			j++
		}
		el := path[i:j]
		if n == nil {
			return nil, "", nil, syscall.ENOENT
		}
		if !n.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(el) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		i = j
		if el == "." {
			name = "."
			continue
		}
		if el == ".." {
			n = n.parent
			dir, name = n.parent, ".."
			continue
		}
		dir, name = n, el
		n = dir.kid(el)
		if n != nil && n.link && (follow || i < len(path)) {
			d2, name2, n2, e2 := walk(dir, n.target, true, depth+1)
			if e2 != 0 {
				return nil, "", nil, e2
			}
			dir, name, n = d2, name2, n2
		}
	}
}

func look(path string, follow bool) (*node, syscall.Errno) {
	_, _, n, e := walk(cwd(), path, follow, 0)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	return n, e
}

// cwd is the working directory.
func cwd() *node { return root().kid("r") }

func perr(op, path string, e syscall.Errno) error {
	return &fs.PathError{Op: op, Path: path, Err: e}
}

type info struct {
	name string
	n    *node
	size int64
	st   *syscall.Stat_t
	mt   time.Time
	mode fs.FileMode
}

func infoOf(name string, n *node) *info {
	i := &info{name: name, n: n, size: n.size(), mt: n.mt, mode: n.fmode()}
	i.st = &syscall.Stat_t{Size: i.size, Ino: n.ino,
		Atim: syscall.Timespec{Sec: n.at.Unix(), Nsec: int64(n.at.Nanosecond())},
		Mtim: syscall.Timespec{Sec: n.mt.Unix(), Nsec: int64(n.mt.Nanosecond())},
		Ctim: syscall.Timespec{Sec: 1600000001, Nsec: 5},
	}
	return i
}

func (n *node) fmode() fs.FileMode {
	m := n.mode
	if n.dir {
		m |= fs.ModeDir
	}
	if n.link {
		m |= fs.ModeSymlink
	}
	return m
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() fs.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return i.mt }
func (i *info) IsDir() bool        { return i.mode.IsDir() }
func (i *info) Sys() any           { return i.st }

type dirent struct{ n *node }

func (d dirent) Name() string               { return d.n.name }
func (d dirent) IsDir() bool                { return d.n.dir }
func (d dirent) Type() fs.FileMode          { return d.n.fmode().Type() }
func (d dirent) Info() (fs.FileInfo, error) { return infoOf(d.n.name, d.n), nil }

func base(p string) string {
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' && i+1 < len(p) {
			return p[i+1:]
		}
	}
	return p
}

// handle is the state of an open file.
type handle struct {
	path   string
	n      *node
	pos    int64
	flag   int
	closed bool
	list   []*node
	lpos   int
	fd     int
}

var handles = map[*os.File]*handle{}
var byFd = map[int]*handle{}
var nextFd = 10

// OpenCount is the number of files opened and not closed.
var OpenCount int

// fileLimit is the number of files that can be open, if it is positive.
var fileLimit int

//sym:replace os.OpenFile os.openFileNolog
func openFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	dir, el, n, e := walk(cwd(), name, true, 0)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if name[len(name)-1] == '/' {
			return nil, perr("open", name, syscall.EISDIR)
		}
		n = mk(dir, el)
		n.mode = perm & 0777
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && (wr || flag&os.O_CREATE != 0) {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_WRONLY == 0 && n.mode&0400 == 0 || wr && n.mode&0200 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&os.O_TRUNC != 0 && !n.dir {
			n.data, n.hole = nil, 0
		}
	}
	if fileLimit > 0 && OpenCount >= fileLimit {
		return nil, perr("open", name, syscall.EMFILE)
	}
	f := new(os.File)
	nextFd++
	h := &handle{path: name, n: n, flag: flag, fd: nextFd}
	handles[f] = h
	byFd[h.fd] = h
	OpenCount++
	return f, nil
}

//sym:replace os.Open
func open(name string) (*os.File, error) { return openFile(name, os.O_RDONLY, 0) }

//sym:replace os.Create
func create(name string) (*os.File, error) {
	return openFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func hof(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, os.ErrInvalid
	}
	if h.closed {
		return nil, &fs.PathError{Op: op, Path: h.path, Err: os.ErrClosed}
	}
	return h, nil
}

func (h *handle) readAt(b []byte, off int64) int {
	if off >= h.n.size() {
		return 0
	}
	if hole := h.n.hole; hole > 0 {
		if off >= hole {
			return copy(b, h.n.data[off-hole:])
		}
		n := int64(len(b))
		if n > hole-off {
			n = hole - off
		}
		copy(b, make([]byte, n))
		return int(n) + copy(b[n:], h.n.data)
	}
	return copy(b, h.n.data[off:])
}

//sym:replace (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	h, err := hof(f, "read")
	if err != nil {
		return 0, err
	}
	if h.n.dir {
		return 0, perr("read", h.path, syscall.EISDIR)
	}
	if h.flag&os.O_WRONLY != 0 {
		return 0, perr("read", h.path, syscall.EBADF)
	}
	n := h.readAt(b, h.pos)
	h.pos += int64(n)
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

//sym:replace (*os.File).ReadAt
func fileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := hof(f, "read")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: h.path, Err: os.ErrInvalid}
	}
	if h.n.dir {
		return 0, perr("read", h.path, syscall.EISDIR)
	}
	if h.flag&os.O_WRONLY != 0 {
		return 0, perr("read", h.path, syscall.EBADF)
	}
	n := h.readAt(b, off)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (h *handle) writeAt(b []byte, off int64) {
	if off < h.n.hole {
		h.n.bytes()
	}
	off -= h.n.hole
	if end := off + int64(len(b)); end > int64(len(h.n.data)) {
		h.n.data = append(h.n.data, make([]byte, end-int64(len(h.n.data)))...)
	}
	copy(h.n.data[off:], b)
	h.n.mt = time.Unix(1700000000, 0)
}

//sym:replace os.SameFile
func sameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n == y.n
}

//sym:replace (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	h, err := hof(f, "write")
	if err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.path, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.n.full {
		return 0, perr("write", h.path, syscall.ENOSPC)
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = h.n.size()
	}
	h.writeAt(b, h.pos)
	h.pos += int64(len(b))
	return len(b), nil
}

//sym:replace (*os.File).WriteAt
func fileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := hof(f, "write")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "writeat", Path: h.path, Err: os.ErrInvalid}
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.path, syscall.EBADF)
	}
	h.writeAt(b, off)
	return len(b), nil
}

//sym:replace (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//sym:replace (*os.File).Seek
func fileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := hof(f, "seek")
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += h.pos
	case io.SeekEnd:
		off += h.n.size()
	default:
		return 0, perr("seek", h.path, syscall.EINVAL)
	}
	if off < 0 {
		return 0, perr("seek", h.path, syscall.EINVAL)
	}
	h.pos = off
	return off, nil
}

//sym:replace (*os.File).Close
func fileClose(f *os.File) error {
	h, err := hof(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	OpenCount--
	return nil
}

//sym:replace (*os.File).Stat
func fileStat(f *os.File) (fs.FileInfo, error) {
	h, err := hof(f, "stat")
	if err != nil {
		return nil, err
	}
	return infoOf(base(h.path), h.n), nil
}

//sym:replace (*os.File).Name
func fileName(f *os.File) string { return handles[f].path }

//sym:replace (*os.File).Fd
func fileFd(f *os.File) uintptr {
	h, err := hof(f, "fd")
	if err != nil {
		return ^uintptr(0)
	}
	return uintptr(h.fd)
}

//sym:replace (*os.File).Sync
func fileSync(f *os.File) error { _, err := hof(f, "sync"); return err }

//sym:replace (*os.File).Truncate
func fileTruncate(f *os.File, size int64) error {
	h, err := hof(f, "truncate")
	if err != nil {
		return err
	}
	if size < 0 || h.n.dir {
		return perr("truncate", h.path, syscall.EINVAL)
	}
	h.n.resize(size)
	return nil
}

//sym:replace (*os.File).ReadFrom
func fileReadFrom(f *os.File, r io.Reader) (n int64, err error) {
	if _, err = hof(f, "write"); err != nil {
		return
	}
	buf := make([]byte, 512)
	for {
		k, e := r.Read(buf)
		if k > 0 {
			w, e := fileWrite(f, buf[:k])
			n += int64(w)
			if e != nil {
				return n, e
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

//sym:replace (*os.File).WriteTo
func fileWriteTo(f *os.File, w io.Writer) (n int64, err error) {
	if _, err = hof(f, "read"); err != nil {
		return
	}
	buf := make([]byte, 512)
	for {
		k, e := fileRead(f, buf)
		if k > 0 {
			x, e := w.Write(buf[:k])
			n += int64(x)
			if e != nil {
				return n, e
			}
			if x < k {
				return n, io.ErrShortWrite
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

func (h *handle) next(n int) (list []*node, err error) {
	if !h.n.dir {
		return nil, perr("readdirent", h.path, syscall.ENOTDIR)
	}
	if h.list == nil {
		h.list = append([]*node{}, h.n.kids...)
		sort.Slice(h.list, func(i, j int) bool { return h.list[i].name < h.list[j].name })
	}
	for h.lpos < len(h.list) && (n <= 0 || len(list) < n) {
		list = append(list, h.list[h.lpos])
		h.lpos++
	}
	if n > 0 && len(list) == 0 {
		err = io.EOF
	}
	return
}

//sym:replace (*os.File).ReadDir
func fileReadDir(f *os.File, n int) (list []fs.DirEntry, err error) {
	h, err := hof(f, "readdir")
	if err != nil {
		return nil, err
	}
	l, err := h.next(n)
	for _, k := range l {
		list = append(list, dirent{k})
	}
	return
}

//sym:replace (*os.File).Readdirnames
func fileReaddirnames(f *os.File, n int) (list []string, err error) {
	h, err := hof(f, "readdir")
	if err != nil {
		return nil, err
	}
	l, err := h.next(n)
	for _, k := range l {
		list = append(list, k.name)
	}
	return
}

//sym:replace (*os.File).Readdir
func fileReaddir(f *os.File, n int) (list []fs.FileInfo, err error) {
	h, err := hof(f, "readdir")
	if err != nil {
		return nil, err
	}
	l, err := h.next(n)
	for _, k := range l {
		list = append(list, infoOf(k.name, k))
	}
	return
}

//sym:replace os.ReadDir
func readDir(name string) ([]fs.DirEntry, error) {
	f, err := open(name)
	if err != nil {
		return nil, err
	}
	defer fileClose(f)
	return fileReadDir(f, -1)
}

//sym:replace os.ReadFile
func readFile(name string) ([]byte, error) {
	n, e := look(name, true)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	if n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	if n.mode&0400 == 0 {
		return nil, perr("open", name, syscall.EACCES)
	}
	return append([]byte{}, n.bytes()...), nil
}

//sym:replace os.WriteFile
func writeFile(name string, data []byte, perm fs.FileMode) error {
	f, err := openFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	defer fileClose(f)
	_, err = fileWrite(f, data)
	return err
}

//sym:replace os.Stat
func stat(name string) (fs.FileInfo, error) {
	n, e := look(name, true)
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return infoOf(base(name), n), nil
}

//sym:replace os.Lstat
func lstat(name string) (fs.FileInfo, error) {
	n, e := look(name, false)
	if e != 0 {
		return nil, perr("lstat", name, e)
	}
	return infoOf(base(name), n), nil
}

//sym:replace os.Mkdir
func mkdir(name string, perm fs.FileMode) error {
	dir, el, n, e := walk(cwd(), name, false, 0)
	if e != 0 {
		return perr("mkdir", name, e)
	}
	if n != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	n = mk(dir, el)
	n.dir, n.mode = true, perm&0777
	return nil
}

// mkdirAll follows os.MkdirAll.
//
//sym:replace os.MkdirAll
func mkdirAll(path string, perm fs.FileMode) error {
	n, e := look(path, true)
	if e == 0 {
		if n.dir {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	i := len(path) - 1
	for i >= 0 && path[i] == '/' {
		i--
	}
	for i >= 0 && path[i] != '/' {
		i--
	}
	if i > 0 {
		if err := mkdirAll(path[:i], perm); err != nil {
			return err
		}
	}
	err := mkdir(path, perm)
	if err != nil {
		if n, e := look(path, false); e == 0 && n.dir {
			return nil
		}
		return err
	}
	return nil
}

//sym:replace os.Symlink
func symlink(oldname, newname string) error {
	dir, el, n, e := walk(cwd(), newname, false, 0)
	if e != 0 {
		return perr("symlink", newname, e)
	}
	if n != nil {
		return perr("symlink", newname, syscall.EEXIST)
	}
	n = mk(dir, el)
	n.link, n.target, n.mode = true, oldname, 0777
	return nil
}

func unlink(n *node) {
	for i, k := range n.parent.kids {
		if k == n {
			n.parent.kids = append(append([]*node{}, n.parent.kids[:i]...), n.parent.kids[i+1:]...)
			return
		}
	}
}

//sym:replace os.Remove
func remove(name string) error {
	n, e := look(name, false)
	if e != 0 {
		return perr("remove", name, e)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	unlink(n)
	return nil
}

//sym:replace os.RemoveAll
func removeAll(name string) error {
	n, e := look(name, false)
	if e != 0 {
		return nil
	}
	unlink(n)
	return nil
}

//sym:replace os.Rename
func rename(a, b string) error {
	n, e := look(a, false)
	if e != 0 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	dir, el, t, e := walk(cwd(), b, false, 0)
	if e != 0 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	if t == n {
		return nil
	}
	if t != nil {
		if t.dir {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
		}
		unlink(t)
	}
	unlink(n)
	n.name, n.parent = el, dir
	dir.kids = append(dir.kids, n)
	return nil
}

//sym:replace os.Truncate
func truncate(name string, size int64) error {
	n, e := look(name, true)
	if e != 0 {
		return perr("truncate", name, e)
	}
	n.resize(size)
	return nil
}

//sym:replace os.Chtimes
func chtimes(name string, at, mt time.Time) error {
	n, e := look(name, true)
	if e != 0 {
		return perr("chtimes", name, e)
	}
	if n.full { // the device is not ours
		return perr("chtimes", name, syscall.EPERM)
	}
	n.at, n.mt = at, mt
	return nil
}

//sym:replace os.Chmod
func chmod(name string, mode fs.FileMode) error {
	n, e := look(name, true)
	if e != 0 {
		return perr("chmod", name, e)
	}
	n.mode = mode & 0777
	return nil
}

//sym:replace os.TempDir
func tempDir() string { return "/tmp" }

//sym:replace os.Getpagesize syscall.Getpagesize
func getpagesize() int { return 4096 }

//sym:replace os.Executable
func executable() (string, error) { return "/r/bin/prog", nil }

//sym:replace os.Getwd
func getwd() (string, error) { return "/r", nil }

// environment

type envVar struct{ k, v string }

var environ []envVar

//sym:replace os.LookupEnv syscall.Getenv
func lookupEnv(key string) (string, bool) {
	for _, e := range environ {
		if e.k == key {
			return e.v, true
		}
	}
	return "", false
}

//sym:replace os.Getenv
func getenv(key string) string { v, _ := lookupEnv(key); return v }

//sym:replace os.Setenv
func setenv(key, value string) error {
	for i := range environ {
		if environ[i].k == key {
			environ[i].v = value
			return nil
		}
	}
	environ = append(environ, envVar{key, value})
	return nil
}

//sym:replace os.Unsetenv
func unsetenv(key string) error {
	for i := range environ {
		if environ[i].k == key {
			environ = append(append([]envVar{}, environ[:i]...), environ[i+1:]...)
			return nil
		}
	}
	return nil
}

// memory mapping

// mapMem makes a slice of the given length backed by data only. Intrinsic.
func mapMem(data []byte, length int) []byte { return nil }

// freeMem makes further access to b fault. Intrinsic.
func freeMem(b []byte) {}

var maps []*mapping

type mapping struct {
	p    *byte
	n    int
	live bool
}

//sym:replace golang.org/x/sys/unix.Mmap syscall.Mmap
func mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	h := byFd[fd]
	if h == nil || h.closed {
		return nil, syscall.EBADF
	}
	if length <= 0 || offset < 0 || offset%4096 != 0 {
		return nil, syscall.EINVAL
	}
	if offset > 1<<62 {
		return nil, syscall.EOVERFLOW
	}
	if length > 1<<46 {
		return nil, syscall.ENOMEM
	}
	var data []byte
	size := h.n.size()
	if offset < size {
		pages := (size - offset + 4095) / 4096 * 4096
		if pages > int64(length) {
			pages = int64(length)
		}
		data = make([]byte, pages)
		h.readAt(data, offset)
	}
	b := mapMem(data, length)
	maps = append(maps, &mapping{&b[:1][0], length, true})
	return b, nil
}

//sym:replace golang.org/x/sys/unix.Munmap syscall.Munmap
func munmap(b []byte) error {
	if len(b) == 0 {
		return syscall.EINVAL
	}
	p := &b[0]
	for _, m := range maps {
		if m.live && m.p == p && m.n == len(b) {
			m.live = false
			freeMem(b)
			return nil
		}
	}
	return syscall.EINVAL
}
