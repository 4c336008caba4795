package core

import (
	"errors"
	"io"
)

// le is the little-endian value of b, without forking.
func le(b []byte) (v uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return
}

// put writes v to b in little-endian order.
func put(b []byte, v uint64) {
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
}

var errIO = errors.New("injected i/o error")

// Frag is a reader delivering a byte string in pieces.
type Frag struct {
	B       []byte
	Pos     int64
	Max     int     // largest piece, 0 for no limit
	Cuts    []int64 // no piece crosses one of these positions
	EOFData bool    // report the end together with the last piece
}

func (r *Frag) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.Pos >= int64(len(r.B)) {
		return 0, io.EOF
	}
	n := int64(len(p))
	if r.Max > 0 && n > int64(r.Max) {
		n = int64(r.Max)
	}
	for _, c := range r.Cuts {
		if r.Pos < c && r.Pos+n > c {
			n = c - r.Pos
		}
	}
	if r.Pos+n > int64(len(r.B)) {
		n = int64(len(r.B)) - r.Pos
	}
	copy(p, r.B[r.Pos:r.Pos+n])
	r.Pos += n
	if r.EOFData && r.Pos == int64(len(r.B)) {
		return int(n), io.EOF
	}
	return int(n), nil
}

func (r *Frag) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += r.Pos
	case io.SeekEnd:
		off += int64(len(r.B))
	default:
		return 0, errors.New("seek: invalid whence")
	}
	if off < 0 {
		return 0, errors.New("seek: negative position")
	}
	r.Pos = off
	return off, nil
}

// Mem is a file in memory. Every read, write and seek is one step of I/O, and
// the step number Fail is carried out with the given Fault.
type Mem struct {
	B     []byte
	Pos   int64
	Step  *int // steps done so far, may be shared by several files
	Fail  int  // step that fails, counted from 1; 0 for none
	Fault int
	Part  int // bytes transferred by a short transfer
	Hit   bool
	Log   []Wop // writes done
	Rec   bool  // record the log
}

// Wop is one write.
type Wop struct {
	Off int64
	B   []byte
}

// Faults.
const (
	FaultErr   = iota // nothing is transferred, an error is returned
	FaultShort        // Part bytes are transferred, an error is returned
)

func newMem() *Mem { return &Mem{Step: new(int)} }

func (f *Mem) step() bool {
	if f.Step == nil {
		f.Step = new(int)
	}
	*f.Step++
	if f.Fail != 0 && *f.Step == f.Fail {
		f.Hit = true
		return true
	}
	return false
}

func (f *Mem) write(p []byte) {
	end := f.Pos + int64(len(p))
	if len(p) > 0 && end > int64(len(f.B)) {
		nb := make([]byte, end)
		copy(nb, f.B)
		f.B = nb
	}
	if len(p) > 0 {
		copy(f.B[f.Pos:], p)
	}
	if f.Rec {
		f.Log = append(f.Log, Wop{f.Pos, append([]byte(nil), p...)})
	}
	f.Pos = end
}

func (f *Mem) Write(p []byte) (int, error) {
	if f.step() {
		n := 0
		if f.Fault == FaultShort {
			n = f.Part
			if n >= len(p) {
				n = len(p) - 1
			}
			if n < 0 {
				n = 0
			}
			f.write(p[:n])
		}
		return n, errIO
	}
	f.write(p)
	return len(p), nil
}

func (f *Mem) Read(p []byte) (int, error) {
	fail := f.step()
	if len(p) == 0 && !fail {
		return 0, nil
	}
	n := 0
	if f.Pos < int64(len(f.B)) {
		n = copy(p, f.B[f.Pos:])
	}
	if fail {
		if f.Fault != FaultShort {
			return 0, errIO
		}
		if n > f.Part {
			n = f.Part
		}
		f.Pos += int64(n)
		return n, errIO
	}
	f.Pos += int64(n)
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *Mem) Seek(off int64, whence int) (int64, error) {
	if f.step() {
		return 0, errIO
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.Pos
	case io.SeekEnd:
		off += int64(len(f.B))
	default:
		return 0, errors.New("seek: invalid whence")
	}
	if off < 0 {
		return 0, errors.New("seek: negative position")
	}
	f.Pos = off
	return off, nil
}

// sink collects what is written.
type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}
