package models

import (
	xhash "hash"
	xcrc32 "hash/crc32"
	xcrc64 "hash/crc64"
)

// Digests are not computed: a sum is the record of all that it is made of, so
// that sums are equal only for equal algorithms, keys and data. Checksums are
// computed bit by bit.

type digest struct {
	alg  byte
	size int
	data []byte
}

func (d *digest) Write(p []byte) (int, error) {
	d.data = append(d.data, p...)
	return len(p), nil
}

func (d *digest) WriteString(s string) (int, error) { return d.Write([]byte(s)) }

func (d *digest) Sum(b []byte) []byte {
	if len(d.data) <= 1<<15 {
		return append(append(b, d.alg), d.data...)
	}
	// long data is recorded by its length, the symbolic bytes and a checksum of the others
	put := func(v uint64) {
		for i := 0; i < 8; i++ {
			b = append(b, byte(v>>(8*i)))
		}
	}
	b = append(b, d.alg)
	put(uint64(len(d.data)))
	var sum uint64
	for i := 0; i < len(d.data); i++ {
		var n int
		sum, n = crcRun(sum, xcrc64.ECMA, d.data[i:])
		if i += n; i < len(d.data) {
			put(uint64(i))
			b = append(b, d.data[i])
		}
	}
	put(sum)
	return b
}

func (d *digest) Reset()    { d.data = nil }
func (d *digest) Size() int { return d.size }
func (d *digest) BlockSize() int {
	if d.size > 32 {
		return 128
	}
	return 64
}

//sym:replace crypto/md5.New
func md5New() xhash.Hash { return &digest{alg: 1, size: 16} }

//sym:replace crypto/sha1.New
func sha1New() xhash.Hash { return &digest{alg: 2, size: 20} }

//sym:replace crypto/sha256.New224
func sha224New() xhash.Hash { return &digest{alg: 3, size: 28} }

//sym:replace crypto/sha256.New
func sha256New() xhash.Hash { return &digest{alg: 4, size: 32} }

//sym:replace crypto/sha512.New384
func sha384New() xhash.Hash { return &digest{alg: 5, size: 48} }

//sym:replace crypto/sha512.New
func sha512New() xhash.Hash { return &digest{alg: 6, size: 64} }

//sym:replace crypto/sha512.New512_224
func sha512t224New() xhash.Hash { return &digest{alg: 7, size: 28} }

//sym:replace crypto/sha512.New512_256
func sha512t256New() xhash.Hash { return &digest{alg: 8, size: 32} }

// mac is a keyed digest.
type mac struct {
	xhash.Hash
	key []byte
}

func (m *mac) Sum(b []byte) []byte {
	// short keys are padded, so those that differ in zeros at the end are the same
	n := max(m.BlockSize(), len(m.key))
	b = append(b, 0x80, byte(n), byte(n>>8))
	b = append(b, m.key...)
	for i := len(m.key); i < n; i++ {
		b = append(b, 0)
	}
	return m.Hash.Sum(b)
}

//sym:replace crypto/hmac.New
func hmacNew(h func() xhash.Hash, key []byte) xhash.Hash {
	return &mac{h(), append([]byte{}, key...)}
}

// crcRun takes constant bytes p[:n] in a constant register. Intrinsic.
func crcRun(crc, poly uint64, p []byte) (next uint64, n int) { return crc, 0 }

//sym:replace hash/crc32.MakeTable
func crc32Make(poly uint32) *xcrc32.Table {
	t := &xcrc32.Table{}
	t[128] = poly // as in the true table
	return t
}

//sym:replace hash/crc32.Update
func crc32Update(crc uint32, t *xcrc32.Table, p []byte) uint32 {
	run, n := crcRun(uint64(^crc), uint64(t[128]), p)
	crc = uint32(run)
	for _, b := range p[n:] {
		crc ^= uint32(b)
		for i := 0; i < 8; i++ {
			crc = crc>>1 ^ t[128]&-(crc&1)
		}
	}
	return ^crc
}

//sym:replace hash/crc32.Checksum
func crc32Checksum(p []byte, t *xcrc32.Table) uint32 { return crc32Update(0, t, p) }

//sym:replace hash/crc32.ChecksumIEEE
func crc32IEEE(p []byte) uint32 { return crc32Update(0, crc32Make(xcrc32.IEEE), p) }

type sum32 struct {
	t   *xcrc32.Table
	crc uint32
}

func (d *sum32) Write(p []byte) (int, error) {
	d.crc = crc32Update(d.crc, d.t, p)
	return len(p), nil
}
func (d *sum32) Sum(b []byte) []byte {
	return append(b, byte(d.crc>>24), byte(d.crc>>16), byte(d.crc>>8), byte(d.crc))
}
func (d *sum32) Sum32() uint32  { return d.crc }
func (d *sum32) Reset()         { d.crc = 0 }
func (d *sum32) Size() int      { return 4 }
func (d *sum32) BlockSize() int { return 1 }

//sym:replace hash/crc32.New
func crc32New(t *xcrc32.Table) xhash.Hash32 { return &sum32{t, 0} }

//sym:replace hash/crc32.NewIEEE
func crc32NewIEEE() xhash.Hash32 { return &sum32{crc32Make(xcrc32.IEEE), 0} }

//sym:replace hash/crc64.MakeTable
func crc64Make(poly uint64) *xcrc64.Table {
	t := &xcrc64.Table{}
	t[128] = poly
	return t
}

//sym:replace hash/crc64.Update
func crc64Update(crc uint64, t *xcrc64.Table, p []byte) uint64 {
	crc, n := crcRun(^crc, t[128], p)
	for _, b := range p[n:] {
		crc ^= uint64(b)
		for i := 0; i < 8; i++ {
			crc = crc>>1 ^ t[128]&-(crc&1)
		}
	}
	return ^crc
}

//sym:replace hash/crc64.Checksum
func crc64Checksum(p []byte, t *xcrc64.Table) uint64 { return crc64Update(0, t, p) }

type sum64 struct {
	t   *xcrc64.Table
	crc uint64
}

func (d *sum64) Write(p []byte) (int, error) {
	d.crc = crc64Update(d.crc, d.t, p)
	return len(p), nil
}
func (d *sum64) Sum(b []byte) []byte {
	for i := 56; i >= 0; i -= 8 {
		b = append(b, byte(d.crc>>i))
	}
	return b
}
func (d *sum64) Sum64() uint64  { return d.crc }
func (d *sum64) Reset()         { d.crc = 0 }
func (d *sum64) Size() int      { return 8 }
func (d *sum64) BlockSize() int { return 1 }

//sym:replace hash/crc64.New
func crc64New(t *xcrc64.Table) xhash.Hash64 { return &sum64{t, 0} }
