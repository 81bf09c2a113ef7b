package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"strings"
)

// ------------------------------------------------ reference binary encoding

const b85Chars = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"

// refBase85 encodes like git: groups of four bytes, zero padded, five digits.
func refBase85(b []byte) string {
	var out strings.Builder
	for i := 0; i < len(b); i += 4 {
		var v uint64
		for j := 0; j < 4; j++ {
			v <<= 8
			if i+j < len(b) {
				v |= uint64(b[i+j])
			}
		}
		var d [5]byte
		for j := 4; j >= 0; j-- {
			d[j] = b85Chars[v%85]
			v /= 85
		}
		out.Write(d[:])
	}
	return out.String()
}

func lenByte(n int) byte {
	if n <= 26 {
		return byte('A' + n - 1)
	}
	return byte('a' + n - 27)
}

// refBinLines encodes compressed data as the lines of a binary fragment, with
// per bytes on each full line (git always uses 52).
func refBinLines(raw []byte, per int) string {
	var b strings.Builder
	for len(raw) > 0 {
		n := min(per, len(raw))
		b.WriteByte(lenByte(n))
		b.WriteString(refBase85(raw[:n]))
		b.WriteByte('\n')
		raw = raw[n:]
	}
	b.WriteByte('\n')
	return b.String()
}

func deflate(data []byte, level int) []byte {
	var b bytes.Buffer
	w, err := zlib.NewWriterLevel(&b, level)
	if err != nil {
		infraf("%v", err)
	}
	w.Write(data)
	w.Close()
	return b.Bytes()
}

// BinFrag is the model of a binary fragment.
type BinFrag struct {
	Delta bool
	Data  BS // the uncompressed payload
	Level int
}

func (f *BinFrag) raw() []byte { return deflate([]byte(f.Data), f.Level) }

func (f *BinFrag) method() string {
	if f.Delta {
		return "delta"
	}
	return "literal"
}

func (f *BinFrag) render() string {
	return fmt.Sprintf("%s %d\n", f.method(), len(f.Data)) + refBinLines(f.raw(), 52)
}

// ------------------------------------------------------------ delta encoding

// DOp is one delta instruction.
type DOp struct {
	Add  BS     `json:"add,omitempty"`
	Copy bool   `json:"copy,omitempty"`
	Off  uint32 `json:"off,omitempty"`
	Size uint32 `json:"size,omitempty"` // 24 bits as encoded; 0 means 0x10000
	// operand bytes are written even when zero if their bit is set here
	Force byte `json:"force,omitempty"`
}

func (o DOp) encode() []byte {
	if !o.Copy {
		return append([]byte{byte(len(o.Add))}, o.Add...)
	}
	op := byte(0x80)
	var rest []byte
	for i := 0; i < 4; i++ {
		b := byte(o.Off >> (8 * i))
		if b != 0 || o.Force&(1<<i) != 0 {
			op |= 1 << i
			rest = append(rest, b)
		}
	}
	for i := 0; i < 3; i++ {
		b := byte(o.Size >> (8 * i))
		if b != 0 || o.Force&(1<<(4+i)) != 0 {
			op |= 1 << (4 + i)
			rest = append(rest, b)
		}
	}
	return append([]byte{op}, rest...)
}

func deltaSize(n uint64) []byte {
	var b []byte
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n != 0 {
			b = append(b, c|0x80)
		} else {
			return append(b, c)
		}
	}
}

func encodeDelta(src, dst uint64, ops []DOp) []byte {
	b := append(deltaSize(src), deltaSize(dst)...)
	for _, o := range ops {
		b = append(b, o.encode()...)
	}
	return b
}

type deltaVerdict int

const (
	deltaOK deltaVerdict = iota
	deltaSrcSize
	deltaCorrupt
	deltaTwice // for a source of another size, and its header is cut or beyond the limit: any error will do
)

// refDelta interprets a delta by git's specification (pack-format).
func refDelta(src, d []byte, limit int) (out []byte, v deltaVerdict, why string) {
	size := func() (uint64, bool) {
		var n uint64
		shift := uint(0)
		for i, b := range d {
			part := uint64(b & 0x7f)
			if part != 0 && (shift >= 63 || part > (1<<63-1)>>shift) {
				return 0, false // does not fit in 63 bits
			}
			if shift < 63 {
				n |= part << shift
			}
			shift += 7
			if b&0x80 == 0 {
				d = d[i+1:]
				return n, true
			}
		}
		return 0, false
	}
	ss, ok := size()
	if !ok {
		return nil, deltaCorrupt, "bad source size"
	}
	if ss != uint64(len(src)) {
		if ds, ok := size(); !ok || ds > uint64(limit) {
			return nil, deltaTwice, "source and bad result size"
		}
		return nil, deltaSrcSize, "source size"
	}
	ds, ok := size()
	if !ok {
		return nil, deltaCorrupt, "bad result size"
	}
	for len(d) > 0 {
		op := d[0]
		d = d[1:]
		if op == 0 {
			return nil, deltaCorrupt, "opcode 0"
		}
		if op&0x80 == 0 {
			if len(d) < int(op) {
				return nil, deltaCorrupt, "short add"
			}
			out = append(out, d[:op]...)
			d = d[op:]
		} else {
			var v [7]uint64
			for i := 0; i < 7; i++ {
				if op&(1<<i) != 0 {
					if len(d) == 0 {
						return nil, deltaCorrupt, "short copy"
					}
					v[i] = uint64(d[0])
					d = d[1:]
				}
			}
			off := v[0] | v[1]<<8 | v[2]<<16 | v[3]<<24
			n := v[4] | v[5]<<8 | v[6]<<16
			if n == 0 {
				n = 0x10000
			}
			if off+n > uint64(len(src)) {
				return nil, deltaCorrupt, "copy beyond source"
			}
			out = append(out, src[off:off+n]...)
		}
		if uint64(len(out)) > ds || len(out) > limit {
			return nil, deltaCorrupt, "too much data"
		}
	}
	if uint64(len(out)) != ds {
		return nil, deltaCorrupt, "too little data"
	}
	return out, deltaOK, ""
}

// makeDelta writes a valid delta from src to dst, choosing copies greedily
// with a preference the seed decides.
func makeDelta(src, dst []byte, seed uint64) []byte {
	p := prng(seed)
	var ops []DOp
	i := 0
	for i < len(dst) {
		best, bestLen := -1, 0
		if len(src) > 0 && p.intn(3) > 0 {
			for try := 0; try < 24; try++ {
				o := p.intn(len(src))
				n := 0
				for o+n < len(src) && i+n < len(dst) && src[o+n] == dst[i+n] && n < 0xffffff {
					n++
				}
				if n > bestLen {
					best, bestLen = o, n
				}
			}
			if k := bytes.Index(src, dst[i:min(len(dst), i+8)]); k >= 0 {
				n := 0
				for k+n < len(src) && i+n < len(dst) && src[k+n] == dst[i+n] && n < 0xffffff {
					n++
				}
				if n > bestLen {
					best, bestLen = k, n
				}
			}
		}
		if bestLen >= 2 {
			ops = append(ops, DOp{Copy: true, Off: uint32(best), Size: uint32(bestLen)})
			if bestLen == 0x10000 && p.intn(2) == 0 {
				ops[len(ops)-1].Size = 0
			}
			i += bestLen
			continue
		}
		n := min(len(dst)-i, 1+p.intn(127))
		ops = append(ops, DOp{Add: BS(dst[i : i+n])})
		i += n
	}
	return encodeDelta(uint64(len(src)), uint64(len(dst)), ops)
}

func readAllLimited(r io.Reader, n int64) ([]byte, error) {
	return io.ReadAll(io.LimitReader(r, n))
}
