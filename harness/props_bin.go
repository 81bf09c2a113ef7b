package main

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C19

type deltaCase struct {
	Src     BS
	SrcSeed uint64 `json:",omitempty"` // instead of Src
	SrcLen  int    `json:",omitempty"`
	SS, DS  uint64
	SPad    int `json:",omitempty"` // extra zero groups in the encoded sizes
	DPad    int `json:",omitempty"`
	Ops     []DOp
	Muts    []deltaMut `json:",omitempty"`
}

type deltaMut struct {
	Kind, At int
	B        byte
}

func (c *deltaCase) src() []byte {
	if c.SrcLen > 0 {
		return bulk(c.SrcSeed, c.SrcLen)
	}
	return []byte(c.Src)
}

func padSize(n uint64, pad int) []byte {
	b := deltaSize(n)
	for i := 0; i < pad; i++ {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

func (c *deltaCase) encode() []byte {
	b := append(padSize(c.SS, c.SPad), padSize(c.DS, c.DPad)...)
	for _, o := range c.Ops {
		b = append(b, o.encode()...)
	}
	for _, m := range c.Muts {
		if len(b) == 0 {
			break
		}
		at := m.At % len(b)
		switch m.Kind {
		case 0:
			b[at] = m.B
		case 1:
			b = append(b[:at:at], b[at+1:]...)
		case 2:
			b = append(b[:at:at], append([]byte{m.B}, b[at:]...)...)
		case 3:
			b = b[:at]
		case 4:
			b = append(b, m.B)
		default:
			b[at] ^= 1 << (m.B & 7)
		}
	}
	return b
}

func (g *G) deltaOps(n int) []DOp {
	var ops []DOp
	for i, k := 0, 1+g.size(10); i < k; i++ {
		if n == 0 || g.Chance(3) {
			l := pick(g, []int{1, 2, 3, 10, 126, 127, g.Int(1, 127)})
			ops = append(ops, DOp{Add: BS(bulk(g.Uint64(), l))})
			continue
		}
		off := g.Int(0, n-1)
		size := g.Int(1, n-off)
		switch g.Int(0, 5) {
		case 0:
			off, size = 0, n
		case 1:
			off = n - min(n, pick(g, []int{1, 2, 255, 256, 257, 0x10000}))
			size = n - off
		case 2:
			if n-off >= 0x10000 {
				size = 0x10000
			}
		case 3:
			size = min(size, pick(g, []int{1, 255, 256, 257, 0xffff, 0x10000, 0x10001}))
		}
		o := DOp{Copy: true, Off: uint32(off), Size: uint32(size) & 0xffffff, Force: byte(g.Int(0, 127))}
		if g.Bool() {
			o.Force = 0
		}
		if size == 0x10000 && g.Bool() {
			o.Size = 0
		}
		ops = append(ops, o)
	}
	return ops
}

func genC19(g *G) deltaCase {
	c := deltaCase{}
	switch g.Int(0, 5) {
	case 0:
		c.Src = ""
	case 1, 2:
		c.Src = BS(g.payload())
	case 3:
		c.SrcSeed, c.SrcLen = g.Uint64(), pick(g, []int{127, 128, 255, 256, 257, 16383, 16384, 65535, 65536, 65537, 70000, 131072})
	case 4:
		c.SrcSeed, c.SrcLen = g.Uint64(), g.Int(1, 1000)
	default:
		if g.Chance(12) {
			c.SrcSeed, c.SrcLen = 7, pick(g, []int{1 << 24, 1<<24 - 1, 1<<24 + 300})
		} else {
			c.SrcSeed, c.SrcLen = g.Uint64(), 300
		}
	}
	n := len(c.src())
	c.Ops = g.deltaOps(n)
	if n > 1<<20 && len(c.Ops) > 2 {
		c.Ops = c.Ops[:2]
	}
	c.SS = uint64(n)
	for _, o := range c.Ops {
		switch {
		case !o.Copy:
			c.DS += uint64(len(o.Add))
		case o.Size == 0:
			c.DS += 0x10000
		default:
			c.DS += uint64(o.Size)
		}
	}
	if g.Chance(6) {
		c.SPad = g.Int(0, 12)
	}
	if g.Chance(6) {
		c.DPad = g.Int(0, 12)
	}
	switch g.Int(0, 9) {
	case 0: // wrong source size
		c.SS = pick(g, []uint64{c.SS + 1, c.SS - 1, 0, c.SS * 2, c.SS + 128, c.SS + 1<<32, c.SS + 1<<62, c.SS + 2, 1<<63 - 1})
	case 1: // wrong result size
		c.DS = pick(g, []uint64{c.DS + 1, c.DS - 1, 0, c.DS * 2, c.DS + 1<<32, c.DS + 1<<63, 1<<63 - 1, 1 << 63, 1<<64 - 1})
	case 2: // an impossible instruction
		k := g.Int(0, len(c.Ops)-1)
		if g.Bool() {
			c.Ops[k] = DOp{} // opcode 0
		} else {
			c.Ops[k] = DOp{Copy: true, Off: uint32(n) - uint32(g.Int(0, 3)), Size: uint32(g.Int(1, 10)), Force: byte(g.Int(0, 127))}
			if g.Chance(3) {
				c.Ops[k].Off = pick(g, []uint32{1<<32 - 1, 1 << 31, 1 << 24, uint32(n), uint32(n) + 1})
			}
		}
		// the result size fits what the instructions would write
		if g.Bool() {
			c.DS = 0
			for _, o := range c.Ops {
				if o.Copy {
					c.DS += uint64(o.Size)
				} else {
					c.DS += uint64(len(o.Add))
				}
			}
		}
	case 3, 4:
		for i, k := 0, g.Int(1, 3); i < k; i++ {
			c.Muts = append(c.Muts, deltaMut{g.Int(0, 5), g.Int(0, 4000), g.Byte()})
			if g.Chance(2) {
				c.Muts[i].At = g.Int(0, 8)
			}
		}
	}
	return c
}

func binFile(method gitdiff.BinaryPatchMethod, data []byte, level int) *gitdiff.File {
	return &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: &gitdiff.BinaryFragment{Method: method, Size: int64(len(data)), RawData: deflate(data, level)}}
}

func checkDelta(src, d []byte, o *Obs) error {
	want, v, why := refDelta(src, d, 100<<20)
	f := binFile(gitdiff.BinaryPatchDelta, d, 1)
	for _, mode := range []string{"Apply", "applier"} {
		var out bytes.Buffer
		var err error
		if mode == "Apply" {
			err = gitdiff.Apply(&out, bytes.NewReader(src), f)
		} else {
			a := gitdiff.NewBinaryApplier(&out, eofReaderAt{string(src)})
			if err = a.ApplyFragment(f.BinaryFragment); err == nil {
				err = a.Close()
			}
		}
		desc := func() string { return fmt.Sprintf("%s: source of %d bytes, delta %x", mode, len(src), clipBytes(d)) }
		switch v {
		case deltaOK:
			if err != nil {
				return fmt.Errorf("error %v, want %d bytes; %s", err, len(want), desc())
			}
			if !bytes.Equal(out.Bytes(), want) {
				return fmt.Errorf("wrote %s, want %s; %s", q(out.String()), q(string(want)), desc())
			}
		case deltaSrcSize:
			if err == nil || !isConflict(err) {
				return fmt.Errorf("error %v for a source of another size, want a conflict; %s", err, desc())
			}
			if out.Len() > 0 {
				return fmt.Errorf("wrote %d bytes for a source of another size; %s", out.Len(), desc())
			}
		default:
			if err == nil {
				return fmt.Errorf("no error (%s), wrote %d bytes; %s", why, out.Len(), desc())
			}
		}
	}
	o.Label([]string{"applies", "source size", "corrupt", "source size and corrupt"}[v])
	o.LabelIf(v == deltaCorrupt, why)
	return nil
}

func clipBytes(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func checkC19(c *deltaCase, o *Obs) error {
	o.NTIf(len(c.Ops) > 0)
	return checkDelta(c.src(), c.encode(), o)
}

// farSource is a large source whose bytes are a function of their offset.
type farSource struct{ n int64 }

func farByte(off int64) byte {
	x := uint64(off)*0x9e3779b97f4a7c15 + 1
	x ^= x >> 29
	return byte(x ^ x>>32)
}

func (r farSource) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		if off+int64(i) >= r.n {
			return i, io.EOF
		}
		p[i] = farByte(off + int64(i))
	}
	return len(p), nil
}

// farCase copies from offsets that use all four operand bytes.
type farCase struct {
	Src  int64
	Ops  []DOp
	SOff int64 // added to the true source size
	DOff int64 // added to the true result size
}

func genFar(g *G) farCase {
	c := farCase{Src: pick(g, []int64{1 << 31, 1<<31 - 1, 1<<31 + 5, 1 << 32, 1<<32 - 1, 1<<32 + 70000, 1 << 33, 1<<40 + 3, 1<<62 + 9, 1 << 24, 1 << 25, 1<<24 + 1})}
	top := min(c.Src, 1<<32)
	for i, n := 0, g.Int(1, 6); i < n; i++ {
		if g.Chance(4) {
			c.Ops = append(c.Ops, DOp{Add: BS(bulk(g.Uint64(), g.Int(1, 127)))})
			continue
		}
		size := pick(g, []int64{1, 2, 255, 256, 300, 0xffff, 0x10000, 0x10001, int64(g.Int(1, 70000))})
		var off int64
		switch g.Int(0, 3) {
		case 0:
			off = int64(g.Uint64() % uint64(top))
		case 1:
			off = 1<<pick(g, []int{8, 16, 23, 24, 25, 30, 31, 32}) - int64(g.Int(0, 2))
		case 2:
			off = c.Src - size + int64(pick(g, []int{0, 0, -1, 1, -100}))
		default:
			off = int64(g.Byte())<<24 | int64(g.Byte())<<(8*g.Int(0, 2))
		}
		o := DOp{Copy: true, Off: uint32(max(0, min(off, 1<<32-1))), Size: uint32(size), Force: byte(g.Int(0, 127))}
		if size == 0x10000 && g.Bool() {
			o.Size = 0
		}
		c.Ops = append(c.Ops, o)
	}
	if g.Chance(10) {
		c.SOff = pick(g, []int64{1, -1, 1 << 20, 1 << 32, -(1 << 20)})
	}
	if g.Chance(10) {
		c.DOff = pick(g, []int64{1, -1, 1 << 32})
	}
	return c
}

func checkFar(c *farCase, o *Obs) error {
	src := farSource{c.Src}
	var want []byte
	fits := c.DOff == 0
	total := c.DOff
	for _, op := range c.Ops {
		if !op.Copy {
			want = append(want, op.Add...)
			total += int64(len(op.Add))
			continue
		}
		size := int64(op.Size)
		if size == 0 {
			size = 0x10000
		}
		total += size
		if int64(op.Off)+size > c.Src {
			fits = false
			continue
		}
		b := make([]byte, size)
		src.ReadAt(b, int64(op.Off))
		want = append(want, b...)
	}
	if total < 0 {
		return nil
	}
	d := encodeDelta(uint64(c.Src+c.SOff), uint64(total), c.Ops)
	var out bytes.Buffer
	err := gitdiff.Apply(&out, src, binFile(gitdiff.BinaryPatchDelta, d, 1))
	o.NT()
	switch {
	case c.SOff != 0:
		o.Label("source size")
		if err == nil || !isConflict(err) && total <= 100<<20 || out.Len() > 0 {
			return fmt.Errorf("error %v with %d bytes for a source of %d bytes instead of %d, want a conflict; delta %x", err, out.Len(), c.Src, c.Src+c.SOff, clipBytes(d))
		}
	case !fits:
		o.Label("corrupt")
		if err == nil {
			return fmt.Errorf("no error, wrote %d bytes; source of %d bytes, delta %x", out.Len(), c.Src, clipBytes(d))
		}
	default:
		o.Label("applies")
		if err != nil {
			return fmt.Errorf("error %v, want %d bytes; source of %d bytes, delta %x", err, len(want), c.Src, clipBytes(d))
		}
		if !bytes.Equal(out.Bytes(), want) {
			return fmt.Errorf("wrote %s, want %s; source of %d bytes, delta %x", q(out.String()), q(string(want)), c.Src, clipBytes(d))
		}
	}
	return nil
}

// every opcode, with every operand bit, over one source
type opcodeCase struct {
	Op   int
	Rest BS
	N    int
}

func enumC19(tier string, yield func(opcodeCase) bool) {
	reps := 8
	if tier == "thorough" {
		reps = 200
	}
	p := prng(11)
	for op := 0; op < 256; op++ {
		for r := 0; r < reps; r++ {
			n := 0
			if op&0x80 == 0 {
				n = op
			} else {
				for i := 0; i < 7; i++ {
					n += op >> i & 1
				}
			}
			rest := make([]byte, n)
			for i := range rest {
				rest[i] = byte(p.next())
				if r > 0 && op&0x80 != 0 && i > 0 && p.intn(2) == 0 {
					rest[i] = byte(p.intn(2))
				}
			}
			size := []int{256, 70000, 1000, 0x10000, 0x20000}[r%5]
			if !yield(opcodeCase{op, BS(rest), size}) {
				return
			}
			if n > 0 && !yield(opcodeCase{op, BS(rest[:n-1]), size}) {
				return
			}
		}
	}
}

func checkOpcode(c *opcodeCase, o *Obs) error {
	src := bulk(3, c.N)
	ins := append([]byte{byte(c.Op)}, c.Rest...)
	// the result size that the instruction alone has, and ones off by one
	out, _, _ := refDelta(src, append(append(deltaSize(uint64(len(src))), deltaSize(1<<40)...), ins...), 1<<30)
	o.NT()
	for _, d := range []int{0, 1, -1} {
		n := len(out) + d
		if n < 0 {
			continue
		}
		if err := checkDelta(src, append(append(deltaSize(uint64(len(src))), deltaSize(uint64(n))...), ins...), o); err != nil {
			return err
		}
	}
	return nil
}

type literalCase struct {
	Src, Data BS
	Level     int
}

func checkLiteral(c *literalCase, o *Obs) error {
	f := binFile(gitdiff.BinaryPatchLiteral, []byte(c.Data), c.Level)
	for _, mode := range []string{"Apply", "applier"} {
		var out bytes.Buffer
		var err error
		if mode == "Apply" {
			err = gitdiff.Apply(&out, strings.NewReader(string(c.Src)), f)
		} else {
			a := gitdiff.NewBinaryApplier(&out, strings.NewReader(string(c.Src)))
			if err = a.ApplyFragment(f.BinaryFragment); err == nil {
				err = a.Close()
			}
		}
		if err != nil || out.String() != string(c.Data) {
			return fmt.Errorf("%s: error %v, wrote %s, want %s", mode, err, q(out.String()), q(string(c.Data)))
		}
	}
	o.NTIf(len(c.Data) > 0)
	return nil
}

// the files that Apply must refuse because they contradict themselves
func checkC19refuse(c *literalCase, o *Obs) error {
	bf := binFile(gitdiff.BinaryPatchLiteral, []byte(c.Data), c.Level)
	h := Hunk{OP: 1, NP: 1, Lines: []ML{{"+", "x\n"}}}
	h.setCounts()
	frags := []*gitdiff.TextFragment{h.fragment()}
	for what, f := range map[string]*gitdiff.File{
		"binary without data":         {IsBinary: true},
		"binary with text fragments":  {IsBinary: true, BinaryFragment: bf.BinaryFragment, TextFragments: frags},
		"marker with text fragments":  {IsBinary: true, TextFragments: frags},
		"text with a binary fragment": {BinaryFragment: bf.BinaryFragment},
	} {
		var out bytes.Buffer
		err := gitdiff.Apply(&out, strings.NewReader(string(c.Src)), f)
		if err == nil || out.Len() > 0 {
			return fmt.Errorf("%s: error %v, wrote %d bytes", what, err, out.Len())
		}
		var ae *gitdiff.ApplyError
		if !errors.As(err, &ae) {
			return fmt.Errorf("%s: error %T is no ApplyError", what, err)
		}
	}
	o.NT()
	return nil
}

// ------------------------------------------------------------------ C20

type limitCase struct {
	Delta   bool
	Src     BS
	Seed    uint64
	Stream  int // length of the literal data
	Ops     []DOp
	Limit   int64
	Earlier []int64 // options given before
	Apply   bool
}

func genC20(g *G) limitCase {
	c := limitCase{Delta: g.Bool(), Src: BS(g.payload()), Seed: g.Uint64(), Stream: g.Int(0, 300), Apply: g.Bool()}
	if g.Chance(4) {
		c.Stream = g.Int(0, 40000)
	}
	c.Ops = g.deltaOps(len(c.Src))
	ds, _ := c.build()
	sizes := []int64{int64(len(ds)), int64(c.result())}
	c.Limit = pick(g, sizes) + int64(g.Int(-2, 2))
	if g.Chance(4) {
		c.Limit = pick(g, []int64{0, -1, -2, -1 << 63, 1 << 40, 1<<63 - 1, 1})
	}
	for i, n := 0, g.Int(0, 2); i < n; i++ {
		c.Earlier = append(c.Earlier, pick(g, []int64{0, -1, 1, 1 << 40, c.Limit + 1, c.Limit - 1}))
	}
	return c
}

func (c *limitCase) result() int {
	if !c.Delta {
		return c.Stream
	}
	n := 0
	for _, o := range c.Ops {
		switch {
		case !o.Copy:
			n += len(o.Add)
		case o.Size == 0:
			n += 0x10000
		default:
			n += int(o.Size)
		}
	}
	return n
}

func (c *limitCase) build() (data []byte, f *gitdiff.File) {
	if !c.Delta {
		data = bulk(c.Seed, c.Stream)
		return data, binFile(gitdiff.BinaryPatchLiteral, data, 1)
	}
	data = encodeDelta(uint64(len(c.Src)), uint64(c.result()), c.Ops)
	return data, binFile(gitdiff.BinaryPatchDelta, data, 1)
}

func runLimit(f *gitdiff.File, src string, apply bool, opts ...gitdiff.ApplyOption) (string, error) {
	var out bytes.Buffer
	if apply {
		err := gitdiff.Apply(&out, strings.NewReader(src), f, opts...)
		return out.String(), err
	}
	a := gitdiff.NewBinaryApplier(&out, strings.NewReader(src), opts...)
	err := a.ApplyFragment(f.BinaryFragment)
	if err == nil {
		err = a.Close()
	}
	return out.String(), err
}

func checkC20(c *limitCase, o *Obs) error {
	data, f := c.build()
	var opts []gitdiff.ApplyOption
	for _, e := range c.Earlier {
		opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(e))
	}
	opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(c.Limit))
	out, err := runLimit(f, string(c.Src), c.Apply, opts...)
	fits := c.Limit < 0 || (int64(len(data)) <= c.Limit && int64(c.result()) <= c.Limit)
	desc := fmt.Sprintf("delta %v, data %d bytes, result %d bytes, limit %d after %v", c.Delta, len(data), c.result(), c.Limit, c.Earlier)
	if fits {
		if err != nil || len(out) != c.result() {
			return fmt.Errorf("error %v with %d bytes written, want success; %s", err, len(out), desc)
		}
	} else {
		if err == nil {
			return fmt.Errorf("accepted, %d bytes written; %s", len(out), desc)
		}
		if len(out) > 0 {
			return fmt.Errorf("%d bytes written before the error %v; %s", len(out), err, desc)
		}
		if isConflict(err) {
			return fmt.Errorf("the limit is reported as a conflict: %v; %s", err, desc)
		}
	}
	// the option does not stick
	if out, err := runLimit(f, string(c.Src), !c.Apply); err != nil || len(out) != c.result() {
		return fmt.Errorf("without a limit afterwards: error %v, %d bytes; %s", err, len(out), desc)
	}
	o.NT()
	o.LabelIf(fits, "accepted")
	o.LabelIf(!fits, "refused")
	return nil
}

// data that expand beyond the declared size
type bombCase struct {
	Size  int64
	Fill  byte
	Real  int
	Delta bool
	Rest  BS // appended to the compressed data
	Cut   int
	Chunk int
	Limit int64
}

func genBomb(g *G) bombCase {
	c := bombCase{Size: int64(pick(g, []int{0, 1, 5, 100, 32767, 32768, 32769, 65536, 1000000})), Fill: g.Byte(), Real: pick(g, []int{0, 1, 2, 99, 100, 101, 32768, 65536, 65537, 1000000, 1000001, 5000000}), Delta: g.Bool(), Chunk: pick(g, []int{1, 7, 512, 32768, 1 << 20})}
	if c.Chunk == 1 && c.Size > 1000 {
		c.Chunk = 13
	}
	if g.Chance(3) {
		c.Real = int(c.Size) + g.Int(-2, 2)
		c.Real = max(0, c.Real)
	}
	if g.Chance(6) {
		c.Rest = BS(g.Bytes(1, 5))
	}
	if g.Chance(6) {
		c.Cut = g.Int(1, 8)
	}
	if g.Chance(4) {
		c.Size = pick(g, []int64{1<<63 - 1, 1<<63 - 2, 1 << 40, 1<<31 - 1})
	}
	c.Limit = pick(g, []int64{-1, 0, c.Size, c.Size, c.Size - 1, 10 << 20})
	return c
}

func checkBomb(c *bombCase, o *Obs) error {
	raw := deflate(bytes.Repeat([]byte{c.Fill}, c.Real), 9)
	if c.Cut > 0 {
		raw = raw[:max(0, len(raw)-c.Cut)]
	} else {
		raw = append(raw, c.Rest...) // ignored after the end of the stream
	}
	bf := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: c.Size, RawData: raw}
	if c.Delta {
		bf.Method = gitdiff.BinaryPatchDelta
	}
	r := bf.Data()
	buf := make([]byte, c.Chunk)
	total := int64(0)
	var err error
	for i := 0; ; i++ {
		var n int
		n, err = r.Read(buf)
		if n < 0 || n > len(buf) {
			return fmt.Errorf("Read returned %d for a buffer of %d bytes", n, len(buf))
		}
		for _, b := range buf[:n] {
			if b != c.Fill {
				return fmt.Errorf("byte %#x in data of %#x", b, c.Fill)
			}
		}
		total += int64(n)
		if err != nil {
			break
		}
		if n == 0 && i > 1000000 {
			return errors.New("Read makes no progress")
		}
	}
	if c.Size < 1<<40 && total > c.Size+1 {
		return fmt.Errorf("read %d bytes of data with declared size %d", total, c.Size)
	}
	good := c.Cut == 0 && int64(c.Real) == c.Size
	if good != (err == io.EOF) {
		return fmt.Errorf("reading %d bytes with declared size %d and %d bytes cut off ends with %v after %d", c.Real, c.Size, c.Cut, err, total)
	}
	if good && total != c.Size {
		return fmt.Errorf("read %d bytes, want %d", total, c.Size)
	}
	// applying is bounded in the same way
	var out bytes.Buffer
	aerr := gitdiff.Apply(&out, strings.NewReader(""), &gitdiff.File{IsBinary: true, BinaryFragment: bf}, gitdiff.WithMaxBinaryFragmentBytes(c.Limit))
	over := c.Limit >= 0 && c.Size > c.Limit
	if (over || !good) && aerr == nil {
		return fmt.Errorf("applying %d bytes with declared size %d, %d cut off, limit %d: no error", c.Real, c.Size, c.Cut, c.Limit)
	}
	if over && out.Len() > 0 {
		return fmt.Errorf("applying with declared size %d over the limit %d wrote %d bytes", c.Size, c.Limit, out.Len())
	}
	if c.Size < 1<<40 && int64(out.Len()) > c.Size+1 {
		return fmt.Errorf("applying with declared size %d wrote %d bytes", c.Size, out.Len())
	}
	o.NT()
	o.LabelIf(good, "exact")
	o.LabelIf(over, "over the limit")
	return nil
}

// the limit that is in force without an option

type defaultCase struct {
	Delta bool
	Over  bool
	Apply bool
	Off   bool // with a negative limit
}

func enumC20(tier string, yield func(defaultCase) bool) {
	for _, d := range []bool{false, true} {
		for _, ov := range []bool{false, true} {
			for _, a := range []bool{false, true} {
				for _, off := range []bool{false, true} {
					if off && !ov {
						continue
					}
					if !yield(defaultCase{d, ov, a, off}) {
						return
					}
				}
			}
		}
	}
}

type countWriter struct{ n int64 }

func (w *countWriter) Write(p []byte) (int, error) { w.n += int64(len(p)); return len(p), nil }

func zeroDeflate(n int) []byte {
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, 1)
	z := make([]byte, 1<<20)
	for n > 0 {
		k := min(n, len(z))
		w.Write(z[:k])
		n -= k
	}
	w.Close()
	return b.Bytes()
}

func checkDefault(c *defaultCase, o *Obs) error {
	const limit = 100 << 20
	n := limit
	if c.Over {
		n++
	}
	var src string
	f := &gitdiff.File{IsBinary: true}
	if c.Delta {
		src = string(make([]byte, 1<<20))
		var ops []DOp
		for left := n; left > 0; {
			k := min(left, 1<<20)
			ops = append(ops, DOp{Copy: true, Size: uint32(k)})
			left -= k
		}
		d := encodeDelta(uint64(len(src)), uint64(n), ops)
		f.BinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: deflate(d, 1)}
	} else {
		f.BinaryFragment = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(n), RawData: zeroDeflate(n)}
	}
	var opts []gitdiff.ApplyOption
	if c.Off {
		opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(-1))
	}
	var out countWriter
	var err error
	if c.Apply {
		err = gitdiff.Apply(&out, strings.NewReader(src), f, opts...)
	} else {
		a := gitdiff.NewBinaryApplier(&out, strings.NewReader(src), opts...)
		err = a.ApplyFragment(f.BinaryFragment)
	}
	if c.Over && !c.Off {
		if err == nil || out.n > 0 {
			return fmt.Errorf("delta %v of %d bytes with the default limit: error %v, %d bytes written", c.Delta, n, err, out.n)
		}
	} else if err != nil || out.n != int64(n) {
		return fmt.Errorf("delta %v of %d bytes: error %v, %d bytes written", c.Delta, n, err, out.n)
	}
	o.NT()
	return nil
}

// the option has no effect on text
func checkTextLimit(c *applyCase, o *Obs) error {
	old, new := oldOf(c.Script), newOf(c.Script)
	f := &gitdiff.File{TextFragments: (&conflictCase{Hunks: c.Hunks}).frags()}
	for _, l := range []int64{0, 1, -1} {
		out, err := applyTo(old, f, gitdiff.WithMaxBinaryFragmentBytes(l))
		if err != nil || out != new {
			return fmt.Errorf("text with limit %d: error %v, output %s, want %s", l, err, q(out), q(new))
		}
	}
	o.NT()
	return nil
}

// ------------------------------------------------------------------ C21

type corruptCase struct {
	Src, Dst BS
	Delta    bool
	Seed     uint64
	Level    int
	Rev      bool // damage the reverse fragment
	Raw      bool // damage the compressed bytes rather than the text
	Muts     []corruptMut
}

type corruptMut struct {
	Kind, A, B int
	C          byte
}

func genC21(g *G) corruptCase {
	c := corruptCase{Src: BS(g.payload()), Dst: BS(g.payload()), Delta: g.Chance(3), Seed: g.Uint64(), Level: g.zlevel(), Rev: g.Chance(4), Raw: g.Bool()}
	for i, n := 0, pick(g, []int{1, 1, 1, 2, 3}); i < n; i++ {
		c.Muts = append(c.Muts, corruptMut{g.Int(0, 9), g.Int(0, 5000), g.Int(0, 5000), g.Byte()})
	}
	return c
}

func damageBytes(b []byte, ms []corruptMut) []byte {
	b = append([]byte(nil), b...)
	for _, m := range ms {
		if len(b) == 0 {
			return b
		}
		i, j := m.A%len(b), m.B%len(b)
		if m.Kind >= 8 { // near the end, where the checksum is
			i = len(b) - 1 - m.A%min(len(b), 6)
		}
		switch m.Kind {
		case 0, 8:
			b[i] ^= 1 << (m.C & 7)
		case 1, 9:
			b[i] = m.C
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = b[:i]
		case 4:
			b = append(b[:i:i], append([]byte{m.C}, b[i:]...)...)
		case 5:
			b[i], b[j] = b[j], b[i]
		case 6:
			b = append(b, m.C)
		default:
			if i > j {
				i, j = j, i
			}
			b = append(b[:j:j], b[i:]...)
		}
	}
	return b
}

// damageText changes the size or the encoded lines of a fragment, but not its
// method.
func damageText(s string, ms []corruptMut) string {
	ls := splitLines(s)
	for _, m := range ms {
		n := len(ls) - 2 // payload lines: without header and final blank line
		k := 1
		if n > 0 {
			k = 1 + m.A%n
		}
		switch {
		case m.Kind == 0: // the declared size
			f := strings.SplitN(strings.TrimSuffix(ls[0], "\n"), " ", 2)
			var v int
			fmt.Sscan(f[1], &v)
			v += []int{1, -1, 2, 100, -v, 1 << 20, 1 << 31}[m.B%7]
			ls[0] = fmt.Sprintf("%s %d\n", f[0], v)
		case n <= 0:
		case m.Kind == 1: // another digit
			l := []byte(ls[k])
			if len(l) > 2 {
				l[1+m.B%(len(l)-2)] = b85Chars[int(m.C)%85]
				ls[k] = string(l)
			}
		case m.Kind == 2: // another byte
			l := []byte(ls[k])
			l[m.B%len(l)] = m.C
			ls[k] = string(l)
		case m.Kind == 3: // the length
			ls[k] = string(lenByte(1+int(m.C)%52)) + ls[k][1:]
		case m.Kind == 4: // drop a line
			ls = append(ls[:k:k], ls[k+1:]...)
		case m.Kind == 5: // repeat a line
			ls = append(ls[:k+1:k+1], ls[k:]...)
		case m.Kind == 6: // swap lines
			j := 1 + m.B%n
			ls[k], ls[j] = ls[j], ls[k]
		case m.Kind == 7: // cut the end of a line off
			l := ls[k]
			ls[k] = l[:m.B%len(l)] + "\n"
		case m.Kind == 8: // end early
			ls = append(ls[:k:k], "\n")
		default: // swap two digits
			l := []byte(ls[k])
			if len(l) > 2 {
				i, j := 1+m.B%(len(l)-2), 1+int(m.C)%(len(l)-2)
				l[i], l[j] = l[j], l[i]
				ls[k] = string(l)
			}
		}
		if len(ls) < 2 {
			break
		}
	}
	return strings.Join(ls, "")
}

func checkC21(c *corruptCase, o *Obs) error {
	fwd := BinFrag{Data: c.Dst, Level: c.Level}
	rev := BinFrag{Data: c.Src, Level: c.Level}
	if c.Delta {
		fwd = BinFrag{Delta: true, Data: BS(makeDelta([]byte(c.Src), []byte(c.Dst), c.Seed)), Level: c.Level}
		rev = BinFrag{Delta: true, Data: BS(makeDelta([]byte(c.Dst), []byte(c.Src), c.Seed)), Level: c.Level}
	}
	bad := &fwd
	if c.Rev {
		bad = &rev
	}
	good := bad.render()
	var damaged string
	if c.Raw {
		damaged = fmt.Sprintf("%s %d\n", bad.method(), len(bad.Data)) + refBinLines(damageBytes(bad.raw(), c.Muts), 52)
	} else {
		damaged = damageText(good, c.Muts)
	}
	head := "diff --git a/x b/x\nindex 1234567..89abcde 100644\nGIT binary patch\n"
	in := head + damaged + rev.render()
	if c.Rev {
		in = head + fwd.render() + damaged
	}
	o.NTIf(damaged != good)
	files, _, err := parseString(in)
	if err != nil {
		o.Label("not parsed")
		return nil
	}
	if len(files) != 1 || files[0].BinaryFragment == nil {
		return fmt.Errorf("%d files\ninput %s", len(files), q(in))
	}
	f := files[0]
	b, want, src, result := f.BinaryFragment, []byte(fwd.Data), string(c.Src), string(c.Dst)
	if c.Rev {
		if err := checkBinData(f.BinaryFragment, []byte(fwd.Data), 100); err != nil {
			return fmt.Errorf("the undamaged forward fragment: %w", err)
		}
		b, want, src, result = f.ReverseBinaryFragment, []byte(rev.Data), string(c.Dst), string(c.Src)
		if b == nil {
			return fmt.Errorf("the damaged reverse fragment is missing without an error\ninput %s", q(in))
		}
	}
	got, err := io.ReadAll(b.Data())
	var out bytes.Buffer
	a := gitdiff.NewBinaryApplier(&out, strings.NewReader(src))
	aerr := a.ApplyFragment(b)
	if err != nil {
		o.Label("not read")
		if aerr == nil {
			return fmt.Errorf("reading the damaged data fails with %v, but applying them succeeds\ninput %s", err, q(in))
		}
		return nil
	}
	if int64(len(got)) != b.Size {
		return fmt.Errorf("%d bytes of data returned as complete, declared %d\ninput %s", len(got), b.Size, q(in))
	}
	if bytes.Equal(got, want) {
		o.Label("same data")
		if aerr != nil || out.String() != result {
			return fmt.Errorf("the data are intact, but applying gives %v and %s, want %s", aerr, q(out.String()), q(result))
		}
		return nil
	}
	// Other data without an error: only damage that the format cannot show,
	// because size and checksum still match, is excused.
	zr, zerr := zlib.NewReader(bytes.NewReader(b.RawData))
	if zerr == nil {
		ref, rerr := readAllLimited(zr, 1<<24)
		if rerr == nil && bytes.Equal(ref, got) && declared(damaged) == fmt.Sprint(len(got)) {
			o.Label("damage with a matching checksum")
			return nil
		}
	}
	return fmt.Errorf("damaged data are returned as complete: %s, undamaged %s\ninput %s", q(string(got)), q(string(want)), q(in))
}

func declared(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	_, n, _ := strings.Cut(l, " ")
	return n
}

// every byte of the compressed data with every bit flipped, and every length

type flipCase struct {
	N, Level int
	Seed     uint64
	Delta    bool
	At       int
}

func enumC21(tier string, yield func(flipCase) bool) {
	sizes := []int{1, 10, 60, 200}
	if tier == "thorough" {
		sizes = append(sizes, 1000, 3000)
	}
	for _, n := range sizes {
		for _, lv := range []int{0, 9} {
			for _, d := range []bool{false, true} {
				for at := 0; at < 2*n+40; at++ {
					if !yield(flipCase{n, lv, uint64(n), d, at}) {
						return
					}
				}
			}
		}
	}
}

func checkFlip(c *flipCase, o *Obs) error {
	dst := []byte(strings.Repeat("text ", c.N/10+1) + string(bulk(c.Seed, c.N)))[:c.N]
	src := bulk(c.Seed+1, c.N/2)
	fr := BinFrag{Data: BS(dst), Level: c.Level}
	if c.Delta {
		fr = BinFrag{Delta: true, Data: BS(makeDelta(src, dst, c.Seed)), Level: c.Level}
	}
	raw := fr.raw()
	if c.At >= len(raw) {
		return nil
	}
	for bit := -1; bit < 8; bit++ {
		mod := append([]byte(nil), raw...)
		if bit < 0 {
			mod = mod[:c.At]
		} else {
			mod[c.At] ^= 1 << bit
		}
		bf := &gitdiff.BinaryFragment{Method: fr.fragment().Method, Size: int64(len(fr.Data)), RawData: mod}
		got, err := io.ReadAll(bf.Data())
		if err == nil && string(got) != string(fr.Data) {
			return fmt.Errorf("byte %d bit %d: other data without an error", c.At, bit)
		}
		var out bytes.Buffer
		aerr := gitdiff.NewBinaryApplier(&out, bytes.NewReader(src)).ApplyFragment(bf)
		if aerr == nil && out.String() != string(dst) {
			return fmt.Errorf("byte %d bit %d: other output without an error", c.At, bit)
		}
		if (aerr == nil) != (err == nil) {
			return fmt.Errorf("byte %d bit %d: reading: %v, applying: %v", c.At, bit, err, aerr)
		}
	}
	o.NT()
	return nil
}

func init() {
	register(&Prop{ID: "C19", Rule: "delta streams from a generator of instructions with all operand encodings, whole and damaged, against a reference interpreter of the pack format; every opcode; literals; non-trivial: at least one instruction or byte",
		Subs: []*Sub{
			Enum("opcodes", enumC19, checkOpcode),
			Gen("deltas", 40000, 1000000, genC19, checkC19),
			Gen("far", 4000, 100000, genFar, checkFar),
			Gen("literals", 8000, 200000, func(g *G) literalCase { return literalCase{BS(g.payload()), BS(g.payload()), g.zlevel()} }, checkLiteral),
			Gen("contradictions", 800, 8000, func(g *G) literalCase { return literalCase{BS(g.payload()), BS(g.payload()), -1} }, checkC19refuse),
		}})
	def := Enum("default limit", enumC20, checkDefault)
	register(&Prop{ID: "C20", Rule: "fragments with sizes around a limit from the last of several options, data that expand beyond their declared size, and the default limit at its exact value; every case is non-trivial",
		Subs: []*Sub{
			Gen("limits", 40000, 1000000, genC20, checkC20),
			Gen("bombs", 2400, 60000, genBomb, checkBomb),
			def,
			Gen("text", 1000, 20000, genC12, checkTextLimit),
		}})
	register(&Prop{ID: "C21", Rule: "binary patches with damaged encoded lines, sizes or compressed bytes, and all single-bit flips and truncations of some; non-trivial: the damage changed something",
		Subs: []*Sub{
			Enum("flips", enumC21, checkFlip),
			Gen("damage", 60000, 2000000, genC21, checkC21),
		}})
}
