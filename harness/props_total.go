package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C01

type totalCase struct {
	Text BS
	Srcs []BS
}

// oldContent rebuilds a source that the text fragments of a file may fit, if
// their positions are small enough.
func oldContent(f *gitdiff.File) (string, bool) {
	var b strings.Builder
	next := int64(1)
	for _, t := range f.TextFragments {
		start := t.OldPosition
		if t.OldLines == 0 {
			start++
		}
		if start < next || start-next > 2000 {
			return b.String(), false
		}
		for ; next < start; next++ {
			fmt.Fprintf(&b, "filler %d\n", next)
		}
		for _, l := range t.Lines {
			if l.Old() {
				b.WriteString(l.Line)
				next++
			}
		}
	}
	return b.String(), true
}

// pipeline does everything a user may do with a parsed patch and returns a
// bound on the heap allocation that this may reasonably need.
func pipeline(in string, srcs []string) (bound uint64, files []*gitdiff.File) {
	work := uint64(len(in))
	fixed := uint64(1 << 20)
	budget := 8*work + 32<<20
	files, _, _ = parseString(in)
	for _, f := range files {
		s := f.String()
		work += 4 * uint64(len(s))
		for _, t := range f.TextFragments {
			_ = t.String()
			_ = t.Header()
			_ = t.Validate()
			fixed += 4096
			work += uint64(len(t.Comment)) * 4
		}
		for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if b == nil {
				continue
			}
			_ = b.String()
			fixed += 1 << 17
			work += 30 * uint64(len(b.RawData))
			if b.Size <= 100<<20 {
				fixed += inflateAlloc(b)
				io.Copy(io.Discard, b.Data())
			}
		}
		these := srcs[:len(srcs):len(srcs)]
		if old, ok := oldContent(f); ok {
			these = append(these, old)
		}
		for _, src := range these {
			work += 1 << 10
			if work > budget {
				break // enough for one case
			}
			var out bytes.Buffer
			work += uint64(len(src))
			gitdiff.Apply(&out, strings.NewReader(src), f)
			fixed += 1<<18 + 200<<10*uint64(len(f.TextFragments))
			work += 4 * uint64(out.Len())
			if b := f.BinaryFragment; b != nil {
				// the delta stream is read whole; a copy takes up to 16 MiB
				fixed += 1<<17 + inflateAlloc(b)
				if b.Method == gitdiff.BinaryPatchDelta && b.Size <= 100<<20 {
					if d, err := io.ReadAll(b.Data()); err == nil {
						fixed += deltaAlloc(src, d)
					}
				}
			}
			if r := f.ReverseBinaryFragment; r != nil {
				a := gitdiff.NewBinaryApplier(io.Discard, strings.NewReader(src))
				a.ApplyFragment(r)
				a.Close()
				fixed += 1<<17 + inflateAlloc(r)
				if r.Method == gitdiff.BinaryPatchDelta && r.Size <= 100<<20 {
					if d, err := io.ReadAll(r.Data()); err == nil {
						fixed += deltaAlloc(src, d)
					}
				}
			}
		}
	}
	return fixed + 300*work, files
}

// inflateAlloc bounds what reading the data of a fragment may allocate: the
// data, in a buffer that grows, but no more than deflate can make of the input
// and not much more than the declared size.
func inflateAlloc(b *gitdiff.BinaryFragment) uint64 {
	if b.Size < 0 || b.Size > 100<<20 {
		return 0
	}
	return min(uint64(b.Size)+1<<16, uint64(len(b.RawData))*1032) * 8
}

// deltaAlloc bounds what executing a delta may allocate: the declared result
// up to the limit, and one copy of at most 16 MiB that turns out not to fit.
func deltaAlloc(src string, d []byte) uint64 {
	out, _, _ := refDelta([]byte(src), d, 100<<20)
	return uint64(len(out))*8 + 17<<20
}

func checkC01(c *totalCase, o *Obs) error {
	srcs := make([]string, len(c.Srcs))
	for i, s := range c.Srcs {
		srcs[i] = string(s)
	}
	before := allocBytes()
	bound, files := pipeline(string(c.Text), srcs)
	used := allocBytes() - before
	if used > bound {
		return fmt.Errorf("%d bytes allocated, at most %d expected for an input of %d bytes", used, bound, len(c.Text))
	}
	frags := 0
	for _, f := range files {
		frags += len(f.TextFragments)
		if f.BinaryFragment != nil {
			frags++
		}
	}
	o.NTIf(len(files) > 0)
	o.LabelIf(frags > 0, "fragments")
	return nil
}

func (g *G) sources() []BS {
	out := []BS{""}
	out = append(out, BS(strings.Join(g.lines(12), "")))
	if g.Chance(3) {
		out = append(out, BS(g.payload()))
	}
	return out
}

func genC01soup(g *G) totalCase { return totalCase{BS(g.soup()), g.sources()} }

func (g *G) hugeNumber() int64 {
	return pick(g, []int64{1<<63 - 1, 1<<63 - 2, 1<<63 - 3, 1 << 62, 1<<62 - 1, 1 << 40, 1<<32 + 1, 1 << 32, 1<<31 - 1, 1 << 31, 1e9, 1e8, 100 << 20, 100<<20 + 1, 1e7, 1 << 20, 65536, 4096, 4097, 4095, 8192, 1024})
}

// huge makes patches that are well formed but declare enormous positions,
// counts or sizes.
func genC01huge(g *G) totalCase {
	f := g.mfile(6)
	c := totalCase{Srcs: g.sources()}
	switch f.Content {
	case "text":
		for i := range f.Hunks {
			h := &f.Hunks[i]
			switch g.Int(0, 5) {
			case 0:
				h.OP = g.hugeNumber()
			case 1:
				h.NP = g.hugeNumber()
			case 2:
				h.OP, h.NP = g.hugeNumber(), g.hugeNumber()
			case 3:
				h.OL = g.hugeNumber()
			case 4:
				h.NL = g.hugeNumber()
			default:
				h.OL, h.NL = g.hugeNumber(), g.hugeNumber()
			}
		}
		c.Text = BS(f.render(g.hstyle()))
	case "binary":
		c.Text = BS(g.hugeBinary(c.Srcs))
	default:
		c.Text = BS(g.mutate(f.render(g.hstyle())))
	}
	return c
}

func (g *G) hugeBinary(srcs []BS) string {
	head := "diff --git a/x b/x\nindex 1234567..89abcde 100644\nGIT binary patch\n"
	one := func() string {
		var data []byte
		method := "literal"
		if g.Bool() {
			method = "delta"
			src := pick(g, srcs)
			ss, ds := uint64(len(src)), uint64(g.Int(0, 300))
			if g.Chance(3) {
				ss = uint64(g.hugeNumber())
			}
			if g.Chance(2) {
				ds = uint64(g.hugeNumber())
			}
			var ops []DOp
			for i, n := 0, g.Int(0, 12); i < n; i++ {
				if g.Bool() {
					ops = append(ops, DOp{Copy: true, Off: uint32(g.Int(0, len(src))), Size: uint32(g.Int(0, len(src)))})
				} else if g.Chance(4) {
					ops = append(ops, DOp{Copy: true, Off: uint32(g.hugeNumber()), Size: uint32(g.hugeNumber()) & 0xffffff})
				} else {
					ops = append(ops, DOp{Add: BS(bulk(1, g.Int(1, 20)))})
				}
			}
			data = encodeDelta(ss, ds, ops)
		} else {
			data = []byte(strings.Repeat("\x00", pick(g, []int{0, 1, 100, 5000, 100000, 1 << 20})))
		}
		size := int64(len(data))
		if g.Chance(2) {
			size = g.hugeNumber()
		} else if g.Chance(4) {
			size = max(0, size+int64(g.Int(-2, 2)))
		}
		return fmt.Sprintf("%s %d\n", method, size) + refBinLines(deflate(data, 9), 52)
	}
	s := head + one()
	if g.Bool() {
		s += one()
	}
	return s
}

// scaling: large inputs made of one repeated piece
type scaleCase struct {
	Head, Rep, Tail BS
	Bytes           int
	Src             BS
	SrcBytes        int
}

var scaleHeads = []string{"", "", "diff --git a/x b/x\n", "diff --git a/x b/x\nindex 1234567..89abcde 100644\n--- a/x\n+++ b/x\n", "diff --git a/x b/x\nindex 1234567..89abcde 100644\n--- a/x\n+++ b/x\n@@ -1 +1 @@\n", "diff --git a/x b/x\nGIT binary patch\nliteral 5\n", "--- x\n+++ x\n", "diff --git ", "diff --git a/x ", "diff --git \"a/x", "diff --git a/x b/x\n--- ", "diff --git a/x b/x\n--- \"", "diff --git a/x b/x\nrename from ", "diff --git a/x b/x\nindex ", "diff --git a/x b/x\nold mode ", "@@ -", "diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1 +1 @@ ", "diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -1,999999999 +1,999999999 @@\n", "diff --git a/x b/x\n--- a/x\n+++ b/x\n@@ -", "--- x\t", "Binary files ", "diff --git a/x b/x\nBinary files a/x and "}
var scaleReps = []string{" ", "a", "/", "\"", "\\", "\\\\", "\t", "\n", "1", ",", "+", "-", "@@ -", " @@", " +", "a/ ", "a b/", "\\n", "\\101", "\"\"", "//", "x/y ", "0", "\xff", "\x00", " a\n", "+a\n", "-a\n", "\n\n", "\\ No newline at end of file\n", "@@ -1 +1 @@\n-a\n+b\n", "diff --git a/x b/x\nold mode 100644\nnew mode 100755\n", "diff --git a/x b/x\n", "--- a\n", "+++ a\n", "--- a\n+++ b\n", "--- a\n+++ b\n@@ -1 +1 @@\n-a\n+b\n", "old mode 100644\n", "index 1..2\n", "zABCDEFGHIJKLMNOPQRSTABCDEFGHIJKLMNOPQRSTABCDEFGHIJKLMNOPQRSTABCDE\n", "A00000\n", "similarity index 50%\n", "rename from x\n", "@@ -1\n", "@@ x @@\n", "diff", "..", "%", "Binary files a and b differ\n", "GIT binary patch\n", "literal 5\n", "-a\n+b\n", "-\n", "+\n", " \n"}
var scaleTails = []string{"", "", "\n", " @@\n", "\n@@ -1 +1 @@\n-a\n+b\n", "\"\n", " differ\n", "\n\n", " b/x\n"}

func genC01scale(g *G) scaleCase {
	return scaleCase{Head: BS(pick(g, scaleHeads)), Rep: BS(pick(g, scaleReps)), Tail: BS(pick(g, scaleTails)), Bytes: 1 << 20,
		Src: BS(pick(g, []string{"", "a\n", "x", "\n", "line\n"})), SrcBytes: g.Int(0, 1<<19)}
}

func checkC01scale(c *scaleCase, o *Obs) error {
	n := c.Bytes / max(1, len(c.Rep))
	in := string(c.Head) + strings.Repeat(string(c.Rep), n) + string(c.Tail)
	src := strings.Repeat(string(c.Src), c.SrcBytes/max(1, len(c.Src)))
	t0, before := cpuNow(), allocBytes()
	bound, files := pipeline(in, []string{src})
	if used := allocBytes() - before; used > bound {
		return fmt.Errorf("%d bytes allocated, at most %d expected for an input of %d bytes", used, bound, len(in))
	}
	if d := cpuNow() - t0; d > 20e9 {
		return fmt.Errorf("%.1f s of CPU time for an input of %d bytes", float64(d)/1e9, len(in))
	}
	o.NTIf(len(in) > 100000)
	o.LabelIf(len(files) > 0, "files")
	return nil
}

// large sources: applying a patch must stay linear in source and patch
type meterReaderAt struct {
	s     string
	bytes int64
}

func (r *meterReaderAt) ReadAt(p []byte, off int64) (int, error) {
	n, err := plainReaderAt{r.s}.ReadAt(p, off)
	r.bytes += int64(n)
	return n, err
}

func genC01source(g *G) bigCase {
	w := pick(g, []int{0, 0, 3, 20, 80, 1000, 30000})
	n := pick(g, []int{1 << 20, 1 << 18}) / (w/2 + 4)
	return bigCase{Seed: g.Uint64(), N: max(n, 10), Every: pick(g, []int{3, 100, 2000, 1 << 30, 1 << 30}), Width: w, Ctx: g.Int(1, 4), NoEOL: g.Int(0, 3), Fill: g.filler()}
}

func checkC01source(c *bigCase, o *Obs) error {
	a := c.build()
	if len(a.Hunks) == 0 {
		return nil
	}
	if c.Every == 1<<30 {
		a.Hunks = a.Hunks[len(a.Hunks)-1:]
	}
	old := oldOf(a.Script)
	text := "--- a\n+++ a\n" + renderHunks(a.Hunks, HunkStyle{})
	f, err := parseOne(text)
	if err != nil {
		return err
	}
	size := uint64(len(old) + len(text))
	lines := uint64(len(a.Script))
	src := &meterReaderAt{s: old}
	t0, before := cpuNow(), allocBytes()
	var out countWriter
	if err := gitdiff.Apply(&out, src, f); err != nil {
		return err
	}
	used := allocBytes() - before
	if bound := 4<<20 + 48*size + 400*lines + 400<<10*uint64(len(a.Hunks)); used > bound {
		return fmt.Errorf("%d bytes allocated, at most %d expected for %d lines of %d bytes and %d fragments", used, bound, lines, size, len(a.Hunks))
	}
	if bound := int64(4<<20 + 48*size + 400<<10*uint64(len(a.Hunks))); src.bytes > bound {
		return fmt.Errorf("%d bytes read, at most %d expected for %d lines of %d bytes and %d fragments", src.bytes, bound, lines, size, len(a.Hunks))
	}
	if d := cpuNow() - t0; d > 20e9 {
		return fmt.Errorf("%.1f s of CPU time to apply to %d lines of %d bytes", float64(d)/1e9, lines, size)
	}
	o.NTIf(size > 100000)
	return nil
}

func init() {
	register(&Prop{ID: "C01", Rule: "damaged patches, token soup, well-formed patches with enormous declared positions, counts and sizes, compression bombs, and inputs of a megabyte of one repeated piece, large sources, each parsed, formatted, validated, decompressed and applied to several sources under a bound on allocation; non-trivial: at least one file was parsed, or the input is large",
		Subs: []*Sub{
			Gen("soup", 60000, 2000000, genC01soup, checkC01),
			Gen("huge", 24000, 600000, genC01huge, checkC01),
			Gen("scale", 1200, 20000, genC01scale, checkC01scale),
			Gen("source", 200, 4000, genC01source, checkC01source),
		}})
}
