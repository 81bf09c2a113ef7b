package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// Large cases reuse the checks of the other searches on inputs that are
// thousands to millions of times a minimal one, so that limits, counters and
// buffers that only show beyond some size have their say. A case is a few
// numbers; the input is built from them.

type largeCase struct {
	Kind string
	N    int
	Alt  int
	Seed uint64
}

type largeKind struct {
	name string
	max  int
}

// scale is a size up to max: near a power of two or of ten, or anything of
// that magnitude, large ones more often.
func (g *G) scale(max int) int {
	top := 0
	for max>>(top+1) > 0 {
		top++
	}
	k := top
	if !g.Chance(2) {
		k = g.Int(min(6, top), top)
	}
	n := 1 << k
	switch g.Int(0, 3) {
	case 0:
		n += g.Int(-2, 2)
	case 1:
		t := 10
		for t <= n/10 {
			t *= 10
		}
		n = t*pick(g, []int{1, 1, 2, 3, 5}) + g.Int(-2, 2)
	default:
		n += int(g.Uint64() % uint64(n))
	}
	if n > max {
		n = max - int(g.Uint64()%uint64(max/8+1))
	}
	return n
}

func genLarge(kinds ...largeKind) func(g *G) largeCase {
	return func(g *G) largeCase {
		k := pick(g, kinds)
		return largeCase{Kind: k.name, N: g.scale(k.max), Alt: g.Int(0, 1<<20), Seed: g.Uint64()}
	}
}

// wrong is a small difference, or one that a narrow counter cannot see.
func (c *largeCase) wrong() int64 {
	return []int64{1, -1, 256, -256, 1 << 16, -1 << 16, 1 << 12, 1 << 20, 2, 1 << 32, -1 << 32, 1 << 31}[c.Alt>>4%12]
}

var lineKinds = []largeKind{{"leading", 150000}, {"trailing", 150000}, {"middle", 150000}, {"added", 150000}, {"deleted", 150000}, {"changed", 80000}, {"mixed", 150000},
	{"long line", 4 << 20}, {"long last line", 1 << 20}, {"long lines", 1 << 17}, {"comment", 1 << 21}, {"fragments", 20000}}

func (c *largeCase) line(p *prng, i int) BS {
	switch p.intn(8) {
	case 0:
		return BS(plainLines[p.intn(len(plainLines))] + "\n")
	case 1:
		return BS(trickyLines[p.intn(len(trickyLines))] + "\n")
	}
	return BS(fmt.Sprintf("l%d\n", i))
}

// longText is one line of n bytes without its newline.
func (c *largeCase) longText(n int) string {
	f := fillers[c.Alt%len(fillers)]
	return strings.Repeat(f, n/len(f)+1)[:n]
}

// hunks builds hunks of the kind.
func (c *largeCase) hunks() []Hunk {
	p := prng(c.Seed)
	var ls []ML
	add := func(op string, n int) {
		for i := 0; i < n; i++ {
			ls = append(ls, ML{op, c.line(&p, i)})
		}
	}
	pos := int64(1 + c.Alt%3)
	h := Hunk{OP: pos, NP: pos}
	small := 1 + c.Alt>>8%3
	switch c.Kind {
	case "leading":
		add(" ", c.N)
		add("-", small)
		add("+", 1)
		add(" ", c.Alt%4)
	case "trailing":
		add(" ", c.Alt%4)
		add("+", small)
		add(" ", c.N)
	case "middle":
		add(" ", c.Alt%4)
		add("-", 1)
		add(" ", c.N)
		add("+", small)
		add(" ", c.Alt>>4%4)
	case "added":
		add(" ", c.Alt%4)
		add("+", c.N)
		add(" ", 3)
	case "deleted":
		add(" ", c.Alt%4)
		add("-", c.N)
		add(" ", 3)
	case "changed":
		add(" ", 3)
		add("-", c.N)
		add("+", c.N+c.Alt%7)
		add(" ", 3)
	case "mixed":
		for i := 0; i < c.N; i++ {
			add([]string{" ", "-", "+"}[p.intn(3)], 1)
		}
		add("+", 1)
	case "long line", "long last line":
		add(" ", 1)
		s := c.longText(c.N)
		switch c.Alt >> 8 % 3 {
		case 0:
			ls = append(ls, ML{"-", BS(s + "\n")}, ML{"+", "x\n"})
		case 1:
			ls = append(ls, ML{"-", "x\n"}, ML{"+", BS(s + "\n")})
		default:
			ls = append(ls, ML{"-", "x\n"}, ML{" ", BS(s + "\n")})
		}
		add(" ", 2)
		if c.Kind == "long last line" {
			ls = ls[:len(ls)-2]
			l := &ls[len(ls)-1]
			l.S = BS(strings.TrimSuffix(string(l.S), "\n"))
		}
	case "long lines":
		for i := 0; i < 12; i++ {
			ls = append(ls, ML{[]string{" ", "-", "+"}[p.intn(3)], BS(c.longText(c.N-p.intn(min(c.N, 3))) + "\n")})
		}
		add("+", 1)
	case "comment":
		h.Comment = BS("f(" + strings.ReplaceAll(c.longText(c.N), "\r", "r") + "x)")
		add("-", 1)
		add(" ", 2)
	case "fragments":
		var hs []Hunk
		op, np := int64(1), int64(1)
		for i := 0; i < c.N; i++ {
			h := Hunk{OP: op, NP: np}
			h.Lines = []ML{{" ", c.line(&p, i)}, {"-", c.line(&p, i)}, {"+", c.line(&p, i)}}
			switch p.intn(4) {
			case 0:
				h.Lines = append(h.Lines, ML{"+", "y\n"})
			case 1:
				h.Lines[2].Op = "-"
			}
			h.setCounts()
			op += h.OL + int64(p.intn(3))
			np += op - h.OP - h.OL + h.NL
			hs = append(hs, h)
		}
		return hs
	default:
		infraf("kind %q", c.Kind)
	}
	h.Lines = ls
	h.setCounts()
	if h.OL == 0 {
		h.OP--
	}
	if h.NL == 0 {
		h.NP--
	}
	return []Hunk{h}
}

func (c *largeCase) style() HunkStyle {
	return HunkStyle{OmitOne: c.Alt&1 != 0, BareCtx: c.Alt&2 != 0}
}

func largeC03(c *largeCase, o *Obs) error {
	o.Label(c.Kind)
	x := c03Case{Hunks: c.hunks(), Style: c.style(), Trad: c.Alt&4 != 0, Tail: BS(fragTails[c.Alt%len(fragTails)])}
	if last := x.Hunks[len(x.Hunks)-1]; !strings.HasSuffix(string(last.Lines[len(last.Lines)-1].S), "\n") && strings.HasPrefix(string(x.Tail), "\\") {
		x.Tail = ""
	}
	x.fixTail()
	if err := checkC03(&x, o); err != nil {
		return err
	}
	o.NT()
	return checkC02(&textCase{BS(x.render())}, o)
}

// ---------------------------------------------------------------- names

var nameKinds = []largeKind{{"component", 1 << 17}, {"components", 1 << 16}, {"escapes", 1 << 16}, {"spaces", 1 << 16}, {"utf-8", 1 << 16}, {"quote", 1 << 17}}

func (c *largeCase) path() string {
	p := prng(c.Seed)
	switch c.Kind {
	case "components":
		var parts []string
		for n := 0; n < c.N; n += 2 + len(parts[len(parts)-1]) {
			parts = append(parts, []string{"a", "dir", "b b", "x.y", "h\xc3\xa9", "sub-dir"}[p.intn(6)])
		}
		return strings.Join(parts, "/")
	case "escapes":
		b := make([]byte, c.N)
		for i := range b {
			b[i] = "\x01\t\"\\\x7f\x80\xff\a\n\rxyz012789"[p.intn(19)]
		}
		return "e" + string(b) + "e"
	case "spaces":
		var b strings.Builder
		for b.Len() < c.N {
			b.WriteString([]string{"w", " ", "  ", "word"}[p.intn(4)])
		}
		return "s" + b.String() + "s"
	case "utf-8":
		return strings.Repeat("\u00e9x", c.N/3+1)
	case "quote":
		// one byte that needs quoting at the end, the start or both
		s := strings.Repeat("n", c.N)
		switch p.intn(3) {
		case 0:
			return s + "\""
		case 1:
			return "\"" + s
		}
		return "\t" + s + "\\"
	}
	return strings.Repeat("0123456789", c.N/10+1)[:c.N]
}

func (c *largeCase) named() fileCase {
	p := c.path()
	f := MFile{Kind: []string{"modify", "mode", "create", "delete", "rename", "copy", "modify", "rename"}[c.Alt%8], Old: BS(p), New: BS(p), OldMode: 0o100644, NewMode: 0o100644, OldOID: "1234567", NewOID: "89abcde"}
	f.Content = []string{"text", "none", "marker", "text"}[c.Alt>>3%4]
	h := Hunk{OP: 1, NP: 1, Lines: []ML{{"-", "a\n"}, {"+", "b\n"}}}
	switch f.Kind {
	case "rename", "copy":
		f.Score = 90
		switch c.Alt >> 6 % 3 {
		case 0:
			f.New += "2"
		case 1:
			f.New = "d/" + f.Old
		default:
			f.New = "y" + f.Old[1:]
		}
		if f.New == f.Old {
			f.New += "z"
		}
	case "mode":
		f.NewMode = 0o100755
	case "create":
		f.OldMode, f.OldOID = 0, "0000000"
		h = Hunk{NP: 1, Lines: h.Lines[1:]}
	case "delete":
		f.NewMode, f.NewOID = 0, "0000000"
		h = Hunk{OP: 1, Lines: h.Lines[:1]}
	case "modify":
		if f.Content == "none" {
			f.Content = "text"
		}
	}
	if f.Content == "none" {
		if f.Kind != "create" && f.Kind != "delete" {
			f.OldOID, f.NewOID = "", ""
		}
		if f.Score > 0 {
			f.Score = 100
		}
	}
	if f.Content == "text" {
		h.setCounts()
		f.Hunks = []Hunk{h}
	}
	pf := prefixPairs[c.Alt>>10%len(prefixPairs)]
	if pf[0] == "/" {
		pf = prefixPairs[0]
	}
	return fileCase{F: f, Style: HStyle{A: BS(pf[0]), B: BS(pf[1]), QuoteUTF: c.Alt>>14&1 != 0, Legacy: c.Alt>>15&7 == 0}}
}

func largeC05(c *largeCase, o *Obs) error {
	o.Label(c.Kind)
	f := c.named()
	o.NT()
	return checkFileCase(&f, o)
}

func largeC06(c *largeCase, o *Obs) error {
	o.Label(c.Kind)
	o.NT()
	f := TradFile{Kind: []string{"modify", "create", "delete"}[c.Alt%3], Style: c.style(), OldTS: "\t2020-01-01 00:00:00.000000000 +0000", NewTS: "\t2020-01-02 00:00:00 +0100"}
	named := false
	for _, k := range nameKinds {
		named = named || k.name == c.Kind
	}
	if !named {
		f.Kind, f.Old, f.New = "modify", "f", "f"
		f.Hunks = c.hunks()
		x := tradCase{Files: []TradFile{f}, Sep: []BS{""}}
		return checkC06(&x, o)
	}
	p := BS(c.path())
	f.Old, f.New = p, p
	if c.Alt>>4%2 == 0 {
		f.Old += ".orig"
	}
	h := Hunk{OP: 1, NP: 1, Lines: []ML{{"-", "a\n"}, {"+", "b\n"}}}
	switch f.Kind {
	case "create":
		f.Old, f.OldTS = "/dev/null", "\t1970-01-01 00:00:00.000000000 +0000"
		h = Hunk{NP: 1, Lines: h.Lines[1:]}
	case "delete":
		f.Old, f.New, f.NewTS = p, "/dev/null", ""
		h = Hunk{OP: 1, Lines: h.Lines[:1]}
	}
	h.setCounts()
	f.Hunks = []Hunk{h}
	x := tradCase{Files: []TradFile{f}, Sep: []BS{""}}
	return checkC06(&x, o)
}

// ---------------------------------------------------------------- binary

// data is n bytes that compress well, badly or not at all.
func (c *largeCase) data(n int) []byte {
	switch c.Alt >> 5 % 3 {
	case 0:
		return bytes.Repeat([]byte("ab\x00\n"), n/4+1)[:n]
	case 1:
		b := bulk(c.Seed, n)
		for i := range b {
			b[i] &= 0x83
		}
		return b
	}
	return bulk(c.Seed, n)
}

func (c *largeCase) binFile() MFile {
	lv := []int{0, -1, 1, 9, -2, 0}[c.Alt%6]
	f := MFile{Kind: "modify", Old: "f.bin", New: "f.bin", OldMode: 0o100644, NewMode: 0o100644, OldOID: zeros(39) + "1", NewOID: zeros(39) + "2", Content: "binary"}
	big := &BinFrag{Data: BS(c.data(c.N)), Level: lv, Delta: c.Alt&64 != 0}
	little := &BinFrag{Data: "x", Level: -1}
	f.Fwd, f.Rev = big, little
	switch c.Alt >> 8 % 4 {
	case 0:
		f.Fwd, f.Rev = little, big
	case 1:
		f.Rev = nil
	}
	return f
}

func largeC07(c *largeCase, o *Obs) error {
	o.Label(c.Kind)
	o.NT()
	if c.Kind == "declared" {
		// nobody reads the data, which are fewer; the declared size is reported
		n := uint64(c.N)
		if c.Alt&1 != 0 {
			n = c.Seed >> (1 + c.Alt>>1%40)
		}
		raw := deflate([]byte("x"), -1)
		in := fmt.Sprintf("diff --git a/x b/x\nindex 1234567..89abcde 100644\nGIT binary patch\nliteral %d\n%sdelta %d\n%s", n, refBinLines(raw, 52), n/3+1, refBinLines(raw, 52))
		f, err := parseOne(in)
		if err != nil {
			return err
		}
		if f.BinaryFragment.Size != int64(n) || f.ReverseBinaryFragment.Size != int64(n/3+1) {
			return fmt.Errorf("sizes %d and %d, want %d and %d", f.BinaryFragment.Size, f.ReverseBinaryFragment.Size, n, n/3+1)
		}
		return checkFormat(f)
	}
	x := c07Case{F: c.binFile(), Style: HStyle{A: "a/", B: "b/"}}
	return checkC07(&x, o)
}

// ------------------------------------------------------- sequences of files

type largeCompose struct {
	Base composeCase
	Rep  int // the files again and again
	Pre  int // bytes of more text in front
	Gap  int // bytes of more text between
	Seed uint64
	Form int
}

func genLargeCompose(g *G) largeCompose {
	c := largeCompose{Base: composeCase{Parts: g.parts(3, 3)}, Rep: 1, Seed: g.Uint64(), Form: g.Int(0, 3)}
	switch g.Int(0, 3) {
	case 0, 1:
		c.Rep = g.scale(3000)
	case 2:
		c.Pre = g.scale(4 << 20)
	default:
		c.Gap, c.Rep = g.scale(2<<20), 2
	}
	return c
}

// prose is text that starts no patch.
func prose(seed uint64, n, form int) string {
	p := prng(seed)
	var b strings.Builder
	switch form {
	case 0: // one line
		return strings.Repeat("x", max(0, n-1)) + "\n"
	case 1:
		for b.Len() < n {
			b.WriteString("\n")
		}
	case 2:
		for b.Len() < n {
			b.WriteString([]string{"word", " ", "\n", "- item\n", "--- a\n", "diff\n", "\r\n", "+1\n", "\t", "Index: x\n"}[p.intn(10)])
		}
		b.WriteString("\n")
	default:
		for b.Len() < n {
			fmt.Fprintf(&b, "line %d of some text\n", p.intn(1000))
		}
	}
	return b.String()
}

func repeatParts(ps []Part, n int, gap string) []Part {
	var out []Part
	for i := 0; i < n; i++ {
		out = append(out, ps...)
		if i < n-1 && (gap != "" || ps[len(ps)-1].Junk == "") {
			sep := "diff -u a b\n" + gap
			if ps[len(ps)-1].Junk != "" {
				sep = "junk\n" + gap
			}
			out = append(out, Part{Junk: BS(sep)})
		}
	}
	return out
}

func (c *largeCompose) pre() BS {
	if c.Pre == 0 {
		return ""
	}
	return BS(prose(c.Seed, c.Pre, c.Form))
}

func (c *largeCompose) gap() string {
	if c.Gap == 0 {
		return ""
	}
	return prose(c.Seed, c.Gap, c.Form)
}

func checkLargeCompose(c *largeCompose, o *Obs) error {
	x := composeCase{Pre: c.pre(), Parts: repeatParts(c.Base.Parts, c.Rep, c.gap())}
	o.LabelIf(len(x.Parts) > 1000, "over 1000 pieces")
	o.LabelIf(c.Pre > 1<<20 || c.Gap > 1<<20, "over 1 MB of text")
	return checkC08(&x, o)
}

type largeDefect struct {
	Base defectCase
	Rep  int
	Pre  int
	Seed uint64
	Form int
}

func genLargeDefect(gen func(g *G) defectCase) func(g *G) largeDefect {
	return func(g *G) largeDefect {
		c := largeDefect{Base: gen(g), Rep: 1, Seed: g.Uint64(), Form: g.Int(0, 3)}
		if g.Bool() {
			c.Rep = g.scale(2000)
		} else {
			c.Pre = g.scale(1 << 20)
		}
		return c
	}
}

func (c *largeDefect) build() defectCase {
	x := c.Base
	if c.Pre > 0 {
		x.Pre = BS(prose(c.Seed, c.Pre, c.Form))
	}
	if len(x.Parts) > 0 {
		x.Parts = repeatParts(x.Parts, c.Rep, "")
	}
	return x
}

// largeC09 damages the count of a large hunk.
func largeC09(c *largeCase, o *Obs) error {
	o.NT()
	o.Label(c.Kind)
	if c.Kind == "payload" {
		f := c.binFile()
		big := f.Fwd
		if f.Rev != nil && len(f.Rev.Data) > len(big.Data) {
			big = f.Rev
		}
		text := f.render(HStyle{A: "a/", B: "b/"})
		ls := splitLines(text)
		k := 4 + int(c.Seed%uint64(len(ls)-5))
		if c.Alt>>10&1 != 0 {
			k = len(ls) - 3 - int(c.Seed%4)
		}
		k = max(k, 4)
		l := ls[k]
		if len(l) < 7 || strings.Contains(l, " ") { // not a data line
			return nil
		}
		switch c.Alt >> 11 % 3 {
		case 0:
			ls[k] = l[:3] + " " + l[4:]
		case 1:
			ls[k] = l[:len(l)-2] + "\n"
		default:
			ls[k] = "~" + l[1:]
		}
		in := strings.Join(ls, "")
		if files, _, err := parseString(in); err == nil {
			return fmt.Errorf("damaged data line %d of %d: Parse accepted it (%d files)", k+1, len(ls), len(files))
		}
		return nil
	}
	hs := c.hunks()
	h := &hs[len(hs)-1]
	d := c.wrong()
	if d < 0 {
		d = -d
	}
	what := "too few lines"
	switch c.Alt >> 9 % 3 {
	case 0:
		h.OL += d
	case 1:
		h.NL += d
	default:
		h.OL += d
		h.NL += d
	}
	in := goodNames + renderHunks(hs, c.style()) + []string{"", "diff --git a/z b/z\nold mode 100644\nnew mode 100755\n", "Index: y\n"}[c.Alt>>13%3]
	if files, _, err := parseString(in); err == nil {
		return fmt.Errorf("%s: %d missing: Parse accepted it (%d files)", what, d, len(files))
	}
	return nil
}

// ---------------------------------------------------------------- readers

type largeReader struct {
	L     largeCompose
	Chunk int
	Fault *faultCase `json:",omitempty"`
}

func genLargeReader(g *G) largeReader {
	c := largeReader{L: genLargeCompose(g), Chunk: pick(g, []int{7, 100, 512, 4095, 4096, 4097, 65536})}
	c.L.Pre, c.L.Gap, c.L.Rep = min(c.L.Pre, 1<<19), min(c.L.Gap, 1<<19), min(c.L.Rep, 800)
	if g.Bool() {
		f := genC11fault(g)
		f.Text = ""
		f.Chunk = pick(g, []int{64, 4095, 4096, 4097})
		c.Fault = &f
	}
	return c
}

func checkLargeReader(c *largeReader, o *Obs) error {
	text := string(c.L.pre()) + renderParts(repeatParts(c.L.Base.Parts, c.L.Rep, c.L.gap()))
	if c.Fault == nil {
		return checkC11(&readerCase{Text: BS(text), Chunk: c.Chunk, Seed: c.L.Seed}, o)
	}
	f := *c.Fault
	f.Text, f.Step = BS(text), max(1, len(text)/12)
	return checkC11fault(&f, o)
}

// ---------------------------------------------------------------- applying

// hugeCase is a long text with few or many, small or large changes.
func (g *G) hugeCase(max int) bigCase {
	b := bigCase{Seed: g.Uint64(), N: g.scale(max), Ctx: pick(g, []int{0, 0, 1, 3, 3, 10, 1000, 70000}), NoEOL: g.Int(0, 3), Fill: g.filler()}
	b.Every = pick(g, []int{1, 5, 100, 5000, 1 << 16, 1 << 17, 1 << 18})
	b.Width = pick(g, []int{0, 3, 20, 60})
	if g.Chance(4) { // few long lines
		b.N, b.Every = g.scale(64), pick(g, []int{1, 5, 20})
		b.Width = g.scale(1 << 19)
	}
	return b
}

func (g *G) largeConflict(max int) bigConflict {
	return bigConflict{g.hugeCase(max), g.Uint64(), g.Bool()}
}

func genLargeLong(g *G) longCase {
	c := genC13long(g)
	c.Big = g.hugeCase(100000)
	if g.Bool() {
		c.At |= 1 << 40
	}
	return c
}

// checkCopy applies nothing to a long text, which copies it.
func checkCopy(c *bigCase, o *Obs) error {
	o.NT()
	src := oldOf(c.script())
	for _, f := range []*gitdiff.File{{OldName: "f", NewName: "f"}, {OldName: "f", NewName: "g", IsRename: true}} {
		var dst bytes.Buffer
		if err := gitdiff.Apply(&dst, strings.NewReader(src), f); err != nil {
			return fmt.Errorf("nothing to apply to %d bytes: %v", len(src), err)
		}
		if dst.String() != src {
			return fmt.Errorf("nothing to apply to %d bytes, the result has %d", len(src), dst.Len())
		}
	}
	for k, closer := range []func(w io.Writer) error{
		func(w io.Writer) error { return gitdiff.NewTextApplier(w, strings.NewReader(src)).Close() },
		func(w io.Writer) error { return gitdiff.NewBinaryApplier(w, strings.NewReader(src)).Close() },
	} {
		var dst bytes.Buffer
		if err := closer(&dst); err != nil || dst.String() != src {
			return fmt.Errorf("applier %d closed before any fragment: %d of %d bytes, error %v", k, dst.Len(), len(src), err)
		}
	}
	return nil
}

// largeC15 feeds the fragments of a long text one by one.
func largeC15(c *bigCase, o *Obs) error {
	a := c.build()
	l := lifeCase{Script: a.Script, Hunks: a.Hunks}
	p := prng(c.Seed)
	for i := range a.Hunks {
		if i > 150 {
			break
		}
		if p.intn(20) == 0 {
			l.Ops = append(l.Ops, lifeOp{[]string{"stale", "nil", "invalid", "skip"}[p.intn(4)], p.intn(8)})
		}
		l.Ops = append(l.Ops, lifeOp{"frag", 0})
	}
	l.Ops = append(l.Ops, lifeOp{"close", 0}, lifeOp{"frag", 0}, lifeOp{"close", 0})
	return checkC15(&l, o)
}

// largeC16 permutes the fragments of a long text, among other operations.
func largeC16(c *bigCase, o *Obs) error {
	a := c.build()
	f := MFile{Kind: "modify", Old: "f", New: "f", OldMode: 0o100644, NewMode: 0o100644, Content: "text", Hunks: a.Hunks}
	old, new := oldOf(a.Script), newOf(a.Script)
	if old == "" || new == "" {
		return nil
	}
	x := pureCase{Parts: []Part{{F: &f, Style: HStyle{A: "a/", B: "b/"}}}, Srcs: []BS{BS(old), "a\nb\n"}}
	p := prng(c.Seed)
	for i := 0; i < 4; i++ {
		x.Ops = append(x.Ops, pureOp{0, pureKinds[p.intn(len(pureKinds))], p.intn(10)})
	}
	x.Ops = append(x.Ops, pureOp{0, "permute", 6}, pureOp{0, "apply", 8}, pureOp{0, "permute", 7})
	return checkC16(&x, o)
}

var ioKinds = []largeKind{{"big", 60000}, {"literal", 1 << 20}, {"delta", 1 << 20}, {"copy", 1 << 22}, {"unused text", 1 << 21}, {"unused binary", 1 << 22}}

func largeC17(c *largeCase, o *Obs) error {
	x := ioCase{Kind: c.Kind, Few: true, Applier: c.Alt&1 != 0, Transient: c.Alt&2 != 0, Give: c.Alt >> 2 % 3, All: c.Alt&16 != 0, Err: c.Alt >> 5 % 4, Seed: c.Seed}
	switch c.Kind {
	case "big":
		x.Big = &bigCase{Seed: c.Seed, N: c.N, Every: []int{1, 20, 5000, 1 << 16}[c.Alt>>8%4], Width: 60, Ctx: []int{0, 3, 1000}[c.Alt>>10%3]}
	case "literal":
		x.Dst = BS(c.data(c.N))
	case "delta":
		x.Src, x.Dst = BS(c.data(c.N)), BS(c.data(c.N)[c.N/3:])+"tail"
	case "unused text":
		x.Src = BS(prose(c.Seed, c.N, c.Alt>>8%4))
	default:
		x.Src = BS(c.data(c.N))
	}
	return checkC17(&x, o)
}

func genLargeC18(g *G) accessCase {
	switch g.Int(0, 4) {
	case 0:
		c := accessCase{Edit: g.Int(0, 300), Fill: g.filler()}
		for i, n := 0, g.Int(1, 5); i < n; i++ {
			c.Lens = append(c.Lens, g.scale(1<<20))
		}
		return c
	}
	b := g.hugeCase(150000)
	return accessCase{Big: &b}
}

// ---------------------------------------------------------------- deltas

// delta builds a delta of many instructions, or of few for a long source.
func (c *largeCase) delta() (src []byte, ops []DOp) {
	p := prng(c.Seed)
	n, size := c.N, 5000
	switch c.Kind {
	case "source": // far offsets, long copies
		n, size = 40, c.N
	case "adds":
		size = 10
	}
	src = bulk(c.Seed+1, size)
	total := 0
	for i := 0; i < n && total < 8<<20; i++ {
		if c.Kind == "adds" || p.intn(3) == 0 {
			k := 1 + p.intn(6)
			if c.Alt>>12&1 != 0 || p.intn(50) == 0 {
				k = 1 + p.intn(127)
			}
			ops = append(ops, DOp{Add: BS(bulk(p.next(), k))})
			total += k
			continue
		}
		k := 1 + p.intn(min(len(src), 40))
		if c.Kind == "source" {
			k = 1 + p.intn(min(len(src), 1<<20))
		}
		off := p.intn(len(src) - k + 1)
		if p.intn(4) == 0 {
			off = len(src) - k
		}
		ops = append(ops, DOp{Copy: true, Off: uint32(off), Size: uint32(k), Force: byte(p.intn(128))})
		total += k
	}
	if len(ops) == 0 {
		ops = []DOp{{Add: "x"}}
	}
	return
}

func opsLen(ops []DOp) int { return (&limitCase{Delta: true, Ops: ops}).result() }

func largeC19(c *largeCase, o *Obs) error {
	o.NT()
	src, ops := c.delta()
	n := opsLen(ops)
	ss, ds := int64(len(src)), int64(n)
	switch c.Alt >> 7 % 6 {
	case 0:
		ss += c.wrong()
	case 1:
		ds += c.wrong()
	case 2:
		// the last copy leaves the source
		ops = append(ops, DOp{Copy: true, Off: uint32(len(src)), Size: 1})
		ds++
	}
	d := encodeDelta(uint64(max(0, ss)), uint64(max(0, ds)), ops)
	if c.Alt>>7%6 == 3 {
		d = d[:len(d)-1]
	}
	return checkDelta(src, d, o)
}

func largeC20(c *largeCase, o *Obs) error {
	x := limitCase{Delta: c.Kind != "literal", Seed: c.Seed, Stream: c.N, Apply: c.Alt&1 != 0}
	if x.Delta {
		var src []byte
		src, x.Ops = c.delta()
		x.Src = BS(src)
	}
	data, _ := x.build()
	size := []int64{int64(len(data)), int64(x.result())}[c.Alt>>1&1]
	x.Limit = size + []int64{0, 0, -1, 1, -256, 256, -1 << 16, 1 << 16, -1 << 20, 1 << 20, 1 << 32, 1<<32 - size, 1<<32 - 2*size}[c.Alt>>2%13]
	return checkC20(&x, o)
}

func largeC21(c *largeCase, o *Obs) error {
	p := prng(c.Seed)
	x := corruptCase{Src: "s", Dst: BS(c.data(c.N)), Delta: c.Kind == "delta", Seed: c.Seed, Level: []int{0, -1, 1, 0}[c.Alt%4], Rev: c.Alt>>3%4 == 0, Raw: c.Alt>>6&1 != 0}
	if x.Rev {
		x.Src, x.Dst = x.Dst, x.Src
	}
	if x.Delta {
		x.Src = x.Dst + x.Src
	}
	for i, n := 0, 1+c.Alt>>8%2; i < n; i++ {
		x.Muts = append(x.Muts, corruptMut{p.intn(10), p.intn(1 << 30), p.intn(1 << 30), byte(p.next())})
	}
	return checkC21(&x, o)
}

// ---------------------------------------------------------------- formatting

func largeC22(c *largeCase, o *Obs) error {
	o.Label(c.Kind)
	x := formatCase{}
	st := HStyle{A: "a/", B: "b/", Hunk: c.style()}
	switch c.Kind {
	case "payload":
		f := c.binFile()
		x.Parts = []Part{{F: &f, Style: st}}
	case "declared":
		return largeC07(c, o)
	default:
		named := false
		for _, k := range nameKinds {
			named = named || k.name == c.Kind
		}
		if named {
			f := c.named()
			x.Parts = []Part{{F: &f.F, Style: f.Style}}
			break
		}
		f := MFile{Kind: "modify", Old: "f", New: "f", OldMode: 0o100644, NewMode: 0o100644, OldOID: "1234567", NewOID: "89abcde", Content: "text", Hunks: c.hunks()}
		x.Parts = []Part{{F: &f, Style: st}}
	}
	return checkC22(&x, o)
}

// largeC23 formats a change of a long file for git apply.
func largeC23(c *largeCase, o *Obs) error {
	o.Label(c.Kind)
	a := gaFile{Style: HStyle{A: "a/", B: "b/"}}
	a.F = MFile{Kind: "modify", Old: "f", New: "f", OldMode: 0o100644, NewMode: 0o100644, OldOID: zeros(39) + "1", NewOID: zeros(39) + "2", Content: "text"}
	if c.Kind == "payload" {
		a.F = c.binFile()
		a.F.Fwd = &BinFrag{Data: BS(c.data(c.N)), Level: -1}
		a.Old, a.New = "old\x00", a.F.Fwd.Data
		a.F.Rev = &BinFrag{Data: a.Old, Level: -1}
		a.F.OldOID, a.F.NewOID = blobID(string(a.Old)), blobID(string(a.New))
	} else {
		b := bigCase{Seed: c.Seed, N: c.N, Every: []int{1, 20, 5000, 1 << 16}[c.Alt>>8%4], Width: 40, Ctx: []int{1, 3, 1000}[c.Alt>>10%3], NoEOL: c.Alt & 3}
		s := b.build()
		a.Old, a.New = BS(oldOf(s.Script)), BS(newOf(s.Script))
		a.F.Hunks = s.Hunks
		if a.Old == "" || a.New == "" {
			return nil
		}
	}
	return checkC23(&gitApplyCase{Files: []gaFile{a}, Reverse: c.Alt&32 != 0}, o)
}

// largeC24 has git compare trees of many files, or long files.
func largeC24(c *largeCase, o *Obs) error {
	o.Label(c.Kind)
	p := prng(c.Seed)
	x := diffCase{}
	file := func(n int, path string) treeFile {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(string(c.line(&p, i)))
		}
		return treeFile{Path: BS(path), Mode: 0o100644, Data: BS(b.String())}
	}
	edit := func(f treeFile, every int) treeFile {
		ls := splitLines(string(f.Data))
		for k := 1 + len(ls)/every; k > 0; k-- {
			i := p.intn(len(ls))
			switch p.intn(3) {
			case 0:
				ls[i] = "changed\n"
			case 1:
				ls[i] += "added\n"
			default:
				ls[i] = ""
			}
		}
		f.Data = BS(strings.Join(ls, ""))
		return f
	}
	if c.Kind == "files" {
		for i := 0; i < c.N; i++ {
			f := file(4+p.intn(4), fmt.Sprintf("d%d/f%d", i%7, i))
			switch p.intn(8) {
			case 0:
				x.New = append(x.New, f)
			case 1:
				x.Old = append(x.Old, f)
			case 2:
				x.Old = append(x.Old, f)
				f.Mode = 0o100755
				x.New = append(x.New, f)
			default:
				x.Old = append(x.Old, f)
				x.New = append(x.New, edit(f, 3))
			}
		}
		x.Args = [][]string{nil, {"-U0"}, {"--no-renames"}, {"--full-index"}}[c.Alt%4]
	} else {
		f := file(c.N, "long.txt")
		x.Old = []treeFile{f}
		x.New = []treeFile{edit(f, []int{10, 200, 10000}[c.Alt%3])}
		x.Args = [][]string{nil, {"-U1"}, {"-U10"}, {"-U100000"}, {"-a"}}[c.Alt>>3%5]
	}
	return checkC24(&x, o)
}

// ---------------------------------------------------------------- headers

var msgKinds = []largeKind{{"title lines", 2000}, {"long title", 1 << 20}, {"body lines", 60000}, {"long body line", 1 << 21}, {"blank lines", 60000}, {"paragraphs", 30000}, {"leading blank", 20000}, {"name", 1 << 17}, {"email", 1 << 17}, {"indented", 20000}}

func (c *largeCase) msg() string {
	p := prng(c.Seed)
	w := func(n int) string {
		var b strings.Builder
		for b.Len() < n {
			b.WriteString([]string{"word ", "a ", "longer-word ", "x ", "\u00e9t\u00e9 "}[p.intn(5)])
		}
		return strings.TrimRight(b.String(), " ")
	}
	switch c.Kind {
	case "title lines":
		var b strings.Builder
		for i := 0; i < c.N; i++ {
			fmt.Fprintf(&b, "title %d\n", i)
		}
		return b.String() + "\nbody\n"
	case "long title":
		return w(c.N) + "\n\nbody\n"
	case "body lines":
		var b strings.Builder
		for i := 0; i < c.N; i++ {
			fmt.Fprintf(&b, "line %d\n", i)
		}
		return "title\n\n" + b.String()
	case "long body line":
		return "title\n\n" + w(c.N) + "\nmore\n"
	case "blank lines":
		return "title\n\nbefore\n" + strings.Repeat("\n", c.N) + "after\n"
	case "paragraphs":
		var b strings.Builder
		for i := 0; i < c.N; i++ {
			b.WriteString([]string{"text\n", "\n", " x\n", "\n\n", "\tx\n", "para\n\n"}[p.intn(6)])
		}
		return "title\n\n" + b.String()
	case "leading blank":
		return strings.Repeat("\n", c.N) + "title\n" + strings.Repeat("\n", c.N) + "body\n"
	case "indented":
		return "title\n\n" + strings.Repeat(" ", c.N) + "deep\n" + strings.Repeat("\t", c.N%1000) + "tabs\n"
	}
	return "title\n\nbody\n"
}

func (c *largeCase) person() Person {
	p := Person{Name: "A U Thor", Email: "a@b", Sec: 1500000000}
	switch c.Kind {
	case "name":
		p.Name = BS(strings.TrimSpace(strings.Repeat([]string{"n", "ab ", "x. ", "J (k) "}[c.Alt%4], c.N)[:c.N]))
		p.Name = BS(fixName(collapse(strings.NewReplacer("(", "", ")", "").Replace(string(p.Name)))))
		if p.Name == "" {
			p.Name = "N"
		}
	case "email":
		p.Email = BS(strings.Repeat("m", c.N) + "@" + strings.Repeat("h", c.Alt%300+1))
	}
	return p
}

func largeC25(c *largeCase, o *Obs) error {
	o.Label(c.Kind)
	x := prettyCase{A: c.person(), C: Person{Name: "C", Email: "c@d", Sec: 1600000000}, Msg: BS(c.msg()), Fmt: []string{"medium", "full", "fuller", "short"}[c.Alt>>4%4], Date: dateFormats[c.Alt>>6%len(dateFormats)], SHA: BS(strings.Repeat("0123456789", 4)), CRLF: c.Alt>>12%6 == 0}
	if c.Alt>>8&1 != 0 {
		x.A, x.C = x.C, x.A
	}
	if c.Kind == "noise" {
		for i := 0; i < c.N; i++ {
			x.Extra = append(x.Extra, BS(fmt.Sprintf("X-Line: %d", i)))
		}
	}
	if c.Kind == "decoration" {
		x.Deco = BS(" (" + strings.Repeat("tag: v1, ", c.N/9) + "HEAD)")
	}
	return checkPrettyModel(&x, o)
}

func largeC26(c *largeCase, o *Obs) error {
	o.Label(c.Kind)
	x := mailModel{A: c.person(), NameForm: c.Alt & 1, Order: c.Alt >> 1 % 6, Subject: "[PATCH] subject", Date: "rfc", Case: c.Alt >> 5 % 4, Mode: c.Alt >> 7 % 4, CRLF: c.Alt>>12%6 == 0, Body: "body\n", SHA: BS(strings.Repeat("0123456789", 4)[:40])}
	text := func() BS {
		_, b, _ := strings.Cut(c.msg(), "\n\n")
		return BS(strings.TrimRight(b, "\n") + "\n")
	}
	switch c.Kind {
	case "title lines", "long title":
		s := strings.ReplaceAll(c.msg(), "\u00e9", "e")
		s, _, _ = strings.Cut(s, "\n\n")
		x.Subject = BS("[PATCH] " + strings.Join(strings.Fields(s), " "))
		if c.Kind == "title lines" {
			x.Fold, x.FoldAt = "\n ", -1
		}
	case "noise":
		for i := 0; i < c.N; i++ {
			x.Extra = append(x.Extra, BS(fmt.Sprintf("X-Line-%d: %d", i%50, i)))
		}
	case "noise value":
		x.Extra = []BS{BS("X-Long: " + c.longText(c.N))}
		x.Extra[0] = BS(strings.NewReplacer("\r", "r", "\x00", "0", "\v", "v", "\f", "f", "\x1c", "c").Replace(string(x.Extra[0])))
	case "name", "email":
	default:
		switch c.Alt >> 9 % 3 {
		case 0:
			x.Body = text()
		case 1:
			x.HasApp, x.App = true, text()
		default:
			x.Body, x.HasApp, x.App = text(), true, text()
		}
	}
	return checkMailModel(&x, o)
}

// encoded words: many, long
func largeEnc(c *largeCase, o *Obs) error {
	p := prng(c.Seed)
	var b strings.Builder
	for b.Len() < c.N {
		b.WriteString([]string{"word ", "\u00e9t\u00e9 ", "\u65e5\u672c", "x"}[p.intn(4)])
	}
	x := encCase{Text: BS(collapse(b.String()) + "\u00e9"), Prefix: BS([]string{"", "[PATCH] ", "Re: "}[c.Alt%3]), Chunk: []int{1, 10, 15, 1 << 20}[c.Alt>>2%4], Mode: c.Alt >> 4 % 4, Name: c.Alt>>6%3 == 0, B64: c.Alt>>8&1 != 0}
	return checkEnc(&x, o)
}

func largeC27(c *largeCase, o *Obs) error {
	p := prng(c.Seed)
	rep := []string{"[a]", "re:", "[PATCH] ", "Re: ", " ", "\t", ":", "[PATCH v2 1/3]", "[]", "[x] "}[c.Alt%10]
	s := strings.Repeat(rep, c.N/len(rep)+1)
	switch c.Alt >> 4 % 4 {
	case 0:
		s += "title"
	case 1:
		s += "title " + strings.Repeat("word ", c.N/5) + "end"
	case 2:
		s = "[" + strings.Repeat("a", c.N) + []string{"]", " PATCH]", "", "] x", "PATCH"}[c.Alt>>6%5] + "title"
	default:
		var b strings.Builder
		for b.Len() < c.N {
			b.WriteString(subjectTokens[p.intn(22)])
		}
		s = b.String() + "x"
	}
	return checkSubject(&subjectCase{BS(s), c.Alt >> 10 % 4}, o)
}

func largeC29(c *largeCase, o *Obs) error {
	x := identCase{Form: c.Kind}
	email := "a@b"
	name := "N"
	switch c.Kind {
	case "name":
		name = string(c.person().Name)
		x.S = BS(name + " <" + email + ">")
	case "email":
		email = string(c.person().Email)
		x.S = BS(name + " <" + email + ">")
	case "bare":
		email = string((&largeCase{Kind: "email", N: c.N, Alt: c.Alt}).person().Email)
		name = email
		x.S = BS(email)
	case "quoted":
		name = strings.TrimSpace(strings.Repeat([]string{`a"b`, `\`, "x y", `"`, "(c)"}[c.Alt%5], c.N/3+1))
		if strings.HasPrefix(name, "(") {
			name = "q" + name
		}
		x.S = BS(quoteName(name) + " <" + email + ">")
	case "address (name)":
		name = strings.Repeat([]string{"ab", "x y ", ".", "z"}[c.Alt%4], c.N/3+1) + "e"
		x.S = BS(email + " (" + name + ")")
	case "nested":
		in, out := "c", ")"
		if c.Alt&2 != 0 { // what is inside stays inside on the way out
			in, out = `c \"x\" "y" \\ \(`, `)"`
		}
		s := strings.Repeat("(", c.N) + in + strings.Repeat(out, c.N-1) + ")"
		n := s
		if c.Alt&2 != 0 {
			n = strings.Repeat("(", c.N) + `c "x" "y" \ (` + strings.Repeat(out, c.N-1) + ")"
		}
		name = "N " + n
		x.S = BS("N <" + email + "> " + s)
		if c.Alt&1 != 0 {
			x.S = BS(s + " N <" + email + ">")
			name = n + " N"
		}
	case "white space":
		ws := strings.Repeat([]string{" ", "\t", "\n", " \t"}[c.Alt%4], c.N)
		name = "A B"
		x.S = BS(ws + "A" + ws + "B" + ws + "<" + email + ">" + ws)
	}
	n, e := wantIdent(name, email)
	x.Name, x.Email = BS(n), BS(e)
	if err := checkIdentCase(&x, o); err != nil {
		return err
	}
	if c.Kind == "name" || c.Kind == "email" {
		return checkIdentRT(&identRT{x.Name, x.Email}, o)
	}
	return nil
}

func largeC31(c *largeCase, o *Obs) error {
	hs := c.hunks()
	x := validCase{H: hs[0]}
	d := c.wrong()
	if c.Alt>>9&3 == 0 {
		d = int64(c.N)
	}
	switch c.Alt % 9 {
	case 0:
		x.DOL = d
	case 1:
		x.DNL = d
	case 2:
		x.DA = d
	case 3:
		x.DD = d
	case 4:
		x.DL = d
	case 5:
		x.DT = d
	case 6:
		x.Op, x.At = 7, int(c.Seed%uint64(len(x.H.Lines)))
	case 7:
		x.DA, x.DD = d, -d
	}
	o.Label(c.Kind)
	return checkC31(&x, o)
}

// setupLarge runs after all properties are registered.
func setupLarge() {
	add := func(id string, s *Sub) { props[id].Subs = append(props[id].Subs, s) }
	lines := append([]largeKind(nil), lineKinds...)
	add("C03", Gen("large", 240, 8000, genLarge(lines...), largeC03))
	add("C05", Gen("large", 1600, 40000, genLarge(nameKinds...), largeC05))
	add("C06", Gen("large", 640, 20000, genLarge(append(append([]largeKind(nil), nameKinds...), lines...)...), largeC06))
	add("C07", Gen("large", 160, 4000, genLarge(largeKind{"payload", 4 << 20}, largeKind{"payload", 1 << 18}, largeKind{"declared", 1 << 62}), largeC07))
	add("C08", Gen("large", 120, 4000, genLargeCompose, checkLargeCompose))
	add("C09", Gen("large", 480, 16000, genLarge(append(append([]largeKind(nil), lines...), largeKind{"payload", 1 << 19}, largeKind{"payload", 1 << 19}, largeKind{"payload", 1 << 19})...), largeC09))
	add("C10", Gen("large", 120, 4000, genLargeDefect(genC10), func(c *largeDefect, o *Obs) error { x := c.build(); return checkC10(&x, o) }))
	add("C33", Gen("large", 120, 4000, genLargeDefect(genC33), func(c *largeDefect, o *Obs) error { x := c.build(); return checkC33(&x, o) }))
	add("C11", Gen("large", 120, 4000, genLargeReader, checkLargeReader))
	add("C12", Gen("large", 160, 6000, func(g *G) bigCase { return g.hugeCase(300000) }, checkBig))
	add("C12", Gen("large copy", 80, 3000, func(g *G) bigCase { return g.hugeCase(150000) }, checkCopy))
	add("C13", Gen("large", 160, 6000, genLargeLong, checkLong))
	add("C14", Gen("large", 160, 6000, func(g *G) bigConflict { return g.largeConflict(150000) }, checkBigConflict))
	add("C15", Gen("large", 160, 6000, func(g *G) bigCase { return g.hugeCase(60000) }, largeC15))
	add("C16", Gen("large", 120, 4000, func(g *G) bigCase { b := g.hugeCase(40000); b.Width = min(b.Width, 1<<16); return b }, largeC16))
	add("C17", Gen("large", 160, 5000, genLarge(ioKinds...), largeC17))
	add("C18", Gen("large", 120, 4000, genLargeC18, checkC18))
	with := func(ks []largeKind, more ...largeKind) []largeKind {
		return append(append([]largeKind(nil), ks...), more...)
	}
	deltas := []largeKind{{"ops", 150000}, {"adds", 150000}, {"source", 6 << 20}}
	add("C19", Gen("large", 480, 16000, genLarge(deltas...), largeC19))
	add("C20", Gen("large", 480, 12000, genLarge(with(deltas, largeKind{"literal", 4 << 20}, largeKind{"literal", 4 << 20})...), largeC20))
	add("C21", Gen("large", 640, 20000, genLarge(largeKind{"literal", 2 << 20}, largeKind{"delta", 1 << 18}), largeC21))
	fk := append(append(append([]largeKind(nil), nameKinds...), lines...), largeKind{"payload", 1 << 20}, largeKind{"payload", 1 << 20}, largeKind{"declared", 1 << 62}, largeKind{"declared", 1 << 62})
	add("C22", Gen("large", 320, 10000, genLarge(fk...), largeC22))
	ga := Gen("large", 96, 3000, genLarge(largeKind{"lines", 100000}, largeKind{"payload", 1 << 20}), largeC23)
	ga.Avail = haveTool("git")
	add("C23", ga)
	gd := Gen("large", 64, 2000, genLarge(largeKind{"files", 2500}, largeKind{"long", 60000}), largeC24)
	gd.Avail = haveTool("git")
	add("C24", gd)
	mk := with(msgKinds, largeKind{"noise", 5000})
	add("C25", Gen("large", 960, 30000, genLarge(with(mk, largeKind{"decoration", 1 << 17})...), largeC25))
	add("C26", Gen("large", 720, 24000, genLarge(with(mk, largeKind{"noise value", 1 << 18})...), largeC26))
	add("C26", Gen("large encoded", 80, 3000, genLarge(largeKind{"encoded", 1 << 15}), largeEnc))
	add("C27", Gen("large", 1600, 50000, genLarge(largeKind{"markers", 1 << 16}), largeC27))
	add("C29", Gen("large", 1600, 50000, genLarge(largeKind{"name", 1 << 17}, largeKind{"email", 1 << 17}, largeKind{"bare", 1 << 17}, largeKind{"quoted", 1 << 17}, largeKind{"address (name)", 1 << 17}, largeKind{"nested", 1 << 14}, largeKind{"white space", 1 << 16}), largeC29))
	add("C31", Gen("large", 320, 10000, genLarge(lines[:7]...), largeC31))
}
