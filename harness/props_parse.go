package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C03

type c03Case struct {
	Hunks   []Hunk
	Style   HunkStyle
	Trad    bool // plain ---/+++ header instead of a git header
	CutLast bool // the input ends right after the marker text
	Tail    BS   // what follows the hunks
}

func (c *c03Case) render() string {
	var b strings.Builder
	if c.Trad {
		b.WriteString("--- file\n+++ file\n")
	} else {
		b.WriteString("diff --git a/file b/file\nindex 1234567..89abcde 100644\n--- a/file\n+++ b/file\n")
	}
	b.WriteString(renderHunks(c.Hunks, c.Style))
	s := b.String()
	if c.CutLast && c.Tail == "" {
		last := c.Hunks[len(c.Hunks)-1]
		if !strings.HasSuffix(string(last.Lines[len(last.Lines)-1].S), "\n") {
			s = strings.TrimSuffix(s, "\n")
		}
	}
	return s + string(c.Tail)
}

var fragTails = []string{"", "", "", "-- \n2.43.0\n\n", "\n", "diff --git a/zz b/zz\nold mode 100644\nnew mode 100755\n", "--- other\n+++ other\n@@ -1 +1 @@\n-a\n+b\n", "Only in x: y\n", "random text\n", "diff -r a b\n", "Index: foo\n=====\n", " \n", "a", "\\ short\n"}

func checkC03(c *c03Case, o *Obs) error {
	in := c.render()
	files, _, err := parseString(in)
	if err != nil {
		return fmt.Errorf("Parse failed: %v\n%s", err, q(in))
	}
	if len(files) == 0 {
		return fmt.Errorf("no file found in\n%s", q(in))
	}
	tail := 0
	if strings.HasPrefix(string(c.Tail), "diff --git") || strings.HasPrefix(string(c.Tail), "--- ") {
		tail = 1
	}
	if len(files) != 1+tail {
		return fmt.Errorf("%d files, want %d\ninput %s", len(files), 1+tail, q(in))
	}
	got := files[0].TextFragments
	if len(got) != len(c.Hunks) {
		return fmt.Errorf("%d fragments, want %d", len(got), len(c.Hunks))
	}
	for i := range got {
		if d := diffFrag(got[i], c.Hunks[i].fragment()); d != "" {
			return fmt.Errorf("fragment %d: %s\ninput %s", i+1, d, q(in))
		}
		if got[i].OldPosition > 0 || got[i].OldLines == 0 {
			if err := got[i].Validate(); err != nil {
				return fmt.Errorf("fragment %d does not validate: %v", i+1, err)
			}
		}
		for j, l := range got[i].Lines {
			m := c.Hunks[i].Lines[j]
			if l.NoEOL() != !strings.HasSuffix(string(m.S), "\n") || l.Old() != (m.Op != "+") || l.New() != (m.Op != "-") || l.String() != m.Op+string(m.S) {
				return fmt.Errorf("fragment %d line %d: NoEOL/Old/New/String wrong for %q %q", i+1, j+1, m.Op, m.S)
			}
		}
	}
	o.NTIf(len(c.Hunks) > 0 && len(in) > 80)
	o.LabelIf(len(c.Hunks) > 1, "several hunks")
	o.LabelIf(c.Style.BareCtx, "bare context")
	o.LabelIf(strings.Contains(in, "\r"), "carriage return")
	o.LabelIf(strings.Contains(in, "\n\\ "), "no newline marker")
	return nil
}

func (g *G) position() int64 {
	switch g.Int(0, 4) {
	case 0:
		return int64(g.Int(0, 3))
	case 1:
		return int64(g.Int(0, 100000))
	case 2:
		return g.Int64(0, 1<<62)
	case 3:
		return pick(g, []int64{1<<63 - 1, 1<<63 - 2, 1 << 62, 1 << 32, 1<<32 - 1, 1<<31 - 1, 1 << 31, 10, 99, 100})
	default:
		return int64(g.Int(1, 9))
	}
}

func genC03free(g *G) c03Case {
	c := c03Case{Style: g.hunkStyle(), Trad: g.Bool(), CutLast: g.Chance(4), Tail: BS(pick(g, fragTails))}
	for i, n := 0, g.Int(1, 4); i < n; i++ {
		h := Hunk{OP: g.position(), NP: g.position(), Lines: g.script(12), Comment: BS(g.comment())}
		h.setCounts()
		c.Hunks = append(c.Hunks, h)
	}
	c.fixTail()
	return c
}

func (c *c03Case) fixTail() {
	// a traditional header needs a fragment header line of the usual length
	if c.Trad {
		c.Style.OmitOne = c.Style.OmitOne && len(c.Hunks[0].header(c.Style)) >= len("@@ -1 +1 @@\n")
	}
}

func genC03script(g *G) c03Case {
	c := c03Case{Style: g.hunkStyle(), Trad: g.Bool(), CutLast: g.Chance(4), Tail: BS(pick(g, fragTails))}
	c.Hunks = g.hunks(g.script(30))
	c.fixTail()
	return c
}

// every sequence of operations up to a length, with every placement of a
// missing final newline
func enumC03(tier string, yield func(c03Case) bool) {
	max := 6
	if tier == "thorough" {
		max = 8
	}
	var ops []byte
	var rec func() bool
	rec = func() bool {
		if len(ops) > 0 && strings.ContainsAny(string(ops), "+-") {
			for m := 0; m < 4; m++ {
				var ls []ML
				for i, op := range ops {
					ls = append(ls, ML{string(op), BS(fmt.Sprintf("l%d\n", i))})
				}
				ls = stripFinal(ls, m&1 != 0, m&2 != 0)
				h := Hunk{OP: 5, NP: 7, Lines: ls}
				h.setCounts()
				if !yield(c03Case{Hunks: []Hunk{h, {OP: 100, OL: 1, NP: 100, NL: 0, Lines: []ML{{"-", "z\n"}}}}, Style: HunkStyle{OmitOne: m == 1}, Trad: m == 2}) {
					return false
				}
			}
		}
		if len(ops) == max {
			return true
		}
		for _, op := range []byte(" -+") {
			ops = append(ops, op)
			if !rec() {
				return false
			}
			ops = ops[:len(ops)-1]
		}
		return true
	}
	rec()
}

// every pair of telling lines at the end of a hunk, before everything that can
// follow it
type tailCase struct {
	A, B int // operation and content of the last two lines
	Next int
}

var tellingLines = []string{"x", "", "-", "--", "-- ", "-- a/x", "-- /dev/null", "+", "++", "++ b/x", "@@ -1 +1 @@", "@ -1 +1 @@", "diff --git a/x b/x", "\\ No newline at end of file", "2.43.0", "GIT binary patch"}

var tailNext = []string{"@@ -20 +20 @@\n-p\n+q\n", "", "-- \n2.43.0\n\n", "diff --git a/zz b/zz\nold mode 100644\nnew mode 100755\n", "--- other\n+++ other\n@@ -1 +1 @@\n-a\n+b\n", "\ntext\n"}

func enumTail(tier string, yield func(tailCase) bool) {
	n := 3 * len(tellingLines)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for x := range tailNext {
				if !yield(tailCase{a, b, x}) {
					return
				}
			}
		}
	}
}

func checkTail(c *tailCase, o *Obs) error {
	k := len(tellingLines)
	ls := []ML{{"+", "first\n"}}
	for _, i := range []int{c.A, c.B} {
		ls = append(ls, ML{[]string{"-", "+", " "}[i/k], BS(tellingLines[i%k] + "\n")})
	}
	h := Hunk{OP: 5, NP: 5, Lines: ls}
	h.setCounts()
	cc := c03Case{Hunks: []Hunk{h}}
	if c.Next == 0 {
		cc.Hunks = append(cc.Hunks, Hunk{OP: 20, OL: 1, NP: 20, NL: 1, Lines: []ML{{"-", "p\n"}, {"+", "q\n"}}})
	} else {
		cc.Tail = BS(tailNext[c.Next])
	}
	cc.Style.OmitOne = c.Next == 0
	cc.Trad = c.A%2 == 0
	return checkC03(&cc, o)
}

// ------------------------------------------------------------------ C04 C05

type fileCase struct {
	F     MFile
	Style HStyle
	Next  *MFile `json:",omitempty"` // a file after it
	Pre   *MFile `json:",omitempty"` // a file before it
	Tail  BS     `json:",omitempty"`
}

func (c *fileCase) render() string {
	s := ""
	if c.Pre != nil {
		s += c.Pre.render(c.Style)
	}
	s += c.F.render(c.Style)
	if c.Next != nil {
		s += c.Next.render(c.Style)
	}
	return s + string(c.Tail)
}

func (c *fileCase) want() []*gitdiff.File {
	var w []*gitdiff.File
	if c.Pre != nil {
		w = append(w, c.Pre.file(c.Style))
	}
	w = append(w, c.F.file(c.Style))
	if c.Next != nil {
		w = append(w, c.Next.file(c.Style))
	}
	return w
}

func checkFileCase(c *fileCase, o *Obs) error {
	in := c.render()
	files, pre, err := parseString(in)
	if err != nil {
		return fmt.Errorf("Parse failed: %v\n%s", err, q(in))
	}
	if pre != "" {
		return fmt.Errorf("preamble %q, want none", pre)
	}
	if d := diffFileLists(files, c.want()); d != "" {
		return fmt.Errorf("%s\ninput %s", d, q(in))
	}
	o.Label(c.F.Kind + " " + c.F.Content)
	return nil
}

func genC04(g *G) fileCase {
	c := fileCase{F: g.mfile(6), Style: g.hstyle()}
	if g.Chance(2) {
		n := g.mfile(4)
		c.Next = &n
	}
	if g.Chance(2) {
		n := g.mfile(4)
		c.Pre = &n
	}
	if g.Chance(3) {
		c.Tail = BS(pick(g, []string{"-- \n2.43.0\n\n", "\n", "\nsome text\n"}))
	}
	return c
}

func genC05(g *G) fileCase {
	c := fileCase{F: g.mfileOf(3, pick(g, []string{"none", "none", "text", "text", "marker", "binary"})), Style: g.hstyle()}
	return c
}

func checkC04(c *fileCase, o *Obs) error {
	o.NTIf(c.F.Kind != "modify" || c.F.Content != "text" || c.Pre != nil || c.Next != nil)
	return checkFileCase(c, o)
}

func checkC05(c *fileCase, o *Obs) error {
	_, q1 := cquote(string(c.F.Old), c.Style.QuoteUTF)
	_, q2 := cquote(string(c.F.New), c.Style.QuoteUTF)
	special := q1 || q2 || strings.ContainsAny(string(c.F.Old+c.F.New), " /") || c.Style.A != "a/"
	o.NTIf(special)
	o.LabelIf(q1 || q2, "quoted")
	o.LabelIf(strings.Contains(string(c.F.Old+c.F.New), " "), "space")
	o.LabelIf(!c.Style.QuoteUTF && !isASCII(string(c.F.Old+c.F.New)), "raw non-ASCII")
	o.LabelIf(strings.HasSuffix(string(c.F.Old), "\\") || strings.HasSuffix(string(c.F.New), "\\"), "ends in backslash")
	return checkFileCase(c, o)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// every path of one or two bytes, in every place a name can appear
func enumC05(tier string, yield func(fileCase) bool) {
	one := func(p string, kind, content string, st HStyle) bool {
		f := MFile{Kind: kind, Old: BS(p), New: BS(p), OldMode: 0o100644, NewMode: 0o100644, Content: content, OldOID: "1234567", NewOID: "89abcde"}
		switch kind {
		case "rename":
			f.New = BS("n/" + p)
			f.Score = 90
		case "mode":
			f.NewMode = 0o100755
		case "create":
			f.OldMode = 0
		case "delete":
			f.NewMode = 0
		}
		if content == "none" {
			f.OldOID, f.NewOID = "", ""
			if kind == "rename" {
				f.Score = 100
			}
		}
		if content == "text" {
			h := Hunk{OP: 1, OL: 1, NP: 1, NL: 1, Lines: []ML{{"-", "a\n"}, {"+", "b\n"}}}
			switch kind {
			case "create":
				h = Hunk{OP: 0, OL: 0, NP: 1, NL: 1, Lines: []ML{{"+", "b\n"}}}
			case "delete":
				h = Hunk{OP: 1, OL: 1, NP: 0, NL: 0, Lines: []ML{{"-", "a\n"}}}
			}
			f.Hunks = []Hunk{h}
		}
		return yield(fileCase{F: f, Style: st})
	}
	ok := func(p string) bool {
		return p != "." && p != ".." && !strings.HasPrefix(p, "/") && !strings.HasSuffix(p, "/")
	}
	st := func(utf bool) HStyle { return HStyle{A: "a/", B: "b/", QuoteUTF: utf} }
	for a := 1; a < 256; a++ {
		p := string([]byte{byte(a)})
		if !ok(p) {
			continue
		}
		for _, utf := range []bool{true, false} {
			for _, kc := range [][2]string{{"mode", "none"}, {"modify", "text"}, {"rename", "none"}, {"create", "text"}, {"delete", "none"}} {
				if !one(p, kc[0], kc[1], st(utf)) {
					return
				}
			}
		}
	}
	interesting := []byte(" \t\n\r\"\\/abtnx017\x01\x7f\x80\xc3\xa9\xff.-")
	two := interesting
	if tier == "thorough" {
		two = nil
		for a := 1; a < 256; a++ {
			two = append(two, byte(a))
		}
	}
	for _, a := range two {
		for _, b := range two {
			p := string([]byte{a, b})
			if !ok(p) {
				continue
			}
			for _, utf := range []bool{true, false} {
				for _, kc := range [][2]string{{"mode", "none"}, {"modify", "text"}, {"rename", "text"}} {
					if !one(p, kc[0], kc[1], st(utf)) {
						return
					}
				}
			}
		}
	}
	if tier == "thorough" {
		return
	}
	for _, a := range interesting {
		for _, b := range interesting {
			for _, c := range interesting {
				p := string([]byte{a, b, c})
				if !ok(p) || strings.Contains(p, "//") || strings.Contains(p, "/./") || strings.HasPrefix(p, "./") || strings.HasSuffix(p, "/.") {
					continue
				}
				if !one(p, "mode", "none", st(true)) || !one(p, "rename", "none", st(false)) {
					return
				}
			}
		}
	}
}

// ------------------------------------------------------------------ C07

type c07Case struct {
	F     MFile
	Style HStyle
}

func genC07(g *G) c07Case {
	return c07Case{F: g.mfileOf(2, pick(g, []string{"binary", "binary", "binary", "marker"})), Style: g.hstyle()}
}

func checkBinData(f *gitdiff.BinaryFragment, want []byte, chunk int) error {
	if f.Size != int64(len(want)) {
		return fmt.Errorf("size %d, want %d", f.Size, len(want))
	}
	for i := 0; i < 2; i++ { // reading is repeatable
		r := f.Data()
		got, err := io.ReadAll(&chunkReader{r: r, n: chunk})
		if err != nil {
			return fmt.Errorf("Data: %v", err)
		}
		if !bytes.Equal(got, want) {
			return fmt.Errorf("decoded data differ: %s, want %s", q(string(got)), q(string(want)))
		}
		if n, err := r.Read(make([]byte, 8)); n != 0 || err != io.EOF {
			return fmt.Errorf("Data: reading on after the end gives %d bytes and %v", n, err)
		}
	}
	return nil
}

func checkC07(c *c07Case, o *Obs) error {
	in := c.F.render(c.Style)
	f, err := parseOne(in)
	if err != nil {
		return err
	}
	if d := diffFiles(f, c.F.file(c.Style)); d != "" {
		return fmt.Errorf("%s\ninput %s", d, q(in))
	}
	if c.F.Content == "marker" {
		o.Label("marker")
		o.NT()
		return nil
	}
	chunk := 1 + len(in)%97
	for _, p := range []struct {
		m *BinFrag
		f *gitdiff.BinaryFragment
	}{{c.F.Fwd, f.BinaryFragment}, {c.F.Rev, f.ReverseBinaryFragment}} {
		if p.m == nil {
			continue
		}
		if err := checkBinData(p.f, []byte(p.m.Data), chunk); err != nil {
			return err
		}
		// formatting encodes like git
		if got, want := p.f.String(), p.m.render(); got != want {
			return fmt.Errorf("formatted fragment %s\nwant %s", q(got), q(want))
		}
		o.Label(p.m.method())
	}
	o.LabelIf(c.F.Rev != nil, "reverse")
	o.NTIf(len(c.F.Fwd.Data) > 0)
	return nil
}

// every raw length over several encoded lines, without compression between
type c07len struct {
	N    int
	Seed uint64
	Per  int
}

func enumC07(tier string, yield func(c07len) bool) {
	max := 330
	if tier == "thorough" {
		max = 3000
	}
	for n := 1; n <= max; n++ {
		per := []int{52, 52, 52, 26, 4, 51, 1, 27}[n%8]
		for _, k := range []int{52, per} {
			if !yield(c07len{n, uint64(n), k}) {
				return
			}
		}
	}
}

// checkC07len encodes n arbitrary bytes as the compressed data of a fragment;
// the parsed raw data must be those bytes.
func checkC07len(c *c07len, o *Obs) error {
	raw := bulk(c.Seed, c.N)
	switch c.Seed % 5 {
	case 1:
		for i := range raw {
			raw[i] = 0xff
		}
	case 2:
		for i := range raw {
			raw[i] = 0
		}
	}
	in := "diff --git a/x b/x\nindex 1234567..89abcde 100644\nGIT binary patch\nliteral 7\n" + refBinLines(raw, c.Per) + "delta 9\n" + refBinLines(raw, 52)
	f, err := parseOne(in)
	if err != nil {
		return err
	}
	for _, fr := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if fr == nil {
			return errors.New("fragment missing")
		}
		if !bytes.Equal(fr.RawData, raw) {
			return fmt.Errorf("raw data of %d bytes (%d per line) decoded to %d bytes or changed", c.N, c.Per, len(fr.RawData))
		}
	}
	if f.BinaryFragment.Size != 7 || f.ReverseBinaryFragment.Size != 9 || f.BinaryFragment.Method != gitdiff.BinaryPatchLiteral || f.ReverseBinaryFragment.Method != gitdiff.BinaryPatchDelta {
		return errors.New("size or method wrong")
	}
	if got, want := f.BinaryFragment.String(), "literal 7\n"+refBinLines(raw, 52); got != want {
		return fmt.Errorf("formatted %s\nwant %s", q(got), q(want))
	}
	o.NT()
	return nil
}

// every base85 group value class: random 32-bit groups decode to themselves
type c07group struct{ Seed uint64 }

func checkC07group(c *c07group, o *Obs) error {
	return checkC07len(&c07len{N: 1 + int(c.Seed%1500), Seed: c.Seed | 7, Per: 52 - int(c.Seed>>32%52)}, o)
}

type chunkReader struct {
	r io.Reader
	n int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

func init() {
	register(&Prop{ID: "C03", Rule: "generated hunk sequences rendered as unified diff text, parsed and compared field by field with the model; non-trivial: at least one hunk and more than 80 bytes of patch",
		Subs: []*Sub{
			Enum("ops", enumC03, checkC03),
			Enum("tails", enumTail, checkTail),
			Gen("free", 60000, 1500000, genC03free, checkC03),
			Gen("script", 40000, 1000000, genC03script, checkC03),
		}})
	register(&Prop{ID: "C04", Rule: "generated file headers of every kind rendered as git prints them; non-trivial: not a plain text modification, or with neighbouring files",
		Subs: []*Sub{Gen("header", 90000, 3000000, genC04, checkC04)}})
	register(&Prop{ID: "C05", Rule: "generated paths (bytes 1..255) in every place of a header and every quoting; non-trivial: a quoted, spaced or nested name or a prefix other than a/",
		Subs: []*Sub{
			Enum("bytes", enumC05, checkC05),
			Gen("names", 90000, 3000000, genC05, checkC05),
		}})
	register(&Prop{ID: "C07", Rule: "generated payloads encoded by a reference base85/zlib/delta encoder; non-trivial: payload not empty, or a binary marker",
		Subs: []*Sub{
			Enum("lengths", enumC07, checkC07len),
			Gen("payload", 40000, 600000, genC07, checkC07),
			Gen("groups", 4000, 60000, func(g *G) c07group { return c07group{g.Uint64()} }, checkC07group),
		}})
}
