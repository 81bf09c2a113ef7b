package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C08

type composeCase struct {
	Pre   BS
	Parts []Part
	CutNL bool // the very last newline is missing (only after text)
}

// cleanJunk makes sure that no three lines of the text form the header of a
// traditional patch, and that the first line cannot belong to a header
// before it.
func cleanJunk(s string, preamble bool) string {
	ls := splitLines(s)
	for i := 0; i+2 < len(ls); i++ {
		if strings.HasPrefix(ls[i], "--- ") && strings.HasPrefix(ls[i+1], "+++ ") && strings.HasPrefix(ls[i+2], "@@ -") && len(ls[i+2]) >= len("@@ -1 +1 @@\n") {
			ls[i+2] = "x" + ls[i+2]
		}
	}
	if !preamble && len(ls) > 0 && (strings.HasPrefix(ls[0], "--- ") || strings.HasPrefix(ls[0], "+++ ")) {
		ls[0] = "x" + ls[0]
	}
	return strings.Join(ls, "")
}

func (g *G) parts(maxFiles, maxLines int) []Part {
	var ps []Part
	for i, n := 0, g.Int(1, maxFiles); i < n; i++ {
		if g.Chance(4) {
			t := g.tradFile(maxLines)
			if n := len(ps); n > 0 && ps[n-1].F != nil && ps[n-1].F.Content == "none" {
				// directly after a git header without content, the ---/+++
				// lines belong to that header
				ps = append(ps, Part{Junk: "diff -u a b\n"})
			}
			ps = append(ps, Part{Trad: &t})
		} else {
			f := g.mfile(maxLines)
			ps = append(ps, Part{F: &f, Style: g.hstyle()})
		}
		if g.Chance(2) {
			if j := cleanJunk(g.junk(false), false); j != "" {
				ps = append(ps, Part{Junk: BS(j)})
			}
		}
	}
	return ps
}

func modelsOf(ps []Part) []*gitdiff.File {
	var fs []*gitdiff.File
	for i := range ps {
		switch {
		case ps[i].F != nil:
			fs = append(fs, ps[i].F.file(ps[i].Style))
		case ps[i].Trad != nil:
			fs = append(fs, ps[i].Trad.file())
		}
	}
	return fs
}

func genC08(g *G) composeCase {
	c := composeCase{Parts: g.parts(5, 6)}
	if !g.Chance(4) {
		c.Pre = BS(cleanJunk(g.junk(true), true))
	}
	c.CutNL = g.Chance(4) && c.Parts[len(c.Parts)-1].Junk != ""
	return c
}

func checkC08(c *composeCase, o *Obs) error {
	in := string(c.Pre) + renderParts(c.Parts)
	if c.CutNL {
		in = strings.TrimSuffix(in, "\n")
	}
	files, pre, err := parseString(in)
	if err != nil {
		return fmt.Errorf("Parse failed: %v\n%s", err, q(in))
	}
	if pre != string(c.Pre) {
		return fmt.Errorf("preamble %s, want %s", q(pre), q(string(c.Pre)))
	}
	if d := diffFileLists(files, modelsOf(c.Parts)); d != "" {
		return fmt.Errorf("%s\ninput %s", d, q(in))
	}
	// every piece alone
	var alone []*gitdiff.File
	junk := 0
	for i := range c.Parts {
		fs, p, err := parseString(c.Parts[i].render())
		if err != nil {
			return fmt.Errorf("piece %d alone: %v", i, err)
		}
		if c.Parts[i].Junk != "" {
			junk++
			if len(fs) != 0 || p != string(c.Parts[i].Junk) {
				return fmt.Errorf("text without a patch: %d files, preamble %s, want %s", len(fs), q(p), q(string(c.Parts[i].Junk)))
			}
		}
		alone = append(alone, fs...)
	}
	if d := diffFileLists(files, alone); d != "" {
		return fmt.Errorf("together and one by one: %s\ninput %s", d, q(in))
	}
	if fs, p, err := parseString(string(c.Pre)); err != nil || len(fs) != 0 || p != string(c.Pre) {
		return fmt.Errorf("preamble alone: %d files, text %s, error %v", len(fs), q(p), err)
	}
	o.NTIf(len(files) > 1 || c.Pre != "" || junk > 0)
	o.LabelIf(c.Pre != "", "preamble")
	o.LabelIf(junk > 0, "text between files")
	o.LabelIf(len(files) > 1, "several files")
	return nil
}

// ------------------------------------------------------------------ C09 C10

type defectCase struct {
	Pre    BS
	Parts  []Part
	Defect Defect
	Suffix *MFile `json:",omitempty"`
	Style  HStyle
}

func (c *defectCase) render() string {
	s := string(c.Pre) + renderParts(c.Parts) + string(c.Defect.Text)
	if c.Suffix != nil {
		s += c.Suffix.render(c.Style)
	}
	return s
}

func (g *G) suffix(c *defectCase) {
	// anything after the damage; damage that ends inside a line takes none
	if g.Chance(2) && strings.HasSuffix(string(c.Defect.Text), "\n") {
		f := g.mfile(4)
		c.Suffix, c.Style = &f, g.hstyle()
	}
}

func genC09(g *G) defectCase {
	c := defectCase{Defect: g.defect()}
	g.suffix(&c)
	return c
}

func checkC09(c *defectCase, o *Obs) error {
	in := c.render()
	files, _, err := parseString(in)
	if err == nil {
		return fmt.Errorf("%s: Parse accepted it (%d files)\n%s", c.Defect.Class, len(files), q(in))
	}
	o.Label(c.Defect.Class)
	o.NT()
	return nil
}

func genC10(g *G) defectCase {
	c := defectCase{Defect: g.defect(), Parts: g.parts(4, 6)}
	if g.Chance(2) {
		c.Pre = BS(cleanJunk(g.junk(true), true))
	}
	if n := len(c.Parts); c.Parts[n-1].F != nil && c.Parts[n-1].F.Content == "none" {
		c.Parts = append(c.Parts, Part{Junk: "diff -u a b\n"})
	}
	g.suffix(&c)
	return c
}

func checkC10(c *defectCase, o *Obs) error {
	in := c.render()
	files, pre, err := parseString(in)
	if err == nil {
		return fmt.Errorf("%s: Parse accepted it (%d files)\n%s", c.Defect.Class, len(files), q(in))
	}
	if d := diffFileLists(files, modelsOf(c.Parts)); d != "" {
		return fmt.Errorf("%s: with the error %v: %s\ninput %s", c.Defect.Class, err, d, q(in))
	}
	if pre != string(c.Pre) {
		return fmt.Errorf("%s: preamble %s, want %s", c.Defect.Class, q(pre), q(string(c.Pre)))
	}
	o.Label(c.Defect.Class)
	o.NT()
	return nil
}

// ------------------------------------------------------------------ C02

type textCase struct{ Text BS }

func wellFormed(f *gitdiff.File) error {
	if f == nil {
		return errors.New("nil file")
	}
	if f.IsBinary && len(f.TextFragments) > 0 {
		return errors.New("binary file with text fragments")
	}
	if f.BinaryFragment != nil && !f.IsBinary {
		return errors.New("binary fragment on a text file")
	}
	if f.ReverseBinaryFragment != nil && f.BinaryFragment == nil {
		return errors.New("reverse binary fragment alone")
	}
	for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if b != nil && (b.Size < 0 || (b.Method != gitdiff.BinaryPatchDelta && b.Method != gitdiff.BinaryPatchLiteral)) {
			return fmt.Errorf("binary fragment of size %d, method %d", b.Size, b.Method)
		}
	}
	if (f.NewName == "" && !f.IsDelete) || (f.OldName == "" && !f.IsNew) {
		return fmt.Errorf("missing names: %q %q", f.OldName, f.NewName)
	}
	if f.Score < 0 || f.Score > 100 {
		return fmt.Errorf("score %d", f.Score)
	}
	for i, t := range f.TextFragments {
		if t == nil {
			return errors.New("nil fragment")
		}
		h := Hunk{}
		for j, l := range t.Lines {
			if l.Line == "" || strings.Contains(l.Line[:len(l.Line)-1], "\n") {
				if l.Line != "" {
					return fmt.Errorf("fragment %d line %d holds several lines: %s", i+1, j+1, q(l.Line))
				}
			}
			switch l.Op {
			case gitdiff.OpContext, gitdiff.OpAdd, gitdiff.OpDelete:
			default:
				return fmt.Errorf("fragment %d line %d has operation %d", i+1, j+1, l.Op)
			}
			h.Lines = append(h.Lines, ML{Op: l.Op.String(), S: BS(l.Line)})
		}
		h.setCounts()
		a, d, lead, trail := h.counts()
		if t.OldLines != h.OL || t.NewLines != h.NL || t.LinesAdded != a || t.LinesDeleted != d || t.LeadingContext != lead || t.TrailingContext != trail {
			return fmt.Errorf("fragment %d: counts do not match the lines: %+v", i+1, *t)
		}
		if a+d == 0 {
			return fmt.Errorf("fragment %d has no changes", i+1)
		}
		if t.OldPosition < 0 || t.NewPosition < 0 {
			return fmt.Errorf("fragment %d: negative position", i+1)
		}
		if strings.Contains(t.Comment, "\n") {
			return fmt.Errorf("fragment %d: comment of several lines", i+1)
		}
		if t.OldPosition > 0 || t.OldLines == 0 {
			if err := t.Validate(); err != nil {
				return fmt.Errorf("fragment %d: %v", i+1, err)
			}
		}
		if f.IsNew && t.OldLines != 0 {
			return fmt.Errorf("created file has old lines in fragment %d", i+1)
		}
		if f.IsDelete && t.NewLines != 0 {
			return fmt.Errorf("deleted file has new lines in fragment %d", i+1)
		}
	}
	return nil
}

func checkC02(c *textCase, o *Obs) error {
	in := string(c.Text)
	files, pre, err := parseString(in)
	if !strings.HasPrefix(in, pre) {
		return fmt.Errorf("preamble %s is no prefix of the input", q(pre))
	}
	frags := 0
	for i, f := range files {
		if e := wellFormed(f); e != nil {
			return fmt.Errorf("file %d of %d (parse error %v): %v\ninput %s", i+1, len(files), err, e, q(in))
		}
		frags += len(f.TextFragments)
		if f.BinaryFragment != nil {
			frags++
		}
	}
	o.NTIf(len(files) > 0)
	o.LabelIf(err != nil, "parse error")
	o.LabelIf(err != nil && len(files) > 0, "files next to an error")
	o.LabelIf(frags > 0, "fragments")
	return nil
}

func genSoup(g *G) textCase { return textCase{BS(g.soup())} }

// every short sequence of header lines after a git header
type seqCase struct{ Lines []BS }

var headerTokens = []string{"old mode 100644\n", "new file mode 100644\n", "deleted file mode 100644\n", "rename from x\n", "rename to y\n", "copy from z\n", "similarity index 101%\n", "index 1..2 100755\n", "--- a/x\n", "--- /dev/null\n", "+++ b/x\n", "+++ /dev/null\n", "@@ -1 +1 @@\n-a\n+b\n", "@@ -0,0 +1 @@\n+b\n", "@@ -1 +0,0 @@\n-b\n", "Binary files a/x and b/x differ\n", "GIT binary patch\nliteral 1\nIcmb=J0RaF20RR91\n\n", "\n"}

func enumSeq(tier string, yield func(seqCase) bool) {
	depth := 4
	starts := []string{"diff --git a/x b/x\n", "diff --git a/x b/y\n", "--- x\n+++ x\n"}
	if tier == "thorough" {
		depth = 5
	}
	var seq []BS
	var rec func(int) bool
	rec = func(d int) bool {
		if !yield(seqCase{append([]BS(nil), seq...)}) {
			return false
		}
		if d == 0 {
			return true
		}
		for _, t := range headerTokens {
			seq = append(seq, BS(t))
			if !rec(d - 1) {
				return false
			}
			seq = seq[:len(seq)-1]
		}
		return true
	}
	for i, s := range starts {
		seq = []BS{BS(s)}
		d := depth
		if i > 0 {
			d--
		}
		if !rec(d) {
			return
		}
	}
}

func checkSeq(c *seqCase, o *Obs) error {
	var b strings.Builder
	for _, l := range c.Lines {
		b.WriteString(string(l))
	}
	return checkC02(&textCase{BS(b.String())}, o)
}

// ------------------------------------------------------------------ C11

type readerCase struct {
	Text  BS
	Chunk int
	Seed  uint64
}

// hiccup returns no data and no error now and then.
type hiccup struct {
	r   io.Reader
	p   prng
	max int
}

func (h *hiccup) Read(p []byte) (int, error) {
	if h.p.intn(3) == 0 {
		return 0, nil
	}
	if n := 1 + h.p.intn(h.max); len(p) > n {
		p = p[:n]
	}
	return h.r.Read(p)
}

// ownReader provides ReadString itself.
type ownReader struct {
	s      string
	onRead int
}

func (r *ownReader) Read(p []byte) (int, error) {
	r.onRead++
	if r.s == "" {
		return 0, io.EOF
	}
	n := copy(p, r.s)
	r.s = r.s[n:]
	return n, nil
}

func (r *ownReader) ReadString(delim byte) (string, error) {
	i := strings.IndexByte(r.s, delim)
	if i < 0 {
		s := r.s
		r.s = ""
		return s, io.EOF
	}
	s := r.s[:i+1]
	r.s = r.s[i+1:]
	return s, nil
}

// noSize hides everything but Read.
type noSize struct{ io.Reader }

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

func checkC11(c *readerCase, o *Obs) error {
	in := string(c.Text)
	wf, wp, we := parseString(in)
	variants := []struct {
		name string
		r    io.Reader
	}{
		{"one byte", iotest.OneByteReader(strings.NewReader(in))},
		{"half", iotest.HalfReader(strings.NewReader(in))},
		{"data with EOF", iotest.DataErrReader(strings.NewReader(in))},
		{"chunks", &chunkReader{r: strings.NewReader(in), n: max(1, c.Chunk)}},
		{"data with EOF in chunks", iotest.DataErrReader(&chunkReader{r: strings.NewReader(in), n: max(1, c.Chunk)})},
		{"hiccups", &hiccup{r: strings.NewReader(in), p: prng(c.Seed), max: max(1, c.Chunk)}},
		{"bufio", bufio.NewReaderSize(strings.NewReader(in), 16+c.Chunk)},
		{"bufio one byte", bufio.NewReaderSize(iotest.OneByteReader(strings.NewReader(in)), 16)},
		{"bytes.Buffer", bytes.NewBufferString(in)},
		{"bytes.Reader", bytes.NewReader([]byte(in))},
		{"own ReadString", &ownReader{s: in}},
		{"read only", noSize{strings.NewReader(in)}},
		{"limited", io.LimitReader(strings.NewReader(in+"diff --git a/extra b/extra\nold mode 100644\nnew mode 100755\n"), int64(len(in)))},
		{"multi", io.MultiReader(strings.NewReader(in[:len(in)/2]), strings.NewReader(in[len(in)/2:]))},
	}
	for _, v := range variants {
		f, p, e := gitdiff.Parse(v.r)
		if errText(e) != errText(we) {
			return fmt.Errorf("%s: error %q, want %q\ninput %s", v.name, errText(e), errText(we), q(in))
		}
		if p != wp {
			return fmt.Errorf("%s: preamble %s, want %s", v.name, q(p), q(wp))
		}
		if d := diffFileLists(f, wf); d != "" {
			return fmt.Errorf("%s: %s\ninput %s", v.name, d, q(in))
		}
	}
	o.NTIf(len(wf) > 0)
	o.LabelIf(we != nil, "malformed")
	return nil
}

var errSentinel = errors.New("sentinel read error")

// faultReader fails at an offset: once or for good, with the data before the
// fault in the same call or not.
type faultReader struct {
	s         string
	at, off   int
	err       error
	transient bool
	with      bool
	chunk     int
	hit       int
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.off == r.at && (r.hit == 0 || !r.transient) {
		r.hit++
		return 0, r.err
	}
	if r.off >= len(r.s) {
		return 0, io.EOF
	}
	n := min(len(p), r.chunk, len(r.s)-r.off)
	if r.off < r.at {
		n = min(n, r.at-r.off)
	}
	copy(p, r.s[r.off:r.off+n])
	r.off += n
	if r.with && n > 0 && r.off == r.at && (r.hit == 0 || !r.transient) {
		r.hit++
		return n, r.err
	}
	return n, nil
}

// faultStringReader is the same as a reader with its own ReadString.
type faultStringReader struct{ *faultReader }

func (r faultStringReader) ReadString(delim byte) (string, error) {
	var b []byte
	for {
		var c [1]byte
		n, err := r.faultReader.Read(c[:])
		b = append(b, c[:n]...)
		if err != nil {
			return string(b), err
		}
		if n > 0 && c[0] == delim {
			return string(b), nil
		}
	}
}

type faultCase struct {
	Text      BS
	Err       int
	Transient bool
	With      bool
	Own       bool
	Chunk     int
	Step      int
}

func faultErr(k int) error {
	switch k {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return fmt.Errorf("wrapped: %w", io.EOF)
	case 3:
		return io.ErrClosedPipe
	case 4:
		return io.ErrNoProgress
	}
	return errSentinel
}

func genC11fault(g *G) faultCase {
	c := faultCase{Err: g.Int(0, 4), Transient: g.Bool(), With: g.Bool(), Own: g.Chance(3), Chunk: pick(g, []int{1, 3, 7, 16, 64, 4096}), Step: 1}
	switch g.Int(0, 3) {
	case 0:
		c.Text = BS(g.soup())
	default:
		c.Text = BS(g.patchText(3, 5))
	}
	if len(c.Text) > 1500 {
		c.Step = len(c.Text) / 500
	}
	return c
}

func checkC11fault(c *faultCase, o *Obs) error {
	in := string(c.Text)
	wf, _, we := parseString(in)
	sentinel := faultErr(c.Err)
	for at := 0; at <= len(in); at += max(1, c.Step) {
		fr := &faultReader{s: in, at: at, err: sentinel, transient: c.Transient, with: c.With, chunk: max(1, c.Chunk)}
		var r io.Reader = fr
		if c.Own {
			r = faultStringReader{fr}
		}
		files, _, err := gitdiff.Parse(r)
		if fr.hit == 0 {
			// parsing stopped before the fault was reached
			if we == nil {
				return fmt.Errorf("fault at byte %d of %d was never reached, error %v\ninput %s", at, len(in), err, q(in))
			}
			if errText(err) != errText(we) {
				return fmt.Errorf("fault at byte %d not reached, error %q, want %q", at, errText(err), errText(we))
			}
		} else if !errors.Is(err, sentinel) && (err == nil || errText(err) != errText(we)) {
			return fmt.Errorf("read fault %q at byte %d of %d: Parse returned %d files and error %q\ninput %s", sentinel, at, len(in), len(files), errText(err), q(in))
		}
		if len(files) > len(wf) {
			return fmt.Errorf("read fault at byte %d: %d files, the whole input has %d\ninput %s", at, len(files), len(wf), q(in))
		}
		for i := range files {
			if d := diffFiles(files[i], wf[i]); d != "" {
				return fmt.Errorf("read fault at byte %d: file %d: %s\ninput %s", at, i+1, d, q(in))
			}
		}
	}
	o.NTIf(len(wf) > 0)
	o.LabelIf(c.Transient, "transient fault")
	o.LabelIf(c.Own, "own ReadString")
	return nil
}

func init() {
	register(&Prop{ID: "C08", Rule: "generated sequences of files with text before, between and after them, compared with the models and with the pieces parsed alone; non-trivial: several files or some text",
		Subs: []*Sub{Gen("compose", 60000, 1500000, genC08, checkC08)}})
	register(&Prop{ID: "C09", Rule: "generated malformed files of every listed class; every case is non-trivial",
		Subs: []*Sub{Gen("defects", 150000, 4000000, genC09, checkC09)}})
	register(&Prop{ID: "C10", Rule: "generated files and text followed by a malformed file and maybe a good one; every case is non-trivial",
		Subs: []*Sub{Gen("prefix", 60000, 1500000, genC10, checkC10)}})
	register(&Prop{ID: "C02", Rule: "damaged and undamaged patches, token soup, and all short sequences of header lines; non-trivial: at least one file was parsed",
		Subs: []*Sub{
			Enum("sequences", enumSeq, checkSeq),
			Gen("soup", 120000, 4000000, genSoup, checkC02),
		}})
	register(&Prop{ID: "C11", Rule: "patches of all degrees of damage read through 14 kinds of readers, and with a fault at every byte offset; non-trivial: the whole input holds a file",
		Subs: []*Sub{
			Gen("readers", 16000, 400000, func(g *G) readerCase {
				return readerCase{BS(g.soup()), g.Int(1, 40), g.Uint64()}
			}, checkC11),
			Gen("faults", 12000, 120000, genC11fault, checkC11fault),
		}})
}

// ------------------------------------------------------------------ C33

var errorLine = regexp.MustCompile(`\bline (\d+)`)

func genC33(g *G) defectCase {
	c := genC10(g)
	c.Suffix = nil
	return c
}

// checkC33 compares the line that the error names with the line at fault.
func checkC33(c *defectCase, o *Obs) error {
	in := c.render()
	_, _, err := parseString(in)
	if err == nil {
		return fmt.Errorf("%s: Parse accepted it\n%s", c.Defect.Class, q(in))
	}
	m := errorLine.FindStringSubmatch(err.Error())
	if m == nil {
		return fmt.Errorf("%s: the error %q names no line\n%s", c.Defect.Class, err, q(in))
	}
	got, _ := strconv.Atoi(m[1])
	before := newlines(string(c.Pre) + renderParts(c.Parts))
	if c.Defect.Line > 0 {
		if got != before+c.Defect.Line {
			return fmt.Errorf("%s: the error %q should name line %d\n%s", c.Defect.Class, err, before+c.Defect.Line, q(in))
		}
	} else if got <= before || got > newlines(in)+1 {
		return fmt.Errorf("%s: the error %q should name one of the lines %d to %d\n%s", c.Defect.Class, err, before+1, newlines(in)+1, q(in))
	}
	// alone, the same line of the same defect
	_, _, alone := parseString(string(c.Defect.Text))
	if alone == nil {
		return fmt.Errorf("%s: Parse accepted the defect alone\n%s", c.Defect.Class, q(string(c.Defect.Text)))
	}
	m2 := errorLine.FindStringSubmatchIndex(alone.Error())
	if m2 == nil {
		return fmt.Errorf("%s: the error %q names no line", c.Defect.Class, alone)
	}
	k, _ := strconv.Atoi(alone.Error()[m2[2]:m2[3]])
	if want := alone.Error()[:m2[2]] + strconv.Itoa(k+before) + alone.Error()[m2[3]:]; want != err.Error() {
		return fmt.Errorf("%s: the error is %q, after %d more lines %q\n%s", c.Defect.Class, alone, before, err, q(in))
	}
	o.Label(c.Defect.Class)
	o.NTIf(before > 0)
	return nil
}

func init() {
	register(&Prop{ID: "C33", Rule: "generated malformed files of every listed class after generated files and text, which move the line at fault; non-trivial: something stands before",
		Subs: []*Sub{Gen("lines", 100000, 2000000, genC33, checkC33)}})
}
