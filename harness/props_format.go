package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C22

type formatCase struct {
	Parts []Part // only git files
}

func genC22(g *G) formatCase {
	c := formatCase{}
	for i, n := 0, pick(g, []int{1, 1, 1, 2, 3, 4}); i < n; i++ {
		f := g.mfile(8)
		c.Parts = append(c.Parts, Part{F: &f, Style: g.hstyle()})
	}
	return c
}

func checkFormat(f *gitdiff.File) error {
	text := f.String()
	back, err := parseOne(text)
	if err != nil {
		return fmt.Errorf("parsing the formatted file: %v", err)
	}
	if d := diffFiles(back, f); d != "" {
		return fmt.Errorf("formatted and parsed again: %s\ntext %s", d, q(text))
	}
	if again := back.String(); again != text {
		return fmt.Errorf("the second text differs: %s, first %s", q(again), q(text))
	}
	// the fragments' own forms
	var tailB strings.Builder
	for _, frag := range f.TextFragments {
		s := frag.String()
		first, _, _ := strings.Cut(s, "\n")
		if frag.Header() != first {
			return fmt.Errorf("Header() is %q, the text starts with %q", frag.Header(), first)
		}
		var wantB strings.Builder
		wantB.WriteString(first + "\n")
		for _, l := range frag.Lines {
			if ls := l.String(); ls != l.Op.String()+l.Line {
				return fmt.Errorf("line string %q", ls)
			}
			wantB.WriteString(l.String())
			if l.NoEOL() != !strings.HasSuffix(l.Line, "\n") {
				return fmt.Errorf("NoEOL() of %q", l.Line)
			}
			if !strings.HasSuffix(l.Line, "\n") {
				wantB.WriteString("\n" + stdMarker + "\n")
			}
			if l.Old() != (l.Op != gitdiff.OpAdd) || l.New() != (l.Op != gitdiff.OpDelete) {
				return fmt.Errorf("sides of line %q", l.String())
			}
		}
		if want := wantB.String(); s != want {
			return fmt.Errorf("fragment text %s, want %s", q(s), q(want))
		}
		tailB.WriteString(s)
	}
	for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if b != nil {
			tailB.WriteString(b.String())
		}
	}
	tail := tailB.String()
	if !strings.HasSuffix(text, tail) {
		return fmt.Errorf("the file's text does not end in its fragments' texts: %s and %s", q(text), q(tail))
	}
	if f.Score > 0 {
		word := "\ndissimilarity"
		if f.IsCopy || f.IsRename {
			word = "\nsimilarity"
		}
		if line := fmt.Sprintf("%s index %d%%\n", word, f.Score); !strings.Contains(text, line) {
			return fmt.Errorf("no line %q in %s", line, q(text))
		}
	}
	return nil
}

func checkC22(c *formatCase, o *Obs) error {
	in := renderParts(c.Parts)
	files, _, err := parseString(in)
	if err != nil {
		return fmt.Errorf("Parse failed: %v\n%s", err, q(in))
	}
	if len(files) != len(c.Parts) {
		return fmt.Errorf("%d files, want %d", len(files), len(c.Parts))
	}
	all := ""
	for _, f := range files {
		if err := checkFormat(f); err != nil {
			return fmt.Errorf("%v\ninput %s", err, q(in))
		}
		all += f.String()
	}
	back, pre, err := parseString(all)
	if err != nil || pre != "" {
		return fmt.Errorf("the texts of all files together: preamble %q, error %v", pre, err)
	}
	if d := diffFileLists(back, files); d != "" {
		return fmt.Errorf("the texts of all files together: %s", d)
	}
	for i := range c.Parts {
		f := c.Parts[i].F
		o.Label(f.Kind + " " + f.Content)
		o.NTIf(f.Content != "none" || f.Kind != "modify")
	}
	return nil
}

// a text fragment built by hand, not parsed: every valid one round trips
// inside a file
type builtCase struct {
	Old, New BS
	Hunks    []Hunk
}

func genBuilt(g *G) builtCase {
	c := builtCase{Old: BS(g.path())}
	c.New = c.Old
	c.Hunks = g.hunks(g.script(10))
	// a parsed fragment can have lines without a newline anywhere
	if g.Chance(3) && len(c.Hunks) > 0 {
		for i, n := 0, g.Int(1, 3); i < n; i++ {
			h := &c.Hunks[g.Int(0, len(c.Hunks)-1)]
			l := &h.Lines[g.Int(0, len(h.Lines)-1)]
			l.S = BS(strings.TrimSuffix(string(l.S), "\n"))
			if g.Chance(2) {
				l.S = ""
			}
		}
	}
	return c
}

func checkBuilt(c *builtCase, o *Obs) error {
	f := &gitdiff.File{OldName: string(c.Old), NewName: string(c.New)}
	for i := range c.Hunks {
		f.TextFragments = append(f.TextFragments, c.Hunks[i].fragment())
	}
	o.NTIf(len(c.Hunks) > 0)
	return checkFormat(f)
}

// names alone: every one- and two-byte name through the formatter
type fmtName struct{ Name BS }

func enumFmtName(tier string, yield func(fmtName) bool) {
	ok := func(s string) bool {
		return !strings.ContainsAny(s, "/\x00") && s != "." && s != ".."
	}
	for a := 1; a < 256; a++ {
		if ok(string([]byte{byte(a)})) && !yield(fmtName{BS([]byte{byte(a)})}) {
			return
		}
		for b := 1; b < 256; b++ {
			s := string([]byte{byte(a), byte(b)})
			if ok(s) && !yield(fmtName{BS(s)}) {
				return
			}
		}
	}
}

func checkFmtName(c *fmtName, o *Obs) error {
	n := string(c.Name)
	other := n + "x"
	frag := &gitdiff.TextFragment{OldPosition: 1, OldLines: 1, NewPosition: 1, NewLines: 1, LinesAdded: 1, LinesDeleted: 1,
		Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "a\n"}, {Op: gitdiff.OpAdd, Line: "b\n"}}}
	o.NT()
	for _, f := range []*gitdiff.File{
		{OldName: n, NewName: n, OldMode: 0o100644, NewMode: 0o100755},
		{OldName: n, NewName: n, TextFragments: []*gitdiff.TextFragment{frag}},
		{OldName: n, NewName: n, IsBinary: true, OldOIDPrefix: "1", NewOIDPrefix: "2", OldMode: 0o100644},
		{NewName: n, IsNew: true, NewMode: 0o100644},
		{OldName: n, IsDelete: true, OldMode: 0o100644},
		{OldName: n, NewName: other, IsRename: true, Score: 100},
		{OldName: other, NewName: n, IsCopy: true, Score: 87, TextFragments: []*gitdiff.TextFragment{frag}},
	} {
		if err := checkFormat(f); err != nil {
			return err
		}
	}
	return nil
}

// ------------------------------------------------------------------ C23

type gaFile struct {
	F        MFile
	Old, New BS // contents
	Style    HStyle
}

type gitApplyCase struct {
	Files   []gaFile
	Reverse bool
}

func exactHunks(hs []Hunk) bool {
	for _, h := range hs {
		// git looks for a hunk without new lines one line too early, and may
		// find it elsewhere
		if h.NL == 0 && h.NP > 0 || h.OL == 0 && h.OP > 0 {
			return false
		}
	}
	return true
}

func (g *G) gitApplyFile(dir string) gaFile {
	a := gaFile{Style: g.hstyle()}
	a.Style.NoIndex = false
	f := g.mfileOf(3, pick(g, []string{"text", "text", "text", "none", "binary"}))
	// git cannot read its own headers of names with " /" unless a ---/+++ or
	// rename line repeats them
	plain := func(p BS) BS { return BS(dir + strings.ReplaceAll(string(p), " /", "_/")) }
	same := f.Old == f.New
	if f.Old, f.New = plain(f.Old), plain(f.New); !same && f.Old == f.New {
		f.New += "2"
	}
	if strings.HasPrefix(string(f.New), string(f.Old)+"/") || strings.HasPrefix(string(f.Old), string(f.New)+"/") {
		f.New = BS(dir) + "other name"
	}
	fix := func(m uint32) uint32 {
		if m == 0 {
			return 0
		}
		if m&0o111 != 0 {
			return 0o100755
		}
		return 0o100644
	}
	was := f.OldMode != f.NewMode
	f.OldMode, f.NewMode = fix(f.OldMode), fix(f.NewMode)
	if f.Kind == "mode" || (was && (f.Kind == "rename" || f.Kind == "copy")) {
		f.NewMode = f.OldMode ^ 0o111
	}
	switch f.Content {
	case "text":
		for k := 0; ; k++ {
			ls := g.script(14)
			switch f.Kind {
			case "create":
				ls = onlyOp(ls, "+")
			case "delete":
				ls = onlyOp(ls, "-")
			}
			a.Old, a.New = BS(oldOf(ls)), BS(newOf(ls))
			if f.Hunks = g.hunks(ls); exactHunks(f.Hunks) {
				break
			}
			if k == 20 {
				// one hunk over everything
				in := make([]bool, len(ls))
				for i := range in {
					in[i] = true
				}
				f.Hunks, _ = cutHunks(ls, in, make([]bool, len(ls)))
				break
			}
		}
	case "binary":
		a.Old, a.New = BS(g.payload()), BS(g.payload())
		if a.Old == a.New {
			a.New += "\x00changed"
		}
		switch f.Kind {
		case "create":
			a.Old = ""
		case "delete":
			a.New = ""
		}
		mk := func(src, dst BS) *BinFrag {
			if len(src) > 0 && len(dst) > 0 && g.Bool() {
				return &BinFrag{Delta: true, Data: BS(makeDelta([]byte(src), []byte(dst), g.Uint64())), Level: g.zlevel()}
			}
			return &BinFrag{Data: dst, Level: g.zlevel()}
		}
		f.Fwd, f.Rev = mk(a.Old, a.New), mk(a.New, a.Old)
		if g.Chance(8) {
			f.Rev = nil
		}
	default:
		if f.Kind != "create" && f.Kind != "delete" {
			a.Old = BS(strings.Join(g.lines(6), ""))
			a.New = a.Old
		}
	}
	if f.Kind == "modify" && f.Content == "none" {
		f.Kind = "mode"
		f.NewMode = f.OldMode ^ 0o111
	}
	if f.Kind == "mode" && f.OldMode == f.NewMode {
		f.NewMode = f.OldMode ^ 0o111
	}
	if f.OldOID != "" {
		// the real object ids, whole for binary content
		n := 40
		if f.Content != "binary" {
			n = min(len(f.OldOID), 40)
		}
		f.OldOID, f.NewOID = blobID(string(a.Old))[:n], blobID(string(a.New))[:n]
		if f.Kind == "create" {
			f.OldOID = zeros(n)
		}
		if f.Kind == "delete" {
			f.NewOID = zeros(n)
		}
	}
	a.F = f
	return a
}

func genC23(g *G) gitApplyCase {
	c := gitApplyCase{}
	n := pick(g, []int{1, 1, 1, 2, 4})
	for i := 0; i < n; i++ {
		dir := ""
		if n > 1 {
			dir = fmt.Sprintf("%d/", i)
		}
		c.Files = append(c.Files, g.gitApplyFile(dir))
	}
	c.Reverse = g.Chance(3)
	return c
}

type treeEntry struct {
	data string
	exec bool
}

func readTree(dir string) map[string]treeEntry {
	t := map[string]treeEntry{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		t[rel] = treeEntry{string(b), fi.Mode()&0o100 != 0}
		return err
	})
	if err != nil {
		infraf("%v", err)
	}
	return t
}

func diffTrees(got, want map[string]treeEntry) string {
	var names []string
	for n := range got {
		names = append(names, n)
	}
	for n := range want {
		if _, ok := got[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		a, in := got[n]
		b, ex := want[n]
		switch {
		case !in:
			return fmt.Sprintf("%q is missing", n)
		case !ex:
			return fmt.Sprintf("%q should not exist", n)
		case a.data != b.data:
			return fmt.Sprintf("%q holds %s, want %s", n, q(a.data), q(b.data))
		case a.exec != b.exec:
			return fmt.Sprintf("%q executable: %v, want %v", n, a.exec, b.exec)
		}
	}
	return ""
}

func checkC23(c *gitApplyCase, o *Obs) error {
	before, after := map[string]treeEntry{}, map[string]treeEntry{}
	text, in := "", ""
	reversible := true
	for i := range c.Files {
		a := &c.Files[i]
		in += a.F.render(a.Style)
		f, err := parseOne(a.F.render(a.Style))
		if err != nil {
			return err
		}
		text += f.String()
		// the library's own result
		res, err := applyTo(string(a.Old), f)
		if err != nil {
			return fmt.Errorf("Apply: %v", err)
		}
		if res != string(a.New) {
			return fmt.Errorf("Apply gives %s, want %s", q(res), q(string(a.New)))
		}
		old := treeEntry{string(a.Old), a.F.OldMode&0o111 != 0}
		new := treeEntry{res, a.F.NewMode&0o111 != 0}
		switch a.F.Kind {
		case "create":
			after[string(a.F.New)] = new
		case "delete":
			before[string(a.F.Old)] = old
		case "copy":
			before[string(a.F.Old)] = old
			after[string(a.F.Old)] = old
			after[string(a.F.New)] = new
			reversible = false // git undoes a copy by a copy
		default:
			before[string(a.F.Old)] = old
			after[string(a.F.New)] = new
		}
		if a.F.Content == "binary" && a.F.Rev == nil {
			reversible = false
		}
		o.Label(a.F.Kind + " " + a.F.Content)
	}
	o.NTIf(len(c.Files) > 0)
	dir := scratch()
	defer os.RemoveAll(dir)
	for n, e := range before {
		mode := os.FileMode(0o644)
		if e.exec {
			mode = 0o755
		}
		writeFile(filepath.Join(dir, n), e.data, mode)
		os.Chmod(filepath.Join(dir, n), mode)
	}
	args := []string{"-c", "core.protectNTFS=false", "-c", "core.protectHFS=false", "-c", "core.fileMode=true", "apply", "--unidiff-zero", "--whitespace=nowarn", "-"}
	_, errOut, code := git(dir, text, nil, args...)
	if code != 0 {
		return fmt.Errorf("git apply refuses the text: %s\ntext %s\nparsed from %s", clip(errOut, 500), q(text), q(in))
	}
	if d := diffTrees(readTree(dir), after); d != "" {
		return fmt.Errorf("after git apply: %s\ntext %s\nparsed from %s", d, q(text), q(in))
	}
	if c.Reverse && reversible {
		o.Label("reversed")
		_, errOut, code := git(dir, text, nil, append(args[:len(args)-1:len(args)-1], "-R", "-")...)
		if code != 0 {
			return fmt.Errorf("git apply -R refuses the text: %s\ntext %s", clip(errOut, 500), q(text))
		}
		if d := diffTrees(readTree(dir), before); d != "" {
			return fmt.Errorf("after git apply -R: %s\ntext %s", d, q(text))
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C22", Rule: "files parsed from generated git patches of every kind, hand-built files, and every one- and two-byte name; non-trivial: a file with a change to format",
		Subs: []*Sub{
			Enum("names", enumFmtName, checkFmtName),
			Gen("parsed", 60000, 2500000, genC22, checkC22),
			Gen("built", 30000, 1000000, genBuilt, checkBuilt),
		}})
	ga := Gen("git-apply", 12000, 400000, genC23, checkC23)
	ga.Avail = haveTool("git")
	register(&Prop{ID: "C23", Rule: "files parsed from generated git patches with known contents, formatted and given to git apply (and git apply -R) in a scratch directory; non-trivial: every case has a file to change",
		Subs: []*Sub{ga}})
}
