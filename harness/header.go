package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// FKind is the kind of change a git file header describes.
// modify, mode, create, delete, rename, copy
type MFile struct {
	Kind     string
	Old, New BS // paths; equal unless rename or copy
	OldMode  uint32
	NewMode  uint32
	OldOID   string   `json:",omitempty"`
	NewOID   string   `json:",omitempty"`
	Score    int      `json:",omitempty"`
	Content  string   // none, text, binary, marker
	Hunks    []Hunk   `json:",omitempty"`
	Fwd      *BinFrag `json:",omitempty"`
	Rev      *BinFrag `json:",omitempty"`
}

// HStyle selects among the ways git writes the same header.
type HStyle struct {
	A, B     BS   // prefixes, with the slash
	QuoteUTF bool `json:",omitempty"` // core.quotePath=true: bytes >= 0x80 are escaped too
	Legacy   bool `json:",omitempty"` // "rename old" / "rename new"
	NoIndex  bool `json:",omitempty"`
	ModeSP   bool `json:",omitempty"` // white space after modes
	Gap      int  `json:",omitempty"` // more spaces after a first name in quotes
	Hunk     HunkStyle
}

var prefixPairs = [][2]string{{"a/", "b/"}, {"a/", "b/"}, {"a/", "b/"}, {"i/", "w/"}, {"c/", "i/"}, {"o/", "w/"}, {"old/", "new/"}, {"x/", "x/"}, {"b/", "a/"}, {"1/", "22/"}, {"a b/", "b c/"}, {"/", "/"}, {"\xc3\xa9/", "\xff/"}, {"a\t/", "b/"}, {"q\"/", "w/"}, {"aaaaaaaaaaaaaaaa/", "b/"}}

func (g *G) hstyle() HStyle {
	p := pick(g, prefixPairs)
	if p[0] == "/" {
		p = prefixPairs[0]
	}
	return HStyle{A: BS(p[0]), B: BS(p[1]), QuoteUTF: g.Bool(), Legacy: g.Chance(8), ModeSP: g.Chance(16), Gap: max(0, g.Int(-12, 3)), Hunk: g.hunkStyle()}
}

// cquote writes a name the way git does; quoted reports whether it needed quotes.
func cquote(s string, utf bool) (string, bool) {
	var b strings.Builder
	need := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		e := byte(0)
		switch c {
		case '\a':
			e = 'a'
		case '\b':
			e = 'b'
		case '\t':
			e = 't'
		case '\n':
			e = 'n'
		case '\v':
			e = 'v'
		case '\f':
			e = 'f'
		case '\r':
			e = 'r'
		case '"', '\\':
			e = c
		}
		switch {
		case e != 0:
			b.WriteByte('\\')
			b.WriteByte(e)
			need = true
		case c < 0x20 || c == 0x7f || (c >= 0x80 && utf):
			fmt.Fprintf(&b, "\\%03o", c)
			need = true
		default:
			b.WriteByte(c)
		}
	}
	if !need {
		return s, false
	}
	return `"` + b.String() + `"`, true
}

func (st HStyle) name(prefix, path BS) string {
	s, _ := cquote(string(prefix)+string(path), st.QuoteUTF)
	return s
}

// fileLine writes the name of a ---/+++ line: git adds a tab after unquoted
// names with a space.
func (st HStyle) fileLine(prefix, path BS) string {
	s, quoted := cquote(string(prefix)+string(path), st.QuoteUTF)
	if !quoted && strings.Contains(s, " ") {
		s += "\t"
	}
	return s
}

func (st HStyle) mode(m uint32) string {
	s := fmt.Sprintf("%06o", m)
	if st.ModeSP {
		s += "\r"
	}
	return s + "\n"
}

// render writes the file the way git diff does.
func (f *MFile) render(st HStyle) string {
	var b strings.Builder
	first := st.name(st.A, f.Old)
	if strings.HasPrefix(first, `"`) {
		first += strings.Repeat(" ", st.Gap) // git accepts that
	}
	b.WriteString("diff --git " + first + " " + st.name(st.B, f.New) + "\n")
	switch f.Kind {
	case "create":
		b.WriteString("new file mode " + st.mode(f.NewMode))
	case "delete":
		b.WriteString("deleted file mode " + st.mode(f.OldMode))
	default:
		if f.OldMode != f.NewMode {
			b.WriteString("old mode " + st.mode(f.OldMode))
			b.WriteString("new mode " + st.mode(f.NewMode))
		}
	}
	from, to := "from", "to"
	if st.Legacy {
		from, to = "old", "new"
	}
	old, _ := cquote(string(f.Old), st.QuoteUTF)
	new, _ := cquote(string(f.New), st.QuoteUTF)
	switch f.Kind {
	case "rename":
		fmt.Fprintf(&b, "similarity index %d%%\n", f.Score)
		b.WriteString("rename " + from + " " + old + "\n")
		b.WriteString("rename " + to + " " + new + "\n")
	case "copy":
		fmt.Fprintf(&b, "similarity index %d%%\n", f.Score)
		b.WriteString("copy from " + old + "\n")
		b.WriteString("copy to " + new + "\n")
	case "modify", "mode":
		if f.Score > 0 {
			fmt.Fprintf(&b, "dissimilarity index %d%%\n", f.Score)
		}
	}
	if f.hasIndex() && !st.NoIndex {
		b.WriteString("index " + f.OldOID + ".." + f.NewOID)
		if f.indexMode() {
			b.WriteString(" " + st.mode(f.OldMode))
		} else {
			b.WriteString("\n")
		}
	}
	switch f.Content {
	case "text":
		if f.Kind == "create" {
			b.WriteString("--- /dev/null\n")
		} else {
			b.WriteString("--- " + st.fileLine(st.A, f.Old) + "\n")
		}
		if f.Kind == "delete" {
			b.WriteString("+++ /dev/null\n")
		} else {
			b.WriteString("+++ " + st.fileLine(st.B, f.New) + "\n")
		}
		b.WriteString(renderHunks(f.Hunks, st.Hunk))
	case "marker":
		an, bn := st.name(st.A, f.Old), st.name(st.B, f.New)
		if f.Kind == "create" {
			an = "/dev/null"
		}
		if f.Kind == "delete" {
			bn = "/dev/null"
		}
		b.WriteString("Binary files " + an + " and " + bn + " differ\n")
	case "binary":
		b.WriteString("GIT binary patch\n" + f.Fwd.render())
		if f.Rev != nil {
			b.WriteString(f.Rev.render())
		}
	}
	return b.String()
}

func (f *MFile) hasIndex() bool { return f.OldOID != "" }

// git writes the mode on the index line when it does not change
func (f *MFile) indexMode() bool {
	return f.OldMode == f.NewMode && f.Kind != "create" && f.Kind != "delete"
}

// file is what parsing the rendered header must report.
func (f *MFile) file(st HStyle) *gitdiff.File {
	r := &gitdiff.File{OldName: string(f.Old), NewName: string(f.New)}
	if f.hasIndex() && !st.NoIndex {
		r.OldOIDPrefix, r.NewOIDPrefix = f.OldOID, f.NewOID
		if f.indexMode() {
			r.OldMode = os.FileMode(f.OldMode)
		}
	}
	switch f.Kind {
	case "create":
		r.IsNew, r.OldName = true, ""
		r.NewMode = os.FileMode(f.NewMode)
	case "delete":
		r.IsDelete, r.NewName = true, ""
		r.OldMode = os.FileMode(f.OldMode)
	default:
		if f.OldMode != f.NewMode {
			r.OldMode, r.NewMode = os.FileMode(f.OldMode), os.FileMode(f.NewMode)
		}
		r.Score = f.Score
	}
	r.IsRename = f.Kind == "rename"
	r.IsCopy = f.Kind == "copy"
	switch f.Content {
	case "text":
		for i := range f.Hunks {
			r.TextFragments = append(r.TextFragments, f.Hunks[i].fragment())
		}
	case "marker":
		r.IsBinary = true
	case "binary":
		r.IsBinary = true
		r.BinaryFragment = f.Fwd.fragment()
		if f.Rev != nil {
			r.ReverseBinaryFragment = f.Rev.fragment()
		}
	}
	return r
}

func (f *BinFrag) fragment() *gitdiff.BinaryFragment {
	m := gitdiff.BinaryPatchLiteral
	if f.Delta {
		m = gitdiff.BinaryPatchDelta
	}
	return &gitdiff.BinaryFragment{Method: m, Size: int64(len(f.Data)), RawData: f.raw()}
}

func zeros(n int) string { return strings.Repeat("0", n) }

// mfile generates any change git can report.
func (g *G) mfile(maxLines int) MFile { return g.mfileOf(maxLines, "") }

func (g *G) mfileOf(maxLines int, content string) MFile {
	f := MFile{Kind: pick(g, []string{"modify", "modify", "modify", "mode", "create", "delete", "rename", "copy"})}
	f.Old = BS(g.path())
	f.New = f.Old
	if f.Kind == "rename" || f.Kind == "copy" {
		f.New = BS(g.otherPath(string(f.Old)))
	}
	f.OldMode = g.fileMode()
	f.NewMode = f.OldMode
	oidLen := pick(g, []int{7, 7, 4, 8, 12, 40, 64})
	f.Content = content
	if content == "" {
		f.Content = pick(g, []string{"text", "text", "text", "none", "binary", "marker"})
	}
	if f.Content == "none" && f.Kind == "modify" {
		f.Kind = "mode"
	}
	if f.Kind == "mode" || ((f.Kind == "rename" || f.Kind == "copy") && g.Chance(3)) {
		for f.NewMode == f.OldMode {
			f.NewMode = g.fileMode()
			if f.NewMode == f.OldMode {
				f.NewMode ^= 0o111
			}
		}
	}
	switch f.Kind {
	case "rename", "copy":
		f.Score = g.Int(1, 100)
		if f.Content == "none" {
			f.Score = 100
		} else if g.Chance(20) {
			f.Score = 0
		}
	case "modify":
		if f.Content == "text" && g.Chance(5) {
			f.Score = g.Int(1, 100)
		}
	}
	// an index line is there whenever the content changes, and for created
	// and deleted files
	if f.Content != "none" || f.Kind == "create" || f.Kind == "delete" {
		f.OldOID, f.NewOID = g.oid(oidLen), g.oid(oidLen)
		if f.Kind == "create" {
			f.OldOID = zeros(oidLen)
			f.OldMode = 0
		}
		if f.Kind == "delete" {
			f.NewOID = zeros(oidLen)
			f.NewMode = 0
		}
	} else if g.Chance(12) {
		f.OldOID = g.oid(oidLen)
		f.NewOID = f.OldOID
	}
	switch f.Content {
	case "text":
		f.Hunks = g.fileHunks(maxLines, f.Kind)
	case "binary":
		f.Fwd, f.Rev = g.binFrags()
	}
	return f
}

// fileHunks generates the hunks of a text change of the given kind.
func (g *G) fileHunks(maxLines int, kind string) []Hunk {
	for {
		ls := g.script(maxLines)
		switch kind {
		case "create":
			ls = onlyOp(ls, "+")
		case "delete":
			ls = onlyOp(ls, "-")
		}
		return g.hunks(ls)
	}
}

// onlyOp makes every line of the script an addition or a deletion; only the
// last line may then lack its newline.
func onlyOp(ls []ML, op string) []ML {
	out := make([]ML, len(ls))
	for i, l := range ls {
		l.Op = op
		if i < len(ls)-1 && !strings.HasSuffix(string(l.S), "\n") {
			l.S += "\n"
		}
		out[i] = l
	}
	return out
}

func (g *G) payload() []byte {
	switch g.Int(0, 5) {
	case 0:
		return nil
	case 1:
		return g.Bytes(1, 8)
	case 2:
		// around the line length of the encoding once stored
		return bulk(g.Uint64(), pick(g, []int{1, 3, 4, 5, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 51, 52, 53, 90, 91, 92, 93, 94, 95, 96, 103, 104, 105}))
	case 3:
		return bulk(g.Uint64(), g.Int(0, 600))
	case 4:
		return []byte(strings.Repeat(pick(g, []string{"a", "\x00", "ab\n", "\xff"}), g.Int(0, 2000)))
	default:
		return []byte(strings.Join(g.lines(12), "") + "\x00")
	}
}

func (g *G) zlevel() int { return pick(g, []int{-1, -1, 0, 1, 9, -2}) }

func (g *G) binFrags() (fwd, rev *BinFrag) {
	mk := func() *BinFrag {
		if g.Chance(3) {
			src, dst := g.payload(), g.payload()
			return &BinFrag{Delta: true, Data: BS(makeDelta(src, dst, g.Uint64())), Level: g.zlevel()}
		}
		return &BinFrag{Data: BS(g.payload()), Level: g.zlevel()}
	}
	fwd = mk()
	if !g.Chance(5) {
		rev = mk()
	}
	return
}
