package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------- text patches

// ML is one line of a hunk: an operation and content with its newline (or
// without it when the line is the last of its file and has none).
type ML struct {
	Op string `json:"op"` // " ", "-" or "+"
	S  BS     `json:"s"`
}

// Hunk is the model of one text fragment.
type Hunk struct {
	OP, OL, NP, NL int64
	Comment        BS `json:",omitempty"`
	Lines          []ML
}

func (h *Hunk) counts() (added, deleted, lead, trail int64) {
	for _, l := range h.Lines {
		switch l.Op {
		case " ":
			if added == 0 && deleted == 0 {
				lead++
			} else {
				trail++
			}
		case "-":
			deleted++
			trail = 0
		case "+":
			added++
			trail = 0
		}
	}
	return
}

func (h *Hunk) setCounts() {
	h.OL, h.NL = 0, 0
	for _, l := range h.Lines {
		if l.Op != "+" {
			h.OL++
		}
		if l.Op != "-" {
			h.NL++
		}
	}
}

// fragment is what the parser must report for the hunk.
func (h *Hunk) fragment() *gitdiff.TextFragment {
	f := &gitdiff.TextFragment{
		Comment:     string(h.Comment),
		OldPosition: h.OP, OldLines: h.OL, NewPosition: h.NP, NewLines: h.NL,
	}
	f.LinesAdded, f.LinesDeleted, f.LeadingContext, f.TrailingContext = h.counts()
	for _, l := range h.Lines {
		op := gitdiff.OpContext
		switch l.Op {
		case "-":
			op = gitdiff.OpDelete
		case "+":
			op = gitdiff.OpAdd
		}
		f.Lines = append(f.Lines, gitdiff.Line{Op: op, Line: string(l.S)})
	}
	return f
}

// HunkStyle selects among the ways tools write the same hunk.
type HunkStyle struct {
	OmitOne  bool `json:",omitempty"` // leave out counts of one
	BareCtx  bool `json:",omitempty"` // empty context lines without the space
	Marker   BS   `json:",omitempty"` // "no newline" text, without newline
	NoEOLEnd bool `json:",omitempty"` // last marker line has no newline (end of input)
}

const stdMarker = "\\ No newline at end of file"

var markers = []string{stdMarker, "\\ Kein Zeilenumbruch am Dateiende.", "\\ Pas de fin de ligne", "\\ \xe6\x96\x87\xe4\xbb\xb6\xe5\xb0\xbe\xe3\x81\xab", "\\ 1234567890", "\\ No newline at end of file\r", "\\ @@ -1 +1 @@", "\\ --- a/x +++ b/x"}

func rng(pos, n int64, omit bool) string {
	if omit && n == 1 {
		return strconv.FormatInt(pos, 10)
	}
	return fmt.Sprintf("%d,%d", pos, n)
}

func (h *Hunk) header(st HunkStyle) string {
	s := "@@ -" + rng(h.OP, h.OL, st.OmitOne) + " +" + rng(h.NP, h.NL, st.OmitOne) + " @@"
	if h.Comment != "" {
		s += " " + string(h.Comment)
	}
	return s + "\n"
}

func (h *Hunk) body(st HunkStyle) string {
	mk := string(st.Marker)
	if mk == "" {
		mk = stdMarker
	}
	var b strings.Builder
	for _, l := range h.Lines {
		s := string(l.S)
		if l.Op == " " && s == "\n" && st.BareCtx {
			b.WriteString("\n")
			continue
		}
		b.WriteString(l.Op)
		b.WriteString(s)
		if !strings.HasSuffix(s, "\n") {
			b.WriteString("\n" + mk + "\n")
		}
	}
	return b.String()
}

func (h *Hunk) render(st HunkStyle) string { return h.header(st) + h.body(st) }

func renderHunks(hs []Hunk, st HunkStyle) string {
	var b strings.Builder
	for i := range hs {
		b.WriteString(hs[i].render(st))
	}
	return b.String()
}

func (g *G) hunkStyle() HunkStyle {
	st := HunkStyle{}
	if g.Chance(2) {
		st.OmitOne = true
	}
	if g.Chance(4) {
		st.BareCtx = true
	}
	if g.Chance(4) {
		st.Marker = BS(pick(g, markers))
	}
	return st
}

// comment returns a section heading as the parser reports it: no white space
// at either end.
func (g *G) comment() string {
	if !g.Chance(3) {
		return ""
	}
	if g.Chance(4) {
		return strings.TrimSpace(g.specialWord(allSpecials))
	}
	c := pick(g, []string{"func main() {", "x", "@@ -1 +1 @@", "class A:", "caf\xe9", "a @@ b", "int x(\xff", "@@", "+1 @@", ",", "\x00", "x  y", "-", "0"})
	return c
}

// Edit is the model of a text change: the lines of the edit script in order.
// The old file is its " " and "-" lines, the new file its " " and "+" lines.
type Edit struct {
	Script []ML
	Hunks  []Hunk
}

func oldOf(ls []ML) string {
	var b strings.Builder
	for _, l := range ls {
		if l.Op != "+" {
			b.WriteString(string(l.S))
		}
	}
	return b.String()
}

func newOf(ls []ML) string {
	var b strings.Builder
	for _, l := range ls {
		if l.Op != "-" {
			b.WriteString(string(l.S))
		}
	}
	return b.String()
}

// idioms are runs of lines that look like other parts of a patch in a diff.
var idioms = [][]ML{
	{{"-", "-- a/x\n"}, {"+", "++ b/x\n"}},
	{{"-", "-- a/x\n"}, {"+", "++ b/x\n"}, {" ", "@@ -1 +1 @@\n"}},
	{{" ", "-- a/x\n"}, {"-", "-- a/x\n"}, {"+", "++ b/x\n"}},
	{{"-", "- \n"}, {"-", "2.43.0\n"}},
	{{"-", "- \n"}, {"+", "2.43.0\n"}, {" ", "\n"}},
	{{" ", "\n"}, {"-", "-- x\n"}, {"+", "++ x\n"}},
	{{" ", "diff --git a/x b/x\n"}, {"-", "-- a/x\n"}, {"+", "++ b/x\n"}},
	{{"-", "@ -1 +1 @@\n"}, {"+", "@ -1 +1 @@\n"}},
	{{" ", "\\ No newline at end of file\n"}, {"-", "\\ No newline at end of file\n"}, {"+", "\\ No newline at end of file\n"}},
	{{"+", "GIT binary patch\n"}, {"+", "literal 1\n"}, {"+", "Ic${MZ0003&00\n"}, {"+", "\n"}},
}

// script generates an edit script with at least one change.
func (g *G) script(maxLines int) []ML {
	var ls []ML
	kind := g.Int(0, 9)
	switch kind {
	case 0: // creation
		n := 1 + g.size(maxLines-1)
		for i := 0; i < n; i++ {
			ls = append(ls, ML{"+", BS(g.line() + "\n")})
		}
	case 1: // deletion
		n := 1 + g.size(maxLines-1)
		for i := 0; i < n; i++ {
			ls = append(ls, ML{"-", BS(g.line() + "\n")})
		}
	default:
		n := 1 + g.size(maxLines-1)
		run := 0
		op := " "
		for i := 0; i < n; i++ {
			if run == 0 {
				op = pick(g, []string{" ", " ", " ", "-", "+"})
				if op == " " {
					run = g.Int(1, 8)
				} else {
					run = g.Int(1, 3)
				}
			}
			run--
			ls = append(ls, ML{op, BS(g.line() + "\n")})
		}
		change := false
		for _, l := range ls {
			change = change || l.Op != " "
		}
		if !change {
			i := g.Int(0, len(ls)-1)
			ls[i].Op = pick(g, []string{"-", "+"})
		}
		if g.Chance(12) {
			// neighbouring lines that look like something else together
			id := pick(g, idioms)
			i := g.Int(0, len(ls))
			if g.Bool() {
				i = len(ls)
			}
			ls = append(ls[:i:i], append(append([]ML(nil), id...), ls[i:]...)...)
		}
	}
	return g.noEOLs(ls)
}

// noEOLs maybe removes the final newline of the old and the new file.
func (g *G) noEOLs(ls []ML) []ML {
	return stripFinal(ls, g.Chance(3), g.Chance(3))
}

func stripFinal(ls []ML, stripOld, stripNew bool) []ML {
	lo, ln := -1, -1
	for i, l := range ls {
		if l.Op != "+" {
			lo = i
		}
		if l.Op != "-" {
			ln = i
		}
	}
	// a line that is empty without its newline is no line at all
	cut := func(s BS) BS {
		t := strings.TrimSuffix(string(s), "\n")
		if t == "" {
			t = "z"
		}
		return BS(t)
	}
	var out []ML
	for i, l := range ls {
		so, sn := stripOld && i == lo, stripNew && i == ln
		switch {
		case !so && !sn:
			out = append(out, l)
		case l.Op == "-" || l.Op == "+":
			l.S = cut(l.S)
			out = append(out, l)
		case so && sn:
			l.S = cut(l.S)
			out = append(out, l)
		case so:
			out = append(out, ML{"-", cut(l.S)}, ML{"+", l.S})
		default:
			out = append(out, ML{"-", l.S}, ML{"+", cut(l.S)})
		}
	}
	return out
}

// hunks cuts a script into hunks the way a diff tool may: groups of changes
// separated by at least one unchanged line, each with some context.
func (g *G) hunks(ls []ML) []Hunk {
	n := len(ls)
	zero := g.Chance(3) // a -U0 style diff
	maxCtx := 3
	if zero {
		maxCtx = 0
	} else if g.Chance(4) {
		maxCtx = g.Int(1, 12)
	}
	full := g.Chance(2) // git style: always the maximal context
	inHunk := make([]bool, n)
	for i, l := range ls {
		if l.Op != " " {
			inHunk[i] = true
		}
	}
	starts, ends := []int{}, []int{}
	for i := 0; i < n; i++ {
		if inHunk[i] && (i == 0 || !inHunk[i-1]) {
			starts = append(starts, i)
		}
		if inHunk[i] && (i == n-1 || !inHunk[i+1]) {
			ends = append(ends, i+1)
		}
	}
	for k := range starts {
		b, e := starts[k], ends[k]
		before, after := maxCtx, maxCtx
		if !full {
			before, after = g.Int(0, maxCtx), g.Int(0, maxCtx)
		}
		for i := 0; i < before && b-1-i >= 0; i++ {
			inHunk[b-1-i] = true
		}
		for i := 0; i < after && e+i < n; i++ {
			inHunk[e+i] = true
		}
	}
	return g.fixHunks(ls, inHunk)
}

// fixHunks makes sure a position of zero only stands for an empty file, which
// is what it means to every tool.
func (g *G) fixHunks(ls []ML, inHunk []bool) []Hunk {
	n := len(ls)
	cut := make([]bool, n)
	if g.Chance(4) {
		// split some hunks between two context lines, so that they abut
		for i := 1; i < n; i++ {
			if ls[i-1].Op == " " && ls[i].Op == " " && inHunk[i-1] && inHunk[i] && g.Chance(2) {
				cut[i] = true
			}
		}
	}
	oldEmpty, newEmpty := oldOf(ls) == "", newOf(ls) == ""
	for {
		hs, spans := cutHunks(ls, inHunk, cut)
		again := false
		for k, h := range hs {
			b, e := spans[k][0], spans[k][1]
			if (h.OP == 0 && !oldEmpty) || (h.NP == 0 && !newEmpty) {
				switch {
				case e < n && !inHunk[e]:
					inHunk[e] = true
				case e < n:
					cut[e] = false
				case b > 0 && !inHunk[b-1]:
					inHunk[b-1] = true
				default:
					cut[b] = false
				}
				again = true
				break
			}
		}
		if !again {
			return g.decorate(hs)
		}
	}
}

func (g *G) decorate(hs []Hunk) []Hunk {
	for i := range hs {
		hs[i].Comment = BS(g.comment())
	}
	return hs
}

// cutHunks turns the marked runs of the script into hunks with positions. A
// piece without a change is left out.
func cutHunks(ls []ML, inHunk, cut []bool) (hs []Hunk, spans [][2]int) {
	oldNo, newNo := int64(0), int64(0) // lines before the current one
	open := false
	for i, l := range ls {
		if inHunk[i] {
			if !open || cut[i] {
				hs = append(hs, Hunk{OP: oldNo, NP: newNo})
				spans = append(spans, [2]int{i, i})
				open = true
			}
			cur := &hs[len(hs)-1]
			cur.Lines = append(cur.Lines, l)
			spans[len(spans)-1][1] = i + 1
		} else {
			open = false
		}
		if l.Op != "+" {
			oldNo++
		}
		if l.Op != "-" {
			newNo++
		}
	}
	k := 0
	for i := range hs {
		h := hs[i]
		h.setCounts()
		// a range of zero lines names the line before it
		if h.OL > 0 {
			h.OP++
		}
		if h.NL > 0 {
			h.NP++
		}
		if a, d, _, _ := h.counts(); a+d > 0 {
			hs[k], spans[k] = h, spans[i]
			k++
		}
	}
	return hs[:k], spans[:k]
}

// invert gives the hunks of the reverse change.
func invert(hs []Hunk) []Hunk {
	out := make([]Hunk, len(hs))
	for i, h := range hs {
		out[i] = Hunk{OP: h.NP, OL: h.NL, NP: h.OP, NL: h.OL, Comment: h.Comment}
		for _, l := range h.Lines {
			switch l.Op {
			case "-":
				l.Op = "+"
			case "+":
				l.Op = "-"
			}
			out[i].Lines = append(out[i].Lines, l)
		}
	}
	return out
}

// ------------------------------------------------------- reference applying

type applyModel struct {
	ok       bool
	out      string
	conflict bool
	why      string
	// location of the failure, when the model defines one
	line     int64
	frag     int
	fragLine int
}

// modelApply is the reference for strict application of hunks in order.
func modelApply(src string, hs []Hunk) applyModel {
	lines := splitLines(src)
	next := int64(0)
	var out strings.Builder
	n := int64(len(lines))
	for i, h := range hs {
		start := h.OP
		if h.OL > 0 {
			start = h.OP - 1
		}
		bad := func(why string, line int64, fl int) applyModel {
			return applyModel{conflict: true, why: why, line: line, frag: i + 1, fragLine: fl}
		}
		if start < next {
			return bad("overlap", 0, 0)
		}
		if h.OP == 0 && n != 0 {
			return bad("creation on content", 0, 0)
		}
		if start+h.OL > n {
			return bad("short source", n+1, 0)
		}
		for _, l := range lines[next:start] {
			out.WriteString(l)
		}
		pos := start
		for j, l := range h.Lines {
			if l.Op != "+" {
				if lines[pos] != string(l.S) {
					return bad("mismatch", pos+1, j+1)
				}
				pos++
			}
			if l.Op != "-" {
				out.WriteString(string(l.S))
			}
		}
		next = pos
		if h.NP == 0 && h.NL == 0 && next < n {
			return bad("left over", next+1, 0)
		}
	}
	for _, l := range lines[next:] {
		out.WriteString(l)
	}
	return applyModel{ok: true, out: out.String()}
}

// ---------------------------------------------------------- comparing files

func diffFrag(a, b *gitdiff.TextFragment) string {
	if a.Comment != b.Comment {
		return fmt.Sprintf("comment %q != %q", a.Comment, b.Comment)
	}
	if a.OldPosition != b.OldPosition || a.OldLines != b.OldLines || a.NewPosition != b.NewPosition || a.NewLines != b.NewLines {
		return fmt.Sprintf("ranges -%d,%d +%d,%d != -%d,%d +%d,%d", a.OldPosition, a.OldLines, a.NewPosition, a.NewLines, b.OldPosition, b.OldLines, b.NewPosition, b.NewLines)
	}
	if a.LinesAdded != b.LinesAdded || a.LinesDeleted != b.LinesDeleted || a.LeadingContext != b.LeadingContext || a.TrailingContext != b.TrailingContext {
		return fmt.Sprintf("counts added %d deleted %d leading %d trailing %d != added %d deleted %d leading %d trailing %d",
			a.LinesAdded, a.LinesDeleted, a.LeadingContext, a.TrailingContext, b.LinesAdded, b.LinesDeleted, b.LeadingContext, b.TrailingContext)
	}
	if len(a.Lines) != len(b.Lines) {
		return fmt.Sprintf("%d lines != %d lines", len(a.Lines), len(b.Lines))
	}
	for i := range a.Lines {
		if a.Lines[i] != b.Lines[i] {
			return fmt.Sprintf("line %d: %v %s != %v %s", i+1, a.Lines[i].Op, q(a.Lines[i].Line), b.Lines[i].Op, q(b.Lines[i].Line))
		}
	}
	return ""
}

func q(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func diffBin(a, b *gitdiff.BinaryFragment) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("present %v != %v", a != nil, b != nil)
	}
	if a == nil {
		return ""
	}
	if a.Method != b.Method || a.Size != b.Size {
		return fmt.Sprintf("method %d size %d != method %d size %d", a.Method, a.Size, b.Method, b.Size)
	}
	if !bytes.Equal(a.RawData, b.RawData) {
		return fmt.Sprintf("raw data differ (%d and %d bytes)", len(a.RawData), len(b.RawData))
	}
	return ""
}

// diffFiles describes the first difference between two files, got then want.
func diffFiles(a, b *gitdiff.File) string {
	if (a == nil) != (b == nil) {
		return "one file is nil"
	}
	if a == nil {
		return ""
	}
	if a.OldName != b.OldName || a.NewName != b.NewName {
		return fmt.Sprintf("names %q -> %q, want %q -> %q", a.OldName, a.NewName, b.OldName, b.NewName)
	}
	if a.IsNew != b.IsNew || a.IsDelete != b.IsDelete || a.IsCopy != b.IsCopy || a.IsRename != b.IsRename {
		return fmt.Sprintf("flags new=%v delete=%v copy=%v rename=%v, want new=%v delete=%v copy=%v rename=%v", a.IsNew, a.IsDelete, a.IsCopy, a.IsRename, b.IsNew, b.IsDelete, b.IsCopy, b.IsRename)
	}
	if a.OldMode != b.OldMode || a.NewMode != b.NewMode {
		return fmt.Sprintf("modes %o -> %o, want %o -> %o", uint32(a.OldMode), uint32(a.NewMode), uint32(b.OldMode), uint32(b.NewMode))
	}
	if a.OldOIDPrefix != b.OldOIDPrefix || a.NewOIDPrefix != b.NewOIDPrefix {
		return fmt.Sprintf("oids %q..%q, want %q..%q", a.OldOIDPrefix, a.NewOIDPrefix, b.OldOIDPrefix, b.NewOIDPrefix)
	}
	if a.Score != b.Score {
		return fmt.Sprintf("score %d, want %d", a.Score, b.Score)
	}
	if a.IsBinary != b.IsBinary {
		return fmt.Sprintf("binary %v, want %v", a.IsBinary, b.IsBinary)
	}
	if d := diffBin(a.BinaryFragment, b.BinaryFragment); d != "" {
		return "binary fragment: " + d
	}
	if d := diffBin(a.ReverseBinaryFragment, b.ReverseBinaryFragment); d != "" {
		return "reverse binary fragment: " + d
	}
	if len(a.TextFragments) != len(b.TextFragments) {
		return fmt.Sprintf("%d text fragments, want %d", len(a.TextFragments), len(b.TextFragments))
	}
	for i := range a.TextFragments {
		if d := diffFrag(a.TextFragments[i], b.TextFragments[i]); d != "" {
			return fmt.Sprintf("fragment %d: %s", i+1, d)
		}
	}
	return ""
}

func diffFileLists(a, b []*gitdiff.File) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if d := diffFiles(a[i], b[i]); d != "" {
			return fmt.Sprintf("file %d: %s", i+1, d)
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d files, want %d", len(a), len(b))
	}
	return ""
}

func parseString(s string) ([]*gitdiff.File, string, error) {
	return gitdiff.Parse(strings.NewReader(s))
}

// parseOne parses a patch that must hold exactly one file.
func parseOne(s string) (*gitdiff.File, error) {
	files, _, err := parseString(s)
	if err != nil {
		return nil, fmt.Errorf("Parse failed: %v\n%s", err, q(s))
	}
	if len(files) != 1 {
		return nil, fmt.Errorf("Parse returned %d files for a patch of one\n%s", len(files), q(s))
	}
	return files[0], nil
}

func applyTo(src string, f *gitdiff.File, opts ...gitdiff.ApplyOption) (string, error) {
	var out bytes.Buffer
	err := gitdiff.Apply(&out, strings.NewReader(src), f, opts...)
	return out.String(), err
}

var _ = os.FileMode(0)
