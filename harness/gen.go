package main

import (
	"fmt"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// G is a thin layer over rapid.
type G struct{ t *rapid.T }

func (g *G) Int(lo, hi int) int {
	if lo >= hi {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(g.t, "")
}
func (g *G) Int64(lo, hi int64) int64 { return rapid.Int64Range(lo, hi).Draw(g.t, "") }
func (g *G) Uint64() uint64           { return rapid.Uint64().Draw(g.t, "") }
func (g *G) Bool() bool               { return rapid.Bool().Draw(g.t, "") }

// Chance is true about once in n draws; it shrinks towards false.
func (g *G) Chance(n int) bool {
	if n <= 1 {
		return true
	}
	// two draws of unbiased bits keep this close to 1/n
	return rapid.Uint32().Draw(g.t, "")%uint32(n) == uint32(n)-1
}
func pick[T any](g *G, xs []T) T { return xs[g.Int(0, len(xs)-1)] }

func (g *G) Byte() byte { return byte(g.Int(0, 255)) }
func (g *G) Bytes(lo, hi int) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(g.t, "")
}

// prng is a small deterministic generator for bulk data named by a seed.
type prng uint64

func (p *prng) next() uint64 {
	*p += 0x9e3779b97f4a7c15
	z := uint64(*p)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (p *prng) intn(n int) int { return int(p.next() % uint64(n)) }

func (p *prng) perm(n int) []int {
	ns := make([]int, n)
	for i := range ns {
		j := p.intn(i + 1)
		ns[i], ns[j] = ns[j], i
	}
	return ns
}

func bulk(seed uint64, n int) []byte {
	p := prng(seed)
	b := make([]byte, 0, n+8)
	for len(b) < n {
		v := p.next()
		b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
	}
	return b[:n]
}

// ------------------------------------------------------------- line content

// plain short lines from a small alphabet, so that neighbouring lines repeat
var plainLines = []string{"a", "b", "c", "aa", "ab", "foo", "bar baz", "\tindented", "x = 1;", "}", ""}

// content that looks like patch syntax once it carries an operation byte
var trickyLines = []string{
	"", "", "-", "+", " ", "\\", "--", "++", "-- ", "++ ", "-- a/x", "++ b/x", "-- /dev/null", "++ /dev/null",
	"@@ -1 +1 @@", "@@ -0,0 +1,2 @@ x", "@ -1 +1 @@", " @@ -1 +1 @@", "diff --git a/x b/x", "iff --git a/x b/x",
	"\\ No newline at end of file", " No newline at end of file", "index 123..456 100644", "GIT binary patch", "literal 5",
	"Binary files a/x and b/x differ", "new file mode 100644", "rename from x", "similarity index 50%", "From: x",
	"From 0123456789012345678901234567890123456789 Mon Sep 17 00:00:00 2001", "-- \n2.43.0"[:3], "---", "+++", "--- a/x", "+++ b/x",
	"x\r", "\r", "\r\r", "a\rb", "\x00", "a\x00b", "\xff\xfe", "caf\xe9", "h\xc3\xa9llo", "\xe2\x80\xa8", "\ufeffbom", "\x0c", "\x1b[31m", "\x7f", "\t", "  ", "a ", "a\t",
	"commit 0123456", "old mode 100644", "deleted file mode 100644", "z00000", "delta 5", "\\ x", "\\ ", "\\\\ two backslashes here",
}

// pieces of text that some text processing changes, drops or stops at: white
// space of all kinds, marks without width, controls, escapes, entities,
// invalid UTF-8
var (
	uniSpecials = []string{"\u00a0", "\u0085", "\u2003", "\u2028", "\u2029", "\u3000", "\u200b", "\u200d", "\u200e", "\u2060", "\u00ad", "\ufeff", "\ufffd", "\ufffe", "e\u0301", "\u0301", "\u00e9", "\u0130", "\u00df", "\u212a", "\uff0f", "\u2013", "\u2018", "\u201c", "\U0001f600", "\U000e0041", "\u0660", "\u1680", "\u05d0", "\u0080", "\u009b"}
	ctlSpecials = []string{"\x01", "\x02", "\x07", "\b", "\v", "\f", "\x1a", "\x1b[1m", "\x1b", "\x1c", "\x1f", "\x7f", "a\bb"}
	ascSpecials = []string{"&amp;", "&#39;", "%20", "%41", "%s", "%d%n", "%", "\\n", "\\x41", "\\u00e9", "\\101", "${x}", "`", "'", "''", "\"", "\"x\"", "#", ";", ",", ".", "..", "...", "=", "==", "=41", "=\n"[:1], "?", "!", "~", "^", "|", "*", "{}", "[]", "()", "<>", "<b>", "//", "--", "+", "@", "@@", "$", "_", ":", "A", "Z", "0", "\\", "\\\\"}
	badSpecials = []string{"\x80", "\xbf", "\xc0\x80", "\xc2", "\xe2\x80", "\xed\xa0\x80", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xff", "\xfe\xff", "\x85", "\xa0", "\x00"}
	allSpecials = append(append(append(append([]string(nil), uniSpecials...), ctlSpecials...), ascSpecials...), append(badSpecials, "\r", "\t", " ", "  ", "\t\t", " \t")...)
)

// specialWord has one of the special pieces within, before or after a word.
func (g *G) specialWord(pieces []string) string {
	s := pick(g, pieces)
	switch g.Int(0, 5) {
	case 0:
		return s
	case 1:
		return s + "w"
	case 2:
		return "w" + s
	}
	return "v" + s + "w"
}

// tweaks are the changes that some comparison or copy might make to a line
var tweaks = []func(string) string{
	strings.ToLower, strings.ToUpper, strings.TrimSpace, func(s string) string { return strings.Join(strings.Fields(s), " ") },
	func(s string) string { return strings.ToValidUTF8(s, "") }, func(s string) string { return strings.ToValidUTF8(s, "\ufffd") },
	func(s string) string { return strings.TrimRight(s, " \t\r") }, func(s string) string { return strings.ReplaceAll(s, "\t", "        ") },
	func(s string) string { return strings.ReplaceAll(s, "\x00", "") }, func(s string) string { s, _, _ = strings.Cut(s, "\x00"); return s },
	func(s string) string { return strings.TrimPrefix(s, "\ufeff") }, func(s string) string { return "\ufeff" + s },
	func(s string) string { return strings.ReplaceAll(s, "\u00a0", " ") }, func(s string) string { return strings.ReplaceAll(s, " ", "\u00a0") },
	func(s string) string { return strings.ReplaceAll(s, " ", "\t") }, func(s string) string { return strings.ReplaceAll(s, " ", "") },
	func(s string) string { return strings.ReplaceAll(s, "\r", "") }, func(s string) string { return s + "\x00" },
	func(s string) string {
		return strings.Map(func(r rune) rune {
			if unicode.IsPrint(r) {
				return r
			}
			return -1
		}, s)
	},
}

// notations of the same thing, that some comparison might take for equal
var notations = [][]string{{"&", "&amp;", "&#38;"}, {"<", "&lt;"}, {"", "\"", "'"}, {"\u2013", "-", "\u2014"}, {"\ufffd", "?", "\xff", ""}, {"\u00e9", "e\u0301", "\xe9", "e"}, {"%20", " ", "+"}, {"\\t", "\t"}, {"\u2028", "", " "}, {"\u212a", "k", "K"}, {"\u0130", "i", "I"}, {"\u00df", "ss"}, {"\uff0f", "/"}, {"//", "/", "/./"}, {"\\", "/", "\\\\"}, {"\u2018", "'"}, {"\u201c", "\""}, {"x\b", "", "x"}, {"\x1b[0m", ""}, {"=3D", "="}, {"0", "00"}, {"1", "1.0"}, {"\u0660", "0"}, {"\x00", " ", ""}, {"\v", "", " ", "\f"}}

// tweak makes a small difference within a line without its newline.
func (g *G) tweak(s string) string {
	at := 0
	if s != "" {
		at = g.Int(0, len(s))
	}
	switch g.Int(0, 3) {
	case 0:
		return pick(g, tweaks)(s)
	case 1:
		if at < len(s) {
			return s[:at] + s[at+1:]
		}
		return s + " "
	}
	return s[:at] + pick(g, allSpecials) + s[at:]
}

// innerWord has letters on both sides of the piece.
func (g *G) innerWord(pieces []string) string {
	if g.Chance(4) {
		// these are no white space, wherever they are
		return pick(g, []string{"\ufeffw", "v\ufeff", "\ufeff", "\u200bw", "w\u200e", "\u00adw", "\u2060w"})
	}
	return "v" + pick(g, pieces) + "w"
}

// Line returns one line without its newline.
func (g *G) line() string {
	switch g.Int(0, 10) {
	case 10:
		return g.specialWord(allSpecials)
	case 0, 1, 2, 3, 4:
		return pick(g, plainLines)
	case 5, 6, 7:
		return pick(g, trickyLines)
	case 8:
		return g.shortBytes()
	default:
		if g.Chance(6) {
			n := pick(g, []int{30, 100, 1000, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 5000, 8191, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000})
			return strings.Repeat("0123456789abcdef", n/16+1)[:n]
		}
		return fmt.Sprintf("line %d", g.Int(0, 9))
	}
}

// shortBytes returns a few arbitrary bytes without a newline.
func (g *G) shortBytes() string {
	b := g.Bytes(0, 6)
	for i := range b {
		if b[i] == '\n' {
			b[i] = ' '
		}
	}
	return string(b)
}

// bias for lists: mostly short, sometimes long
func (g *G) size(max int) int {
	switch g.Int(0, 5) {
	case 0:
		return g.Int(0, min(2, max))
	case 1, 2, 3:
		return g.Int(0, min(8, max))
	case 4:
		return g.Int(0, min(20, max))
	default:
		return g.Int(0, max)
	}
}

// lines returns file lines, each with its newline except maybe the last.
func (g *G) lines(max int) []string {
	n := g.size(max)
	out := make([]string, n)
	for i := range out {
		out[i] = g.line() + "\n"
	}
	if n > 0 && g.Chance(4) {
		if l := strings.TrimSuffix(out[n-1], "\n"); l != "" {
			out[n-1] = l
		}
	}
	return out
}

func splitLines(s string) []string {
	if s == "" {
		return nil
	}
	out := strings.SplitAfter(s, "\n")
	if out[len(out)-1] == "" {
		out = out[:len(out)-1]
	}
	return out
}

// -------------------------------------------------------------------- names

var nameParts = []string{"a", "b", "x", "dir", "file.txt", "file", "README.md", "src", "dev", "null", ".hidden", "-dash", "a b", " lead", "trail ", "two  spaces", "b b", "a/b"[:1],
	"quo\"te", "back\\slash", "end\\", "\\", "\"", "\\\"", "tab\tname", "new\nline", "cr\r", "caf\xc3\xa9", "\xff\xfe", "latin\xe9", "\x01", "\x7f", "bell\a", "\b\v\f", "\xf0\x9f\x98\x80", "a,b", "@@ -1 +1 @@", "differ",
	"and", "=>", "{a => b}", "b", "x~", "file.txt.orig", "%s", "*", "?", "~", "index", "a.b.c", "\xe2\x80\xa8", "1", "\x80", "#x", "0"}

// path returns a path git can track: non-empty components of bytes 1..255
// without '/', none of them "." or ".." or ".git".
func (g *G) path() string {
	n := g.Int(1, 3)
	if g.Chance(8) {
		n = g.Int(1, 6)
	}
	parts := make([]string, n)
	for i := range parts {
		parts[i] = g.component()
	}
	return strings.Join(parts, "/")
}

func (g *G) component() string {
	var s string
	switch g.Int(0, 6) {
	case 6:
		s = strings.NewReplacer("/", "_", "\x00", "_").Replace(g.specialWord(allSpecials))
	case 0, 1:
		s = nameParts[g.Int(0, 10)]
	case 2, 3:
		s = pick(g, nameParts)
	case 4:
		s = pick(g, nameParts) + pick(g, nameParts)
	default:
		b := g.Bytes(1, 5)
		for i := range b {
			if b[i] == 0 || b[i] == '/' {
				b[i] = '_'
			}
		}
		s = string(b)
	}
	switch strings.ToLower(s) {
	case ".", "..", ".git", "":
		s = "x" + s
	}
	return s
}

// otherPath returns a path different from p, often a close relative of it.
func (g *G) otherPath(p string) string {
	var q string
	switch g.Int(0, 5) {
	case 0:
		q = p + pick(g, []string{"~", ".orig", ".bak", "x", " ", "2"})
	case 1:
		q = "x/" + p
	case 2:
		if i := strings.LastIndexByte(p, '/'); i >= 0 {
			q = p[i+1:]
		} else {
			q = "d/" + p
		}
	default:
		q = g.path()
	}
	if q == p || q == "" {
		q = p + "_"
	}
	return q
}

func (g *G) oid(n int) string {
	const hex = "0123456789abcdef"
	var b strings.Builder
	s := prng(g.Uint64())
	for i := 0; i < n; i++ {
		b.WriteByte(hex[s.intn(16)])
	}
	return b.String()
}

func (g *G) fileMode() uint32 {
	return pick(g, []uint32{0o100644, 0o100755, 0o120000, 0o160000, 0o100664, 0o100600, 0o040000})
}
