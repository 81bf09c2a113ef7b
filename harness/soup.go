package main

import (
	"strconv"
	"strings"
)

// ------------------------------------------- valid patches and broken ones

// Part is a piece of a patch: either text that is no patch or a file.
type Part struct {
	Junk  BS     `json:",omitempty"`
	F     *MFile `json:",omitempty"`
	Style HStyle
	Trad  *TradFile `json:",omitempty"`
}

func (p *Part) render() string {
	switch {
	case p.F != nil:
		return p.F.render(p.Style)
	case p.Trad != nil:
		return p.Trad.render()
	}
	return string(p.Junk)
}

func renderParts(ps []Part) string {
	var b strings.Builder
	for i := range ps {
		b.WriteString(ps[i].render())
	}
	return b.String()
}

// patchText returns the text of a small valid patch.
func (g *G) patchText(maxFiles, maxLines int) string {
	var b strings.Builder
	if g.Chance(3) {
		b.WriteString(g.junk(true))
	}
	for i, n := 0, g.Int(1, maxFiles); i < n; i++ {
		if g.Chance(4) {
			t := g.tradFile(maxLines)
			b.WriteString(t.render())
		} else {
			f := g.mfile(maxLines)
			b.WriteString(f.render(g.hstyle()))
		}
		if g.Chance(4) {
			b.WriteString(g.junk(false))
		}
	}
	return b.String()
}

// lines that are not part of any patch wherever they stand
var safeJunk = []string{"", "", "hello", "-- ", "---", "2.43.0", " file.txt | 2 +-", " 1 file changed, 1 insertion(+), 1 deletion(-)", "From 0123456789012345678901234567890123456789 Mon Sep 17 00:00:00 2001", "From: A U Thor <author@example.com>", "Date: Tue, 2 Apr 2019 22:55:40 -0700", "Subject: [PATCH] x",
	"commit 0123456789012345678901234567890123456789", "Author: A <a@b>", "    indented", "Only in a: b", "Common subdirectories: a and b", "diff -ruN a b", "diff --cc x", "diff --combined y", "diff --gitx", "diff", "Index: foo", "===================================================================", "retrieving revision 1.1", "\\", "\\ x", "+", "-", " ", "+a", "-b", "\r", "caf\xe9", "\x00", "@", "@@", "@@ x @@", "@@@ -1 -1 +1 @@@", "--", "++", "+++", "--- ", "similar", "> quoted", ">> diff --git a/x b/x", "diff --git", " diff --git a/x b/x", " @@ -1 +1 @@", "literal", "literally 5", "Binary file x matches", "warning: x", "create mode 100644 x", " rename a => b (100%)", "mode change 100644 => 100755 x", "\t", "##", "0"}

// lines that mean nothing unless they directly follow a file header or file
var looseJunk = []string{"index 1234567..89abcde", "old mode 100644", "new file mode zzz", "rename from x", "similarity index x", "GIT binary patch", "Binary files a/x and b/x differ", "literal 5", "delta x", "@@ -", "@@ -x +y @@", "@@ -1 +1", "@@ -1,2,3 +1 @@ x", "\\ No newline at end of file", "--- old\n+++ new\n", "--- a/x\n+++ b/x\nxx", "--- a\n+++ b\n@@ ", "--- a\n+++ b\n@@ -", "--- a\n+++ b\n@@ -1 @@", "--- a\n+++ b\n@@ -1 +1 @", "+++ b/x", "--- a/x", "z00000", "copy to x", "deleted file mode 100644"}

// junk returns text around patches. When it is not the preamble its first
// line cannot be taken for a part of the file before it.
func (g *G) junk(preamble bool) string {
	var b strings.Builder
	n := g.size(12)
	for i := 0; i < n; i++ {
		if (preamble || i > 0) && g.Chance(4) {
			b.WriteString(pick(g, looseJunk) + "\n")
		} else if g.Chance(5) {
			b.WriteString("x" + g.line() + "\n")
		} else if g.Chance(12) {
			// almost a header, or something to be dropped or changed
			b.WriteString(pick(g, []string{"\ufeff", "\u00a0", "\x1b[1m", "\u200b", "\x00", "\v", "\f", "\x85", "\r", "\u2028", ">", "&gt;"}) + pick(g, []string{"", "", "diff --git a/x b/x", "@@ -1 +1 @@", "--- x", "text"}) + "\n")
		} else {
			b.WriteString(pick(g, safeJunk) + "\n")
		}
	}
	s := b.String()
	// the last line must not pair up with the file header that follows
	if strings.HasSuffix(s, "--- \n") || strings.HasSuffix(s, "--- a/x\n") || strings.HasSuffix(s, "--- old\n") {
		s += "\n"
	}
	if !preamble && s != "" {
		return s
	}
	return s
}

// Defect is a malformed file that must make Parse fail at it.
type Defect struct {
	Class string
	Text  BS
	Line  int // the line at fault, from 1; 0 if several could be named
}

func newlines(s string) int { return strings.Count(s, "\n") }

const goodHdr = "diff --git a/f b/f\nindex 1234567..89abcde 100644\n"
const goodNames = goodHdr + "--- a/f\n+++ b/f\n"

// what may follow a malformed file: nothing that could complete its hunk
var defectTails = []string{"", "", "diff --git a/z b/z\nold mode 100644\nnew mode 100755\n", "Index: y\n", "--\n"[:0], "@@ -1 +1 @@\n-a\n+b\n", "zz\n"}

// spoil makes a number malformed: something that is no digit of the base, and
// none of the bytes that may stand around the number, goes in at some place.
func (g *G) spoil(num string, digits, around string) string {
	for {
		at := pick(g, []int{0, 0, len(num), g.Int(0, len(num))})
		bad := pick(g, []string{"0x", "0X", "0o", "0O", "0b", "0B", "_", "e", "E2", ".", ".0", "-", "+", " ", "\t", "\r", "\x00", "'", ",", "L", "u", "８", "½", "\xff", "a", "f", "A", "9", "8", "#", "$", "\\", "/", ":", ";", "%", string([]byte{g.Byte()})})
		r := num[:at] + bad + num[at:]
		if strings.ContainsAny(bad, "\n,") || strings.Trim(bad, digits) == "" {
			continue
		}
		if t := strings.Trim(r, around); strings.Trim(t, digits) == "" && t != "" {
			continue
		}
		return r
	}
}

func (g *G) defect() Defect {
	hdr := pick(g, []string{goodNames, goodNames, "--- f\n+++ f\n", "diff --git a/f b/g\nsimilarity index 90%\nrename from f\nrename to g\nindex 1234567..89abcde 100644\n--- a/f\n+++ b/g\n"})
	name := func() string { return g.plainPath() }
	q := func(n string) string {
		if g.Chance(3) {
			return "\"" + n + "\""
		}
		return n
	}
	badNum := func() string {
		if g.Bool() {
			return g.spoil(pick(g, []string{"1", "0", "2", "12", "100", "007"}), "0123456789", ", @")
		}
		return pick(g, []string{"", "-1", "-0", "+1", "x", "1x", "0x1", "1 ", " 1", "9223372036854775808", "99999999999999999999", "-9223372036854775809", "1.0", "1e3", "1_0", "\x00", "１", "--1", "-"})
	}
	switch g.Int(0, 22) {
	case 0, 1: // fewer lines than declared
		h := Hunk{OP: int64(g.Int(1, 99)), NP: int64(g.Int(1, 99)), Lines: g.script(8)}
		h.setCounts()
		d := pick(g, []int64{1, 1, 2, 7, 1 << 40})
		switch g.Int(0, 2) {
		case 0:
			h.OL += d
		case 1:
			h.NL += d
		default:
			h.OL += d
			h.NL += d
		}
		body := h.render(g.hunkStyle())
		tail := pick(g, []string{"", "", "diff --git a/z b/z\nold mode 100644\nnew mode 100755\n", "@@ -100 +100 @@\n-a\n+b\n", "Index: y\n"})
		line := newlines(hdr) + 1 // the header, when the input ends
		if tail != "" {
			line += newlines(body) // the line that cannot belong to the hunk
		}
		return Defect{"too few lines", BS(hdr + body + tail), line}
	case 22: // more lines of one side than declared
		h := Hunk{OP: 1, NP: 1, Lines: g.script(6)}
		for i := range h.Lines {
			// only the last line may lack its newline
			h.Lines[i].S = BS(strings.TrimSuffix(string(h.Lines[i].S), "\n") + "\n")
		}
		op := pick(g, []string{"+", "-"})
		h.Lines = append(h.Lines, ML{"-", "o\n"}, ML{"+", "n\n"}, ML{op, "z\n"})
		h.setCounts()
		if op == "+" {
			h.OL -= int64(g.Int(1, int(h.OL)))
		} else {
			h.NL -= int64(g.Int(1, int(h.NL)))
		}
		return Defect{"too many lines", BS(hdr + h.render(g.hunkStyle()) + pick(g, defectTails)), newlines(hdr) + 1}
	case 2: // no changes
		n := g.Int(0, 5)
		var ls []ML
		for i := 0; i < n; i++ {
			ls = append(ls, ML{" ", BS(g.line() + "\n")})
		}
		h := Hunk{OP: 1, NP: 1, Lines: ls}
		h.setCounts()
		return Defect{"no changes", BS(hdr + h.render(g.hunkStyle()) + pick(g, defectTails)), 0}
	case 3: // an invalid line inside
		h := Hunk{OP: 1, NP: 1, Lines: g.script(8)}
		h.setCounts()
		ls := splitLines(h.render(HunkStyle{}))
		// insert before the last content line so that the hunk is still open
		at := g.Int(1, len(ls)-1)
		for at > 1 && strings.HasPrefix(ls[at], "\\ ") {
			at--
		}
		bad := pick(g, []string{"x", "\\", "\\ short", "\\ 12345678", "\\\tNo newline at end of file", "*a", "=", "\t", "\r", "\x00", "@@ -1 +1 @@", "diff --git a/x b/x", "!x", "<", "\\No newline at end of file", "_", "\xff"}) + "\n"
		return Defect{"invalid line", BS(hdr + strings.Join(ls[:at], "") + bad + strings.Join(ls[at:], "")), newlines(hdr) + at + 1}
	case 4, 5: // invalid range
		bad := badNum()
		var r string
		switch g.Int(0, 3) {
		case 0:
			r = "-" + bad + pick(g, []string{"", ",2"}) + " +1,2"
		case 1:
			r = "-1,2 +" + bad + pick(g, []string{"", ",2"})
		case 2:
			r = "-1," + bad + " +1,2"
		default:
			r = "-1,2 +1," + bad
		}
		return Defect{"invalid range", BS(hdr + "@@ " + r + " @@ xxxxxxxx\n-a\n b\n+c\n" + pick(g, defectTails)), newlines(hdr) + 1}
	case 6: // not a fragment header
		bad := pick(g, []string{"@@ -1,2 +1,2\n", "@@ -1,2 +1,2@@\n", "@@ -1,2 1,2 @@\n", "@@ -1,2+1,2 @@\n", "@@ -1,2 +1,2 +1,2 @@\n", "@@ - @@xxxxxxxxxx\n", "@@ -1,2 -1,2 @@\n", "@@ -1,2,3 +1,2 @@\n", "@@ -1,2 @@ +1,2 @@\n", "@@ -1;2 +1,2 @@\n", "@@ -xxxxxxxxxxxxxx\n"})
		return Defect{"invalid fragment header", BS(hdr + bad + "-a\n b\n+c\n" + pick(g, defectTails)), newlines(hdr) + 1}
	case 7: // a fragment without a file
		h := Hunk{OP: 1, NP: 1, Lines: g.script(5), Comment: BS(g.comment())}
		h.setCounts()
		before := pick(g, []string{"\n", "junk\n", "-- \n2.43.0\n", "x\n\n"})
		return Defect{"fragment without header", BS(before + h.render(g.hunkStyle())), newlines(before) + 1}
	case 8: // created file with old lines
		h := pick(g, []string{"@@ -1 +1 @@\n-a\n+b\n", "@@ -1,2 +1,3 @@\n a\n b\n+c\n", "@@ -0,1 +1,2 @@\n a\n+b\n", "@@ -1 +0,0 @@\n-a\n"})
		hd := pick(g, []string{"diff --git a/f b/f\nnew file mode 100644\nindex 0000000..89abcde\n--- /dev/null\n+++ b/f\n", "--- /dev/null\n+++ f\n", "--- f\t1970-01-01 00:00:00.000000000 +0000\n+++ f\t2020-01-01 00:00:00.000000000 +0000\n"})
		first := pick(g, []string{"", "@@ -0,0 +1 @@\n+z\n"})
		return Defect{"creation with old lines", BS(hd + first + h + pick(g, defectTails)), newlines(hd+first) + 1}
	case 9: // deleted file with new lines
		h := pick(g, []string{"@@ -1 +1 @@\n-a\n+b\n", "@@ -1,3 +1,2 @@\n a\n b\n-c\n", "@@ -1,2 +0,1 @@\n a\n-b\n", "@@ -0,0 +1 @@\n+a\n"})
		hd := pick(g, []string{"diff --git a/f b/f\ndeleted file mode 100644\nindex 1234567..0000000\n--- a/f\n+++ /dev/null\n", "--- f\n+++ /dev/null\n", "--- f\t2020-01-01 00:00:00.000000000 +0000\n+++ f\t1970-01-01 01:00:00.000000000 +0100\n"})
		first := pick(g, []string{"", "@@ -1 +0,0 @@\n-z\n"})
		return Defect{"deletion with new lines", BS(hd + first + h + pick(g, defectTails)), newlines(hd+first) + 1}
	case 10: // names missing from a git header
		a, b := name(), name()
		if a == b {
			b += "x"
		}
		mid := pick(g, []string{"", "old mode 100644\nnew mode 100755\n", "index 1234567..89abcde 100644\nBinary files a/x and b/y differ\n", "similarity index 90%\nrename from " + a + "\n", "similarity index 90%\nrename to " + b + "\n", "copy from " + a + "\n", "copy to " + b + "\n", "new file mode 100644\nindex 0000000..1234567\n", "deleted file mode 100644\n"})
		return Defect{"missing names", BS("diff --git " + q("a/"+a) + " " + q("b/"+b) + "\n" + mid + pick(g, []string{"", "diff --git a/z b/z\nold mode 100644\nnew mode 100755\n", "Index: y\n"})), 0}
	case 11: // names contradict
		a := name()
		b := a + "x"
		d := "@@ -1 +1 @@\n-a\n+b\n"
		s := pick(g, []string{
			"similarity index 90%\nrename from " + a + "\nrename to " + b + "\n--- a/" + b + "\n+++ b/" + b + "\n" + d,
			"similarity index 90%\nrename from " + a + "\nrename to " + b + "\n--- a/" + a + "\n+++ b/" + a + "\n" + d,
			"similarity index 90%\ncopy from " + a + "\ncopy to " + b + "\n--- a/" + a + "\n+++ b/" + a + "\n" + d,
			"similarity index 90%\ncopy from " + a + "\ncopy to " + b + "\n--- a/" + b + "\n+++ b/" + b + "\n" + d,
		})
		if g.Bool() {
			e := "@@ -0,0 +1 @@\n+b\n"
			x := "@@ -1 +0,0 @@\n-b\n"
			s = pick(g, []string{
				"new file mode 100644\nindex 0000000..1234567\n--- /dev/null\n+++ b/" + b + "\n" + e,
				"new file mode 100644\nindex 0000000..1234567\n--- a/" + a + "\n+++ b/" + a + "\n" + e,
				"new file mode 100644\nindex 0000000..1234567\n--- a/" + b + "\n+++ b/" + a + "\n" + e,
				"deleted file mode 100644\nindex 1234567..0000000\n--- a/" + b + "\n+++ /dev/null\n" + x,
				"deleted file mode 100644\nindex 1234567..0000000\n--- a/" + a + "\n+++ b/" + a + "\n" + x,
				"deleted file mode 100644\nindex 1234567..0000000\n--- /dev/null\n+++ /dev/null\n" + x,
				"new file mode 100644\nindex 0000000..1234567\n--- /dev/null\n+++ /dev/null\n" + e,
			})
			return Defect{"contradicting names", BS("diff --git " + q("a/"+a) + " " + q("b/"+a) + "\n" + s), 0}
		}
		return Defect{"contradicting names", BS("diff --git " + q("a/"+a) + " " + q("b/"+b) + "\n" + s), 0}
	case 12: // broken quoting
		bad := pick(g, []string{"\"a/x", "\"a/x\\\"", "\"a/\\q\"", "\"a/\\\"", "\"\"", "\"a/\\9\"", "\"a/\\12\"", "\"a/\\400\"", "\""})
		s := pick(g, []string{
			"diff --git " + bad + " b/x\nold mode 100644\nnew mode 100755\n",
			"diff --git a/x " + bad + "\nold mode 100644\nnew mode 100755\n",
			"diff --git a/x b/x\nindex 1234567..89abcde 100644\n--- " + bad + "\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n",
			"diff --git a/x b/x\nindex 1234567..89abcde 100644\n--- a/x\n+++ " + bad + "\n@@ -1 +1 @@\n-a\n+b\n",
			"diff --git a/x b/y\nsimilarity index 100%\nrename from " + bad + "\nrename to y\n",
			"diff --git a/x b/y\nsimilarity index 100%\nrename from x\nrename to " + bad + "\n",
			"diff --git a/x b/y\nsimilarity index 100%\ncopy from " + bad + "\ncopy to y\n",
			"--- " + bad + "\n+++ x\n@@ -1 +1 @@\n-a\n+b\n",
			"--- x\n+++ " + bad + "\n@@ -1 +1 @@\n-a\n+b\n",
		})
		return Defect{"broken quoting", BS(s), newlines(s[:strings.Index(s, bad)]) + 1}
	case 13: // mode lines
		bad := pick(g, []string{"", "x", "8", "100648", "-100644", "+100644", "100644x", "0x1ff", "1006 44", "37777777777777", "100644.", "\x00"})
		if g.Bool() {
			bad = g.spoil(pick(g, []string{"100644", "100755", "644", "120000", "0"}), "01234567", " \t\v\f\r")
		}
		l := pick(g, []string{"old mode ", "new mode ", "new file mode ", "deleted file mode "})
		return Defect{"bad mode", BS("diff --git a/x b/x\n" + l + bad + "\n" + pick(g, []string{"", "new mode 100644\n", "index 1234567..89abcde\n"})), 2}
	case 14: // score lines
		bad := pick(g, []string{"", "%", "x%", "-5%", "+5%", "5x%", "5%%", " 5%", "1e1%", "99999999999999999999%", "0x5%", "5 %"})
		if g.Bool() {
			bad = g.spoil(pick(g, []string{"5", "90", "100", "0"}), "0123456789", "%") + pick(g, []string{"%", ""})
		}
		k := pick(g, []string{"similarity index ", "dissimilarity index "})
		return Defect{"bad score", BS("diff --git a/x b/y\n" + k + bad + "\nrename from x\nrename to y\n"), 2}
	case 15: // index lines
		bad := pick(g, []string{"", "1234567", "1234567.89abcde 100644", "1234567..89abcde x", "1234567..89abcde 100648", "1234567..89abcde -100644", " 1234567..89abcde", "1234567 89abcde"})
		if g.Bool() {
			bad = "1234567..89abcde " + g.spoil(pick(g, []string{"100644", "100755", "120000"}), "01234567", " \t\v\f\r")
		}
		return Defect{"bad index", BS("diff --git a/x b/x\nindex " + bad + "\n--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n"), 2}
	default:
		return g.binDefect()
	}
}

// binDefect is a damaged binary patch that must be rejected while parsing.
func (g *G) binDefect() Defect {
	raw := bulk(g.Uint64(), g.Int(1, 120))
	data := refBinLines(raw, 52)
	lines := splitLines(data)
	lines = lines[:len(lines)-1] // without the blank line
	method := pick(g, []string{"literal", "delta"})
	head := goodHdr + "GIT binary patch\n"
	if g.Chance(3) {
		head += "literal 5\n" + refBinLines(bulk(g.Uint64(), g.Int(1, 60)), 52)
	} else if g.Chance(4) {
		return Defect{"no binary data", BS(head + pick(g, []string{"", "\n", "zzz\n", "literal\n", "blob 5\n", "Literal 5\n" + data, "diff --git a/z b/z\n", "literal5\n"})), 0}
	}
	size := "7"
	at := g.Int(0, len(lines)-1)
	l := []byte(lines[at])
	join := func() string { return strings.Join(lines, "") }
	class := ""
	end := "\n"
	switch g.Int(0, 7) {
	case 0:
		class = "bad size"
		size = pick(g, []string{"", "x", "-1", "9223372036854775808", "1x", "0x5", " 5", "5 ", "1.5", "-9223372036854775808"})
		if g.Bool() {
			size = g.spoil(pick(g, []string{"7", "0", "10"}), "0123456789", "+-")
		}
	case 1:
		class = "bad length byte"
		l[0] = pick(g, []byte("0159 @[`{~!-+/\x00\xff"))
		lines[at] = string(l)
	case 2:
		class = "wrong count"
		n := decodedLen(l[0])
		max := (len(l) - 2) / 5 * 4
		var cand []int
		for c := 1; c <= 52; c++ {
			if c > max || c < max-3 {
				cand = append(cand, c)
			}
		}
		_ = n
		l[0] = lenByte(pick(g, cand))
		lines[at] = string(l)
	case 3:
		class = "bad alphabet"
		i := g.Int(1, len(l)-2)
		l[i] = pick(g, []byte("\"',./:[\\] \t\r\x00\x7f\x80\xff"))
		lines[at] = string(l)
	case 4:
		class = "group overflow"
		// any group above |NsC0 (0xffffffff) does not fit in 32 bits
		i := 1 + 5*g.Int(0, (len(l)-2)/5-1)
		copy(l[i:], pick(g, []string{"~~~~~", "|NsC1", "|NsD0", "|Nt00", "|O000", "}0000", "~0000", "}~~~~"}))
		lines[at] = string(l)
	case 5:
		class = "unterminated"
		end = pick(g, []string{"", "", "diff --git a/z b/z\nold mode 100644\nnew mode 100755\n", "-- \n2.43.0\n", "literal 5\n"})
	case 6:
		class = "line length"
		k := g.Int(1, 4)
		if g.Bool() {
			lines[at] = string(l[:len(l)-1]) + strings.Repeat("0", k) + "\n"
		} else {
			lines[at] = string(l[:len(l)-1-k]) + "\n"
		}
	default:
		class = "lost newline"
		// the line runs into the terminator: nothing after it
		lines = lines[:at+1]
		lines[at] = string(l[:len(l)-1])
		end = ""
	}
	line := newlines(head) + 1
	switch class {
	case "bad size":
	case "unterminated":
		line = 0
	default:
		line += at + 1
	}
	return Defect{class, BS(head + method + " " + size + "\n" + join() + end), line}
}

func decodedLen(c byte) int {
	if c >= 'a' {
		return int(c) - 'a' + 27
	}
	return int(c) - 'A' + 1
}

// plainPath returns a path without any character that needs quoting.
func (g *G) plainPath() string {
	return pick(g, []string{"f", "x", "dir/file.txt", "a/b/c", "b", "dev/null", "a b", "file", "b/a", "x.y-z_1"})
}

// --------------------------------------------------------------- mutation

var soupTokens = []string{"diff --git a/x b/x\n", "diff --git a/x b/y\n", "diff --git \"a/x\\n\" \"b/x\\n\"\n", "diff --git ", "index 1234567..89abcde 100644\n", "index ", "--- a/x\n", "+++ b/x\n", "--- /dev/null\n", "+++ /dev/null\n", "--- x\t1970-01-01 00:00:00 +0000\n", "+++ x\t1970-01-01 00:00:00.000000000 +0000\n", "@@ -1 +1 @@\n", "@@ -0,0 +1,2 @@\n", "@@ -1,2 +0,0 @@\n", "@@ -1,9223372036854775807 +1,9223372036854775807 @@\n", "@@ -9223372036854775807,9223372036854775807 +1 @@\n", "@@ -9223372036854775807 +1 @@\n", "@@ -2,0 +3 @@\n", "@@ -4000000000,0 +1 @@\n", "-a\n", "+b\n", " c\n", "\n", "\\ No newline at end of file\n", "old mode 100644\n", "new mode 100755\n", "new file mode 100644\n", "deleted file mode 100644\n", "rename from x\n", "rename to y\n", "copy from x\n", "copy to y\n", "similarity index 100%\n", "dissimilarity index 5%\n", "similarity index 101%\n", "GIT binary patch\n", "literal 5\n", "delta 5\n", "literal 0\n", "literal 9223372036854775807\n", "literal 104857601\n", "Binary files a/x and b/x differ\n", "HcmV?d00001\n", "z00000000000000000000000000000000000000000000000000000000000000000\n", "A00000\n", "-- \n2.43.0\n", "\"", "\\", "@@ ", "a/", "\x00", "\xff", "\r\n", " ", "\t"}

var hugeNumbers = []string{"9223372036854775807", "9223372036854775806", "9223372036854775808", "4611686018427387904", "4294967295", "4294967296", "2147483647", "2147483648", "0", "1", "2", "100000000", "104857600", "104857601", "-1", "-9223372036854775808", "00000000000000000001", "4096", "4097"}

// soup returns an input for the robustness properties: patch-like text of all
// degrees of damage.
func (g *G) soup() string {
	var s string
	switch g.Int(0, 9) {
	case 0:
		var b strings.Builder
		for i, n := 0, g.Int(0, 30); i < n; i++ {
			b.WriteString(pick(g, soupTokens))
		}
		return b.String()
	case 1:
		return string(g.Bytes(0, 60))
	case 2:
		s = g.patchText(2, 6) + string(g.defect().Text) + g.patchText(1, 4)
	case 3:
		s = string(g.defect().Text)
	default:
		s = g.patchText(3, 10)
	}
	if g.Chance(8) {
		return s
	}
	return g.mutate(s)
}

func (g *G) mutate(s string) string {
	for i, n := 0, 1+g.size(6); i < n; i++ {
		s = g.mutate1(s)
	}
	return s
}

func (g *G) mutate1(s string) string {
	pos := func() int { return g.Int(0, len(s)) }
	switch g.Int(0, 13) {
	case 0: // change a byte
		if len(s) > 0 {
			i := g.Int(0, len(s)-1)
			s = s[:i] + string([]byte{g.Byte()}) + s[i+1:]
		}
	case 1: // delete a few bytes
		i := pos()
		j := min(len(s), i+g.Int(1, 4))
		s = s[:i] + s[j:]
	case 2: // insert bytes
		i := pos()
		s = s[:i] + string(g.Bytes(1, 3)) + s[i:]
	case 3: // cut the end off
		s = s[:pos()]
	case 4: // insert a token anywhere
		i := pos()
		s = s[:i] + pick(g, soupTokens) + s[i:]
	case 5, 6, 7, 8: // line operations
		ls := splitLines(s)
		if len(ls) == 0 {
			return s
		}
		i := g.Int(0, len(ls)-1)
		switch g.Int(0, 4) {
		case 0:
			ls = append(ls[:i:i], ls[i+1:]...)
		case 1:
			ls = append(ls[:i+1:i+1], ls[i:]...)
		case 2:
			j := g.Int(0, len(ls)-1)
			ls = append([]string(nil), ls...)
			ls[i], ls[j] = ls[j], ls[i]
		case 3:
			ls = append(ls[:i:i], append([]string{pick(g, soupTokens)}, ls[i:]...)...)
		default:
			ls = append([]string(nil), ls...)
			ls[i] = pick(g, soupTokens)
		}
		s = strings.Join(ls, "")
	case 9, 10: // replace a number
		var spans [][2]int
		for i := 0; i < len(s); i++ {
			if s[i] >= '0' && s[i] <= '9' {
				j := i
				for j < len(s) && s[j] >= '0' && s[j] <= '9' {
					j++
				}
				spans = append(spans, [2]int{i, j})
				i = j
			}
		}
		if len(spans) > 0 {
			sp := pick(g, spans)
			v := pick(g, hugeNumbers)
			if g.Chance(3) {
				if n, err := strconv.Atoi(s[sp[0]:sp[1]]); err == nil {
					v = strconv.Itoa(n + g.Int(-2, 2))
				}
			}
			s = s[:sp[0]] + v + s[sp[1]:]
		}
	case 11: // move a block
		i, j := pos(), pos()
		if i > j {
			i, j = j, i
		}
		s = s[j:] + s[i:j] + s[:i]
	case 12: // repeat a block
		i, j := pos(), pos()
		if i > j {
			i, j = j, i
		}
		if j-i < 2000 {
			s = s[:j] + s[i:j] + s[j:]
		}
	default:
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}
