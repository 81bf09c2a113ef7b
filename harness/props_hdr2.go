package main

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C32

type anyCase struct {
	S    BS
	Mode int
}

var mailTokens = []string{"commit ", "commit 0123456789012345678901234567890123456789", "From ", "From: ", "From:", "from: ", "Author:", "Author: A <a@b>", "Commit:", "Date:", "Date:   Thu Jan 1 00:00:00 1970 +0000", "AuthorDate:", "CommitDate:", "CommitDate: 0", "Subject:", "Subject: x", "Subject: [PATCH] x", " continued", "\tcontinued", "    title", "    ", "---", "--- ", "\n", "\n", "\n", "\n\n", "\r\n", "\r", " ", "\t", ":", "A <a@b>", "a@b", "<", ">", "@", "\"", "\\", "(", ")", "[", "]", "re:", "Re: ", "PATCH", "=?UTF-8?q?", "=?utf-8?b?", "?=", "=C3=A9", "=", "?", "=?", "0", "+0000", "1970-01-01", "\x00", "\xff", "\xc3\xa9", "\xc2\xa0", "\xe2\x80\xa8", "\x0b", "\x0c", "x", "text of the message", "Content-Transfer-Encoding: base64", "diff --git a/x b/x", "-- "}
var identTokens = []string{"A", "Name", " ", "  ", "\t", "\n", "\r\n", "<", ">", "@", "a@b", "<a@b>", "\"", "\\", "(", ")", "\\\"", "\\\\", ",", ";", ":", ".", "\x00", "\xff", "\xc3\xa9", "\xc2\xa0", "<>", "\"\"", "()", "x@", "@y", "root"}
var dateTokens = []string{"Thu", ",", " ", "Jan", "1", "01", "00:00:00", "1970", "+0000", "-0700", "Z", "T", "-", ":", "+", "0", "9", "99", "1970-01-01", "12:34:56", "00:00", "+01:00", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "253402300800", ".", "\x00", "\xff", "\xd9\xa1", "Mon", "February", "31", "GMT", "EST", "e9", "0x1", "_"}

func (g *G) tokens(ts []string, max int) string {
	var b strings.Builder
	for i, n := 0, g.Int(0, max); i < n; i++ {
		if g.Chance(12) {
			b.Write(g.Bytes(1, 4))
		} else {
			b.WriteString(pick(g, ts))
		}
	}
	return b.String()
}

func (g *G) validHeader() string {
	switch g.Int(0, 2) {
	case 0:
		c := genPrettyModel(g)
		return c.render()
	case 1:
		c := genMailModel(g)
		return c.render()
	}
	c := genEnc(g)
	return "From: A <a@b>\nSubject: " + string(c.Prefix) + c.qEncode() + "\n\nbody\n---\nx\n"
}

func genC32header(g *G) anyCase {
	c := anyCase{Mode: g.Int(0, 3)}
	switch g.Int(0, 3) {
	case 0:
		c.S = BS(pick(g, []string{"", "commit ", "From ", "From:", "From: a@b\n", "commit 1\n", "From 1 x\n", "From 1 x\nSubject: "}) + g.tokens(mailTokens, 16))
	case 1:
		c.S = BS(g.validHeader())
	default:
		s := g.validHeader()
		for i, n := 0, g.Int(1, 3); i < n; i++ {
			if g.Bool() {
				at := g.Int(0, len(s))
				s = s[:at] + pick(g, mailTokens) + s[at:]
			} else {
				s = g.mutate(s)
			}
		}
		c.S = BS(s)
	}
	return c
}

func genC32ident(g *G) anyCase {
	if g.Chance(3) {
		c := genIdent(g)
		return anyCase{S: BS(g.mutate(string(c.S)))}
	}
	return anyCase{S: BS(g.tokens(identTokens, 12))}
}

func genC32date(g *G) anyCase {
	if g.Bool() {
		s := printDate(pick(g, dateFormats), g.Int64(-30610051200, 253402041600), g.zone(), 60)
		return anyCase{S: BS(g.mutate(s))}
	}
	return anyCase{S: BS(g.tokens(dateTokens, 9))}
}

func endsInBreak(s string) bool {
	return strings.HasSuffix(s, "\n") || strings.HasSuffix(s, "\r")
}

// parseAnyway hands the string to all three parsers and looks at what they
// return.
func parseAnyway(s string, mode int) (ok bool, err error) {
	if h, err := gitdiff.ParsePatchHeader(s, subjectOpts(mode)...); err == nil {
		if h == nil {
			return false, fmt.Errorf("neither a header nor an error for %s", q(s))
		}
		fields := map[string]string{"title": h.Title, "body": h.Body, "appendix": h.BodyAppendix, "subject prefix": h.SubjectPrefix}
		for k, id := range map[string]*gitdiff.PatchIdentity{"author": h.Author, "committer": h.Committer} {
			if id == nil {
				continue
			}
			if id.Name == "" && id.Email == "" {
				return false, fmt.Errorf("%s without name and address in %s", k, q(s))
			}
			fields[k+" name"], fields[k+" address"] = id.Name, id.Email
		}
		if strings.Contains(h.SHA, "\n") {
			return false, fmt.Errorf("SHA %s in %s", q(h.SHA), q(s))
		}
		for k, v := range fields {
			if endsInBreak(v) {
				return false, fmt.Errorf("the %s %s ends in a line break; header %s", k, q(v), q(s))
			}
		}
		if m := h.Message(); m != wantMessage(h.Title, h.Body) {
			return false, fmt.Errorf("message %s", q(m))
		}
		ok = true
	}
	if id, err := gitdiff.ParsePatchIdentity(s); err == nil {
		if id.Name == "" && id.Email == "" {
			return false, fmt.Errorf("%s is an identity without name and address", q(s))
		}
		if endsInBreak(id.Name) || endsInBreak(id.Email) {
			return false, fmt.Errorf("%s is split into %q and %q", q(s), id.Name, id.Email)
		}
		_ = id.String()
		ok = true
	}
	if _, err := gitdiff.ParsePatchDate(s); err == nil {
		ok = true
	}
	return ok, nil
}

func checkC32(c *anyCase, o *Obs) error {
	before := allocBytes()
	ok, err := parseAnyway(string(c.S), c.Mode)
	if err != nil {
		return err
	}
	if used := allocBytes() - before; used > 1<<20+200*uint64(len(c.S)) {
		return fmt.Errorf("%d bytes allocated for an input of %d bytes", used, len(c.S))
	}
	o.NTIf(ok)
	return nil
}

type scaleAny struct {
	Head, Rep, Tail BS
	Mode            int
}

var anyHeads = []string{"", "", "commit ", "commit 1\n", "commit 1\nAuthor: ", "commit 1\nAuthor: A <a@b>\nDate: ", "commit 1\n\n", "commit 1\n\n    t\n\n", "From ", "From 1 x\n", "From 1 x\nFrom: ", "From: ", "From: a@b\nSubject: ", "From: a@b\nSubject: =?UTF-8?q?", "From: a@b\n\n", "From: a@b\n\n---\n", "From: a@b\nDate: ", "From: a@b\nX: ", "commit 1\n\n                  t\n"}
var anyReps = []string{" ", "a", "\n", "\r\n", "\t", "\"", "\\", "\\\"", "(", ")", "()", "<", ">", "<>", "@", "a@b ", "a ", "[", "]", "[a]", "[PATCH] ", "re:", "Re: ", ":", "r", "=?UTF-8?q?", "=?UTF-8?q?x?= ", "=?UTF-8?q?x?=\n ", "?=", "=", "=C3=A9", "?", "x\n", "    x\n", "\n\n", " x\n", "---\n", "X: y\n", "Author: A <a@b>\n", "Date: 0\n", "From: a@b\n", "Subject: x\n", "commit 1\n", "0", "9", "-", "+", ",", "\x00", "\xff", "\xc2\xa0", "=?UTF-8?b?AA==?= ", "\n ", "Jan ", "1970-"}

func genC32scale(g *G) scaleAny {
	return scaleAny{BS(pick(g, anyHeads)), BS(pick(g, anyReps)), BS(pick(g, []string{"", "\n", " <a@b>\n", "\n\nx\n", "x", "?=\n\n", "]x"})), g.Int(0, 3)}
}

func checkC32scale(c *scaleAny, o *Obs) error {
	in := string(c.Head) + strings.Repeat(string(c.Rep), 1<<20/max(1, len(c.Rep))) + string(c.Tail)
	t0, before := cpuNow(), allocBytes()
	ok, err := parseAnyway(in, c.Mode)
	if err != nil {
		return err
	}
	if used := allocBytes() - before; used > 1<<20+300*uint64(len(in)) {
		return fmt.Errorf("%d bytes allocated for an input of %d bytes", used, len(in))
	}
	if d := cpuNow() - t0; d > 20e9 {
		return fmt.Errorf("%.1f s of CPU time for an input of %d bytes", float64(d)/1e9, len(in))
	}
	o.NT()
	o.LabelIf(ok, "parsed")
	return nil
}
