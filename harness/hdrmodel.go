package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"
	_ "time/tzdata"
	"unicode"
)

// --------------------------------------------------------------------- dates

// DateFmt is a value of git's --date option.
var dateFormats = []string{"default", "iso", "iso-strict", "rfc", "raw", "unix", "short", "default-local", "iso-local", "iso-strict-local", "rfc-local", "raw-local", "short-local"}

var monthNames = []string{"", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
var dayNames = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}

type civilTime struct {
	y               int64
	mo, d, h, mi, s int
	wd              int
	days            int64
}

func civilAt(sec int64, zone int) civilTime {
	t := sec + int64(zone)*60
	days := t / 86400
	rem := t % 86400
	if rem < 0 {
		rem += 86400
		days--
	}
	y, m, d := civil(days)
	wd := (days + 4) % 7
	if wd < 0 {
		wd += 7
	}
	return civilTime{y, m, d, int(rem / 3600), int(rem / 60 % 60), int(rem % 60), int(wd), days}
}

func zoneString(zone int, colon bool) string {
	sign := "+"
	if zone < 0 {
		sign, zone = "-", -zone
	}
	c := ""
	if colon {
		c = ":"
	}
	return fmt.Sprintf("%s%02d%s%02d", sign, zone/60, c, zone%60)
}

// printDate writes an instant the way git does with --date=format.
func printDate(format string, sec int64, zone, local int) string {
	base, isLocal := strings.CutSuffix(format, "-local")
	if isLocal {
		zone = local
	}
	c := civilAt(sec, zone)
	switch base {
	case "default":
		s := fmt.Sprintf("%s %s %d %02d:%02d:%02d %d", dayNames[c.wd], monthNames[c.mo], c.d, c.h, c.mi, c.s, c.y)
		if !isLocal {
			s += " " + zoneString(zone, false)
		}
		return s
	case "iso":
		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d %s", c.y, c.mo, c.d, c.h, c.mi, c.s, zoneString(zone, false))
	case "iso-strict":
		z := "Z"
		if zone != 0 {
			z = zoneString(zone, true)
		}
		return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s", c.y, c.mo, c.d, c.h, c.mi, c.s, z)
	case "rfc":
		return fmt.Sprintf("%s, %d %s %d %02d:%02d:%02d %s", dayNames[c.wd], c.d, monthNames[c.mo], c.y, c.h, c.mi, c.s, zoneString(zone, false))
	case "raw":
		return fmt.Sprintf("%d %s", sec, zoneString(zone, false))
	case "unix":
		return fmt.Sprintf("%d", sec)
	case "short":
		return fmt.Sprintf("%04d-%02d-%02d", c.y, c.mo, c.d)
	}
	infraf("date format %q", format)
	return ""
}

// dateWant is the instant the printed date stands for, and the zone offset it
// shows (checked only if shown).
func dateWant(format string, sec int64, zone, local int) (wantSec int64, off int, shown bool) {
	base, isLocal := strings.CutSuffix(format, "-local")
	if isLocal {
		zone = local
	}
	switch base {
	case "short":
		return civilAt(sec, zone).days*86400 - int64(local)*60, local * 60, true
	case "unix":
		return sec, 0, false
	}
	return sec, zone * 60, true
}

func checkDate(got time.Time, format string, sec int64, zone, local int) error {
	want, off, shown := dateWant(format, sec, zone, local)
	if got.Unix() != want || got.Nanosecond() != 0 {
		return fmt.Errorf("date %v (%d), want %d; printed %q, local zone %d min", got, got.Unix(), want, printDate(format, sec, zone, local), local)
	}
	if _, o := got.Zone(); shown && o != off {
		return fmt.Errorf("zone offset %d s, want %d s; printed %q", o, off, printDate(format, sec, zone, local))
	}
	return nil
}

// withLocal runs fn with the local zone set to a fixed offset.
func withLocal(minutes int, fn func() error) error {
	old := time.Local
	defer func() { time.Local = old }()
	if minutes == 0 {
		time.Local = time.UTC
	} else {
		time.Local = time.FixedZone("", minutes*60)
	}
	return fn()
}

// posixTZ is the TZ value for a fixed offset.
func posixTZ(minutes int) string {
	sign := "-"
	if minutes < 0 {
		sign, minutes = "", -minutes
	}
	return fmt.Sprintf("XXX%s%d:%02d", sign, minutes/60, minutes%60)
}

// ---------------------------------------------------------------- identities

type Person struct {
	Name, Email BS
	Sec         int64
	Zone        int
}

func isSp(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// collapse trims white space and makes inner runs of it single spaces.
func collapse(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }), " ")
}

// wantIdent is what an identity line with this name and address stands for.
func wantIdent(name, email string) (string, string) {
	name = collapse(name)
	if name == "" {
		name = email
	}
	return name, email
}

var nameWords = []string{"A", "U", "Thor", "Jane", "O'Neil", "van", "der", "J.", "Jos\xc3\xa9", "Bj\xc3\xb6rn", "\xe6\x9d\x8e", "\xe6\x98\x8e", "Jr.", "dependabot[bot]", "(work)", "C. (x) D", "a,b", "R&D", "#1", "x:y", ";", "=?", "?=", "=", "_", "%s", "Author:", "Date:", "III", "\xf0\x9f\x98\x80", "e\xcc\x81", "\xd0\x98\xd0\xb2\xd0\xb0\xd0\xbd", "commit", "From", "-", "--", "1", "Mc(Donald", "smile:)", "/", "|", "~", "$", "*", "!", "Ph.D", "[PATCH]"}
var emails = []string{"mailto:a@example.com", "a@b", "author@example.com", "first.last+tag@sub.example.org", "x@y.z", "12345+dependabot[bot]@users.noreply.github.com", "root@localhost", "j\xc3\xb6rg@ex\xc3\xa4mple.com", "o'neil@ex.com", "a@b@c", "@", "x@", "@y", "A=B@c", "very.long.address.that.goes.on.and.on.and.on@with.a.very.long.domain.name.example.com"}
var barEmails = []string{"root", "local", "none", "a.b", "x-y", "\xc3\xa9", "1", "undisclosed"}

// name generates a name that needs no quoting to survive: no quotes, angle
// brackets or '@', no backslash beside a parenthesis, not wholly in parentheses.
func (g *G) name() string {
	var ws []string
	for i, n := 0, g.Int(1, 4); i < n; i++ {
		if g.Chance(8) {
			b := g.Bytes(1, 5)
			for i := range b {
				if b[i] <= ' ' || b[i] >= 0x7f || strings.IndexByte("\"<>@()\\", b[i]) >= 0 {
					b[i] = 'k'
				}
			}
			ws = append(ws, string(b))
		} else if g.Chance(8) {
			ws = append(ws, g.innerWord(uniSpecials))
		} else if g.Chance(8) {
			ws = append(ws, strings.Map(func(r rune) rune {
				if strings.ContainsRune("\"<>@()\\", r) {
					return 'k'
				}
				return r
			}, g.innerWord(ascSpecials)))
		} else {
			ws = append(ws, pick(g, nameWords))
		}
	}
	if g.Chance(12) {
		ws = append(ws, `back\slash`, `\\`)
	}
	return fixName(strings.Join(ws, " "))
}

func fixName(s string) string {
	if strings.ContainsAny(s, "()") {
		s = strings.ReplaceAll(s, `\`, "/")
	}
	if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		s = "x" + s
	}
	return s
}

func (g *G) email() string {
	switch g.Int(0, 8) {
	case 8:
		w := g.innerWord(pick(g, [][]string{ascSpecials, uniSpecials}))
		return strings.NewReplacer("\"", "'", "<", "'", ">", "'", "(", "'", ")", "'", "\\", "/", " ", ".").Replace(w) + "@example.com"
	case 0:
		return pick(g, barEmails)
	case 1:
		b := g.Bytes(1, 6)
		for i := range b {
			if b[i] <= ' ' || b[i] >= 0x7f || strings.IndexByte("\"<>@()\\", b[i]) >= 0 {
				b[i] = '.'
			}
		}
		return string(b) + "@" + pick(g, []string{"h", "example.com"})
	}
	return pick(g, emails)
}

func (g *G) person() Person {
	p := Person{Name: BS(g.name()), Email: BS(g.email())}
	switch g.Int(0, 19) {
	case 0:
		p.Name = ""
	case 1:
		p.Email = ""
	case 2:
		p.Name = p.Email // a common setting
	}
	p.Sec = pick(g, []int64{0, 1, 951782399, 951782400, 1078012800, 1111111111, 1234567890, 1456704000, 1546300799, 1<<31 - 1, 1 << 31, 4102444799, 86399, 86400})
	if g.Bool() {
		p.Sec = g.Int64(0, 4102444799)
	}
	p.Zone = pick(g, []int{0, 0, 60, -300, 330, -210, 345, 840, -720, -480, 570, -30, 30, 720, 765})
	return p
}

// -------------------------------------------------------------------- messages

var titleWords = []string{"fix", "'x'", "parser", "add", "the", "a", "Fix:", "re:", "Re:", "RE", "[x]", "[PATCH]", "[PATCH", "v2]", "(#12)", "caf\xc3\xa9", "\xf0\x9f\xa4\x96", "na\xc3\xafve", "=20", "=?UTF-8?q?", "?=", "_x_", "a=b", "100%", "\"quoted\"", "\\", "http://example.com/a?b=c&d=e", "supercalifragilisticexpialidocious-supercalifragilisticexpialidocious-supercalifragilisticexpialidocious", "-", "---", "diff", "@@", "From:", "Subject:", "commit", "Author:", "Date:", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e", ":", "::", "x]", "[", "]", "reply", "r", "R", ",", "."}

func (g *G) titleLine() string {
	n := g.Int(1, 6)
	if g.Chance(6) {
		n = g.Int(8, 40)
	}
	ws := make([]string, n)
	for i := range ws {
		ws[i] = pick(g, titleWords)
		if g.Chance(12) {
			ws[i] = g.innerWord(pick(g, [][]string{uniSpecials, ascSpecials, badSpecials[:12], ctlSpecials[6:]}))
		}
	}
	return strings.Join(ws, " ")
}

var bodyLines = []string{"Some text that explains the change.", "* a list item", "  indented code", "\tindented with a tab", "        eight spaces", "   three", "> quoted", "Signed-off-by: A <a@b>", "Author: nobody <n@b>", "Commit: x <y@z>", "Date: not a date", "AuthorDate: 2020-01-01", "commit 0123456789012345678901234567890123456789", "From: x@y", "From nobody", "Subject: x", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e", "trailing  ", "trailing\t", "-- ", "--", "----", "--- ", "+++", "--- x", "- - -", "-", "x", "=20=", "a\tb", "(cherry picked from commit 0123456)", "Notes:", "    four", "     five", "@@ x", "diff -u a b", "Merge: 1 2", "\xc2\xa0nbsp", "end\xc2\xa0", "\xe2\x80\x83em", "\x0c", "x\x0c", "\x0by", "cr\r", "a\rb", "1", "#comment", "Change-Id: I0123"}

func (g *G) bodyLine() string {
	switch g.Int(0, 9) {
	case 0:
		return g.titleLine()
	case 1:
		return strings.Repeat(" ", g.Int(0, 9)) + pick(g, bodyLines)
	case 2:
		if g.Chance(12) {
			return strings.Repeat("long ", pick(g, []int{200, 900, 14000}))
		}
		return "line"
	case 3:
		return g.specialWord(pick(g, [][]string{uniSpecials, ascSpecials, ctlSpecials, badSpecials[:12]}))
	}
	return pick(g, bodyLines)
}

// normMessage gives the title and body a message stands for: the title is its
// first paragraph on one line, the body the rest without trailing white space
// and with single blank lines.
func normMessage(msg string) (title, body string) {
	var b strings.Builder
	state, blank := 0, false
	for _, l := range strings.Split(msg, "\n") {
		l = strings.TrimRightFunc(l, unicode.IsSpace)
		switch {
		case l == "" && state == 1:
			state = 2
		case l == "":
			blank = true
		case state < 2:
			state = 1
			if title != "" {
				title += " "
			}
			title += strings.TrimSpace(l)
		default:
			if b.Len() > 0 {
				b.WriteByte('\n')
				if blank {
					b.WriteByte('\n')
				}
			}
			blank = false
			b.WriteString(l)
		}
	}
	return title, b.String()
}

// normText is the body part of normMessage for a text of its own.
func normText(s string) string {
	_, b := normMessage("x\n\n" + s)
	return b
}

func wantMessage(title, body string) string {
	if body == "" {
		return title
	}
	return title + "\n\n" + body
}

// message generates a commit message.
func (g *G) message(mail bool) string {
	var b strings.Builder
	blank := func() {
		for i, n := 0, pick(g, []int{1, 1, 1, 2, 4}); i < n; i++ {
			if g.Chance(6) {
				b.WriteString(pick(g, []string{" ", "\t", "    ", "      "}))
			}
			b.WriteByte('\n')
		}
	}
	if g.Chance(8) {
		blank()
	}
	if g.Chance(20) {
		return b.String() // no message at all
	}
	for i, n := 0, pick(g, []int{1, 1, 1, 1, 2, 3}); i < n; i++ {
		if !mail && g.Chance(6) {
			b.WriteString(pick(g, []string{" ", "  ", "\t", "    ", "         "}))
		}
		b.WriteString(g.titleLine())
		if g.Chance(10) {
			b.WriteString(pick(g, []string{" ", "\t", "   "}))
		}
		b.WriteByte('\n')
	}
	for i, n := 0, g.Int(0, 4); i < n; i++ {
		blank()
		for j, m := 0, g.Int(1, 5); j < m; j++ {
			l := g.bodyLine()
			if mail && patchLike(l) {
				l = "x" + l
			}
			if mail && g.Chance(25) {
				l = "---"
			}
			b.WriteString(l)
			b.WriteByte('\n')
		}
	}
	s := b.String()
	if g.Chance(4) {
		s = strings.TrimRight(s, "\n")
	}
	return s
}

// patchLike tells whether the line alone could start a patch.
func patchLike(l string) bool {
	return strings.HasPrefix(l, "diff --git ") || strings.HasPrefix(l, "@@ -") || strings.HasPrefix(l, "--- ")
}

// -------------------------------------------------------------------- subjects

var (
	subjectAll   = regexp.MustCompile(`^(?:[ \t:]|[rR][eE]:|\[[^\]]*\])*`)
	subjectPatch = regexp.MustCompile(`^(?:[ \t:]|[rR][eE]:|\[[^\]]*PATCH[^\]]*\])*`)
)

// wantSubject is the documented cleaning of a subject that has no white space
// at its ends. mode: 0 white space, 1 all, 2 patch only.
func wantSubject(s string, mode int) (prefix, title string) {
	switch mode {
	case 0:
		return "", s
	case 1:
		prefix = subjectAll.FindString(s)
	default:
		prefix = subjectPatch.FindString(s)
	}
	return prefix, strings.TrimRight(s[len(prefix):], " \t")
}
