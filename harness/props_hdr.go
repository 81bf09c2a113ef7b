package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// scratchLog is a scratch repository for commits: it knows two trees and a
// parent commit.
const (
	emptyTree = "4b825dc642cb6eb9a060e54bf8d69288fbee4904"
)

type logRepo struct{ dir, parent, tree string }

var logRepos = map[string]logRepo{}

func scratchLog() logRepo {
	dir := scratchRepo("log")
	if r, ok := logRepos[dir]; ok {
		return r
	}
	mustGit(dir, "", nil, "hash-object", "-t", "tree", "-w", "/dev/null")
	parent := strings.TrimSpace(mustGit(dir, "tree "+emptyTree+"\nauthor P <p@q> 1 +0000\ncommitter P <p@q> 1 +0000\n\nparent\n", nil, "hash-object", "-t", "commit", "-w", "--stdin"))
	blob := strings.TrimSpace(mustGit(dir, "one\ntwo\n", nil, "hash-object", "-w", "--stdin"))
	tree := strings.TrimSpace(mustGit(dir, "100644 blob "+blob+"\tf.txt\n", nil, "mktree"))
	r := logRepo{dir, parent, tree}
	logRepos[dir] = r
	return r
}

// commit stores the commit object and returns its id.
func (r logRepo) commit(a, c *Person, msg string) string {
	obj := fmt.Sprintf("tree %s\nparent %s\nauthor %s <%s> %d %s\ncommitter %s <%s> %d %s\n\n%s",
		r.tree, r.parent, a.Name, a.Email, a.Sec, zoneString(a.Zone, false), c.Name, c.Email, c.Sec, zoneString(c.Zone, false), msg)
	return strings.TrimSpace(mustGit(r.dir, obj, nil, "hash-object", "-t", "commit", "-w", "--literally", "--stdin"))
}

func checkIdent(what string, got *gitdiff.PatchIdentity, p *Person) error {
	if got == nil {
		return fmt.Errorf("%s missing", what)
	}
	name, email := wantIdent(string(p.Name), string(p.Email))
	if got.Name != name || got.Email != email {
		return fmt.Errorf("%s is %q <%q>, want %q <%q>", what, got.Name, got.Email, name, email)
	}
	return nil
}

// ------------------------------------------------------------------ C25

type prettyCase struct {
	A, C  Person
	Msg   BS
	Fmt   string // short, medium, full, fuller
	Date  string
	Local int      // minutes of the reader's zone
	Opts  []string `json:",omitempty"`
	// model only
	SHA   BS   `json:",omitempty"`
	Deco  BS   `json:",omitempty"`
	Extra []BS `json:",omitempty"`
	CRLF  bool `json:",omitempty"`
	Tail  BS   `json:",omitempty"`
}

func genPretty(g *G) prettyCase {
	c := prettyCase{A: g.person(), C: g.person(), Msg: BS(g.message(false)), Fmt: pick(g, []string{"short", "medium", "medium", "full", "fuller", "fuller"}), Date: pick(g, dateFormats)}
	if c.A.Name == "" && c.A.Email == "" {
		c.A.Email = "x@y"
	}
	if c.C.Name == "" && c.C.Email == "" {
		c.C.Email = "x@y"
	}
	c.Local = pick(g, []int{0, 0, 60, -300, 330, -210, 720})
	return c
}

func genPrettyGit(g *G) prettyCase {
	c := genPretty(g)
	// git prints a wrong local zone when the local time is before 1970 or after 2099
	c.A.Sec, c.C.Sec = min(max(c.A.Sec, 90000), 4102300000), min(max(c.C.Sec, 90000), 4102300000)
	for _, o := range []string{"--decorate=short", "--decorate=full", pick(g, []string{"--parents", "--children"}), "--source", "--abbrev-commit"} {
		if g.Chance(5) {
			c.Opts = append(c.Opts, o)
		}
	}
	if g.Chance(3) {
		c.Opts = append(c.Opts, "-p")
	}
	return c
}

// lines among the fields that are none of them; "" is no line
var prettyNoise = []string{"", "Merge: 0123456 89abcde", "Reflog: HEAD@{0} (A <a@b>)", "Reflog message: commit: Author: x", "Reflog message: Date: 1", "gpg: Signature made Thu 01 Jan 1970", "gpg:                using RSA key 0123", "Primary key fingerprint: 0123 4567  89AB", "     Subkey fingerprint: 0123 4567  89AB", "    Author: indented <i@n>", "    Date: 1", "\tCommit: t <t@t>", "Parents: 1", "x", "author: lower <l@c>", "date: 1", "DATE: 1", "Committer: other <o@p>", " Author: y <y@y>", " Date: 5", " CommitDate: 5", "Good \"git\" signature for a@b with key Date: 1", "tree 0123", "CommitDates: x", "Dates: y", "AuthorDates: y", "X-Author: z <z@z>", "X-Date: 1", "SignatureDate: yesterday", "gpg: AuthorDate: 7", "gpg: CommitDate: 5", "my Commit: n <n@n>", "Author : s <s@s>", "Date : 5", "commit 0123", "From: f <f@f>", "Subject: s", "---", "Commit-Date: 1", "Author-Date: 1", "Notes:", "    indented words", "\ufeffAuthor: b <b@b>", "\u200bCommit: c <c@c>", "\u00a0Date: 1", "\x00Date: 1", "\vCommitDate: 1", "\x1b[33mAuthor: e <e@e>\x1b[m", "\"Date: 1\"", "Author\u00ad: h <h@h>"}

func genPrettyModel(g *G) prettyCase {
	c := genPretty(g)
	c.SHA = BS(g.oid(pick(g, []int{40, 40, 64, 7, 12})))
	c.Deco = BS(pick(g, []string{"", "", "", " (HEAD -> main)", " (tag: v1, origin/main)", " 0123456 89abcdef", "\trefs/heads/x", " 0123\trefs/tags/x", "\trefs/heads/y (HEAD)", " ()", "\tstash@{0}"}))
	for i, n := 0, pick(g, []int{0, 0, 0, 1, 1, 2, 5}); i < n; i++ {
		c.Extra = append(c.Extra, BS(pick(g, prettyNoise)))
	}
	for _, p := range []*Person{&c.A, &c.C} {
		if p.Name != "" && !strings.Contains(string(p.Name), "@") && !strings.HasSuffix(string(p.Name), ")") && g.Chance(6) {
			// bytes that git would not keep, but other tools may
			p.Name += BS(" v" + pick(g, pick(g, [][]string{ctlSpecials, badSpecials})) + "w")
		}
	}
	c.CRLF = g.Chance(8)
	c.Tail = BS(pick(g, []string{"", "", "\n", "\n\n\n", " \n\t\n"}))
	return c
}

func (c *prettyCase) render() string {
	var b strings.Builder
	id := func(p *Person) string { return string(p.Name) + " <" + string(p.Email) + ">" }
	date := func(p *Person) string { return printDate(c.Date, p.Sec, p.Zone, c.Local) }
	b.WriteString("commit " + string(c.SHA) + string(c.Deco) + "\n")
	var fields []string
	switch c.Fmt {
	case "short":
		fields = []string{"Author: " + id(&c.A)}
	case "medium":
		fields = []string{"Author: " + id(&c.A), "Date:   " + date(&c.A)}
	case "full":
		fields = []string{"Author: " + id(&c.A), "Commit: " + id(&c.C)}
	case "fuller":
		fields = []string{"Author:     " + id(&c.A), "AuthorDate: " + date(&c.A), "Commit:     " + id(&c.C), "CommitDate: " + date(&c.C)}
	}
	for i := 0; i < max(len(fields)+1, len(c.Extra)); i++ {
		if i < len(c.Extra) && c.Extra[i] != "" {
			b.WriteString(string(c.Extra[i]) + "\n")
		}
		if i < len(fields) {
			b.WriteString(fields[i] + "\n")
		}
	}
	b.WriteString("\n")
	started := false
	for _, l := range strings.Split(string(c.Msg), "\n") {
		l = strings.TrimRight(l, " \t\r\n")
		if l == "" {
			if !started {
				continue
			}
			if c.Fmt == "short" {
				break
			}
		}
		started = true
		b.WriteString("    " + l + "\n")
	}
	s := b.String() + string(c.Tail)
	if c.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

func (c *prettyCase) check(h *gitdiff.PatchHeader, o *Obs) error {
	if err := checkIdent("author", h.Author, &c.A); err != nil {
		return err
	}
	title, body := normMessage(string(c.Msg))
	if c.Fmt == "short" {
		body = ""
	}
	if h.Title != title {
		return fmt.Errorf("title %s, want %s", q(h.Title), q(title))
	}
	if h.Body != body {
		return fmt.Errorf("body %s, want %s", q(h.Body), q(body))
	}
	if h.SubjectPrefix != "" || h.BodyAppendix != "" {
		return fmt.Errorf("prefix %q, appendix %q", h.SubjectPrefix, h.BodyAppendix)
	}
	if m := h.Message(); m != wantMessage(title, body) {
		return fmt.Errorf("message %s", q(m))
	}
	hasA := c.Fmt == "medium" || c.Fmt == "fuller"
	if hasA {
		if err := checkDate(h.AuthorDate, c.Date, c.A.Sec, c.A.Zone, c.Local); err != nil {
			return fmt.Errorf("author %v", err)
		}
	} else if !h.AuthorDate.IsZero() {
		return fmt.Errorf("author date %v, none was printed", h.AuthorDate)
	}
	if c.Fmt == "full" || c.Fmt == "fuller" {
		if err := checkIdent("committer", h.Committer, &c.C); err != nil {
			return err
		}
	} else if h.Committer != nil {
		return fmt.Errorf("committer %v, none was printed", h.Committer)
	}
	if c.Fmt == "fuller" {
		if err := checkDate(h.CommitterDate, c.Date, c.C.Sec, c.C.Zone, c.Local); err != nil {
			return fmt.Errorf("committer %v", err)
		}
	} else if !h.CommitterDate.IsZero() {
		return fmt.Errorf("committer date %v, none was printed", h.CommitterDate)
	}
	o.NTIf(title != "" || c.Fmt == "fuller")
	o.Label(c.Fmt)
	o.LabelIf(hasA, "date "+c.Date)
	o.LabelIf(body != "", "body")
	return nil
}

func checkPrettyModel(c *prettyCase, o *Obs) error {
	return withLocal(c.Local, func() error {
		in := c.render()
		h, err := gitdiff.ParsePatchHeader(in)
		if err != nil {
			return fmt.Errorf("%v\n%s", err, q(in))
		}
		if h.SHA != string(c.SHA) {
			return fmt.Errorf("SHA %q, want %q\n%s", h.SHA, c.SHA, q(in))
		}
		if err := c.check(h, o); err != nil {
			return fmt.Errorf("%v\n%s", err, q(in))
		}
		return nil
	})
}

func checkPrettyGit(c *prettyCase, o *Obs) error {
	r := scratchLog()
	sha := r.commit(&c.A, &c.C, string(c.Msg))
	ref := filepath.Join(r.dir, "refs", "heads", "topic")
	if err := os.WriteFile(ref, []byte(sha+"\n"), 0o644); err != nil {
		infraf("%v", err)
	}
	args := append([]string{"log", "-1", "--no-expand-tabs", "--pretty=" + c.Fmt, "--date=" + c.Date}, c.Opts...)
	out := mustGit(r.dir, "", []string{"TZ=" + posixTZ(c.Local)}, append(args, "refs/heads/topic", "--")...)
	return withLocal(c.Local, func() error {
		pre, patch := out, false
		for _, opt := range c.Opts {
			patch = patch || opt == "-p"
			o.Label(opt)
		}
		files, p, err := parseString(out)
		if err != nil {
			return fmt.Errorf("Parse: %v\n%s", err, q(out))
		}
		pre = p
		if patch && len(files) != 1 {
			return fmt.Errorf("%d files\n%s", len(files), q(out))
		}
		h, err := gitdiff.ParsePatchHeader(pre)
		if err != nil {
			return fmt.Errorf("%v\n%s", err, q(out))
		}
		if len(h.SHA) < 4 || !strings.HasPrefix(sha, h.SHA) || !abbrev(c.Opts) && h.SHA != sha {
			return fmt.Errorf("SHA %q, want %q\n%s", h.SHA, sha, q(out))
		}
		if err := c.check(h, o); err != nil {
			return fmt.Errorf("%v\n%s", err, q(out))
		}
		return nil
	})
}

func abbrev(opts []string) bool {
	for _, o := range opts {
		if o == "--abbrev-commit" {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------ C26

type mailCase struct {
	A     Person
	Msg   BS
	Local int
	Opts  []string
	Mode  int  // how subjects are cleaned; 3: the default
	Bare  bool // without the "From <id>" line
	Email bool // git log --pretty=email instead of format-patch
}

func genMailGit(g *G) mailCase {
	c := mailCase{A: g.person(), Msg: BS(g.message(true)), Mode: g.Int(0, 3), Bare: g.Chance(4), Email: g.Chance(4)}
	if c.A.Email == "" {
		c.A.Email = "m@n"
	}
	c.A.Sec = min(max(c.A.Sec, 90000), 4102300000)
	if g.Chance(6) && !strings.Contains(string(c.A.Name), "=?") && !strings.ContainsAny(string(c.A.Name), "()@") && isASCII(string(c.A.Name)) {
		// git quotes such names
		c.A.Name += BS(pick(g, []string{` "Q"`, ` \`, ` "a\b"`, ` ""`, `"`}))
	}
	for _, o := range [][]string{{"", "", "--subject-prefix=PATCH foo", "--rfc", "--subject-prefix=", "--subject-prefix=RFC/PATCH", "-k", "--subject-prefix=TICKET-1"}, {"", "", "-v3", "-n"}, {"", "", "-p", "--stat=40"}, {"", "", "", "--to=x@y", "--cc=c@d", "--in-reply-to=<x@y>", "--add-header=X-Foo: bar"}, {"", "", "", "", "--zero-commit"}, {"", "", "--thread", "--signature=x"}, {"", "", "", "--no-encode-email-headers"}} {
		if a := pick(g, o); a != "" {
			c.Opts = append(c.Opts, a)
		}
	}
	for _, o := range c.Opts {
		if o == "--no-encode-email-headers" {
			// what looks like an encoded word is one
			c.Msg = BS(strings.ReplaceAll(string(c.Msg), "=?", "=."))
		}
		if o == "-k" {
			// git keeps the line breaks of a title of several lines
			many := manyTitleLines(string(c.Msg))
			var opts []string
			for _, p := range c.Opts {
				if !(many && p == "-k") && !strings.HasPrefix(p, "--subject-prefix") && p != "--rfc" && p != "-n" && p != "-v3" {
					opts = append(opts, p)
				}
			}
			c.Opts = opts
		}
	}
	return c
}

func manyTitleLines(msg string) bool {
	n := 0
	for _, l := range strings.Split(msg, "\n") {
		if strings.TrimSpace(l) != "" {
			n++
		} else if n > 0 {
			break
		}
	}
	return n > 1
}

func (c *mailCase) opts() []gitdiff.PatchHeaderOption {
	return subjectOpts(c.Mode)
}

func subjectOpts(mode int) []gitdiff.PatchHeaderOption {
	switch mode {
	case 0:
		return []gitdiff.PatchHeaderOption{gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanWhitespace)}
	case 1:
		return []gitdiff.PatchHeaderOption{gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanAll)}
	case 2:
		return []gitdiff.PatchHeaderOption{gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanPatchOnly)}
	}
	return nil
}

func modeOf(mode int) int {
	if mode == 3 {
		return 1
	}
	return mode
}

func checkMailGit(c *mailCase, o *Obs) error {
	r := scratchLog()
	sha := r.commit(&c.A, &c.A, string(c.Msg))
	var out string
	prefix, pre2 := "[PATCH", ""
	stat := true
	var rfc bool
	for _, a := range c.Opts {
		switch {
		case strings.HasPrefix(a, "--subject-prefix="):
			if prefix = "[" + strings.TrimPrefix(a, "--subject-prefix="); rfc {
				prefix = "[RFC " + prefix[1:]
			}
		case a == "--rfc":
			prefix, rfc = "[RFC "+prefix[1:], true
		case a == "-p":
			stat = false
		}
		o.Label(a)
	}
	for _, a := range c.Opts {
		switch a {
		case "-v3":
			pre2 += " v3"
		case "-n":
			if prefix+pre2 != "[" {
				pre2 += " "
			}
			pre2 += "1/1"
		}
	}
	if prefix += pre2; prefix == "[" {
		prefix = ""
	} else {
		prefix += "] "
	}
	keep := false
	for _, a := range c.Opts {
		keep = keep || a == "-k"
	}
	if keep {
		prefix = ""
	}
	zero := false
	if c.Email {
		out = mustGit(r.dir, "", nil, "log", "-1", "--pretty=email", "-p", sha, "--")
		prefix, stat, keep = "[PATCH] ", false, false
		o.Label("log --pretty=email")
	} else {
		out = mustGit(r.dir, "", nil, append(append([]string{"format-patch", "--stdout"}, c.Opts...), "-1", sha, "--")...)
		for _, a := range c.Opts {
			zero = zero || a == "--zero-commit"
		}
	}
	files, pre, err := parseString(out)
	if err != nil {
		return fmt.Errorf("Parse: %v\n%s", err, q(out))
	}
	if len(files) != 1 || files[0].NewName != "f.txt" {
		return fmt.Errorf("%d files\n%s", len(files), q(out))
	}
	if c.Bare {
		i := strings.Index(pre, "\nFrom:")
		if i < 0 {
			return fmt.Errorf("no From: line left\n%s", clip(pre, 1500))
		}
		pre = pre[i+1:]
		o.Label("without From line")
	}
	bad := func(f string, args ...any) error { return fmt.Errorf(f+"\n%s", append(args, clip(pre, 1500))...) }
	h, err := gitdiff.ParsePatchHeader(pre, c.opts()...)
	if err != nil {
		return bad("%v", err)
	}
	switch {
	case c.Bare && h.SHA != "":
		return bad("SHA %q, there is none", h.SHA)
	case !c.Bare && zero && h.SHA != zeros(40), !c.Bare && !zero && h.SHA != sha:
		return bad("SHA %q, want %q", h.SHA, sha)
	}
	if err := checkIdent("author", h.Author, &c.A); err != nil {
		return bad("%v", err)
	}
	if err := checkDate(h.AuthorDate, "rfc", c.A.Sec, c.A.Zone, 0); err != nil {
		return bad("%v", err)
	}
	if h.Committer != nil || !h.CommitterDate.IsZero() {
		return bad("committer %v %v", h.Committer, h.CommitterDate)
	}
	title, _ := normMessage(string(c.Msg))
	// split at the first "---" line, wherever it comes from
	body, app := splitAppendix(c.msgBody())
	if h.Body != body {
		return bad("body %s, want %s", q(h.Body), q(body))
	}
	if stat {
		// the file summary follows whatever the message had after its line
		if !strings.HasPrefix(h.BodyAppendix, app) || !strings.Contains(h.BodyAppendix[len(app):], "f.txt") || !strings.Contains(h.BodyAppendix, "1 file changed, 2 insertions(+)") {
			return bad("appendix %s", q(h.BodyAppendix))
		}
	} else if h.BodyAppendix != app {
		return bad("appendix %s, want %s", q(h.BodyAppendix), q(app))
	}
	// the subject
	subject := prefix + title
	if title == "" {
		subject = strings.TrimSpace(subject)
	}
	if h.SubjectPrefix+h.Title != strings.TrimSpace(subject) {
		return bad("prefix %q and title %q, want %q", h.SubjectPrefix, h.Title, subject)
	}
	encoded := strings.Contains(pre, "Subject: "+prefix+"=?UTF-8?q?")
	wp, wt := wantSubject(strings.TrimSpace(subject), modeOf(c.Mode))
	o.LabelIf(encoded && modeOf(c.Mode) == 0 && prefix != "", "encoded subject after kept prefix")
	if encoded && modeOf(c.Mode) != 0 {
		// markers in the encoded text are not looked for
		if p2, _ := wantSubject(prefix+"=", modeOf(c.Mode)); h.SubjectPrefix != p2 && h.SubjectPrefix != wp {
			return bad("prefix %q, want %q", h.SubjectPrefix, p2)
		}
	} else if h.SubjectPrefix != wp || h.Title != wt {
		return bad("prefix %q and title %q, want %q and %q", h.SubjectPrefix, h.Title, wp, wt)
	}
	if m := h.Message(); m != wantMessage(h.Title, h.Body) {
		return bad("message %s", q(m))
	}
	o.NTIf(title != "")
	o.LabelIf(encoded, "encoded subject")
	o.LabelIf(len(subject) > 78, "folded subject")
	o.LabelIf(!isASCII(string(c.A.Name)), "encoded name")
	o.LabelIf(body != "", "body")
	o.LabelIf(app != "", "message with appendix")
	return nil
}

// msgBody is the message without its first paragraph.
func (c *mailCase) msgBody() string { return rawBody(string(c.Msg)) }

func rawBody(msg string) string {
	state := 0
	ls := strings.Split(msg, "\n")
	for i, l := range ls {
		l = strings.TrimSpace(l)
		switch {
		case l != "" && state == 0:
			state = 1
		case l == "" && state == 1:
			return strings.Join(ls[i:], "\n")
		}
	}
	return ""
}

// splitAppendix cuts a text at its first "---" line.
func splitAppendix(s string) (body, app string) {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if strings.TrimRight(l, " \t\r\n\v\f") == "---" {
			return normText(strings.Join(ls[:i], "\n")), normText(strings.Join(ls[i+1:], "\n"))
		}
	}
	return normText(s), ""
}

// a mail written by hand, in the ways mails vary
type mailModel struct {
	SHA      BS
	A        Person
	NameForm int
	Order    int
	Subject  BS // ASCII, as it is
	Fold     BS // what folding puts at some spaces
	FoldAt   int
	Date     string
	Local    int
	Case     int
	Extra    []BS
	Body     BS
	App      BS
	HasApp   bool
	Mark     BS `json:",omitempty"` // after the dashes
	NoBody   bool
	CRLF     bool
	Mode     int
}

func genMailModel(g *G) mailModel {
	c := mailModel{A: g.person(), NameForm: g.Int(0, 2), Order: g.Int(0, 5), Date: pick(g, dateFormats), Local: pick(g, []int{0, 60, -300, 330}), Case: g.Int(0, 3), Mode: g.Int(0, 3), CRLF: g.Chance(6)}
	if c.A.Email == "" {
		c.A.Email = "m@n"
	}
	if !isASCII(string(c.A.Name)) {
		c.A.Name = "Plain Name"
	}
	// an encoded word in a header is decoded
	c.A.Name = BS(strings.ReplaceAll(string(c.A.Name), "=?", "=."))
	c.A.Email = BS(strings.ReplaceAll(string(c.A.Email), "=?", "=."))
	if !isASCII(string(c.A.Email)) {
		c.A.Email = "e@f"
	}
	if g.Chance(5) {
		c.SHA = BS(g.oid(pick(g, []int{40, 40, 64, 7})))
	} else if g.Bool() {
		c.SHA = BS(g.oid(40))
	}
	c.Subject = BS(g.subject())
	if g.Chance(4) {
		c.Fold = BS(pick(g, []string{"\n ", "\n\t", "\n  ", "\n \t "}))
		c.FoldAt = g.Int(0, 10)
	}
	for i, n := 0, g.Int(0, 2); i < n; i++ {
		c.Extra = append(c.Extra, BS(pick(g, []string{"X-Mailer: git", "To: list@example.com", "Cc: a@b,\n c@d", "MIME-Version: 1.0", "Content-Type: text/plain; charset=UTF-8", "Content-Transfer-Encoding: 8bit", "Message-Id: <x@y>", "In-Reply-To: <z@y>", "X-Subject: no", "Resent-From: other@x", "Sender: s@t", "X-Date: 2020"})))
	}
	body := func() string {
		var b strings.Builder
		for i, n := 0, g.Int(0, 6); i < n; i++ {
			l := g.bodyLine()
			if strings.TrimSpace(l) == "---" {
				l = "x"
			}
			b.WriteString(l + "\n")
			if g.Chance(3) {
				b.WriteString(pick(g, []string{"\n", "\n\n", " \n", "\t\n\n"}))
			}
		}
		return b.String()
	}
	c.Body = BS(body())
	if c.HasApp = g.Bool(); c.HasApp {
		c.App = BS(body())
		if g.Chance(5) {
			// git takes white space after the dashes for nothing
			c.Mark = BS(pick(g, []string{" ", "\t", "  \t"}))
		}
		if g.Chance(4) {
			c.App += "---\nmore\n"
		}
	}
	c.NoBody = g.Chance(12)
	return c
}

func (c *mailModel) render() string {
	cased := func(k string) string {
		switch c.Case {
		case 1:
			return strings.ToLower(k)
		case 2:
			return strings.ToUpper(k)
		}
		return k
	}
	subj := string(c.Subject)
	if c.Fold != "" {
		// fold at one of the single spaces
		var at []int
		for i := 1; i+1 < len(subj); i++ {
			if subj[i] == ' ' && !isSp(subj[i-1]) && !isSp(subj[i+1]) {
				at = append(at, i)
			}
		}
		if c.FoldAt < 0 && len(at) > 0 {
			var b strings.Builder
			from := 0
			for _, i := range at {
				b.WriteString(subj[from:i] + string(c.Fold))
				from = i + 1
			}
			subj = b.String() + subj[from:]
		} else if len(at) > 0 {
			i := at[c.FoldAt%len(at)]
			subj = subj[:i] + string(c.Fold) + subj[i+1:]
		}
	}
	name := string(c.A.Name)
	switch c.NameForm {
	case 1:
		name = quoteName(name)
	}
	from := name + " <" + string(c.A.Email) + ">"
	if c.A.Name == "" && c.NameForm == 2 && strings.Contains(string(c.A.Email), "@") {
		from = string(c.A.Email)
	}
	fromKey := cased("From")
	if c.SHA == "" {
		fromKey = "From" // it starts the preamble
	}
	fs := []string{fromKey + ": " + from, cased("Date") + ": " + printDate(c.Date, c.A.Sec, c.A.Zone, c.Local), cased("Subject") + ": " + subj}
	rest := fs[1:]
	if c.Order&1 != 0 {
		rest[0], rest[1] = rest[1], rest[0]
	}
	if c.Order&2 != 0 && c.SHA != "" {
		fs[0], fs[1], fs[2] = fs[1], fs[2], fs[0]
	}
	for i, e := range c.Extra {
		at := 1 + (i+c.Order)%len(fs)
		fs = append(fs[:at:at], append([]string{string(e)}, fs[at:]...)...)
	}
	s := strings.Join(fs, "\n") + "\n"
	if c.SHA != "" {
		s = "From " + string(c.SHA) + " Mon Sep 17 00:00:00 2001\n" + s
	}
	if !c.NoBody {
		s += "\n" + string(c.Body)
		if c.HasApp {
			s += "---" + string(c.Mark) + "\n" + string(c.App)
		}
	}
	if c.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

func quoteName(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func checkMailModel(c *mailModel, o *Obs) error {
	return withLocal(c.Local, func() error {
		in := c.render()
		bad := func(f string, args ...any) error { return fmt.Errorf(f+"\n%s", append(args, clip(in, 1500))...) }
		h, err := gitdiff.ParsePatchHeader(in, subjectOpts(c.Mode)...)
		if err != nil {
			return bad("%v", err)
		}
		if h.SHA != string(c.SHA) {
			return bad("SHA %q, want %q", h.SHA, c.SHA)
		}
		if err := checkIdent("author", h.Author, &c.A); err != nil {
			return bad("%v", err)
		}
		if err := checkDate(h.AuthorDate, c.Date, c.A.Sec, c.A.Zone, c.Local); err != nil {
			return bad("%v", err)
		}
		if h.Committer != nil || !h.CommitterDate.IsZero() {
			return bad("committer %v %v", h.Committer, h.CommitterDate)
		}
		body, app := "", ""
		if !c.NoBody {
			body = normText(string(c.Body))
			if c.HasApp {
				app = normText(string(c.App))
			}
		}
		if h.Body != body {
			return bad("body %s, want %s", q(h.Body), q(body))
		}
		if h.BodyAppendix != app {
			return bad("appendix %s, want %s", q(h.BodyAppendix), q(app))
		}
		wp, wt := wantSubject(strings.Trim(string(c.Subject), " \t"), modeOf(c.Mode))
		if h.SubjectPrefix != wp || h.Title != wt {
			return bad("prefix %q and title %q, want %q and %q", h.SubjectPrefix, h.Title, wp, wt)
		}
		if m := h.Message(); m != wantMessage(h.Title, h.Body) {
			return bad("message %s", q(m))
		}
		o.NTIf(c.Subject != "")
		o.LabelIf(body != "", "body")
		o.LabelIf(app != "", "appendix")
		o.LabelIf(c.SHA == "", "without From line")
		o.LabelIf(c.CRLF, "CRLF")
		o.LabelIf(c.Fold != "", "folded")
		return nil
	})
}

// a subject or name with characters that mail has to encode
type encCase struct {
	Text   BS // UTF-8
	Prefix BS
	Chunk  int
	Lower  bool // encode lower-case letters as well
	Name   bool
	Mode   int
	Char   string // charset, "" for UTF-8
	B64    bool
	Upper  bool // B and Q instead of b and q
}

func genEnc(g *G) encCase {
	c := encCase{Prefix: BS(pick(g, []string{"", "[PATCH] ", "[PATCH v2 3/4] ", "Re: ", "re: [PATCH] "})), Chunk: pick(g, []int{1, 2, 5, 15, 20, 1000}), Lower: g.Bool(), Name: g.Chance(3), Mode: g.Int(0, 3)}
	var ws []string
	for i, n := 0, g.Int(1, 8); i < n; i++ {
		w := pick(g, titleWords)
		if g.Chance(4) {
			w = string(rune(pick(g, []int{0xe9, 0x20ac, 0x1f600, 0x3042, 0x7ff, 0x800, 0xffff, 0x10ffff, 0x80}))) + w
		}
		ws = append(ws, w)
	}
	ws = append(ws, "\xc3\xa9")
	c.Text = BS(strings.Join(ws, " "))
	if c.Name {
		c.Text = BS(fixName(strings.NewReplacer(`"`, "", `\`, "", "@", "", "<", "", ">", "", "=?", "", "?=", "").Replace(string(c.Text))))
	}
	if !c.Name && g.Chance(3) {
		c.Text += BS(pick(g, []string{" ", "  ", "\n", " \n", "\t", "\r\n"}))
		if modeOf(c.Mode) == 0 && g.Bool() {
			c.Text = BS(pick(g, []string{" ", "\t", "\n"})) + c.Text
		}
	}
	c.Char = pick(g, []string{"", "", "", "utf-8", "ISO-8859-1", "iso-8859-1", "EUC-JP", "x-unknown", "windows-1252"})
	c.B64, c.Upper = g.Chance(3), g.Chance(3)
	return c
}

// qEncode writes the text as git does: all but plain characters as =XX, in
// words of a few characters each.
func (c *encCase) qEncode() string {
	var words []string
	rs := []rune(string(c.Text))
	for i := 0; i < len(rs); i += c.Chunk {
		var b strings.Builder
		for _, r := range rs[i:min(len(rs), i+c.Chunk)] {
			plain := r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || (r >= 'a' && r <= 'z' && !c.Lower) || r == '!' || r == '*' || r == '+' || r == '-' || r == '/'
			if plain {
				b.WriteRune(r)
				continue
			}
			for _, x := range c.bytes(r) {
				fmt.Fprintf(&b, "=%02X", x)
			}
		}
		how, text := "q", b.String()
		if c.B64 {
			var raw []byte
			for _, r := range rs[i:min(len(rs), i+c.Chunk)] {
				raw = append(raw, c.bytes(r)...)
			}
			how, text = "b", base64.StdEncoding.EncodeToString(raw)
		}
		if c.Upper {
			how = strings.ToUpper(how)
		}
		char := c.Char
		if char == "" {
			char = "UTF-8"
		}
		words = append(words, "=?"+char+"?"+how+"?"+text+"?=")
	}
	return strings.Join(words, "\n ")
}

// bytes encodes a character in the character set.
func (c *encCase) bytes(r rune) []byte {
	if strings.EqualFold(c.Char, "iso-8859-1") {
		if r > 0xff {
			r = '?'
		}
		return []byte{byte(r)}
	}
	return []byte(string(r))
}

// text is what the encoded words stand for.
func (c *encCase) text() string {
	switch strings.ToLower(c.Char) {
	case "", "utf-8":
		return string(c.Text)
	case "iso-8859-1":
		var b strings.Builder
		for _, r := range string(c.Text) {
			for _, x := range c.bytes(r) {
				b.WriteRune(rune(x))
			}
		}
		return b.String()
	}
	// not known, so it stays as it is
	return strings.ReplaceAll(c.qEncode(), "\n", "")
}

func checkEnc(c *encCase, o *Obs) error {
	in := "From: A <a@b>\nSubject: " + string(c.Prefix) + c.qEncode() + "\n\nbody\n"
	if c.Name {
		in = "From: " + c.qEncode() + " <a@b>\nSubject: x\n\nbody\n"
	}
	h, err := gitdiff.ParsePatchHeader(in, subjectOpts(c.Mode)...)
	if err != nil {
		return fmt.Errorf("%v\n%s", err, q(in))
	}
	o.NT()
	if c.Name {
		return checkIdent("author", h.Author, &Person{Name: BS(c.text()), Email: "a@b"})
	}
	if modeOf(c.Mode) == 0 {
		if want := strings.TrimSpace(string(c.Prefix) + c.text()); h.Title != want || h.SubjectPrefix != "" {
			return fmt.Errorf("prefix %q, title %q, want none and %q\n%s", h.SubjectPrefix, h.Title, want, q(in))
		}
		return nil
	}
	p := strings.Trim(string(c.Prefix), " ")
	if h.Title != strings.TrimRight(c.text(), " \t\r\n") || strings.TrimSpace(h.SubjectPrefix) != p {
		return fmt.Errorf("prefix %q, title %q, want %q and %q\n%s", h.SubjectPrefix, h.Title, p, c.text(), q(in))
	}
	return nil
}

// ------------------------------------------------------------------ C27

var subjectTokens = []string{"re:", "Re:", "rE:", "RE", "r", ":", " ", "\t", "[a]", "[PATCH]", "[PATCH v2 1/3]", "[", "]", "x", "[]", "[[a]", "PATCH", "[patch]", "[RFC PATCH]", "re", "e:", "[PATC]H]", "R", "\xc3\xa9", "word"}

func (g *G) subject() string {
	var b strings.Builder
	for i, n := 0, g.Int(0, 7); i < n; i++ {
		if g.Chance(10) {
			b.WriteString(g.innerWord(pick(g, [][]string{ascSpecials, uniSpecials, ctlSpecials})))
			continue
		}
		b.WriteString(pick(g, subjectTokens[:23]))
	}
	if g.Bool() {
		b.WriteString("fix the thing")
	}
	return b.String()
}

type subjectCase struct {
	S    BS
	Mode int
}

func checkSubject(c *subjectCase, o *Obs) error {
	opts := subjectOpts(c.Mode)
	if err := checkSubjectOpts(c, opts, o); err != nil || len(opts) == 0 {
		return err
	}
	// of several options the last one counts
	if err := checkSubjectOpts(c, append(subjectOpts((c.Mode+1+len(c.S)%2)%3), opts...), o); err != nil {
		return fmt.Errorf("after another option: %w", err)
	}
	return nil
}

func checkSubjectOpts(c *subjectCase, opts []gitdiff.PatchHeaderOption, o *Obs) error {
	in := "From: A <a@b>\nSubject: " + string(c.S) + "\n\n"
	h, err := gitdiff.ParsePatchHeader(in, opts...)
	if err != nil {
		return err
	}
	s := strings.Trim(string(c.S), " \t")
	wp, wt := wantSubject(s, modeOf(c.Mode))
	if h.SubjectPrefix != wp || h.Title != wt {
		return fmt.Errorf("mode %d, subject %q: prefix %q and title %q, want %q and %q", c.Mode, c.S, h.SubjectPrefix, h.Title, wp, wt)
	}
	if h.SubjectPrefix+h.Title != s {
		return fmt.Errorf("mode %d, subject %q: prefix %q and title %q together are something else", c.Mode, c.S, h.SubjectPrefix, h.Title)
	}
	o.NTIf(wp != "" || c.Mode == 0)
	return nil
}

func enumC27(tier string, yield func(subjectCase) bool) {
	n := 3
	if tier == "thorough" {
		n = 4
	}
	var rec func(s string, left int) bool
	rec = func(s string, left int) bool {
		for m := 0; m < 4; m++ {
			if !yield(subjectCase{BS(s), m}) {
				return false
			}
		}
		if left == 0 {
			return true
		}
		for _, t := range subjectTokens {
			if !rec(s+t, left-1) {
				return false
			}
		}
		return true
	}
	rec("", n)
	// every byte after everything that may be removed, and at the end
	for b := 0; b < 256; b++ {
		if b == '\n' || b == '\r' || b == '\v' || b == '\f' {
			continue
		}
		for _, p := range []string{"", "re:", "re:x", "[a]", "[PATCH] ", " :", "x"} {
			for m := 0; m < 4; m++ {
				if !yield(subjectCase{BS(p + string([]byte{byte(b)}) + "x"), m}) || !yield(subjectCase{BS(p + string([]byte{byte(b)})), m}) {
					return
				}
			}
		}
	}
	// inside what may be removed
	for _, ps := range [][]string{uniSpecials, ascSpecials, ctlSpecials, badSpecials} {
		for _, p := range ps {
			for _, f := range []string{"[%]", "[PATCH%] x", "[PATCH %] [x] y", "re: [%PATCH]: x"} {
				for m := 0; m < 4; m++ {
					if s := strings.Replace(f, "%", p, 1); !strings.Contains(s, "]]") && !yield(subjectCase{BS(s), m}) {
						return
					}
				}
			}
		}
	}
	// around the sizes of read buffers
	for size := 4096; size <= 1<<16; size *= 2 {
		for d := -12; d < 4; d++ {
			for m := 0; m < 4; m++ {
				if !yield(subjectCase{BS("[PATCH] " + strings.Repeat("x", size+d-8)), m}) {
					return
				}
			}
		}
	}
}

func genSubject(g *G) subjectCase {
	c := subjectCase{Mode: g.Int(0, 3)}
	var b strings.Builder
	for i, n := 0, g.Int(0, 10); i < n; i++ {
		if g.Chance(8) {
			b.WriteByte(byte(g.Int(0x20, 0x7e)))
		} else {
			b.WriteString(pick(g, subjectTokens))
		}
	}
	c.S = BS(strings.ReplaceAll(b.String(), "=?", ""))
	return c
}

type mailinfoCase struct{ S []BS }

func genMailinfo(g *G) mailinfoCase {
	c := mailinfoCase{}
	for i := 0; i < 1; i++ {
		s := genSubject(g)
		c.S = append(c.S, s.S)
	}
	return c
}

// git's own idea of the same subjects
func checkMailinfo(c *mailinfoCase, o *Obs) error {
	dir := scratch()
	defer os.RemoveAll(dir)
	for _, s := range c.S {
		in := "From: A <a@b>\nDate: Thu, 1 Jan 1970 00:00:00 +0000\nSubject: " + string(s) + "\n\nbody\n---\n"
		for mode := 0; mode < 3; mode++ {
			args := []string{"mailinfo"}
			switch mode {
			case 0:
				args = append(args, "-k")
			case 2:
				args = append(args, "-b")
			}
			out := mustGit(dir, in, nil, append(args, "msg", "patch")...)
			want := ""
			for _, l := range splitLines(out) {
				if v, ok := strings.CutPrefix(l, "Subject: "); ok {
					want = strings.TrimSpace(v)
				}
			}
			h, err := gitdiff.ParsePatchHeader(in, subjectOpts(mode)...)
			if err != nil {
				return err
			}
			if len(h.Title) < 4 || mode == 2 && strings.HasPrefix(h.Title, "[") {
				// git does not look at markers at the very end, and goes on
				// after brackets it keeps
				o.Label("not compared")
				continue
			}
			if collapse(h.Title) != collapse(want) {
				return fmt.Errorf("mode %d, subject %q: title %q, git has %q", mode, s, h.Title, want)
			}
			o.NT()
		}
	}
	return nil
}

// ------------------------------------------------------------------ C28

type dateCase struct {
	Format string
	Sec    int64
	Zone   int
	Local  int
	Loc    string `json:",omitempty"` // a named local zone instead
}

func checkC28(c *dateCase, o *Obs) error {
	o.Label(c.Format)
	o.NT()
	if c.Loc != "" {
		loc, err := time.LoadLocation(c.Loc)
		if err != nil {
			infraf("%v", err)
		}
		old := time.Local
		defer func() { time.Local = old }()
		time.Local = loc
		_, off := time.Unix(c.Sec, 0).In(loc).Zone()
		if off%60 != 0 {
			return nil // no such zone since a hundred years
		}
		local := off / 60
		zone := c.Zone
		if strings.HasSuffix(c.Format, "-local") {
			zone = local
		}
		v := civilAt(c.Sec, zone)
		got, err := gitdiff.ParsePatchDate(printDate(c.Format, c.Sec, c.Zone, local))
		if err != nil {
			return err
		}
		if strings.HasPrefix(c.Format, "short") {
			y, m, d := got.Date()
			if int64(y) != v.y || int(m) != v.mo || d != v.d || got.Hour() > 1 {
				return fmt.Errorf("date %v, want %04d-%02d-%02d in %s", got, v.y, v.mo, v.d, c.Loc)
			}
			return nil
		}
		if c.Format == "default-local" && time.Date(int(v.y), time.Month(v.mo), v.d, v.h, v.mi, v.s, 0, loc).Unix() != c.Sec {
			return nil // printed twice in the year
		}
		return checkDate(got, c.Format, c.Sec, c.Zone, local)
	}
	return withLocal(c.Local, func() error {
		s := printDate(c.Format, c.Sec, c.Zone, c.Local)
		got, err := gitdiff.ParsePatchDate(s)
		if err != nil {
			return fmt.Errorf("%q: %v", s, err)
		}
		return checkDate(got, c.Format, c.Sec, c.Zone, c.Local)
	})
}

func genC28(g *G) dateCase {
	c := dateCase{Format: pick(g, dateFormats), Zone: g.zone(), Local: g.zone()}
	switch g.Int(0, 3) {
	case 0:
		c.Sec = pick(g, []int64{0, 1, -1, 59, 60, 3599, 3600, 86399, 86400, -86400, 951782400, 951868800, 1078012800, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 4102444800, 253402214400, -2208988800, 68169600, 978307199, 978307200})
	case 1:
		c.Sec = g.Int64(0, 4102444799)
	case 2:
		c.Sec = g.Int64(-30610051200, 253402214400-172800) // years 1000 to 9999
	default:
		c.Sec = g.Int64(0, 50000)*86400 + int64(g.Int(-60, 60))*60
	}
	if g.Chance(4) {
		c.Loc = pick(g, []string{"America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Asia/Kathmandu", "America/St_Johns", "Pacific/Apia", "UTC", "Africa/Casablanca"})
		c.Sec = g.Int64(0, 2145916800)
	}
	return c
}

// every day boundary, zone and format in turn
func enumC28(tier string, yield func(dateCase) bool) {
	step := int64(29)
	if tier == "thorough" {
		step = 1
	}
	i := 0
	zones := []int{0, 60, -60, 330, -210, 720, -720, 840, 1, -1}
	for d := int64(0); d < 47482; d += step {
		for _, f := range dateFormats {
			i++
			if !yield(dateCase{Format: f, Sec: d*86400 + []int64{0, 86399, 43200, 3661}[i%4], Zone: zones[i%len(zones)], Local: zones[(i/7)%len(zones)]}) {
				return
			}
		}
	}
	for z := -1439; z <= 1439; z++ {
		for _, f := range []string{"default", "iso", "iso-strict", "rfc", "raw"} {
			if !yield(dateCase{Format: f, Sec: 1234567890, Zone: z, Local: zones[(z+1439)%len(zones)]}) {
				return
			}
		}
	}
}

type badDate struct {
	S   BS
	Why string
}

func genBadDate(g *G) badDate {
	f := pick(g, []string{"default", "iso", "iso-strict", "rfc", "short", "default-local", "raw"})
	sec := g.Int64(0, 4102444799)
	zone := pick(g, []int{60, -300, 330, 1, 720})
	c := civilAt(sec, zone)
	why := ""
	mon := monthNames[c.mo]
	z, zc := zoneString(zone, false), zoneString(zone, true)
	last := []int{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[c.mo]
	if c.mo == 2 && (c.y%4 == 0 && c.y%100 != 0 || c.y%400 == 0) {
		last = 29
	}
	k := g.Int(0, 10)
	switch k {
	case 10:
		why = "special"
	case 0:
		why, c.mo, mon = "month", pick(g, []int{0, 13, 99}), pick(g, []string{"Foo", "Jax", "13", "JAn."})
	case 1:
		why, c.d = "day", pick(g, []int{0, last + 1, 32, 99})
	case 2:
		why, c.h = "hour", pick(g, []int{24, 25, 60, 99})
	case 3:
		why, c.mi = "minute", pick(g, []int{60, 61, 99})
	case 4:
		why, c.s = "second", pick(g, []int{60, 61, 99})
	case 5:
		why = "zone"
		bz := pick(g, []string{"+2500", "+9900", "+0099", "-0161", "0530", "+05", "+053", "+05300", "EST5", "+-530", "++0530", "x", "+05x0"})
		z, zc = bz, bz
		if bz == "+05x0" || len(bz) == 5 && bz[0] != 'E' {
			zc = bz[:3] + ":" + bz[3:]
		}
	case 6:
		why = "rest"
	case 7:
		why = "words"
		return badDate{BS(pick(g, []string{"yesterday", "now", "2 days ago", "never", "noon", "Thu Jan 1", "12:30", "x", "-", "+", " ", "\n", "Jan 1 1970", "1970/01/01", "01/01/1970", "1.1.1970", "Thursday, 1 Jan 1970 00:00:00 +0000", "1970-01-01 00:00:00", "1970-01-01T00:00:00", "1970-01", "1970-1-1", "70-01-01", "@0", "0x10", "1e9", "99999999999999999999", "1.5", "12 34 56", "-", "1970-01-01 00:00 +0000", "Thu, 1 Jan 1970 00:00:00", "1234 GMT", "1234 Z", "1234 +0000 x", "5 minutes ago", "3 years, 2 months ago", "Mon 2 Jan 15:04:05 2006 -0700", "١٩٧٠-٠١-٠١"})), why}
	case 8:
		why = "separators"
	default:
		why = "year"
	}
	if f == "short" && k >= 2 && k <= 5 || f == "default-local" && k == 5 || f == "raw" && k < 5 {
		f = "iso"
	}
	var s string
	switch f {
	case "default", "default-local":
		s = fmt.Sprintf("%s %s %d %02d:%02d:%02d %d", dayNames[c.wd], mon, c.d, c.h, c.mi, c.s, c.y)
		if f == "default" {
			s += " " + z
		}
	case "iso":
		s = fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d %s", c.y, c.mo, c.d, c.h, c.mi, c.s, z)
	case "iso-strict":
		s = fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s", c.y, c.mo, c.d, c.h, c.mi, c.s, zc)
	case "rfc":
		s = fmt.Sprintf("%s, %d %s %d %02d:%02d:%02d %s", dayNames[c.wd], c.d, mon, c.y, c.h, c.mi, c.s, z)
	case "short":
		s = fmt.Sprintf("%04d-%02d-%02d", c.y, c.mo, c.d)
	case "raw":
		s = fmt.Sprintf("%d %s", sec, z)
	}
	switch k {
	case 10:
		// something that text processing may drop or change
		w := pick(g, pick(g, [][]string{uniSpecials, ctlSpecials, ascSpecials, badSpecials}))
		if strings.Trim(w, "0123456789.,+- ") == "" {
			w = "\u200b"
		}
		i := pick(g, []int{0, len(s), g.Int(0, len(s))})
		s = s[:i] + w + s[i:]
	case 6:
		s = pick(g, []string{s + " x", s + "x", "x" + s, s + " ", " " + s, s + "\n", s + "\x00", s + " 1", "\t" + s, s + " (UTC)", s + " (CEST)", s + "()", s + " UTC", s + ",", s + ";", s + " -", s + "-", "Date: " + s, "<" + s + ">", "(" + s + ")", `"` + s + `"`, "on " + s, s + " ago", "@" + s, "Thu " + s, "Thu, Thu " + s, s + " " + s, s + "\u00a0", s + "\r"})
	case 8:
		// no digit of the string may stand alone, or the rest could be a date
		if f == "raw" {
			s = strings.ReplaceAll(s, " ", pick(g, []string{"  ", "\t", "_", "T"}))
		} else {
			s = strings.ReplaceAll(s, pick(g, []string{":", "-"}), ".")
			if f != "short" && !strings.Contains(s, ".") {
				s += "."
			}
			if f == "short" && !strings.Contains(s, ".") {
				s += "-"
			}
		}
	case 9:
		y := fmt.Sprintf("%d", c.y)
		s = strings.Replace(s, y, pick(g, []string{"99", "x970", "19x0", "20200"}), 1)
		if f == "raw" {
			s = "x" + s
		}
	}
	return badDate{BS(s), why}
}

func checkBadDate(c *badDate, o *Obs) error {
	o.NT()
	o.Label(c.Why)
	t, err := gitdiff.ParsePatchDate(string(c.S))
	if err == nil {
		return fmt.Errorf("%q is accepted as %v", c.S, t)
	}
	if !t.IsZero() {
		return fmt.Errorf("%q: error %v together with the time %v", c.S, err, t)
	}
	// the same in a header
	for _, h := range []string{"commit 0123456\nAuthor: A <a@b>\nDate:   " + string(c.S) + "\n\n    t\n", "commit 0123456\nAuthor: A <a@b>\nAuthorDate: " + string(c.S) + "\nCommitDate: 2020-01-01\n", "commit 1\nCommitDate: " + string(c.S) + "\nAuthor: a@b\n", "From: a@b\nDate: " + string(c.S) + "\nSubject: x\n", "From 0123456 Mon Sep 17 00:00:00 2001\nDate: " + string(c.S) + "\n\nbody\n"} {
		s := strings.TrimSpace(string(c.S))
		if s != string(c.S) || strings.ContainsAny(s, "\n\r\v\f") || s == "" {
			continue
		}
		if _, err := gitdiff.ParsePatchHeader(h); err == nil {
			return fmt.Errorf("the header %q is accepted", h)
		}
	}
	return nil
}

type emptyDate struct{ N int }

// ------------------------------------------------------------------ C29

type identCase struct {
	S           BS
	Name, Email BS   // expected
	Err         bool `json:",omitempty"`
	Form        string
}

func (g *G) ws(min int) string {
	s := ""
	for i, n := 0, g.Int(min, 3); i < n; i++ {
		s += pick(g, []string{" ", " ", "\t", "\n", "\r\n"})
	}
	return s
}

// spread puts extra white space where there is some.
func (g *G) spread(s string) string {
	if !g.Chance(3) {
		return s
	}
	return strings.ReplaceAll(s, " ", g.ws(1))
}

func genIdent(g *G) identCase {
	c := identCase{}
	name, email := g.name(), g.email()
	if len(name) > 1 && g.Chance(8) {
		// bytes that git would not print, but a name may have
		i := g.Int(1, len(name)-1)
		letter := func(c byte) bool { return 'a' <= c|32 && c|32 <= 'z' }
		for ; i < len(name) && !(letter(name[i-1]) && letter(name[i])); i++ {
		}
		if i == len(name) {
			name, i = "name", 2
		}
		name = name[:i] + pick(g, pick(g, [][]string{ctlSpecials, badSpecials})) + name[i:]
	}
	at := strings.Contains(email, "@")
	if i := strings.IndexByte(email, '@'); i > 0 && g.Chance(8) {
		p := pick(g, pick(g, [][]string{ctlSpecials, badSpecials}))
		if strings.IndexFunc(p, unicode.IsSpace) < 0 {
			email = email[:i+1] + "h" + p + "h" + email[i+1:]
		}
	}
	switch g.Int(0, 11) {
	case 10:
		c.Form = "name and bare address"
		if !at {
			email = "a@b"
		}
		c.S = BS(g.ws(0) + g.spread(name) + g.ws(1) + email + g.ws(0))
	case 11:
		c.Form = "comment and quoted name"
		n2 := fixName(strings.NewReplacer("(", "", ")", "", `\`, "").Replace(g.name()))
		com, plain := g.mailComment()
		c.S = BS(com + ` "` + n2 + `" <` + email + ">")
		name = plain + " " + n2
		if strings.HasSuffix(name, ")") {
			c.S, name = BS("x "+string(c.S)), "x "+name
		}
	case 0:
		c.Form = "plain"
		c.S = BS(g.ws(0) + g.spread(name) + g.ws(1) + "<" + email + ">" + g.ws(0))
	case 1:
		c.Form = "no space"
		c.S = BS(name + "<" + email + ">")
	case 2:
		c.Form = "bare address"
		if !at {
			email = "a@b"
		}
		name = email
		c.S = BS(g.ws(0) + email + g.ws(0))
	case 3:
		c.Form = "bracketed address"
		name = email
		c.S = BS(g.ws(0) + pick(g, []string{"", "", `""`, `"" `, "() "}) + "<" + email + ">" + g.ws(0))
	case 4, 5:
		c.Form = "quoted"
		name = g.quotable(name)
		var b strings.Builder
		for i := 0; i < len(name); i++ {
			if name[i] == '"' || name[i] == '\\' || (g.Chance(6) && !isSp(name[i])) {
				b.WriteByte('\\')
			}
			b.WriteByte(name[i])
		}
		c.S = BS(g.ws(0) + `"` + g.spread(b.String()) + `"` + g.ws(0) + "<" + email + ">" + g.ws(0))
	case 6:
		c.Form = "partly quoted"
		n2 := fixName(strings.NewReplacer("(", "", ")", "", `\`, "").Replace(g.name()))
		a := strings.NewReplacer("(", "", ")", "", `\`, "").Replace(name)
		c.S = BS(a + ` "` + n2 + `" <` + email + ">")
		name = a + " " + n2
	case 7:
		c.Form = "address (name)"
		if !at {
			email = "a@b"
		}
		name = g.quotable(name)
		var b strings.Builder
		for i := 0; i < len(name); i++ {
			if strings.IndexByte(`()\`, name[i]) >= 0 || (g.Chance(6) && !isSp(name[i])) {
				b.WriteByte('\\')
			}
			b.WriteByte(name[i])
		}
		c.S = BS(g.ws(0) + pick(g, []string{email, "<" + email + ">"}) + g.ws(1) + "(" + g.spread(b.String()) + ")" + g.ws(0))
	case 8:
		c.Form = "trailing comment"
		if !at {
			email = "a@b"
		}
		com, plain := g.mailComment()
		if g.Chance(5) {
			com = pick(g, []string{"II", "trailing words"})
			plain = com
		}
		name = strings.NewReplacer("(", "", ")", "").Replace(name)
		c.S = BS(name + " <" + email + "> " + com)
		name += " " + plain
	default:
		c.Form = "empty address"
		email = ""
		c.S = BS(g.ws(0) + name + g.ws(0) + "<" + g.ws(0) + ">" + g.ws(0))
	}
	if !at && (c.Form == "plain") && g.Bool() {
		// white space inside the brackets of an address without '@'
		c.S = BS(strings.Replace(string(c.S), "<"+email+">", "< "+email+"  >", 1))
	}
	n, e := wantIdent(name, email)
	c.Name, c.Email = BS(n), BS(e)
	return c
}

// mailComment returns a comment as it is written and what it stands for, with the
// outer parentheses.
func (g *G) mailComment() (written, plain string) {
	var w, p strings.Builder
	depth := 0
	sp := true // no white space here
	open := func() { w.WriteByte('('); p.WriteByte('('); depth++ }
	open()
	for i, n := 0, g.Int(0, 9); i < n; i++ {
		was := sp
		sp = false
		switch g.Int(0, 9) {
		case 0:
			open()
			sp = true
		case 1:
			if depth > 1 && !was {
				w.WriteByte(')')
				p.WriteByte(')')
				depth--
			}
		case 2, 3:
			x := pick(g, []string{"(", ")", `"`, `\`, "a", "(", ")"})
			w.WriteString(`\` + x)
			p.WriteString(x)
		case 4:
			w.WriteByte('"')
			p.WriteByte('"')
		case 5, 6:
			if !was {
				w.WriteByte(' ')
				p.WriteByte(' ')
			}
			sp = true
		default:
			x := pick(g, []string{"c", "Phd", "\u00e9", "1", ".", "'", "x"})
			w.WriteString(x)
			p.WriteString(x)
		}
	}
	if sp && depth > 0 {
		w.WriteByte('e')
		p.WriteByte('e')
	}
	for ; depth > 0; depth-- {
		w.WriteByte(')')
		p.WriteByte(')')
	}
	return w.String(), p.String()
}

// quotable adds characters that only quoting lets through.
func (g *G) quotable(name string) string {
	if g.Bool() {
		name += pick(g, []string{` "Nick" x`, ` a\b`, ` (c) d`, ` \`, ` "`, `x)`, `(`, ` \"`, `, Inc.`})
	}
	if strings.HasPrefix(name, "(") && strings.HasSuffix(name, ")") {
		name = "x" + name
	}
	return name
}

func checkIdentCase(c *identCase, o *Obs) error {
	o.NT()
	o.Label(c.Form)
	id, err := gitdiff.ParsePatchIdentity(string(c.S))
	if c.Err {
		if err == nil {
			return fmt.Errorf("%q is accepted as %q <%q>", c.S, id.Name, id.Email)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%q: %v", c.S, err)
	}
	if id.Name != string(c.Name) || id.Email != string(c.Email) {
		return fmt.Errorf("%q is split into %q and %q, want %q and %q", c.S, id.Name, id.Email, c.Name, c.Email)
	}
	return nil
}

type identRT struct{ Name, Email BS }

func genIdentRT(g *G) identRT {
	c := identRT{BS(collapse(g.name())), BS(g.email())}
	switch g.Int(0, 9) {
	case 0:
		c.Name = ""
	case 1:
		c.Email = ""
	case 2:
		c.Name = c.Email
	}
	if c.Name == "" && c.Email == "" {
		c.Email = "a@b"
	}
	return c
}

func checkIdentRT(c *identRT, o *Obs) error {
	o.NT()
	id := gitdiff.PatchIdentity{Name: string(c.Name), Email: string(c.Email)}
	s := id.String()
	want := string(c.Name)
	if want == "" {
		want = `""`
	}
	if want += " <" + string(c.Email) + ">"; s != want {
		return fmt.Errorf("formatted as %q, want %q", s, want)
	}
	back, err := gitdiff.ParsePatchIdentity(s)
	if err != nil {
		return fmt.Errorf("%q: %v", s, err)
	}
	if id.Name == "" {
		id.Name = id.Email
	}
	if back != id {
		return fmt.Errorf("%q parses to %q <%q>, want %q <%q>", s, back.Name, back.Email, id.Name, id.Email)
	}
	return nil
}

// git's own idea of the author of a mail
type gitIdent struct{ S BS }

var gitIdentTokens = []string{" ", " ", "A", "Thor", "\"", "\"", "(", ")", "(c)", "<", ">", "<a@b>", "<a@b>", "a@b", "@", "\\", ",", "J.", "\xc3\xa9", "<x>", "<>"}

func genGitIdent(g *G) gitIdent {
	if g.Chance(3) {
		c := genIdent(g)
		if !strings.ContainsAny(string(c.S), "\r\n") {
			return gitIdent{c.S}
		}
	}
	var b strings.Builder
	for i, n := 0, g.Int(1, 8); i < n; i++ {
		b.WriteString(pick(g, gitIdentTokens))
	}
	return gitIdent{BS(b.String())}
}

// closed tells whether quotes and comments are; where they are not, git reads
// beyond the end of its buffer.
func closed(s string) bool {
	quote, depth := false, 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && (quote || depth > 0):
			i++
			if i == len(s) {
				return false
			}
		case s[i] == '"' && depth == 0:
			quote = !quote
		case s[i] == '(' && !quote:
			depth++
		case s[i] == ')' && !quote && depth > 0:
			depth--
		}
	}
	return !quote && depth == 0
}

func noSpace(s string) string { return strings.ReplaceAll(s, " ", "") }

func checkGitIdent(c *gitIdent, o *Obs) error {
	s := strings.Trim(string(c.S), " \t")
	if !strings.Contains(s, "@") || !closed(s) || strings.Contains(s, "=?") || strings.Contains(s, "\x00") {
		return nil
	}
	// other brackets than those around the address: git goes its own way
	if l, r := strings.IndexByte(s, '<'), strings.IndexByte(s, '>'); strings.Count(s, "<") > 1 || strings.Count(s, ">") > 1 || (l < 0) != (r < 0) || l > r || l >= 0 && !strings.Contains(s[l:r], "@") {
		return nil
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	in := "From: " + s + "\nSubject: x\n\nbody\n---\n"
	out := mustGit(dir, in, nil, "mailinfo", "msg", "patch")
	var name, email string
	got := false
	for _, l := range splitLines(out) {
		l = strings.TrimSuffix(l, "\n")
		if v, ok := strings.CutPrefix(l, "Author: "); ok {
			name, got = v, true
		}
		if v, ok := strings.CutPrefix(l, "Email: "); ok {
			email = v
		}
	}
	id, err := gitdiff.ParsePatchIdentity(s)
	if strings.TrimSpace(name) == "" || name == email && len(id.Name) >= 60 {
		return nil // git has none, or thinks it too long
	}
	if !got || err != nil {
		return fmt.Errorf("%q: git has %v, %q and %q, here %v, %q and %q", s, got, name, email, err, id.Name, id.Email)
	}
	if noSpace(id.Name) != noSpace(name) || id.Email != email {
		return fmt.Errorf("%q is split into %q and %q, git has %q and %q", s, id.Name, id.Email, name, email)
	}
	o.NT()
	return nil
}

func enumNoIdent(tier string, yield func(identCase) bool) {
	toks := []string{"", " ", "\t", "\n", "\r", "<", ">", "<>", `"`, `""`, "()", "< >"}
	for _, a := range toks {
		for _, b := range toks {
			for _, d := range toks {
				s := a + b + d
				// nothing but white space, quotes, comments and brackets
				if !yield(identCase{S: BS(s), Err: true, Form: "nothing"}) {
					return
				}
			}
		}
	}
}

func checkNoIdent(c *identCase, o *Obs) error {
	o.NT()
	id, err := gitdiff.ParsePatchIdentity(string(c.S))
	if err == nil {
		// brackets and parentheses can themselves become a name only if they
		// are not the delimiters of an empty address or comment
		plain := strings.NewReplacer(" ", "", "\t", "", "\n", "", "\r", "", `"`, "").Replace(string(c.S))
		if plain == "" || plain == "<>" || plain == "()" || plain == "<>()" || plain == "()<>" {
			return fmt.Errorf("%q is accepted as %q <%q>", c.S, id.Name, id.Email)
		}
		if id.Name == "" && id.Email == "" {
			return fmt.Errorf("%q is accepted without name and address", c.S)
		}
	}
	// the same in a header
	if s := string(c.S); !strings.ContainsAny(s, "\r\n") {
		hs := []string{"commit 1\nAuthor: " + s + "\n\n    t\n", "commit 1\nAuthor: a@b\nCommit: " + s + "\n\n    t\n"}
		if strings.TrimSpace(s) != "" {
			hs = append(hs, "From: "+s+"\nSubject: x\n", "From 0123456 Mon Sep 17 00:00:00 2001\nFrom: "+s+"\n\nbody\n")
		}
		for _, h := range hs {
			if _, herr := gitdiff.ParsePatchHeader(h); (herr == nil) != (err == nil) {
				return fmt.Errorf("the identity alone gives the error %v, the header %q the error %v", err, h, herr)
			}
		}
	}
	return nil
}

func init() {
	pg := Gen("git-log", 5000, 300000, genPrettyGit, checkPrettyGit)
	pg.Avail = haveTool("git")
	register(&Prop{ID: "C25", Rule: "commits with generated identities, dates and messages, shown by git log and by a model of it in the four formats with every date format; non-trivial: a message or dates to parse",
		Subs: []*Sub{Gen("model", 40000, 2000000, genPrettyModel, checkPrettyModel), pg}})
	register(&Prop{ID: "C32", Rule: "damaged headers of every format, soup of header, identity and date tokens, and inputs of a megabyte of one repeated piece, under a bound on allocation and time; non-trivial: parsed without error, or the input is large",
		Subs: []*Sub{
			Gen("header", 120000, 4000000, genC32header, checkC32),
			Gen("identity", 120000, 4000000, genC32ident, checkC32),
			Gen("date", 60000, 2000000, genC32date, checkC32),
			Gen("scale", 1600, 40000, genC32scale, checkC32scale),
		}})
	mg := Gen("format-patch", 5000, 300000, genMailGit, checkMailGit)
	mg.Avail = haveTool("git")
	register(&Prop{ID: "C26", Rule: "commits exported by git format-patch and git log --pretty=email under generated options, and generated mails; non-trivial: there is a subject",
		Subs: []*Sub{Gen("model", 40000, 2000000, genMailModel, checkMailModel), Gen("encoded", 30000, 1000000, genEnc, checkEnc), mg}})
	mi := Gen("mailinfo", 2500, 100000, genMailinfo, checkMailinfo)
	mi.Avail = haveTool("git")
	register(&Prop{ID: "C27", Rule: "all short sequences of subject tokens and random longer ones in every mode, and git mailinfo on the same; non-trivial: something is removed, or the mode removes nothing",
		Subs: []*Sub{Enum("tokens", enumC27, checkSubject), Gen("random", 60000, 2000000, genSubject, checkSubject), mi}})
	register(&Prop{ID: "C28", Rule: "instants, zones and local zones printed in every format by a calendar of its own, and strings with one impossible field or no format at all; non-trivial: every case",
		Subs: []*Sub{
			Enum("calendar", enumC28, checkC28),
			Gen("random", 120000, 4000000, genC28, checkC28),
			Gen("invalid", 60000, 2000000, genBadDate, checkBadDate),
			Enum("empty", func(_ string, yield func(emptyDate) bool) { yield(emptyDate{}) }, func(_ *emptyDate, o *Obs) error {
				o.NT()
				t, err := gitdiff.ParsePatchDate("")
				if err != nil || !t.IsZero() {
					return fmt.Errorf("the empty string gives %v, %v", t, err)
				}
				return nil
			}),
		}})
	gi := Gen("mailinfo", 10000, 400000, genGitIdent, checkGitIdent)
	gi.Avail = haveTool("git")
	register(&Prop{ID: "C29", Rule: "names and addresses written in every form an identity has, formatted identities, and strings with neither; non-trivial: every case",
		Subs: []*Sub{
			Gen("forms", 120000, 4000000, genIdent, checkIdentCase),
			Gen("round-trip", 60000, 2000000, genIdentRT, checkIdentRT),
			Enum("nothing", enumNoIdent, checkNoIdent), gi,
		}})
}
