package main

import (
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// refParse is a second parser for patches, written from the properties and
// git's format. It says what parsing any text must give, or that the text is
// of a kind the properties leave open.
type refParser struct {
	ls    []string // lines with their newline
	i     int
	files []*gitdiff.File
	pre   string
	open  string // why the outcome is not determined
}

var errRef = errors.New("malformed")

func refParse(in string) (files []*gitdiff.File, pre string, failed bool, open string) {
	p := &refParser{ls: splitLines(in)}
	err := p.parse()
	return p.files, p.pre, err != nil, p.open
}

func (p *refParser) at(k int) string {
	if p.i+k < len(p.ls) {
		return p.ls[p.i+k]
	}
	return ""
}

func (p *refParser) leave(why string) { // the properties say nothing here
	if p.open == "" {
		p.open = why
	}
}

func (p *refParser) parse() error {
	for {
		start := p.i
		f, err := p.header()
		if err != nil {
			return err
		}
		if len(p.files) == 0 {
			end := len(p.ls)
			if f != nil {
				end = p.hdrAt(start)
			}
			p.pre = strings.Join(p.ls[start:end], "")
		}
		if f == nil {
			return nil
		}
		for {
			h, ok := refHunkHeader(p.at(0))
			if !strings.HasPrefix(p.at(0), "@@ -") {
				break
			}
			if !ok {
				return errRef
			}
			if f.IsNew && h.OldLines > 0 || f.IsDelete && h.NewLines > 0 {
				return errRef
			}
			p.i++
			if err := p.hunk(h); err != nil {
				return err
			}
			f.TextFragments = append(f.TextFragments, h)
		}
		if len(f.TextFragments) == 0 {
			if err := p.binary(f); err != nil {
				return err
			}
		}
		p.files = append(p.files, f)
	}
}

// hdrAt finds the header that header() has just consumed, from line i on.
func (p *refParser) hdrAt(i int) int {
	q := *p
	for q.i = i; !q.headerHere(); q.i++ {
	}
	return q.i
}

func (p *refParser) headerHere() bool {
	a := p.at(0)
	return strings.HasPrefix(a, "diff --git ") ||
		strings.HasPrefix(a, "--- ") && strings.HasPrefix(p.at(1), "+++ ") && strings.HasPrefix(p.at(2), "@@ -") && len(p.at(2)) >= len("@@ -1 +1 @@\n")
}

func (p *refParser) header() (*gitdiff.File, error) {
	for ; p.i < len(p.ls); p.i++ {
		if !p.headerHere() {
			if _, ok := refHunkHeader(p.at(0)); ok {
				return nil, errRef
			}
			continue
		}
		if strings.HasPrefix(p.at(0), "--- ") {
			return p.traditional()
		}
		return p.git()
	}
	return nil, nil
}

func (p *refParser) traditional() (*gitdiff.File, error) {
	var names [2]string
	var stamps [2]bool
	for k := 0; k < 2; k++ {
		l := strings.TrimSuffix(p.at(k)[4:], "\n")
		n, err := p.name(l, true)
		if err != nil {
			return nil, err
		}
		if n != "/dev/null" {
			n = squash(n)
		}
		names[k] = n
		if t := strings.IndexByte(l, '\t'); t >= 0 {
			stamps[k] = p.epoch(l[t+1:])
		}
	}
	p.i += 2
	f := &gitdiff.File{}
	switch {
	case names[0] == "/dev/null" || stamps[0]:
		f.IsNew, f.NewName = true, names[1]
		if names[1] == "/dev/null" {
			p.leave("both sides are missing")
		}
	case names[1] == "/dev/null" || stamps[1]:
		f.IsDelete, f.OldName = true, names[0]
	case strings.HasPrefix(names[1], names[0]):
		f.OldName, f.NewName = names[0], names[0]
	default:
		f.OldName, f.NewName = names[1], names[1]
	}
	return f, nil
}

func squash(s string) string {
	for strings.Contains(s, "//") {
		s = strings.ReplaceAll(s, "//", "/")
	}
	return s
}

// epoch tells whether a time stamp is the Unix epoch.
func (p *refParser) epoch(s string) bool {
	if !strings.Contains(s, "19") {
		return false
	}
	odd := func() bool {
		// readers differ in how much they forgive
		if strings.HasPrefix(s, "1970-") || strings.HasPrefix(s, "1969-") {
			p.leave("an odd time stamp")
		}
		return false
	}
	num := func(i, n int) int {
		v := 0
		for _, c := range []byte(s[i : i+n]) {
			if c < '0' || c > '9' {
				v = -1 << 20
			}
			v = v*10 + int(c-'0')
		}
		return v
	}
	const form = "1970-01-01 00:00:00"
	ok := len(s) > len(form)
	for i := 0; ok && i < len(form); i++ {
		c := form[i]
		if c < '0' || c > '9' {
			ok = s[i] == c
		} else {
			ok = s[i] >= '0' && s[i] <= '9'
		}
	}
	if !ok {
		return odd()
	}
	y, mo, d, h, mi, sec := num(0, 4), num(5, 2), num(8, 2), num(11, 2), num(14, 2), num(17, 2)
	rest := s[len(form):]
	frac := false
	if rest[0] == '.' {
		n := 1
		for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
			frac = frac || rest[n] != '0'
			n++
		}
		if n == 1 || n > 10 {
			return odd()
		}
		rest = rest[n:]
	}
	z := strings.Replace(rest, ":", "", 1)
	if len(z) != 6 || z[0] != ' ' || z[1] != '+' && z[1] != '-' || strings.Trim(z[2:], "0123456789") != "" || len(rest) == 7 && rest[4] != ':' {
		return odd()
	}
	zh, zm := int(z[2]-'0')*10+int(z[3]-'0'), int(z[4]-'0')*10+int(z[5]-'0')
	if zh > 23 || zm > 59 || mo < 1 || mo > 12 || d < 1 || d > 31 || h > 23 || mi > 59 || sec > 59 {
		return odd()
	}
	off := (zh*60 + zm) * 60
	if z[1] == '-' {
		off = -off
	}
	days := 0
	switch {
	case y == 1970 && mo == 1:
		days = d - 1
	case y == 1969:
		if mo < 12 {
			return false
		}
		days = d - 32
	default:
		return false
	}
	return days*86400+h*3600+mi*60+sec == off && !frac
}

// name reads a name at the start of a header line without its newline.
func (p *refParser) name(s string, tab bool) (string, error) {
	if strings.HasPrefix(s, `"`) {
		n, rest, err := p.unquote(s)
		if err == nil && rest != "" && rest[0] != '\t' {
			p.leave("text after a quoted name")
		}
		return n, err
	}
	if tab {
		s, _, _ = strings.Cut(s, "\t")
	}
	if s == "" {
		return "", errRef
	}
	return s, nil
}

// unquote reads a name in C quotes.
func (p *refParser) unquote(s string) (name, rest string, err error) {
	var b []byte
	i := 1
	for {
		if i >= len(s) {
			return "", "", errRef
		}
		c := s[i]
		i++
		if c == '"' {
			break
		}
		if c != '\\' {
			b = append(b, c)
			continue
		}
		if i >= len(s) {
			return "", "", errRef
		}
		c = s[i]
		i++
		if k := strings.IndexByte("abfnrtv\\\"", c); k >= 0 {
			b = append(b, "\a\b\f\n\r\t\v\\\""[k])
			continue
		}
		if c >= '0' && c <= '7' {
			if i+2 > len(s) || s[i] < '0' || s[i] > '7' || s[i+1] < '0' || s[i+1] > '7' || c > '3' {
				return "", "", errRef
			}
			b = append(b, (c-'0')<<6|(s[i]-'0')<<3|(s[i+1]-'0'))
			i += 2
			continue
		}
		if strings.IndexByte("xuU", c) >= 0 {
			p.leave("an escape git does not write")
		}
		return "", "", errRef
	}
	if len(b) == 0 {
		return "", "", errRef
	}
	return string(b), s[i:], nil
}

func oneOff(s string) string { // without its first component
	_, r, _ := strings.Cut(s, "/")
	return r
}

// defaultName is the name that both sides of a git header line agree on.
func (p *refParser) defaultName(s string) (string, error) {
	if strings.Contains(s, "//") || strings.Contains(s, " /") {
		p.leave("slashes in the header line")
	}
	qt := strings.IndexByte(s, '"')
	if qt < 0 {
		l := oneOff(s)
		// the first separator with the same name before and after it; the
		// second name starts after a slash
		for i := 0; i+1 < len(l); i++ {
			if l[i] != ' ' && l[i] != '\t' {
				continue
			}
			k := strings.IndexByte(l[i:], '/')
			if k >= 0 && l[i+k+1:] == l[:i] {
				return l[:i], nil
			}
		}
		return "", nil
	}
	var a, b string
	var err error
	if qt == 0 {
		var rest string
		if a, rest, err = p.unquote(s); err != nil {
			return "", err
		}
		b = strings.TrimLeft(rest, " \t")
		if rest != "" && b == rest {
			p.leave("no space after a quoted name")
		}
		if b == "" {
			return "", nil
		}
		if b[0] == '"' {
			if b, rest, err = p.unquote(b); err != nil {
				return "", err
			} else if rest != "" {
				p.leave("text after a quoted name")
			}
		}
	} else {
		if s[qt-1] != ' ' && s[qt-1] != '\t' {
			p.leave("a quote inside a name")
			return "", errRef
		}
		a = s[:qt-1]
		var rest string
		if b, rest, err = p.unquote(s[qt:]); err != nil {
			return "", err
		} else if rest != "" {
			p.leave("text after a quoted name")
		}
	}
	if a = oneOff(a); a == oneOff(b) {
		return a, nil
	}
	return "", nil
}

func (p *refParser) git() (*gitdiff.File, error) {
	l := strings.TrimSuffix(strings.TrimPrefix(p.at(0), "diff --git "), "\n")
	def, err := p.defaultName(l)
	if err != nil {
		return nil, err
	}
	p.i++
	f := &gitdiff.File{}
	var from, to string // by rename and copy lines
	seen := map[string]bool{}
	last := 0
	const null = "/dev/null"
	order := []string{"old mode ", "new mode ", "deleted file mode ", "new file mode ", "similarity index ", "dissimilarity index ", "rename from ", "rename to ", "copy from ", "copy to ", "rename old ", "rename new ", "index ", "--- ", "+++ "}
	for ; p.i < len(p.ls); p.i++ {
		l := strings.TrimSuffix(p.ls[p.i], "\n")
		key, rank := "", 0
		for k, o := range order {
			if strings.HasPrefix(l, o) {
				key, rank = o, k+1
			}
		}
		if key == "" {
			break
		}
		if seen[key] || rank < last {
			p.leave("header lines repeated or in another order")
		}
		seen[key], last = true, rank
		v := l[len(key):]
		switch key {
		case "old mode ", "new mode ", "deleted file mode ", "new file mode ":
			m, err := p.mode(v)
			if err != nil {
				return nil, err
			}
			switch key {
			case "old mode ":
				f.OldMode = m
			case "new mode ":
				f.NewMode = m
			case "deleted file mode ":
				f.OldMode, f.IsDelete, f.OldName = m, true, def
			default:
				f.NewMode, f.IsNew, f.NewName = m, true, def
			}
		case "similarity index ", "dissimilarity index ":
			v = strings.TrimSuffix(v, "%")
			if v == "" || strings.Trim(v, "0123456789") != "" {
				return nil, errRef
			}
			n, err := strconv.Atoi(v)
			if err != nil || n > 100 {
				p.leave("a score above 100")
				if err != nil || n > 1<<31-1 {
					return nil, errRef
				}
			} else {
				f.Score = n
			}
		case "rename from ", "rename to ", "copy from ", "copy to ", "rename old ", "rename new ":
			n, err := p.name(v, false)
			if err != nil {
				return nil, err
			}
			if n != null {
				n = squash(n)
			}
			if key[0] == 'r' {
				f.IsRename = true
			} else {
				f.IsCopy = true
			}
			if strings.HasSuffix(key, "from ") || strings.HasSuffix(key, "old ") {
				from, f.OldName = n, n
			} else {
				to, f.NewName = n, n
			}
		case "index ":
			ids, m, has := strings.Cut(v, " ")
			var ok bool
			if f.OldOIDPrefix, f.NewOIDPrefix, ok = strings.Cut(ids, ".."); !ok {
				return nil, errRef
			}
			if f.OldOIDPrefix == "" || f.NewOIDPrefix == "" || strings.Contains(f.NewOIDPrefix, "..") {
				p.leave("odd object ids")
			}
			if has {
				m, err := p.mode(m)
				if err != nil {
					return nil, err
				}
				if seen["old mode "] || seen["deleted file mode "] {
					p.leave("two modes")
				}
				f.OldMode = m
			}
		default:
			n, err := p.name(v, true)
			if err != nil {
				return nil, err
			}
			if n != null {
				for strings.Contains(n, "//") {
					n = squash(n)
				}
				if _, r, ok := strings.Cut(n, "/"); ok {
					n = r
				}
				if n == "" {
					p.leave("an empty name")
				}
			} else if strings.HasPrefix(v, `"`) {
				p.leave("a quoted null device")
			}
			side, missing := &f.OldName, f.IsNew
			if key == "+++ " {
				side, missing = &f.NewName, f.IsDelete
			}
			switch {
			case missing:
				if n != null || *side != "" {
					return nil, errRef
				}
			case *side == "":
				if n == null {
					p.leave("the null device as a name")
				}
				*side = n
			case *side != n:
				return nil, errRef
			}
		}
		if f.IsNew && f.IsDelete || (f.IsNew || f.IsDelete) && (f.IsRename || f.IsCopy) || f.IsRename && f.IsCopy {
			p.leave("a contradictory header")
		}
	}
	if (from == "") != (to == "") && (seen["--- "] || seen["+++ "]) {
		p.leave("half a rename")
	}
	if f.OldName == "" && f.NewName == "" {
		f.OldName, f.NewName = def, def
		if f.IsNew || f.IsDelete {
			p.leave("an empty name")
		}
	}
	if f.NewName == "" && !f.IsDelete || f.OldName == "" && !f.IsNew {
		return nil, errRef
	}
	return f, nil
}

func (p *refParser) mode(s string) (os.FileMode, error) {
	s = strings.TrimSuffix(s, "\r") // of CRLF line endings
	if t := strings.TrimSpace(s); t != s && t != "" {
		p.leave("space around a mode")
		return 0, errRef
	}
	if s == "" || strings.Trim(s, "01234567") != "" {
		return 0, errRef
	}
	n, err := strconv.ParseUint(s, 8, 64)
	if err != nil || n >= 1<<31 {
		return 0, errRef
	}
	return os.FileMode(n), nil
}

func refHunkHeader(l string) (*gitdiff.TextFragment, bool) {
	if !strings.HasPrefix(l, "@@ -") {
		return nil, false
	}
	r, comment, ok := strings.Cut(l[4:], " @@")
	if !ok {
		return nil, false
	}
	a, b, ok := strings.Cut(r, " +")
	if !ok {
		return nil, false
	}
	h := &gitdiff.TextFragment{Comment: strings.TrimSpace(comment)}
	pair := func(s string) (x, n int64, ok bool) {
		num := func(s string) (int64, bool) {
			if s == "" || strings.Trim(s, "0123456789") != "" {
				return 0, false
			}
			n, err := strconv.ParseInt(s, 10, 64)
			return n, err == nil
		}
		s, c, has := strings.Cut(s, ",")
		if x, ok = num(s); !ok {
			return
		}
		n = 1
		if has {
			n, ok = num(c)
		}
		return
	}
	var ok1, ok2 bool
	h.OldPosition, h.OldLines, ok1 = pair(a)
	h.NewPosition, h.NewLines, ok2 = pair(b)
	return h, ok1 && ok2
}

func (p *refParser) hunk(h *gitdiff.TextFragment) error {
	marker := func(l string) bool { return strings.HasPrefix(l, "\\ ") && len(l) >= 12 }
	chop := func() {
		if n := len(h.Lines); n > 0 {
			h.Lines[n-1].Line = strings.TrimSuffix(h.Lines[n-1].Line, "\n")
		}
	}
	var old, now int64
	for old < h.OldLines || now < h.NewLines {
		l := p.at(0)
		if l == "" {
			return errRef
		}
		if l[0] == '\\' {
			if !marker(l) {
				return errRef
			}
			chop()
			p.i++
			continue
		}
		if l == "\n" {
			l = " \n"
		}
		k := strings.IndexByte(" -+", l[0])
		if k < 0 {
			return errRef
		}
		h.Lines = append(h.Lines, gitdiff.Line{Op: []gitdiff.LineOp{gitdiff.OpContext, gitdiff.OpDelete, gitdiff.OpAdd}[k], Line: l[1:]})
		if k != 2 {
			old++
		}
		if k != 1 {
			now++
		}
		p.i++
	}
	if old != h.OldLines || now != h.NewLines {
		return errRef
	}
	if marker(p.at(0)) {
		if len(h.Lines) == 0 {
			return errRef
		}
		chop()
		p.i++
	}
	first, final := -1, 0
	for i, l := range h.Lines {
		switch l.Op {
		case gitdiff.OpAdd:
			h.LinesAdded++
		case gitdiff.OpDelete:
			h.LinesDeleted++
		default:
			continue
		}
		if first < 0 {
			first = i
		}
		final = i
	}
	if first < 0 {
		return errRef
	}
	h.LeadingContext = int64(first)
	h.TrailingContext = int64(len(h.Lines) - 1 - final)
	return nil
}

func (p *refParser) binary(f *gitdiff.File) error {
	l := p.at(0)
	if strings.HasSuffix(l, " differ\n") && (strings.HasPrefix(l, "Binary files ") || strings.HasPrefix(l, "Files ")) {
		f.IsBinary = true
		p.i++
		return nil
	}
	if l != "GIT binary patch\n" {
		return nil
	}
	f.IsBinary = true
	p.i++
	for k := 0; k < 2; k++ {
		l := strings.TrimSuffix(p.at(0), "\n")
		word, size, ok := strings.Cut(l, " ")
		if !ok || word != "literal" && word != "delta" {
			if k == 0 {
				return errRef
			}
			return nil
		}
		if size != "" && size[0] == '+' {
			p.leave("a sign in a size")
		}
		n, err := strconv.ParseInt(size, 10, 64)
		if err != nil || n < 0 || size[0] == '-' {
			if err == nil && n == 0 {
				p.leave("a sign in a size")
			}
			return errRef
		}
		p.i++
		b := &gitdiff.BinaryFragment{Size: n, Method: gitdiff.BinaryPatchLiteral}
		if word == "delta" {
			b.Method = gitdiff.BinaryPatchDelta
		}
		for ; p.at(0) != "\n"; p.i++ {
			d, ok := refDataLine(p.at(0))
			if !ok {
				return errRef
			}
			b.RawData = append(b.RawData, d...)
		}
		p.i++
		if k == 0 {
			f.BinaryFragment = b
		} else {
			f.ReverseBinaryFragment = b
		}
	}
	return nil
}

// refDataLine decodes one line of binary data.
func refDataLine(l string) ([]byte, bool) {
	const alphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"
	l, ok := strings.CutSuffix(l, "\n")
	if !ok || len(l) < 6 || len(l)%5 != 1 {
		return nil, false
	}
	n := 0
	switch c := l[0]; {
	case c >= 'A' && c <= 'Z':
		n = int(c-'A') + 1
	case c >= 'a' && c <= 'z':
		n = int(c-'a') + 27
	default:
		return nil, false
	}
	var out []byte
	for i := 1; i < len(l); i += 5 {
		v := uint64(0)
		for _, c := range []byte(l[i : i+5]) {
			k := strings.IndexByte(alphabet, c)
			if k < 0 {
				return nil, false
			}
			v = v*85 + uint64(k)
		}
		if v > 1<<32-1 {
			return nil, false
		}
		out = append(out, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	if n > len(out) || n <= len(out)-4 {
		return nil, false
	}
	return out[:n], true
}

// checkRef compares the library with the reference parser on any text.
func checkRef(in string, o *Obs) error {
	want, pre, failed, open := refParse(in)
	if open != "" {
		o.Label("open: " + open)
		return nil
	}
	files, gotPre, err := parseString(in)
	switch {
	case failed && err == nil:
		return fmt.Errorf("accepted a malformed patch after %d files\n%s", len(want), q(in))
	case !failed && err != nil:
		return fmt.Errorf("refused a well-formed patch: %v\n%s", err, q(in))
	}
	if d := diffFileLists(files, want); d != "" {
		return fmt.Errorf("%s\n%s", d, q(in))
	}
	if (err == nil || len(want) > 0) && gotPre != pre {
		return fmt.Errorf("preamble %s, want %s\n%s", q(gotPre), q(pre), q(in))
	}
	o.NTIf(len(want) > 0)
	o.LabelIf(failed, "malformed")
	o.LabelIf(!failed, "well-formed")
	o.LabelIf(len(want) > 1, "several files")
	return nil
}
