package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C24

type treeFile struct {
	Path BS
	Mode uint32
	Data BS // file content, link target or commit id
}

type diffCase struct {
	Old, New []treeFile
	Conf     []string `json:",omitempty"`
	Args     []string `json:",omitempty"`
	SHA256   bool     `json:",omitempty"`
	Stat     string   `json:",omitempty"` // a summary in front of the patch
}

func (c *diffCase) has(arg string) bool {
	for _, a := range c.Args {
		if a == arg {
			return true
		}
	}
	return false
}

// bigLines makes content long enough for rename detection.
func (g *G) bigLines() []string {
	n := g.Int(4, 40)
	p := prng(g.Uint64())
	ls := make([]string, n)
	for i := range ls {
		switch p.intn(6) {
		case 0:
			ls[i] = plainLines[p.intn(len(plainLines))] + "\n"
		case 1:
			ls[i] = trickyLines[p.intn(len(trickyLines))] + "\n"
		default:
			ls[i] = fmt.Sprintf("line %d of %x\n", i, p.next()%64)
		}
	}
	if p.intn(4) == 0 && ls[n-1] != "\n" {
		ls[n-1] = strings.TrimSuffix(ls[n-1], "\n")
	}
	return ls
}

func (g *G) fileData() string {
	switch g.Int(0, 9) {
	case 0:
		return ""
	case 1, 2:
		return strings.Join(g.lines(8), "")
	case 3:
		return string(g.payload())
	case 4:
		return "\x00bin" + string(bulk(g.Uint64(), g.Int(0, 3000)))
	default:
		return strings.Join(g.bigLines(), "")
	}
}

// editData changes some of the content.
func (g *G) editData(s string) string {
	if strings.HasPrefix(s, "\x00bin") {
		b := []byte(s)
		for i, n := 0, g.Int(1, 3); i < n; i++ {
			at := g.Int(0, len(b))
			b = append(b[:at:at], append(g.Bytes(0, 5), b[at:]...)...)
		}
		return "\x00bin" + string(b[min(len(b), 4):])
	}
	ls := splitLines(s)
	for i, n := 0, g.Int(1, 5); i < n; i++ {
		at := g.Int(0, len(ls))
		switch g.Int(0, 3) {
		case 0:
			ls = append(ls[:at:at], append([]string{g.line() + "\n"}, ls[at:]...)...)
		case 1:
			if at < len(ls) {
				ls = append(ls[:at:at], ls[at+1:]...)
			}
		case 2:
			if at < len(ls) {
				ls[at] = g.line() + "\n"
			}
		default:
			if len(ls) > 0 && at < len(ls) {
				ls = append(ls[:at:at], append([]string{ls[g.Int(0, len(ls)-1)]}, ls[at:]...)...)
			}
		}
	}
	if len(ls) > 0 {
		// only the last line may lack a newline
		for i := range ls[:len(ls)-1] {
			if !strings.HasSuffix(ls[i], "\n") {
				ls[i] += "\n"
			}
		}
		if g.Chance(6) {
			ls[len(ls)-1] = strings.TrimSuffix(ls[len(ls)-1], "\n")
		}
	}
	return strings.Join(ls, "")
}

// treePath is a path that fits beside the others in a tree.
func (g *G) treePath(used map[string]bool) string {
	for k := 0; ; k++ {
		p := g.path()
		if k > 10 {
			p = fmt.Sprintf("unique%d", len(used))
		}
		ok := !used[p]
		for u := range used {
			if strings.HasPrefix(u, p+"/") || strings.HasPrefix(p, u+"/") {
				ok = false
			}
		}
		if ok {
			used[p] = true
			return p
		}
	}
}

func (g *G) mode() uint32 { return pick(g, []uint32{0o100644, 0o100644, 0o100644, 0o100755}) }

func (g *G) treeFile(used map[string]bool) treeFile {
	f := treeFile{Path: BS(g.treePath(used)), Mode: g.mode(), Data: BS(g.fileData())}
	switch g.Int(0, 11) {
	case 0:
		f.Mode, f.Data = 0o120000, BS(pick(g, []string{"target", "a b", "../x", "\xff", "caf\xc3\xa9", "/dev/null", "x\ny"}))
	case 1:
		f.Mode, f.Data = 0o160000, BS(g.oid(40))
	}
	return f
}

func genC24(g *G) diffCase {
	c := diffCase{}
	used := map[string]bool{}
	for i, n := 0, g.Int(0, 4); i < n; i++ {
		f := g.treeFile(used)
		c.Old = append(c.Old, f)
		nf := f
		op := pick(g, []string{"keep", "edit", "edit", "edit", "chmod", "rename", "rename-edit", "copy", "copy-edit", "delete", "type", "rewrite", "swap"})
		switch op {
		case "delete":
			continue
		case "edit", "rename-edit":
			if f.Mode != 0o160000 {
				nf.Data = BS(g.editData(string(f.Data)))
				if f.Mode == 0o120000 && nf.Data == "" {
					nf.Data = "t"
				}
			} else {
				nf.Data = BS(g.oid(40))
			}
		case "chmod":
			if f.Mode&0o120000 == 0o100000 && f.Mode != 0o160000 {
				nf.Mode = f.Mode ^ 0o111
				if g.Bool() {
					nf.Data = BS(g.editData(string(f.Data)))
				}
			}
		case "type", "rewrite":
			x := g.treeFile(map[string]bool{})
			nf.Mode, nf.Data = x.Mode, x.Data
			if op == "rewrite" {
				nf.Mode, nf.Data = g.mode(), BS(strings.Join(g.bigLines(), ""))
			}
		case "copy", "copy-edit":
			cp := f
			cp.Path = BS(g.treePath(used))
			if op == "copy-edit" && f.Mode != 0o160000 {
				cp.Data = BS(g.editData(string(f.Data)))
				if f.Mode == 0o120000 && cp.Data == "" {
					cp.Data = "t"
				}
			}
			c.New = append(c.New, cp)
			if g.Bool() && f.Mode != 0o160000 && f.Mode != 0o120000 {
				nf.Data = BS(g.editData(string(f.Data)))
			}
		}
		if strings.HasPrefix(op, "rename") {
			delete(used, string(f.Path)) // the old directory may become a file, or so
			nf.Path = BS(g.treePath(used))
			used[string(f.Path)] = true
			if g.Chance(4) && nf.Mode&0o120000 == 0o100000 && nf.Mode != 0o160000 {
				nf.Mode ^= 0o111
			}
			if nf.Path == f.Path {
				nf.Path += "_"
				used[string(nf.Path)] = true
			}
		}
		if op == "swap" && len(c.New) > 0 {
			// exchange contents with the file before
			k := len(c.New) - 1
			nf.Data, c.New[k].Data = c.New[k].Data, nf.Data
			nf.Mode, c.New[k].Mode = c.New[k].Mode, nf.Mode
		}
		c.New = append(c.New, nf)
	}
	for i, n := 0, g.Int(0, 2); i < n; i++ {
		c.New = append(c.New, g.treeFile(used))
	}
	c.New = fixTree(c.New)
	c.Old = fixTree(c.Old)
	c.SHA256 = g.Chance(8)
	for _, grp := range [][]string{
		{"", "", "", "-U0", "-U1", "-U2", "-U10", "-U100"},
		{"", "", "-M", "-M10%", "-C", "-C -C", "--find-copies-harder -C20%", "--no-renames", "-M100%"},
		{"", "", "", "-B", "-B1%/1%", "-B20%/60%"},
		{"", "--binary", "--binary", "--binary", "--full-index", "--binary --full-index"},
		{"", "", "--abbrev=4", "--abbrev=12", "--abbrev=40", "--no-abbrev"},
		{"", "", "", "-R"},
		{"", "", "", "", "-a"},
		{"", "", "", "", "", "-D"},
		{"", "", "", "-W"},
		{"", "", "", "--inter-hunk-context=1", "--inter-hunk-context=5"},
		{"", "", "", "--src-prefix=o/ --dst-prefix=n/", "--src-prefix=long.prefix/ --dst-prefix=x/", "--src-prefix=i/ --dst-prefix=w/"},
		{"", "--patience", "--histogram", "--minimal", "--diff-algorithm=myers", "--no-indent-heuristic", "--anchored=line"},
		{"", "", "", "--irreversible-delete"},
		{"", "", "", "--no-ext-diff --no-textconv"},
	} {
		if a := pick(g, grp); a != "" {
			c.Args = append(c.Args, strings.Fields(a)...)
		}
	}
	for _, a := range c.Args {
		if strings.HasPrefix(a, "-B") {
			// with -D git leaves out the old side of rewrites as well, and
			// the result is no longer a patch
			var args []string
			for _, a := range c.Args {
				if a != "-D" && a != "--irreversible-delete" {
					args = append(args, a)
				}
			}
			c.Args = args
			break
		}
	}
	for _, grp := range []string{"core.quotePath=false", "diff.suppressBlankEmpty=true", "diff.mnemonicPrefix=true", "diff.renames=copies", "core.abbrev=8", "diff.context=5"} {
		if g.Chance(3) {
			c.Conf = append(c.Conf, grp)
		}
	}
	if g.Chance(4) {
		c.Stat = pick(g, []string{"--stat", "--summary", "--numstat", "--shortstat", "--stat --summary", "--raw", "--dirstat"})
	}
	return c
}

// fixTree drops entries that cannot exist beside earlier ones.
func fixTree(t []treeFile) []treeFile {
	var out []treeFile
next:
	for _, f := range t {
		for _, o := range out {
			if f.Path == o.Path || strings.HasPrefix(string(f.Path), string(o.Path)+"/") || strings.HasPrefix(string(o.Path), string(f.Path)+"/") {
				continue next
			}
		}
		out = append(out, f)
	}
	return out
}

type rawRecord struct {
	oldMode, newMode uint32
	oldOID, newOID   string
	status           byte
	score            int
	old, new         string
}

func parseRaw(s string) []rawRecord {
	var out []rawRecord
	fs := strings.Split(s, "\x00")
	for i := 0; i < len(fs) && fs[i] != ""; {
		h := strings.Fields(strings.TrimPrefix(fs[i], ":"))
		if len(h) != 5 {
			infraf("raw record %q", fs[i])
		}
		om, _ := strconv.ParseUint(h[0], 8, 32)
		nm, _ := strconv.ParseUint(h[1], 8, 32)
		r := rawRecord{oldMode: uint32(om), newMode: uint32(nm), oldOID: h[2], newOID: h[3], status: h[4][0]}
		r.score, _ = strconv.Atoi(h[4][1:])
		r.old = fs[i+1]
		r.new = r.old
		i += 2
		if r.status == 'R' || r.status == 'C' {
			r.new = fs[i]
			i++
		}
		out = append(out, r)
	}
	return out
}

// change is one expected file of the patch.
type change struct {
	rawRecord
	oldData, newData string
}

func checkC24(c *diffCase, o *Obs) error {
	kind, init := "sha1", []string{}
	if c.SHA256 {
		kind, init = "sha256", []string{"--object-format=sha256"}
	}
	repo := scratchRepo(kind, init...)
	var in strings.Builder
	for i, t := range [][]treeFile{c.Old, c.New} {
		fmt.Fprintf(&in, "commit refs/heads/t%d\ncommitter C <c@x> 0 +0000\ndata 0\ndeleteall\n", i)
		for _, f := range t {
			name, quoted := cquote(string(f.Path), true)
			if !quoted {
				name = `"` + name + `"`
			}
			if f.Mode == 0o160000 {
				oid := string(f.Data)
				if c.SHA256 {
					oid = strings.Repeat(oid, 2)[:64]
				}
				fmt.Fprintf(&in, "M 160000 %s %s\n", oid, name)
			} else {
				fmt.Fprintf(&in, "M %06o inline %s\ndata %d\n%s\n", f.Mode, name, len(f.Data), f.Data)
			}
		}
		in.WriteString("\n")
	}
	in.WriteString("done\n")
	mustGit(repo, in.String(), nil, "-c", "core.protectNTFS=false", "-c", "core.protectHFS=false", "fast-import", "--quiet", "--force", "--done")
	var base []string
	for _, cf := range c.Conf {
		base = append(base, "-c", cf)
	}
	base = append(base, "diff")
	base = append(base, c.Args...)
	run := func(extra ...string) string {
		return mustGit(repo, "", nil, append(append(base[:len(base):len(base)], extra...), "refs/heads/t0", "refs/heads/t1", "--")...)
	}
	raw := parseRaw(run("--raw", "-z", "--no-abbrev"))
	patch := run(append([]string{"-p"}, strings.Fields(c.Stat)...)...)

	from, to := c.Old, c.New
	if c.has("-R") {
		from, to = to, from
	}
	content := func(t []treeFile, path string) string {
		for _, f := range t {
			if string(f.Path) == path {
				if f.Mode == 0o160000 {
					oid := string(f.Data)
					if c.SHA256 {
						oid = strings.Repeat(oid, 2)[:64]
					}
					return "Subproject commit " + oid + "\n"
				}
				return string(f.Data)
			}
		}
		infraf("no file %q", path)
		return ""
	}
	zero := ""
	var want []change
	for _, r := range raw {
		zero = zeros(len(r.oldOID))
		x := change{rawRecord: r}
		switch r.status {
		case 'A':
			x.newData = content(to, r.new)
			want = append(want, x)
		case 'D':
			x.oldData = content(from, r.old)
			want = append(want, x)
		case 'T':
			d := x
			d.status, d.newMode, d.newOID, d.oldData = 'D', 0, zero, content(from, r.old)
			a := x
			a.status, a.oldMode, a.oldOID, a.newData = 'A', 0, zero, content(to, r.new)
			want = append(want, d, a)
		case 'M', 'R', 'C':
			x.oldData, x.newData = content(from, r.old), content(to, r.new)
			want = append(want, x)
		default:
			infraf("status %c", r.status)
		}
		o.Label("status " + string(r.status))
		o.LabelIf(r.status == 'M' && r.score > 0, "rewrite")
	}
	o.NTIf(len(want) > 0)
	o.LabelIf(len(want) > 1, "several files")

	files, pre, err := parseString(patch)
	if err != nil {
		return fmt.Errorf("Parse failed: %v\n%s", err, q(patch))
	}
	wantPre := patch
	if len(want) > 0 {
		i := 0
		if !strings.HasPrefix(patch, "diff --git ") {
			i = strings.Index(patch, "\ndiff --git ") + 1
		}
		wantPre = patch[:i]
	}
	if pre != wantPre {
		return fmt.Errorf("preamble %s, want %s", q(pre), q(wantPre))
	}
	if len(files) != len(want) {
		return fmt.Errorf("%d files, git reports %d\n%s", len(files), len(want), q(patch))
	}
	for i, w := range want {
		if err := c.checkFile(files[i], w, o); err != nil {
			return fmt.Errorf("file %d (%c %q %q): %v\ngit diff %q\n%s", i+1, w.status, w.old, w.new, err, c.Args, clip(patch, 3000))
		}
	}
	return nil
}

func hasNUL(s string) bool { return strings.IndexByte(s[:min(len(s), 8000)], 0) >= 0 }

func (c *diffCase) checkFile(f *gitdiff.File, w change, o *Obs) error {
	exp := &gitdiff.File{OldName: w.old, NewName: w.new, IsRename: w.status == 'R', IsCopy: w.status == 'C', Score: w.score}
	changed := w.oldOID != w.newOID
	switch w.status {
	case 'A':
		exp.IsNew, exp.OldName, exp.NewMode, exp.Score = true, "", os.FileMode(w.newMode), 0
	case 'D':
		exp.IsDelete, exp.NewName, exp.OldMode, exp.Score = true, "", os.FileMode(w.oldMode), 0
	default:
		if w.oldMode != w.newMode {
			exp.OldMode, exp.NewMode = os.FileMode(w.oldMode), os.FileMode(w.newMode)
		} else if changed {
			exp.OldMode = os.FileMode(w.oldMode)
		}
	}
	omitted := w.status == 'D' && (c.has("-D") || c.has("--irreversible-delete"))
	exp.IsBinary = changed && !omitted && !c.has("-a") && (hasNUL(w.oldData) || hasNUL(w.newData))
	if changed {
		for _, x := range [][2]string{{f.OldOIDPrefix, w.oldOID}, {f.NewOIDPrefix, w.newOID}} {
			if len(x[0]) < 4 || !strings.HasPrefix(x[1], x[0]) {
				return fmt.Errorf("object id %q, want a prefix of %s", x[0], x[1])
			}
			if (c.has("--full-index") || c.has("--binary") && exp.IsBinary) && x[0] != x[1] {
				return fmt.Errorf("object id %q, want %s", x[0], x[1])
			}
		}
		exp.OldOIDPrefix, exp.NewOIDPrefix = f.OldOIDPrefix, f.NewOIDPrefix
	}
	exp.TextFragments, exp.BinaryFragment, exp.ReverseBinaryFragment = f.TextFragments, f.BinaryFragment, f.ReverseBinaryFragment
	if d := diffFiles(f, exp); d != "" {
		return fmt.Errorf("%s", d)
	}
	hasText := changed && !exp.IsBinary && !omitted && w.oldData != w.newData
	if (len(f.TextFragments) > 0) != hasText {
		return fmt.Errorf("%d text fragments", len(f.TextFragments))
	}
	hasBin := exp.IsBinary && c.has("--binary")
	if (f.BinaryFragment != nil) != hasBin || (f.ReverseBinaryFragment != nil) != hasBin {
		return fmt.Errorf("binary fragments %v %v", f.BinaryFragment != nil, f.ReverseBinaryFragment != nil)
	}
	o.LabelIf(hasBin, "binary content")
	o.LabelIf(hasText, "text content")
	for _, frag := range f.TextFragments {
		if err := frag.Validate(); err != nil {
			return fmt.Errorf("fragment %q: %v", frag.Header(), err)
		}
		if c.has("-U0") && (frag.OldPosition == 0 && w.oldData != "" || frag.NewPosition == 0 && w.newData != "") {
			o.Label("not applied: zero context at the start of the file")
			return nil
		}
	}
	if omitted || exp.IsBinary && !hasBin {
		return nil
	}
	res, err := applyTo(w.oldData, f)
	if err != nil {
		return fmt.Errorf("Apply: %v", err)
	}
	if res != w.newData {
		return fmt.Errorf("Apply gives %s, want %s", q(res), q(w.newData))
	}
	if hasBin {
		back := *f
		back.BinaryFragment = f.ReverseBinaryFragment
		res, err := applyTo(w.newData, &back)
		if err != nil {
			return fmt.Errorf("Apply of the reverse fragment: %v", err)
		}
		if res != w.oldData {
			return fmt.Errorf("the reverse fragment gives %s, want %s", q(res), q(w.oldData))
		}
		o.LabelIf(f.BinaryFragment.Method == gitdiff.BinaryPatchDelta || f.ReverseBinaryFragment.Method == gitdiff.BinaryPatchDelta, "delta")
	}
	return nil
}

func init() {
	d := Gen("git-diff", 5000, 300000, genC24, checkC24)
	d.Avail = haveTool("git")
	register(&Prop{ID: "C24", Rule: "pairs of generated trees in a scratch repository, diffed by git under generated options and compared with git's own raw records and the blobs; non-trivial: the trees differ",
		Subs: []*Sub{d}})
}
