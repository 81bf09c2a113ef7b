package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C06

type tradCase struct {
	Lead  BS // text before each file
	Files []TradFile
	Sep   []BS
	Tail  BS
}

var tradSep = []string{"", "", "diff -ruN a/x b/x\n", "diff -u old/x new/x\n", "Only in a: y\n", "Index: foo.c\n===================================================================\n", "\n", "Common subdirectories: a/d and b/d\n", "Binary files a/y and b/y differ\n", "RCS file: /cvs/x,v\nretrieving revision 1.1\ndiff -u -r1.1 x\n", "Property changes on: x\n___\n", "Files a/x and b/x are identical\n", "--- \n", "+++\n", "some text\n", "diff -ruN \"a/a b\" \"b/a b\"\n"}

func genC06(g *G) tradCase {
	c := tradCase{}
	for i, n := 0, g.Int(1, 4); i < n; i++ {
		f := g.tradFile(8)
		f.QuoteSP = g.Chance(6)
		if g.Chance(10) {
			f.Slashes = g.Int(2, 3)
		}
		c.Files = append(c.Files, f)
		c.Sep = append(c.Sep, BS(pick(g, tradSep)))
	}
	c.Tail = BS(pick(g, tradSep))
	return c
}

func checkC06(c *tradCase, o *Obs) error {
	var b strings.Builder
	var want []*gitdiff.File
	for i := range c.Files {
		b.WriteString(string(c.Sep[i]))
		b.WriteString(c.Files[i].render())
		want = append(want, c.Files[i].file())
		o.Label(c.Files[i].Kind)
		o.LabelIf(strings.HasPrefix(string(c.Files[i].OldTS), "\t19") || strings.HasPrefix(string(c.Files[i].NewTS), "\t19"), "epoch-like time stamp")
	}
	b.WriteString(string(c.Tail))
	in := b.String()
	files, pre, err := parseString(in)
	if err != nil {
		return fmt.Errorf("Parse failed: %v\n%s", err, q(in))
	}
	if pre != string(c.Sep[0]) {
		return fmt.Errorf("preamble %q, want %q", pre, c.Sep[0])
	}
	if d := diffFileLists(files, want); d != "" {
		return fmt.Errorf("%s\ninput %s", d, q(in))
	}
	o.NTIf(len(c.Files) > 1 || c.Files[0].Kind != "modify" || c.Files[0].Old != c.Files[0].New)
	return nil
}

// the epoch in every zone, precision and side, and its neighbours
type epochCase struct {
	Sec    int64
	Nsec   int
	Zone   int
	Digits int
	Colon  bool
	Side   int // 0 old, 1 new
}

func enumEpoch(tier string, yield func(epochCase) bool) {
	for zone := -14 * 60; zone <= 14*60; zone += 15 {
		for _, sec := range []int64{0, 1, -1, 3600, -3600, 86400, -86400, int64(zone) * 60, int64(-zone) * 60, 1 << 31} {
			for _, digits := range []int{0, 1, 3, 6, 9} {
				for side := 0; side < 2; side++ {
					for k := 0; k < 2; k++ {
						nsec := 0
						if k == 1 {
							if digits != 9 {
								continue
							}
							nsec = 1 + (zone*zone)%999999999
						}
						if !yield(epochCase{sec, nsec, zone, digits, (zone+digits)%2 == 0, side}) {
							return
						}
					}
				}
			}
		}
	}
}

func checkEpoch(c *epochCase, o *Obs) error {
	ts := "\t" + stamp(c.Sec, c.Nsec, c.Zone, c.Digits, c.Colon)
	epoch := c.Sec == 0 && c.Nsec == 0
	oldTS, newTS := ts, "\t2024-05-06 07:08:09.000000000 +0000"
	frag := "@@ -0,0 +1 @@\n+x\n"
	if c.Side == 1 {
		oldTS, newTS = newTS, oldTS
		frag = "@@ -1 +0,0 @@\n-x\n"
	}
	f, err := parseOne("--- old/f" + oldTS + "\n+++ new/f" + newTS + "\n" + frag)
	if err != nil {
		return err
	}
	want := &gitdiff.File{OldName: "new/f", NewName: "new/f", TextFragments: f.TextFragments}
	if epoch && c.Side == 0 {
		want = &gitdiff.File{NewName: "new/f", IsNew: true, TextFragments: f.TextFragments}
	}
	if epoch && c.Side == 1 {
		want = &gitdiff.File{OldName: "old/f", IsDelete: true, TextFragments: f.TextFragments}
	}
	if d := diffFiles(f, want); d != "" {
		return fmt.Errorf("time stamp %q on side %d: %s", ts, c.Side, d)
	}
	o.NTIf(epoch || c.Zone != 0)
	return nil
}

// ------------------------------------------------- real GNU diff

type gnuFile struct {
	Name     BS
	Old, New BS
	Kind     string // modify, create, delete, same
	OldM     int64  // modification times
	NewM     int64
}

type gnuCase struct {
	Files []gnuFile
	TZ    string
	Ctx   int
	Opts  []string
}

func genGNU(g *G) gnuCase {
	c := gnuCase{TZ: pick(g, []string{"UTC0", "XXX-5:30", "EST5EDT", "NST3:30", "YYY-14", "ZZZ12", "CET-1CEST"}), Ctx: pick(g, []int{0, 1, 2, 3, 3, 3, 5, 20})}
	c.Opts = pick(g, [][]string{nil, nil, {"-p"}, {"--minimal"}, {"-d"}, {"--speed-large-files"}, {"--horizon-lines=5"}})
	seen := map[string]bool{}
	for i, n := 0, g.Int(1, 4); i < n; i++ {
		f := gnuFile{Kind: pick(g, []string{"modify", "modify", "create", "delete", "same"})}
		name := pick(g, []string{"f", "g.txt", "a b", "d/x", "d/y z", "caf\xc3\xa9", "q\"uote", "back\\slash", "t\tab", "new\nline", "x~", "x.orig", "-dash", "\xff", "trail ", "two  sp"})
		if seen[name] {
			continue
		}
		seen[name] = true
		f.Name = BS(name)
		ls := g.script(14)
		f.Old, f.New = BS(oldOf(ls)), BS(newOf(ls))
		if c.Ctx == 0 && f.Kind == "modify" {
			// without context, a change at the very start looks like the
			// creation or deletion of the whole file
			f.Old, f.New = "# first line\n"+f.Old, "# first line\n"+f.New
		}
		if f.Kind == "same" {
			f.New = f.Old
		}
		f.OldM = g.Int64(86400*2, 2000000000)
		f.NewM = g.Int64(86400*2, 2000000000)
		c.Files = append(c.Files, f)
	}
	return c
}

func haveTool(name string) func() bool {
	return func() bool { _, err := exec.LookPath(name); return err == nil }
}

func scratch() string {
	d, err := os.MkdirTemp("", "vpcase.")
	if err != nil {
		infraf("%v", err)
	}
	return d
}

func writeFile(path string, data string, mode os.FileMode) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		infraf("%v", err)
	}
	if err := os.WriteFile(path, []byte(data), mode); err != nil {
		infraf("%v", err)
	}
}

func checkGNU(c *gnuCase, o *Obs) error {
	dir := scratch()
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "a"), 0o755)
	os.Mkdir(filepath.Join(dir, "b"), 0o755)
	for _, f := range c.Files {
		pa, pb := filepath.Join(dir, "a", string(f.Name)), filepath.Join(dir, "b", string(f.Name))
		if f.Kind != "create" {
			writeFile(pa, string(f.Old), 0o644)
			os.Chtimes(pa, time.Unix(f.OldM, 0), time.Unix(f.OldM, 0))
		}
		if f.Kind != "delete" {
			writeFile(pb, string(f.New), 0o644)
			os.Chtimes(pb, time.Unix(f.NewM, 0), time.Unix(f.NewM, 0))
		}
	}
	args := append([]string{"-raN", fmt.Sprintf("-U%d", c.Ctx)}, c.Opts...)
	args = append(args, "a", "b")
	cmd := exec.Command("diff", args...)
	cmd.Dir = dir
	cmd.Env = []string{"TZ=" + c.TZ, "LC_ALL=C", "PATH=" + os.Getenv("PATH")}
	var out, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &stderr
	if err := cmd.Run(); err != nil {
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
			infraf("diff: %v %s", err, stderr.String())
		}
	}
	files, _, err := gitdiff.Parse(&out)
	if err != nil {
		return fmt.Errorf("Parse failed: %v", err)
	}
	type exp struct{ name, kind, old, new string }
	var want []exp
	for _, f := range c.Files {
		old, new := string(f.Old), string(f.New)
		switch f.Kind {
		case "create":
			old = ""
		case "delete":
			new = ""
		}
		if old == new {
			continue // nothing to report, also for empty created files
		}
		want = append(want, exp{string(f.Name), f.Kind, old, new})
	}
	sort.Slice(want, func(i, j int) bool { return want[i].name < want[j].name })
	got := map[string]*gitdiff.File{}
	for _, f := range files {
		n := f.NewName
		if f.IsDelete {
			n = f.OldName
		}
		_, n, _ = strings.Cut(n, "/")
		if got[n] != nil {
			return fmt.Errorf("file %q reported twice", n)
		}
		got[n] = f
	}
	for _, w := range want {
		f := got[w.name]
		if f == nil {
			return fmt.Errorf("file %q not reported", w.name)
		}
		delete(got, w.name)
		if f.IsNew != (w.kind == "create") || f.IsDelete != (w.kind == "delete") || f.IsRename || f.IsCopy || f.IsBinary {
			return fmt.Errorf("file %q: a %s is reported as new=%v delete=%v", w.name, w.kind, f.IsNew, f.IsDelete)
		}
		side := "b/"
		if w.kind == "create" && (f.OldName != "" || f.NewName != side+w.name) {
			return fmt.Errorf("creation of %q has names %q %q", w.name, f.OldName, f.NewName)
		}
		if w.kind == "delete" && (f.NewName != "" || f.OldName != "a/"+w.name) {
			return fmt.Errorf("deletion of %q has names %q %q", w.name, f.OldName, f.NewName)
		}
		if w.kind == "modify" && (f.NewName != side+w.name || f.OldName != side+w.name) {
			return fmt.Errorf("change of %q has names %q %q", w.name, f.OldName, f.NewName)
		}
		res, err := applyTo(w.old, f)
		if err != nil {
			return fmt.Errorf("applying the diff of %q: %v", w.name, err)
		}
		if res != w.new {
			return fmt.Errorf("applying the diff of %q gives %s, want %s", w.name, q(res), q(w.new))
		}
		o.Label(w.kind)
	}
	for n := range got {
		return fmt.Errorf("file %q reported, but it did not change", n)
	}
	o.NTIf(len(want) > 0)
	return nil
}

func init() {
	gnu := Gen("gnu-diff", 1200, 20000, genGNU, checkGNU)
	gnu.Avail = haveTool("diff")
	register(&Prop{ID: "C06", Rule: "generated unified diffs without git headers, and the output of GNU diff on generated trees; non-trivial: several files, a creation or deletion, or different names; an epoch time stamp; a GNU diff with at least one difference",
		Subs: []*Sub{
			Enum("epoch", enumEpoch, checkEpoch),
			Gen("model", 90000, 2500000, genC06, checkC06),
			gnu,
		}})
}
