package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C12

type applyCase struct {
	Script []ML
	Hunks  []Hunk
	Style  HunkStyle
	Trad   bool
}

func (c *applyCase) text(hs []Hunk, old, new string) string {
	if c.Trad {
		switch {
		case old == "":
			return "--- /dev/null\n+++ f\n" + renderHunks(hs, c.Style)
		case new == "":
			return "--- f\n+++ /dev/null\n" + renderHunks(hs, c.Style)
		}
		return "--- f\n+++ f\n" + renderHunks(hs, c.Style)
	}
	switch {
	case old == "":
		return "diff --git a/f b/f\nnew file mode 100644\nindex 0000000..1234567\n--- /dev/null\n+++ b/f\n" + renderHunks(hs, c.Style)
	case new == "":
		return "diff --git a/f b/f\ndeleted file mode 100644\nindex 1234567..0000000\n--- a/f\n+++ /dev/null\n" + renderHunks(hs, c.Style)
	}
	return goodNames + renderHunks(hs, c.Style)
}

func genC12(g *G) applyCase {
	c := applyCase{Style: g.hunkStyle(), Trad: g.Chance(4)}
	c.Script = g.script(40)
	c.Hunks = g.hunks(c.Script)
	return c
}

func checkC12(c *applyCase, o *Obs) error {
	old, new := oldOf(c.Script), newOf(c.Script)
	if err := applyBoth(c.text(c.Hunks, old, new), old, new); err != nil {
		return err
	}
	if err := applyBoth(c.text(invert(c.Hunks), new, old), new, old); err != nil {
		return fmt.Errorf("inverse: %w", err)
	}
	zero := false
	for _, h := range c.Hunks {
		zero = zero || h.OL == 0 || h.NL == 0
	}
	o.NTIf(old != "" && new != "" || len(c.Hunks) > 1)
	o.LabelIf(len(c.Hunks) > 1, "several hunks")
	o.LabelIf(zero && old != "" && new != "", "zero-length range")
	o.LabelIf(old == "", "creation")
	o.LabelIf(new == "", "deletion")
	o.LabelIf(!strings.HasSuffix(old, "\n") || !strings.HasSuffix(new, "\n"), "no final newline")
	return nil
}

func applyBoth(patch, old, new string) error {
	f, err := parseOne(patch)
	if err != nil {
		return err
	}
	out, err := applyTo(old, f)
	if err != nil {
		return fmt.Errorf("Apply: %v\npatch %s\nsource %s", err, q(patch), q(old))
	}
	if out != new {
		return fmt.Errorf("Apply wrote %s, want %s\npatch %s\nsource %s", q(out), q(new), q(patch), q(old))
	}
	return nil
}

// every small edit script with every context width
type smallCase struct {
	Ops  string
	Ctx  int
	Mask int
	Same bool // all lines have the same content
}

func (c *smallCase) build() applyCase {
	var ls []ML
	for i, op := range []byte(c.Ops) {
		s := fmt.Sprintf("l%d\n", i)
		if c.Same {
			s = "x\n"
		}
		ls = append(ls, ML{string(op), BS(s)})
	}
	ls = stripFinal(ls, c.Mask&1 != 0, c.Mask&2 != 0)
	in := make([]bool, len(ls))
	for i, l := range ls {
		if l.Op != " " {
			for j := max(0, i-c.Ctx); j <= min(len(ls)-1, i+c.Ctx); j++ {
				in[j] = true
			}
		}
	}
	a := applyCase{Script: ls, Trad: c.Mask == 3}
	a.Hunks = (&G{}).fixHunksQuiet(ls, in)
	return a
}

func (g *G) fixHunksQuiet(ls []ML, in []bool) []Hunk {
	oldEmpty, newEmpty := oldOf(ls) == "", newOf(ls) == ""
	cut := make([]bool, len(ls))
	for {
		hs, spans := cutHunks(ls, in, cut)
		again := false
		for k, h := range hs {
			if (h.OP == 0 && !oldEmpty) || (h.NP == 0 && !newEmpty) {
				b, e := spans[k][0], spans[k][1]
				if e < len(ls) {
					in[e] = true
				} else {
					in[b-1] = true
				}
				again = true
				break
			}
		}
		if !again {
			return hs
		}
	}
}

func enumC12(tier string, yield func(smallCase) bool) {
	max := 7
	if tier == "thorough" {
		max = 10
	}
	var rec func(ops string) bool
	rec = func(ops string) bool {
		if strings.ContainsAny(ops, "+-") {
			for ctx := 0; ctx <= 3; ctx++ {
				if ctx > len(ops) {
					break
				}
				for m := 0; m < 4; m++ {
					if !yield(smallCase{ops, ctx, m, (len(ops)+ctx+m)%3 == 0}) {
						return false
					}
				}
			}
		}
		if len(ops) == max {
			return true
		}
		for _, op := range []string{" ", "-", "+"} {
			if !rec(ops + op) {
				return false
			}
		}
		return true
	}
	rec("")
}

func checkSmall(c *smallCase, o *Obs) error {
	a := c.build()
	return checkC12(&a, o)
}

// bigger files built from a seed
type bigCase struct {
	Seed  uint64
	N     int // lines
	Every int // one change per so many lines
	Width int // up to this line length
	Ctx   int
	NoEOL int
	Fill  int `json:",omitempty"` // what the lines are made of
}

// fillers are repeated to make long lines; bytes that other readers of lines
// take for line ends stand at every offset
var fillers = []string{"abcdefgh", "\r", "\x00", "\xff\xfe", "\r ", "\v\f\x1c\u0085\u2028", "-", "\\ "}

func (g *G) filler() int {
	if g.Bool() {
		return 0
	}
	return g.Int(1, len(fillers)-1)
}

func (c *bigCase) script() []ML {
	p := prng(c.Seed)
	ls := make([]ML, 0, c.N)
	op, run := " ", 0
	for i := 0; i < c.N; i++ {
		if run == 0 {
			if op == " " {
				op = []string{"-", "+"}[p.intn(2)]
				run = 1 + p.intn(3)
			} else {
				op = " "
				run = 1 + p.intn(2*c.Every)
			}
			if i == 0 {
				op, run = " ", 1+p.intn(c.Every+1)
			}
		}
		run--
		w := p.intn(c.Width + 1)
		s := fmt.Sprintf("%d %s\n", p.intn(100), strings.Repeat(fillers[c.Fill], w/len(fillers[c.Fill])+1)[:w])
		ls = append(ls, ML{op, BS(s)})
	}
	change := false
	for _, l := range ls {
		change = change || l.Op != " "
	}
	if !change {
		ls[p.intn(len(ls))].Op = "+"
	}
	return stripFinal(ls, c.NoEOL&1 != 0, c.NoEOL&2 != 0)
}

func (c *bigCase) build() applyCase {
	ls := c.script()
	in := make([]bool, len(ls))
	for i, l := range ls {
		if l.Op != " " {
			for j := max(0, i-c.Ctx); j <= min(len(ls)-1, i+c.Ctx); j++ {
				in[j] = true
			}
		}
	}
	return applyCase{Script: ls, Hunks: (&G{}).fixHunksQuiet(ls, in)}
}

func (g *G) bigCase() bigCase {
	return bigCase{Seed: g.Uint64(), N: pick(g, []int{1, 31, 32, 33, 63, 64, 65, 100, 500, 1000, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 9000}) + g.Int(0, 1),
		Every: pick(g, []int{1, 5, 20, 300, 5000, 20000}), Width: pick(g, []int{0, 3, 20, 80, 80, 200}), Ctx: pick(g, []int{0, 1, 3, 3, 10}), NoEOL: g.Int(0, 3), Fill: g.filler()}
}

func checkBig(c *bigCase, o *Obs) error {
	a := c.build()
	return checkC12(&a, o)
}

// ------------------------------------------------------------------ C13

type conflictCase struct {
	Src   BS
	Hunks []Hunk
}

func genC13(g *G) conflictCase {
	ls := g.script(16)
	hs := g.hunks(ls)
	src := splitLines(oldOf(ls))
	muts := g.Int(0, 3)
	if g.Chance(4) {
		muts = 0
	}
	fix := func() {
		// a line without newline may only be the last
		for i := 0; i < len(src)-1; i++ {
			if !strings.HasSuffix(src[i], "\n") {
				src[i] += "\n"
			}
		}
	}
	for i := 0; i < muts; i++ {
		switch g.Int(0, 13) {
		case 13: // two notations of the same thing in source and patch
			if len(hs) == 0 {
				continue
			}
			h := &hs[g.Int(0, len(hs)-1)]
			k := int(h.OP) - 1
			for j := range h.Lines {
				m := &h.Lines[j]
				if m.Op == "+" {
					continue
				}
				if l := strings.TrimSuffix(string(m.S), "\n"); k >= 0 && k < len(src) && string(m.S) == src[k] && g.Chance(2) {
					p := pick(g, notations)
					a, b := pick(g, p), pick(g, p)
					at := g.Int(0, len(l))
					f := func(x string) string {
						if x == "\"" || x == "'" {
							return x + l + x // around all of it
						}
						return l[:at] + x + l[at:]
					}
					nl := src[k][len(l):]
					src[k], m.S = f(a)+nl, BS(f(b)+nl)
					break
				}
				k++
			}
		case 12: // a difference within a line
			if len(src) > 0 {
				k := g.Int(0, len(src)-1)
				l := strings.TrimSuffix(src[k], "\n")
				nl := src[k][len(l):]
				if src[k] = g.tweak(l) + nl; src[k] == "" {
					src[k] = "\n"
				}
			}
		case 0: // change a line
			if len(src) > 0 {
				src[g.Int(0, len(src)-1)] = g.line() + "\n"
			}
		case 1: // drop a line
			if len(src) > 0 {
				k := g.Int(0, len(src)-1)
				src = append(src[:k:k], src[k+1:]...)
			}
		case 2: // insert a line
			k := g.Int(0, len(src))
			src = append(src[:k:k], append([]string{g.line() + "\n"}, src[k:]...)...)
		case 3: // the last newline
			if n := len(src); n > 0 {
				if t := strings.TrimSuffix(src[n-1], "\n"); t != src[n-1] && t != "" {
					src[n-1] = t
				} else {
					src[n-1] = t + "\n"
				}
			}
		case 4: // white space
			if n := len(src); n > 0 {
				k := g.Int(0, n-1)
				src[k] = pick(g, []string{" ", "\t", "\r"}) + src[k]
			}
		case 5: // line ends
			if n := len(src); n > 0 {
				k := g.Int(0, n-1)
				if strings.HasSuffix(src[k], "\r\n") {
					src[k] = strings.TrimSuffix(src[k], "\r\n") + "\n"
				} else {
					src[k] = strings.TrimSuffix(src[k], "\n") + "\r\n"
				}
			}
		case 6: // swap two lines
			if n := len(src); n > 1 {
				k := g.Int(0, n-2)
				src[k], src[k+1] = src[k+1], src[k]
			}
		case 7: // cut the file
			if n := len(src); n > 0 {
				src = src[:g.Int(0, n-1)]
			}
		case 8: // add to the end
			src = append(src, g.line()+"\n")
		case 9: // move a hunk
			h := &hs[g.Int(0, len(hs)-1)]
			d := int64(pick(g, []int{-1, 1, 1, -2, 2, 5, 1000}))
			if h.OP+d >= 0 && (h.OP+d > 0 || h.OL == 0) {
				h.OP += d
			}
		case 10: // repeat or swap hunks
			if g.Bool() {
				hs = append(hs, hs[g.Int(0, len(hs)-1)])
			} else if n := len(hs); n > 1 {
				hs[0], hs[n-1] = hs[n-1], hs[0]
			}
		default: // positions of the new side, which only matter at zero
			h := &hs[g.Int(0, len(hs)-1)]
			h.NP = pick(g, []int64{0, 0, 1, 1 << 40})
		}
		fix()
	}
	return conflictCase{BS(strings.Join(src, "")), hs}
}

func (c *conflictCase) frags() []*gitdiff.TextFragment {
	var fs []*gitdiff.TextFragment
	for i := range c.Hunks {
		fs = append(fs, c.Hunks[i].fragment())
	}
	return fs
}

func isConflict(err error) bool { return errors.Is(err, &gitdiff.Conflict{}) }

// checkMatching: a conflict matches the empty conflict and itself, nothing
// else, and no other error is one.
func checkMatching(err error) error {
	for _, other := range []error{io.EOF, io.ErrUnexpectedEOF, errors.New(err.Error()), &gitdiff.ApplyError{}, errors.New("")} {
		if errors.Is(err, other) {
			return fmt.Errorf("the conflict %q matches the unrelated error %T %q", err, other, other)
		}
		if isConflict(other) {
			return fmt.Errorf("the error %T %q matches a conflict", other, other)
		}
	}
	var c *gitdiff.Conflict
	if !errors.As(err, &c) || !errors.Is(err, c) || !errors.Is(c, c) {
		return fmt.Errorf("the conflict in %q does not match itself", err)
	}
	return nil
}

func checkC13(c *conflictCase, o *Obs) error {
	src := string(c.Src)
	// fragment by fragment, in the given order
	want := modelApply(src, c.Hunks)
	var out bytes.Buffer
	a := gitdiff.NewTextApplier(&out, strings.NewReader(src))
	var err error
	for _, f := range c.frags() {
		if err = a.ApplyFragment(f); err != nil {
			break
		}
	}
	if err == nil {
		err = a.Close()
	}
	if e := sameOutcome(want, out.String(), err); e != nil {
		return fmt.Errorf("applier: %v\nsource %s hunks %v", e, q(src), c.Hunks)
	}
	// the whole file; fragments are applied by position
	sorted := append([]Hunk(nil), c.Hunks...)
	sort.SliceStable(sorted, func(i, j int) bool { return sorted[i].OP < sorted[j].OP })
	tie := false
	for i := 1; i < len(sorted); i++ {
		tie = tie || sorted[i].OP == sorted[i-1].OP
	}
	if !tie {
		want = modelApply(src, sorted)
		res, err := applyTo(src, &gitdiff.File{OldName: "f", NewName: "f", TextFragments: c.frags()})
		if e := sameOutcome(want, res, err); e != nil {
			return fmt.Errorf("Apply: %v\nsource %s hunks %v", e, q(src), c.Hunks)
		}
	}
	o.NTIf(src != "")
	if want.ok {
		o.Label("applies")
	} else {
		o.Label(want.why)
	}
	return nil
}

func sameOutcome(want applyModel, out string, err error) error {
	switch {
	case want.ok && err != nil:
		return fmt.Errorf("failed with %v, want success", err)
	case want.ok && out != want.out:
		return fmt.Errorf("wrote %s, want %s", q(out), q(want.out))
	case !want.ok && err == nil:
		return fmt.Errorf("succeeded with %s, want a conflict (%s, fragment %d)", q(out), want.why, want.frag)
	case !want.ok && !isConflict(err):
		return fmt.Errorf("failed with %v, which is no conflict, want one (%s)", err, want.why)
	case !want.ok:
		return checkMatching(err)
	}
	return nil
}

// every small source against every small hunk
type tinyCase struct {
	Src BS
	OP  int64
	NP  int64
	Ls  BS // pairs of operation and letter
}

func enumC13(tier string, yield func(tinyCase) bool) {
	srcs := []BS{""}
	for _, l := range []int{1, 2, 3, 4} {
		for m := 0; m < 1<<l; m++ {
			var b strings.Builder
			for i := 0; i < l; i++ {
				b.WriteByte(byte('a' + m>>i&1))
				b.WriteByte('\n')
			}
			srcs = append(srcs, BS(b.String()))
			if l < 3 {
				srcs = append(srcs, BS(strings.TrimSuffix(b.String(), "\n")))
			}
		}
	}
	depth := 2
	if tier == "thorough" {
		depth = 4
	}
	var rec func(ls string) bool
	rec = func(ls string) bool {
		if strings.ContainsAny(ls, "+-") {
			for _, s := range srcs {
				for op := int64(0); op < 6; op++ {
					for np := int64(0); np < 2; np++ {
						if op == 0 && strings.ContainsAny(ls, " -") {
							continue
						}
						if !yield(tinyCase{s, op, np, BS(ls)}) {
							return false
						}
					}
				}
			}
		}
		if len(ls) == 2*depth {
			return true
		}
		for _, x := range []string{" a", "-a", "+a", "-b", "+b"} {
			if !rec(ls + x) {
				return false
			}
		}
		return true
	}
	rec("")
}

func checkTiny(c *tinyCase, o *Obs) error {
	h := Hunk{OP: c.OP, NP: c.NP}
	for i := 0; i+1 < len(c.Ls); i += 2 {
		h.Lines = append(h.Lines, ML{string(c.Ls[i]), BS(string(c.Ls[i+1]) + "\n")})
	}
	h.setCounts()
	return checkC13(&conflictCase{c.Src, []Hunk{h}}, o)
}

// ------------------------------------------------------------------ C14

func genC14(g *G) conflictCase {
	for {
		c := genC13(g)
		ok := true
		for i := 1; i < len(c.Hunks); i++ {
			p, h := c.Hunks[i-1], c.Hunks[i]
			if p.OP >= h.OP {
				ok = false
			}
		}
		if ok {
			return c
		}
		sort.SliceStable(c.Hunks, func(i, j int) bool { return c.Hunks[i].OP < c.Hunks[j].OP })
		var hs []Hunk
		for i, h := range c.Hunks {
			if i == 0 || h.OP > hs[len(hs)-1].OP {
				hs = append(hs, h)
			}
		}
		c.Hunks = hs
		return c
	}
}

func checkC14(c *conflictCase, o *Obs) error {
	src := string(c.Src)
	want := modelApply(src, c.Hunks)
	if want.ok {
		o.Label("applies")
		return nil
	}
	switch want.why {
	case "mismatch", "short source", "left over":
	default:
		o.Label("other")
		return nil
	}
	_, err := applyTo(src, &gitdiff.File{OldName: "f", NewName: "f", TextFragments: c.frags()})
	if err == nil {
		return fmt.Errorf("no error, want one at fragment %d (%s)", want.frag, want.why)
	}
	var ae *gitdiff.ApplyError
	if !errors.As(err, &ae) {
		return fmt.Errorf("error %T is no ApplyError", err)
	}
	if ae.Line != want.line || ae.Fragment != want.frag || ae.FragmentLine != want.fragLine {
		return fmt.Errorf("%s: error at line %d, fragment %d, fragment line %d; want line %d, fragment %d, fragment line %d\nsource %s hunks %v",
			want.why, ae.Line, ae.Fragment, ae.FragmentLine, want.line, want.frag, want.fragLine, q(src), c.Hunks)
	}
	if !isConflict(ae) || ae.Unwrap() == nil || ae.Error() == "" {
		return fmt.Errorf("ApplyError does not wrap a conflict: %v", err)
	}
	// the applier knows everything but the number of the fragment
	a := gitdiff.NewTextApplier(io.Discard, strings.NewReader(src))
	for i, f := range c.frags() {
		err := a.ApplyFragment(f)
		if (err != nil) != (i+1 == want.frag) {
			return fmt.Errorf("applier: fragment %d: %v, want the error at fragment %d", i+1, err, want.frag)
		}
		if err != nil {
			if !errors.As(err, &ae) || ae.Line != want.line || ae.FragmentLine != want.fragLine {
				return fmt.Errorf("applier: %s: error at line %d, fragment line %d; want line %d, fragment line %d", want.why, ae.Line, ae.FragmentLine, want.line, want.fragLine)
			}
			break
		}
	}
	o.NT()
	o.Label(want.why)
	return nil
}

// shuffled is a failing application of a file whose fragments are not in order;
// Apply puts them in order, but the number is that in the file.
type shuffled struct {
	Case conflictCase
	Seed uint64
}

func genShuffled(g *G) shuffled {
	if g.Chance(4) {
		return shuffled{genC14(g), g.Uint64()}
	}
	b := bigCase{Seed: g.Uint64(), N: g.Int(4, 60), Every: pick(g, []int{1, 2, 5}), Width: 3, Ctx: pick(g, []int{0, 0, 1, 1, 2})}
	a := b.build()
	src := splitLines(oldOf(a.Script))
	if len(src) == 0 {
		return shuffled{genC14(g), g.Uint64()}
	}
	k := g.Int(0, len(src)-1)
	if g.Chance(4) {
		src = src[:k]
	} else {
		src[k] = "!" + src[k]
	}
	var hs []Hunk
	for _, h := range a.Hunks {
		if len(hs) == 0 || h.OP > hs[len(hs)-1].OP {
			hs = append(hs, h)
		}
	}
	return shuffled{conflictCase{BS(strings.Join(src, "")), hs}, g.Uint64()}
}

func checkShuffled(c *shuffled, o *Obs) error {
	want := modelApply(string(c.Case.Src), c.Case.Hunks)
	switch want.why {
	case "mismatch", "short source", "left over":
	default:
		o.Label("other")
		return nil
	}
	n := len(c.Case.Hunks)
	f := &gitdiff.File{OldName: "f", NewName: "f", TextFragments: make([]*gitdiff.TextFragment, n)}
	p := prng(c.Seed)
	perm := p.perm(n)
	for i, t := range c.Case.frags() {
		f.TextFragments[perm[i]] = t
	}
	_, err := applyTo(string(c.Case.Src), f)
	if err == nil {
		return fmt.Errorf("no error, want one (%s)", want.why)
	}
	var ae *gitdiff.ApplyError
	if !errors.As(err, &ae) {
		return fmt.Errorf("error %T is no ApplyError", err)
	}
	if at := perm[want.frag-1] + 1; ae.Line != want.line || ae.Fragment != at || ae.FragmentLine != want.fragLine {
		return fmt.Errorf("%s: error at line %d, fragment %d, fragment line %d; want line %d, fragment %d, fragment line %d\nsource %s hunks %v order %v",
			want.why, ae.Line, ae.Fragment, ae.FragmentLine, want.line, at, want.fragLine, q(string(c.Case.Src)), c.Case.Hunks, perm)
	}
	o.NTIf(perm[want.frag-1] != want.frag-1)
	return nil
}

// a mismatch or a cut at any line of a long file
type bigConflict struct {
	Big bigCase
	At  uint64 // which source line
	Cut bool
}

func checkBigConflict(c *bigConflict, o *Obs) error {
	a := c.Big.build()
	src := splitLines(oldOf(a.Script))
	if len(src) == 0 {
		return nil
	}
	k := int(c.At % uint64(len(src)))
	if c.Cut {
		src = src[:k]
	} else {
		src[k] = "!" + src[k]
	}
	return checkC14(&conflictCase{BS(strings.Join(src, "")), a.Hunks}, o)
}

// longCase is a big file with one small difference from what its hunks expect.
type longCase struct {
	Big  bigCase
	Kind string
	At   uint64 // which line of the source
	Off  uint64 // which byte of the line
}

func genC13long(g *G) longCase {
	c := longCase{Big: g.bigCase(), Kind: pick(g, []string{"none", "flip", "flip", "flip", "drop-byte", "add-byte", "drop-line", "twice", "cut", "cut-line", "swap", "hunk"}), At: g.Uint64(), Off: g.Uint64()}
	if g.Chance(2) {
		c.Big.N, c.Big.Width = g.Int(1, 12), pick(g, []int{1000, 4095, 4096, 4097, 5000, 8192, 20000, 70000})
		c.Big.Every = pick(g, []int{1, 3})
	}
	return c
}

func checkLong(c *longCase, o *Obs) error {
	a := c.Big.build()
	src := splitLines(oldOf(a.Script))
	if len(src) == 0 {
		return nil
	}
	hs := a.Hunks
	k := int(c.At % uint64(len(src)))
	if c.At&(1<<40) != 0 && len(hs) > 0 {
		// within a hunk
		h := hs[int(c.At>>8%uint64(len(hs)))%len(hs)]
		if h.OL > 0 {
			k = int(h.OP-1) + int(c.At%uint64(h.OL))
		}
	}
	l := src[k]
	off := int(c.Off % uint64(len(l)))
	switch c.Off >> 60 & 3 {
	case 0:
		off = 0
	case 1:
		off = max(0, len(l)-2)
	}
	switch c.Kind {
	case "flip":
		src[k] = l[:off] + string([]byte{l[off] ^ 1}) + l[off+1:]
	case "drop-byte":
		src[k] = l[:off] + l[off+1:]
	case "add-byte":
		src[k] = l[:off] + "x" + l[off:]
	case "drop-line":
		src = append(src[:k:k], src[k+1:]...)
	case "twice":
		src[k] = l + l
	case "cut":
		src = src[:k]
	case "cut-line":
		src = append(src[:k:k], l[:off])
	case "swap":
		j := int(c.Off % uint64(len(src)))
		src[k], src[j] = src[j], src[k]
	case "hunk":
		for tries := 0; tries < 3 && len(hs) > 0; tries++ {
			h := &hs[int(c.At%uint64(len(hs)))]
			m := &h.Lines[int(c.Off%uint64(len(h.Lines)))]
			if len(m.S) > 1 {
				i := int(c.Off >> 20 % uint64(len(m.S)-1))
				m.S = m.S[:i] + BS([]byte{m.S[i] ^ 64}) + m.S[i+1:]
				if m.S[i] == '\n' {
					m.S = m.S[:i] + "J" + m.S[i+1:]
				}
				break
			}
		}
	}
	o.Label(c.Kind)
	return checkC13(&conflictCase{BS(strings.Join(src, "")), hs}, o)
}

// ------------------------------------------------------------------ C15

type lifeOp struct {
	Kind string // frag, stale, nil, invalid, close, frags-after...
	N    int
}

type lifeCase struct {
	Script []ML
	Hunks  []Hunk
	Ops    []lifeOp
	Binary bool
	Data   *BinFrag `json:",omitempty"`
	Src    BS       `json:",omitempty"`
}

func genC15(g *G) lifeCase {
	c := lifeCase{}
	c.Script = g.script(20)
	c.Hunks = g.hunks(c.Script)
	n := g.Int(1, 10)
	for i := 0; i < n; i++ {
		k := pick(g, []string{"frag", "frag", "frag", "frag", "stale", "nil", "invalid", "skip", "conflict", "short"})
		if g.Chance(6) {
			k = "close"
		}
		c.Ops = append(c.Ops, lifeOp{k, g.Int(0, 7)})
	}
	c.Ops = append(c.Ops, lifeOp{"close", 0}, lifeOp{pick(g, []string{"frag", "nil", "close", "stale"}), 0}, lifeOp{"close", 0})
	return c
}

func checkC15(c *lifeCase, o *Obs) error {
	src := oldOf(c.Script)
	lines := splitLines(src)
	var out, want bytes.Buffer
	a := gitdiff.NewTextApplier(&out, strings.NewReader(src))
	closed := false
	next := int64(0) // source lines used so far
	idx := 0         // next hunk
	applied, conflicts := 0, 0
	for step, op := range c.Ops {
		before := out.Len()
		fail := func(format string, args ...any) error {
			return fmt.Errorf("step %d (%s): %s\nsource %s hunks %v ops %v", step+1, op.Kind, fmt.Sprintf(format, args...), q(src), c.Hunks, c.Ops)
		}
		refused := func(err error) error {
			if err == nil {
				return fail("accepted, want an error")
			}
			if out.Len() != before {
				return fail("wrote %s next to the error %v", q(out.String()[before:]), err)
			}
			return nil
		}
		switch op.Kind {
		case "skip":
			// leave a fragment out: the others still apply
			if idx < len(c.Hunks) && len(c.Hunks)-idx > 1 {
				idx++
			}
		case "frag":
			if idx >= len(c.Hunks) && !closed {
				continue
			}
			h := &c.Hunks[min(idx, len(c.Hunks)-1)]
			if hs := h.OP - min(1, h.OL); !closed && hs < next {
				// a conflict has used some of its lines
				if e := refused(a.ApplyFragment(h.fragment())); e != nil {
					return e
				}
				idx++
				continue
			}
			err := a.ApplyFragment(h.fragment())
			if closed {
				if e := refused(err); e != nil {
					return e
				}
				continue
			}
			if err != nil {
				return fail("fragment %d: %v", idx+1, err)
			}
			idx++
			applied++
			start := h.OP
			if h.OL > 0 {
				start--
			}
			for ; next < start; next++ {
				want.WriteString(lines[next])
			}
			for _, l := range h.Lines {
				if l.Op != "-" {
					want.WriteString(string(l.S))
				}
				if l.Op != "+" {
					next++
				}
			}
			if out.String() != want.String() {
				return fail("wrote %s so far, want %s", q(out.String()), q(want.String()))
			}
		case "stale":
			// a fragment that starts before one already applied
			h := Hunk{OP: 1 + int64(op.N), Lines: []ML{{"-", "q\n"}}, NP: 1}
			h.setCounts()
			if next == 0 {
				continue
			}
			h.OP = 1 + int64(op.N)%next
			if op.N&1 == 1 {
				// an insertion, which touches no line, also has a place
				h = Hunk{OP: int64(op.N/2) % next, Lines: []ML{{"+", "q\n"}}}
				h.NP = h.OP + 1
				h.setCounts()
			}
			err := a.ApplyFragment(h.fragment())
			if e := refused(err); e != nil {
				return e
			}
			if !closed && !isConflict(err) {
				return fail("overlap is reported as %v, not as a conflict", err)
			}
		case "conflict":
			// a fragment that goes wrong part of the way: what comes later
			// goes on after the source lines that it has used
			at := next + int64(op.N)/2
			if at >= int64(len(lines)) || closed {
				continue
			}
			h := Hunk{OP: at + 1, NP: at + 1}
			k := at
			for i := 0; i < op.N && k+1 < int64(len(lines)); i++ {
				switch (i + op.N) % 3 {
				case 0:
					h.Lines = append(h.Lines, ML{"-", BS(lines[k])})
					k++
				case 1:
					h.Lines = append(h.Lines, ML{"+", BS(fmt.Sprintf("new %d\n", i))})
				default:
					h.Lines = append(h.Lines, ML{" ", BS(lines[k])})
					k++
				}
			}
			good := len(h.Lines)
			conflicts++
			h.Lines = append(h.Lines, ML{"-", BS("!" + lines[k])}, ML{"+", "z\n"})
			h.setCounts()
			err := a.ApplyFragment(h.fragment())
			if !isConflict(err) {
				return fail("%v, want a conflict", err)
			}
			for ; next < at; next++ {
				want.WriteString(lines[next])
			}
			for _, l := range h.Lines[:good] {
				if l.Op != "-" {
					want.WriteString(string(l.S))
				}
			}
			next = k
			if out.String() != want.String() {
				return fail("wrote %s so far, want %s", q(out.String()), q(want.String()))
			}
		case "short":
			// the source has not enough lines
			h := Hunk{OP: int64(len(lines)) + 1, NP: 1}
			if len(lines) > 0 && next < int64(len(lines)) && op.N&1 == 1 {
				h.OP--
				h.Lines = append(h.Lines, ML{" ", BS(lines[len(lines)-1])})
			}
			h.OP += int64(op.N / 2)
			if h.OP < next+1 {
				continue
			}
			h.Lines = append(h.Lines, ML{"-", "q\n"}, ML{"+", "z\n"})
			h.setCounts()
			err := a.ApplyFragment(h.fragment())
			if e := refused(err); e != nil {
				return e
			}
			if !closed && !isConflict(err) {
				return fail("%v, want a conflict", err)
			}
		case "nil":
			if e := refused(a.ApplyFragment(nil)); e != nil {
				return e
			}
		case "invalid":
			h := Hunk{OP: next + 1, NP: 1, Lines: []ML{{"+", "q\n"}, {" ", "r\n"}}}
			h.setCounts()
			f := h.fragment()
			switch op.N {
			case 0:
				f.OldLines++
			case 1:
				f.NewLines--
			case 2:
				f.LinesAdded++
			case 3:
				f.LinesDeleted++
			case 4:
				f.LeadingContext++
			case 5:
				f.TrailingContext--
			case 6:
				f.Lines[0].Op = 7
			default:
				f.OldPosition = 0
			}
			if e := refused(a.ApplyFragment(f)); e != nil {
				return e
			}
		case "close":
			if err := a.Close(); err != nil {
				return fail("Close: %v", err)
			}
			if !closed {
				for ; next < int64(len(lines)); next++ {
					want.WriteString(lines[next])
				}
			}
			closed = true
			if out.String() != want.String() {
				return fail("after Close: %s, want %s", q(out.String()), q(want.String()))
			}
		}
	}
	o.LabelIf(applied == 0, "unused")
	o.LabelIf(applied == len(c.Hunks), "complete")
	o.NTIf(applied > 0)
	// one by one gives what Apply gives
	o.LabelIf(conflicts > 0, "goes on after a conflict")
	if applied == len(c.Hunks) && conflicts == 0 {
		res, err := applyTo(src, &gitdiff.File{OldName: "f", NewName: "f", TextFragments: (&conflictCase{Hunks: c.Hunks}).frags()})
		if err != nil || res != out.String() {
			return fmt.Errorf("Apply gives %s, %v; the applier wrote %s", q(res), err, q(out.String()))
		}
	}
	return nil
}

type binLifeCase struct {
	Src, Dst BS
	Delta    bool
	Seed     uint64
	Ops      []string
}

func genC15bin(g *G) binLifeCase {
	c := binLifeCase{Src: BS(g.payload()), Dst: BS(g.payload()), Delta: g.Bool(), Seed: g.Uint64()}
	for i, n := 0, g.Int(1, 6); i < n; i++ {
		c.Ops = append(c.Ops, pick(g, []string{"frag", "frag", "nil", "close", "bad", "huge", "method"}))
	}
	c.Ops = append(c.Ops, "close", "close", "frag")
	return c
}

func checkC15bin(c *binLifeCase, o *Obs) error {
	bf := BinFrag{Data: c.Dst, Level: -1}
	if c.Delta {
		bf = BinFrag{Delta: true, Data: BS(makeDelta([]byte(c.Src), []byte(c.Dst), c.Seed)), Level: -1}
	}
	var out bytes.Buffer
	a := gitdiff.NewBinaryApplier(&out, strings.NewReader(string(c.Src)))
	want := ""
	closed, used := false, false
	for step, op := range c.Ops {
		fail := func(format string, args ...any) error {
			return fmt.Errorf("step %d (%s): %s; ops %v", step+1, op, fmt.Sprintf(format, args...), c.Ops)
		}
		var f *gitdiff.BinaryFragment
		refuse := true
		switch op {
		case "close":
			if err := a.Close(); err != nil {
				return fail("Close: %v", err)
			}
			if !closed && !used {
				want = string(c.Src)
			}
			closed = true
			if out.String() != want {
				return fail("output %s, want %s", q(out.String()), q(want))
			}
			continue
		case "nil":
		case "frag":
			f = bf.fragment()
			refuse = closed || used
		case "bad":
			f = bf.fragment()
			f.RawData = []byte("not zlib")
		case "huge":
			f = bf.fragment()
			f.Size = 100<<20 + 1
		case "method":
			f = bf.fragment()
			f.Method = 9
		}
		err := a.ApplyFragment(f)
		if refuse {
			if err == nil {
				return fail("accepted, want an error")
			}
		} else {
			if err != nil {
				return fail("%v", err)
			}
			want = string(c.Dst)
			o.NT()
		}
		if f != nil {
			used = true
		}
		if out.String() != want {
			return fail("output %s, want %s", q(out.String()), q(want))
		}
	}
	return nil
}

// failCloseCase closes an applier whose destination or source fails once, or
// from some point on.
type failCloseCase struct {
	Script []ML
	Hunks  []Hunk
	Use    int  // hunks applied before closing
	Binary bool // an unused binary applier
	At     int  // bytes written or reads made by Close before the failure
	Src    bool // the source fails
	Once   bool // the failure is transient
	Long   int
	Lines  bool // the source provides lines itself
}

func genFailClose(g *G) failCloseCase {
	c := failCloseCase{Script: g.script(20), Binary: g.Chance(4), Src: g.Chance(3), Once: g.Chance(2), Lines: g.Chance(3)}
	c.Hunks = g.hunks(c.Script)
	c.Use = g.Int(0, len(c.Hunks))
	if g.Chance(2) {
		c.Long = g.Int(0, 120)
	}
	c.At = g.Int(0, 12)
	if g.Chance(2) {
		c.At = g.Int(0, 400)
	}
	return c
}

var errOnce = errors.New("injected failure")

// onceWriter fails the write that would exceed at bytes, once or always, while
// armed.
type onceWriter struct {
	b      bytes.Buffer
	armed  bool
	once   bool
	left   int
	failed bool
}

func (w *onceWriter) Write(p []byte) (int, error) {
	if w.armed {
		if len(p) > w.left && !(w.failed && w.once) {
			n := w.left
			w.left = 0
			w.failed = true
			w.b.Write(p[:n])
			return n, errOnce
		}
		w.left -= min(len(p), w.left)
	}
	return w.b.Write(p)
}

// onceSource fails its reads in the same way.
type onceSource struct {
	ownLines
	armed  bool
	once   bool
	left   int
	failed bool
}

func (r *onceSource) fault() bool {
	if r.armed {
		if r.left == 0 && !(r.failed && r.once) {
			r.failed = true
			return true
		}
		r.left = max(0, r.left-1)
	}
	return false
}

func (r *onceSource) ReadAt(p []byte, off int64) (int, error) {
	if r.fault() {
		return 0, errOnce
	}
	return r.plainReaderAt.ReadAt(p, off)
}

type onceLines struct{ *onceSource }

func (r onceLines) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	if r.fault() {
		return 0, errOnce
	}
	return r.ownLines.ReadLinesAt(lines, off)
}

// readerAtOnly hides every other method.
type readerAtOnly struct{ r io.ReaderAt }

func (r readerAtOnly) ReadAt(p []byte, off int64) (int, error) { return r.r.ReadAt(p, off) }

func checkFailClose(c *failCloseCase, o *Obs) error {
	src := oldOf(c.Script)
	if c.Long > 0 {
		if src != "" && !strings.HasSuffix(src, "\n") {
			return nil
		}
		for i := 0; i < c.Long; i++ {
			src += fmt.Sprintf("tail %d\n", i)
		}
	}
	dst := &onceWriter{once: c.Once, left: c.At}
	rd := &onceSource{ownLines: ownLines{plainReaderAt: plainReaderAt{src}, lines: splitLines(src)}, once: c.Once, left: c.At}
	var source io.ReaderAt = readerAtOnly{rd}
	if c.Lines {
		source = onceLines{rd}
	}
	arm := func() {
		if c.Src {
			rd.left = c.At % 4
			rd.armed = true
		} else {
			dst.armed = true
		}
	}
	var apply func() error
	var closer func() error
	if c.Binary {
		a := gitdiff.NewBinaryApplier(dst, source)
		bf := BinFrag{Data: "x", Level: -1}
		apply = func() error { return a.ApplyFragment(bf.fragment()) }
		closer = a.Close
	} else {
		a := gitdiff.NewTextApplier(dst, source)
		for i := 0; i < c.Use; i++ {
			if h := &c.Hunks[i]; c.Long > 0 && (h.NP == 0 && h.NL == 0 || h.OP == 0) {
				return nil // leaves content behind
			}
			if err := a.ApplyFragment(c.Hunks[i].fragment()); err != nil {
				return fmt.Errorf("fragment %d: %v", i+1, err)
			}
		}
		h := Hunk{OP: int64(len(splitLines(src))), NP: 1 << 20, Lines: []ML{{"+", "q\n"}}}
		h.setCounts()
		apply = func() error { return a.ApplyFragment(h.fragment()) }
		closer = a.Close
	}
	arm()
	err := closer()
	failed := dst.failed || rd.failed
	if failed != (err != nil) {
		return fmt.Errorf("a failure was injected: %v, Close returned %v", failed, err)
	}
	if err != nil && !errors.Is(err, errOnce) {
		return fmt.Errorf("Close returned %v, want the injected failure", err)
	}
	o.NTIf(failed)
	o.LabelIf(failed && c.Once, "transient")
	o.LabelIf(failed && c.Src, "source")
	o.LabelIf(failed && c.Binary, "binary")
	if !c.Once {
		dst.armed, rd.armed = false, false
	}
	wrote := dst.b.String()
	for i := 0; i < 2; i++ {
		if err := closer(); err != nil {
			return fmt.Errorf("closing again after %v: %v", failed, err)
		}
		if err := apply(); err == nil {
			return errors.New("a fragment is accepted after a failed Close")
		}
		if got := dst.b.String(); got != wrote {
			return fmt.Errorf("after a failed Close, another call wrote %s", q(got[len(wrote):]))
		}
	}
	return nil
}

// ------------------------------------------------------------------ C18

// eofReaderAt returns io.EOF together with a read that ends at the end.
type eofReaderAt struct{ s string }

func (r eofReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.s)) {
		return 0, io.EOF
	}
	n := copy(p, r.s[off:])
	if off+int64(n) == int64(len(r.s)) {
		return n, io.EOF
	}
	return n, nil
}

// plainReaderAt returns io.EOF only for a read that does not fill the buffer.
type plainReaderAt struct{ s string }

func (r plainReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if off > int64(len(r.s)) {
		off = int64(len(r.s))
	}
	n := copy(p, r.s[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// ownLines provides lines itself.
type ownLines struct {
	plainReaderAt
	lines []string
	eof   bool // report io.EOF together with the last line
	calls int
}

func (r *ownLines) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	r.calls++
	n := 0
	for n < len(lines) && off+int64(n) < int64(len(r.lines)) {
		lines[n] = []byte(r.lines[off+int64(n)])
		n++
	}
	if n < len(lines) || (r.eof && off+int64(n) >= int64(len(r.lines))) {
		return n, io.EOF
	}
	return n, nil
}

// scribble reuses and overwrites the buffer it was given once it is called
// again, as a file mapped reader would never do, but any reader may.
type countReaderAt struct {
	r     io.ReaderAt
	calls int
}

func (r *countReaderAt) ReadAt(p []byte, off int64) (int, error) {
	r.calls++
	return r.r.ReadAt(p, off)
}

type accessCase struct {
	Big  *bigCase      `json:",omitempty"`
	Text *conflictCase `json:",omitempty"`
	// line lengths, to place line ends relative to buffers
	Lens []int        `json:",omitempty"`
	Edit int          `json:",omitempty"`
	Fill int          `json:",omitempty"`
	Bin  *binLifeCase `json:",omitempty"`
	// a delta, perhaps damaged or for a source of another size
	Delta *deltaCase `json:",omitempty"`
	File  bool       `json:",omitempty"`
}

func (c *accessCase) build() (src string, f *gitdiff.File) {
	switch {
	case c.Big != nil:
		a := c.Big.build()
		return oldOf(a.Script), &gitdiff.File{OldName: "f", NewName: "f", TextFragments: (&conflictCase{Hunks: a.Hunks}).frags()}
	case c.Text != nil:
		return string(c.Text.Src), &gitdiff.File{OldName: "f", NewName: "f", TextFragments: c.Text.frags()}
	case c.Bin != nil:
		bf := BinFrag{Data: c.Bin.Dst, Level: -1}
		if c.Bin.Delta {
			bf = BinFrag{Delta: true, Data: BS(makeDelta([]byte(c.Bin.Src), []byte(c.Bin.Dst), c.Bin.Seed)), Level: -1}
		}
		return string(c.Bin.Src), &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: bf.fragment()}
	case c.Delta != nil:
		return string(c.Delta.src()), binFile(gitdiff.BinaryPatchDelta, c.Delta.encode(), 1)
	}
	var b strings.Builder
	for i, n := range c.Lens {
		unit := fmt.Sprintf("%d-", i%10)
		if c.Fill > 0 {
			unit = fillers[c.Fill]
		}
		s := strings.Repeat(unit, n/len(unit)+1)[:n]
		b.WriteString(s)
		if i < len(c.Lens)-1 || c.Edit&1 == 0 {
			b.WriteString("\n")
		}
	}
	src = b.String()
	f = &gitdiff.File{OldName: "f", NewName: "f"}
	ls := splitLines(src)
	if len(ls) == 0 || c.Edit < 2 {
		return src, f // a plain copy
	}
	at := c.Edit % len(ls)
	h := Hunk{OP: int64(at + 1), NP: int64(at + 1)}
	h.Lines = []ML{{"-", BS(ls[at])}, {"+", "new\n"}}
	if c.Edit%3 == 0 {
		h.Lines = h.Lines[:1]
	}
	h.setCounts()
	if h.NL == 0 && len(ls) > 1 {
		h.NP = 7
	}
	f.TextFragments = []*gitdiff.TextFragment{h.fragment()}
	return src, f
}

func genC18(g *G) accessCase {
	switch g.Int(0, 3) {
	case 0:
		b := g.bigCase()
		if g.Chance(2) {
			b.N = min(b.N, 200)
		}
		return accessCase{Big: &b}
	case 1:
		t := genC14(g)
		return accessCase{Text: &t}
	case 2:
		if g.Bool() {
			d := genC19(g)
			if d.SrcLen > 1<<20 {
				d.SrcLen = 300
			}
			return accessCase{Delta: &d}
		}
		b := genC15bin(g)
		b.Ops = nil
		return accessCase{Bin: &b}
	}
	c := accessCase{Edit: g.Int(0, 300), Fill: g.filler()}
	n := g.Int(0, 6)
	for i := 0; i < n; i++ {
		c.Lens = append(c.Lens, pick(g, []int{0, 1, 2, 10, 511, 512, 1021, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 3071, 4095, 4096, 10000, 32766, 32767, 32768, 32769, 65535, 65536}))
	}
	if g.Chance(4) {
		k := g.Int(20, 140)
		for i := 0; i < k; i++ {
			c.Lens = append(c.Lens, g.Int(0, 40))
		}
	}
	c.File = g.Chance(10)
	return c
}

func checkC18(c *accessCase, o *Obs) error {
	src, f := c.build()
	type outcome struct {
		out      string
		conflict bool
		line     int64
		frag, fl int
		failed   bool
	}
	run := func(r io.ReaderAt) outcome {
		var b bytes.Buffer
		err := gitdiff.Apply(&b, r, f)
		oc := outcome{out: b.String(), failed: err != nil, conflict: isConflict(err)}
		var ae *gitdiff.ApplyError
		if errors.As(err, &ae) {
			oc.line, oc.frag, oc.fl = ae.Line, ae.Fragment, ae.FragmentLine
		}
		return oc
	}
	want := run(strings.NewReader(src))
	// the reference, for text
	if !f.IsBinary {
		var hs []Hunk
		for _, t := range f.TextFragments {
			h := Hunk{OP: t.OldPosition, OL: t.OldLines, NP: t.NewPosition, NL: t.NewLines}
			for _, l := range t.Lines {
				h.Lines = append(h.Lines, ML{l.Op.String(), BS(l.Line)})
			}
			hs = append(hs, h)
		}
		m := modelApply(src, hs)
		if m.ok != !want.failed || m.ok && m.out != want.out || !m.ok && !want.conflict {
			return fmt.Errorf("strings.Reader: failed %v conflict %v with %s, want ok %v with %s", want.failed, want.conflict, q(want.out), m.ok, q(m.out))
		}
	} else if c.Delta != nil {
		out, v, why := refDelta(c.Delta.src(), c.Delta.encode(), 100<<20)
		if want.failed != (v != deltaOK) || v != deltaTwice && want.conflict != (v == deltaSrcSize) || v == deltaOK && want.out != string(out) {
			return fmt.Errorf("strings.Reader: failed %v conflict %v with %s, want %d %s with %s", want.failed, want.conflict, q(want.out), v, why, q(string(out)))
		}
	} else if want.failed || want.out != string(c.Bin.Dst) {
		return fmt.Errorf("strings.Reader: failed %v with %s, want %s", want.failed, q(want.out), q(string(c.Bin.Dst)))
	}
	lines := splitLines(src)
	variants := []struct {
		name string
		r    io.ReaderAt
	}{
		{"bytes.Reader", bytes.NewReader([]byte(src))},
		{"EOF with the last full read", eofReaderAt{src}},
		{"EOF late", plainReaderAt{src}},
		{"SectionReader", io.NewSectionReader(strings.NewReader("xx"+src+"y\nz\n"), 2, int64(len(src)))},
		{"SectionReader over early EOF", io.NewSectionReader(eofReaderAt{"xx" + src}, 2, int64(len(src)))},
		{"own lines", &ownLines{plainReaderAt{src}, lines, false, 0}},
		{"own lines, early EOF", &ownLines{plainReaderAt{src}, lines, true, 0}},
	}
	if c.File {
		dir := scratch()
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "src")
		writeFile(p, src, 0o600)
		fh, err := os.Open(p)
		if err != nil {
			infraf("%v", err)
		}
		defer fh.Close()
		variants = append(variants, struct {
			name string
			r    io.ReaderAt
		}{"os.File", fh})
	}
	for _, v := range variants {
		if got := run(v.r); got != want {
			return fmt.Errorf("%s: failed %v conflict %v at %d/%d/%d with %s; a strings.Reader: failed %v conflict %v at %d/%d/%d with %s", v.name,
				got.failed, got.conflict, got.line, got.frag, got.fl, q(got.out), want.failed, want.conflict, want.line, want.frag, want.fl, q(want.out))
		}
		if ol, ok := v.r.(*ownLines); ok && len(f.TextFragments) > 0 && !want.failed && ol.calls == 0 {
			return fmt.Errorf("%s: the lines were never asked for", v.name)
		}
	}
	o.NTIf(src != "")
	o.LabelIf(want.failed, "fails")
	o.LabelIf(f.IsBinary, "binary")
	o.LabelIf(len(src) > 1024, "longer than a buffer")
	return nil
}

var _ = iotest.ErrTimeout

func init() {
	register(&Prop{ID: "C12", Rule: "edit scripts cut into hunks of any context width, rendered, parsed and applied in both directions; non-trivial: neither side is empty, or several hunks",
		Subs: []*Sub{
			Enum("small", enumC12, checkSmall),
			Gen("scripts", 60000, 2000000, genC12, checkC12),
			Gen("big", 400, 12000, (*G).bigCase, checkBig),
		}})
	register(&Prop{ID: "C13", Rule: "sources and hunks that match, nearly match or do not match, compared with a reference implementation of strict application; non-trivial: the source is not empty",
		Subs: []*Sub{
			Enum("tiny", enumC13, checkTiny),
			Gen("mutations", 120000, 4000000, genC13, checkC13),
			Gen("long", 2500, 60000, genC13long, checkLong),
		}})
	register(&Prop{ID: "C14", Rule: "failing applications; non-trivial: a mismatch, a short source or leftover content",
		Subs: []*Sub{
			Gen("mutations", 120000, 4000000, genC14, checkC14),
			Gen("shuffled", 30000, 600000, genShuffled, checkShuffled),
			Gen("long", 400, 10000, func(g *G) bigConflict { return bigConflict{g.bigCase(), g.Uint64(), g.Bool()} }, checkBigConflict),
		}})
	register(&Prop{ID: "C15", Rule: "sequences of applier calls checked step by step against a model; non-trivial: a fragment was applied",
		Subs: []*Sub{
			Gen("text", 60000, 2000000, genC15, checkC15),
			Gen("binary", 30000, 600000, genC15bin, checkC15bin),
			Gen("failing-close", 30000, 600000, genFailClose, checkFailClose),
		}})
	register(&Prop{ID: "C18", Rule: "the same application through seven or more kinds of sources, with line ends placed around internal buffer sizes; non-trivial: the source is not empty",
		Subs: []*Sub{Gen("access", 8000, 200000, genC18, checkC18)}})
}
