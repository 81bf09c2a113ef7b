package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C30

type raceJob struct {
	Kind string
	File int
	N    int
}

// a set of jobs that several goroutines run at once, each in its own order
type raceCase struct {
	Parts   []Part
	Own     []Part // parsed by single jobs
	Srcs    []BS
	Headers []BS
	Idents  []BS
	Dates   []BS
	Jobs    []raceJob
	Workers int
	Order   int // changes the orders
}

var raceKinds = []string{"parse", "parse own", "header", "header own", "identity", "date", "apply shared", "applier shared", "message"}

func (g *G) raceJobs(n int) []raceJob {
	var js []raceJob
	for i := 0; i < n; i++ {
		j := raceJob{Kind: pick(g, raceKinds), File: g.Int(0, 5), N: g.Int(0, 9)}
		if g.Int(0, 9) < 6 {
			j.Kind = pick(g, pureKinds)
		}
		js = append(js, j)
	}
	return js
}

func genC30(g *G) raceCase {
	c := raceCase{Workers: g.Int(2, 6), Order: g.Int(0, 1000)}
	for i, n := 0, g.Int(1, 3); i < n; i++ {
		f := g.mfileOf(8, pick(g, []string{"text", "text", "binary", ""}))
		c.Parts = append(c.Parts, Part{F: &f, Style: g.hstyle()})
	}
	f := g.mfile(8)
	c.Own = []Part{{F: &f, Style: g.hstyle()}}
	c.Srcs = []BS{BS(strings.Join(g.lines(8), "")), BS(g.payload()), ""}
	for i := 0; i < 2; i++ {
		c.Headers = append(c.Headers, BS(g.validHeader()))
		c.Idents = append(c.Idents, genIdent(g).S)
		c.Dates = append(c.Dates, BS(printDate(pick(g, dateFormats), g.Int64(0, 4102444799), g.zone(), 60)))
	}
	c.Jobs = g.raceJobs(g.Int(3, 14))
	return c
}

func (c *raceCase) header(i int) string { return string(c.Headers[i%len(c.Headers)]) }

func headerText(h *gitdiff.PatchHeader, err error) string {
	if err != nil {
		return "failed: " + err.Error()
	}
	return fmt.Sprintf("%q %v %v %v %v %q %q %q %q", h.SHA, h.Author, h.AuthorDate, h.Committer, h.CommitterDate, h.Title, h.Body, h.SubjectPrefix, h.BodyAppendix)
}

func filesText(files []*gitdiff.File, pre string, err error) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %q", err, pre)
	for _, f := range files {
		fmt.Fprintf(&b, "\n%q %q %v %v %q %q %d %v%v%v%v%v\n", f.OldName, f.NewName, f.OldMode, f.NewMode, f.OldOIDPrefix, f.NewOIDPrefix, f.Score, f.IsNew, f.IsDelete, f.IsCopy, f.IsRename, f.IsBinary)
		for _, t := range f.TextFragments {
			b.WriteString(t.Header() + "\n")
			for _, l := range t.Lines {
				b.WriteString(l.String())
			}
		}
		for _, x := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if x != nil {
				fmt.Fprintf(&b, "%v %d %q\n", x.Method, x.Size, x.RawData)
			}
		}
	}
	return b.String()
}

// raceState is what the goroutines share.
type raceState struct {
	in, own string
	files   []*gitdiff.File
	fits    []string
	readers []*strings.Reader
	lines   []*keptLines
	hdr     *gitdiff.PatchHeader
	hopts   [][]gitdiff.PatchHeaderOption
	aopts   []gitdiff.ApplyOption
}

func (c *raceCase) setup() (*raceState, error) {
	s := &raceState{in: renderParts(c.Parts), own: renderParts(c.Own)}
	var err error
	if s.files, _, err = parseString(s.in); err != nil {
		return nil, fmt.Errorf("Parse failed: %v\n%s", err, q(s.in))
	}
	if len(s.files) == 0 {
		return nil, fmt.Errorf("no files in %s", q(s.in))
	}
	if len(s.files) != len(c.Parts) {
		return nil, fmt.Errorf("%d files for %d parts in %s", len(s.files), len(c.Parts), q(s.in))
	}
	for i := range s.files {
		// not calculated with the library, which has not run much yet
		fit := "x"
		if f := c.Parts[i%len(c.Parts)].F; f != nil && f.Content == "text" {
			fit = f.oldText()
		} else if f == nil && i == 0 {
			fit = string(c.Srcs[0])
		}
		s.fits = append(s.fits, fit)
		s.readers = append(s.readers, strings.NewReader(fit))
		kl := &keptLines{plainReaderAt: plainReaderAt{fit}}
		for _, l := range splitLines(fit) {
			kl.lines = append(kl.lines, []byte(l)[:len(l):len(l)])
		}
		s.lines = append(s.lines, kl)
	}
	s.hdr = &gitdiff.PatchHeader{Title: "title", Body: "body"}
	for m := 0; m < 4; m++ {
		s.hopts = append(s.hopts, subjectOpts(m))
	}
	s.aopts = []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(5000)}
	return s, nil
}

// oldText is content that the hunks of the file fit.
func (f *MFile) oldText() string {
	var b strings.Builder
	next := int64(1)
	for _, h := range f.Hunks {
		start := h.OP
		if h.OL == 0 {
			start++
		}
		for ; next < start && next < 5000; next++ {
			fmt.Fprintf(&b, "filler %d\n", next)
		}
		for _, l := range h.Lines {
			if l.Op != "+" {
				b.WriteString(string(l.S))
				next++
			}
		}
	}
	return b.String()
}

func (c *raceCase) run(s *raceState, j raceJob) (res string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	k := j.File % len(s.files)
	switch j.Kind {
	case "parse":
		return filesText(parseString(s.in)), nil
	case "parse own":
		return filesText(gitdiff.Parse(bytes.NewReader([]byte(s.own)))), nil
	case "header":
		return headerText(gitdiff.ParsePatchHeader(c.header(j.N), s.hopts[j.File%4]...)), nil
	case "header own":
		return headerText(gitdiff.ParsePatchHeader(strings.Clone(c.header(j.N)), subjectOpts(j.File%4)...)), nil
	case "identity":
		id, err := gitdiff.ParsePatchIdentity(string(c.Idents[j.N%len(c.Idents)]))
		return fmt.Sprint(id.String(), err), nil
	case "date":
		t, err := gitdiff.ParsePatchDate(string(c.Dates[j.N%len(c.Dates)]))
		return fmt.Sprint(t, err), nil
	case "message":
		return s.hdr.Message(), nil
	case "apply shared":
		var out bytes.Buffer
		var src io.ReaderAt = s.readers[k]
		if j.N%2 == 1 {
			src = s.lines[k]
		}
		err := gitdiff.Apply(&out, src, s.files[k], s.aopts...)
		return outcomeText(out.String(), err), nil
	case "applier shared":
		var out bytes.Buffer
		a := gitdiff.NewTextApplier(&out, s.readers[k])
		var err error
		for _, t := range s.files[k].TextFragments {
			if err = a.ApplyFragment(t); err != nil {
				break
			}
		}
		return outcomeText(out.String(), err) + outcomeText("", a.Close()), nil
	}
	srcs := []string{s.fits[k]}
	if j.N >= 6 {
		srcs = nil
		for _, x := range c.Srcs {
			srcs = append(srcs, string(x))
		}
	}
	return runPure(s.files[k], pureOp{j.File, j.Kind, j.N}, srcs)
}

type raceResult struct {
	res string
	err error
}

// together runs the jobs in each of n goroutines at once; state gives each its
// values.
func (c *raceCase) together(n int, state func() (*raceState, error)) ([][]raceResult, error) {
	results := make([][]raceResult, n)
	errs := make([]error, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := range results {
		results[w] = make([]raceResult, len(c.Jobs))
		wg.Add(1)
		order := make([]int, len(c.Jobs))
		for i := range order {
			order[i] = i
		}
		if c.Order%4 != 0 { // otherwise all do the same at the same time
			p := prng(c.Order*31 + w + 1)
			for i := len(order) - 1; i > 0; i-- {
				k := p.intn(i + 1)
				order[i], order[k] = order[k], order[i]
			}
		}
		go func() {
			defer wg.Done()
			<-start
			s, err := state()
			if errs[w] = err; err != nil {
				return
			}
			for _, i := range order {
				r := &results[w][i]
				r.res, r.err = c.run(s, c.Jobs[i])
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return nil, err
		}
	}
	return results, nil
}

func checkC30(c *raceCase, o *Obs) error {
	// first on separate values: nothing has been used alone by then
	separate, err := c.together(min(3, c.Workers), c.setup)
	if err != nil {
		return err
	}
	s, err := c.setup()
	if err != nil {
		return err
	}
	shared, err := c.together(c.Workers, func() (*raceState, error) { return s, nil })
	if err != nil {
		return err
	}
	// now alone
	alone, err := c.setup()
	if err != nil {
		return err
	}
	if d := diffFileLists(s.files, alone.files); d != "" {
		return fmt.Errorf("the shared files changed: %s\ninput %s", d, q(s.in))
	}
	for i, j := range c.Jobs {
		want, werr := c.run(alone, j)
		if werr != nil {
			return fmt.Errorf("%s of file %d, alone: %v\ninput %s", j.Kind, j.File, werr, q(s.in))
		}
		for _, rs := range append(separate, shared...) {
			if r := rs[i]; r.err != nil || r.res != want {
				return fmt.Errorf("%s of file %d, among %d goroutines: %s %v, alone: %s\ninput %s", j.Kind, j.File, c.Workers, q(r.res), r.err, q(want), q(s.in))
			}
		}
		o.Label(j.Kind)
	}
	o.NTIf(len(c.Jobs)*c.Workers >= 6)
	return nil
}

// firstUse: the first case of each process runs everything at once, before
// anything has been used alone.
func enumC30(tier string, yield func(raceCase) bool) {
	n := 16
	if tier == "thorough" {
		n = 200
	}
	for i := 0; i < n; i++ {
		c := raceCase{Workers: 6, Order: i}
		lit := "diff --git a/b.bin b/b.bin\nindex 1234567890123456789012345678901234567890..1234567890123456789012345678901234567891 100644\nGIT binary patch\nliteral 5\n" + refBinLines(deflate([]byte("hello"), 9), 52) + "literal 3\n" + refBinLines(deflate([]byte("abc"), 9), 52)
		del := "diff --git a/d.bin b/d.bin\nindex 1234567890123456789012345678901234567890..1234567890123456789012345678901234567891 100644\nGIT binary patch\ndelta 5\n" + refBinLines(deflate(encodeDelta(1, 3, []DOp{{Copy: true, Size: 1}, {Add: "yz"}}), 9), 52)
		txt := "diff --git \"a/q\\303\\251\\t\" \"b/q\\303\\251\\t\"\nold mode 100644\nnew mode 100755\nindex 1234567..89abcde\n--- \"a/q\\303\\251\\t\"\n+++ \"b/q\\303\\251\\t\"\n@@ -1,3 +1,3 @@ func\n a\n-b\n+c\n d\n"
		trad := "--- old.txt\t2020-01-01 00:00:00\n+++ new.txt\t2020-01-02 00:00:00\n@@ -1 +1 @@\n-x\n+y\n\\ No newline at end of file\n"
		for _, t := range []string{txt, lit, del, trad} {
			c.Parts = append(c.Parts, Part{Junk: BS(t)})
		}
		c.Own = c.Parts[i%4 : i%4+1]
		c.Srcs = []BS{"a\nb\nd\n", "x", ""}
		c.Headers = []BS{"commit 0123456789012345678901234567890123456789 (HEAD)\nAuthor: A \"B\" <a@b>\nDate:   Thu Jan 1 00:00:00 1970 +0000\nCommit: (C) c@d\n\n    title\n    more\n\n    body\n",
			"From 0123456789012345678901234567890123456789 Mon Sep 17 00:00:00 2001\nFrom: =?UTF-8?q?J=C3=BC?= <a@b>\nDate: Thu, 1 Jan 1970 00:00:00 +0000\nSubject: [PATCH] =?UTF-8?q?caf=C3=A9?=\n\nbody\n---\n x\n"}
		c.Idents = []BS{`"A \"B" <a@b>`, "c@d (C)"}
		c.Dates = []BS{"2020-01-01", "1234567890 +0100"}
		kinds := append(append([]string{}, raceKinds...), pureKinds[3:]...)
		for f := 0; f < 4; f++ {
			for k := range kinds {
				c.Jobs = append(c.Jobs, raceJob{kinds[(k+3*i)%len(kinds)], f, (k + f) % 6})
			}
		}
		if !yield(c) {
			return
		}
	}
}

func init() {
	register(&Prop{ID: "C30", Race: true, Rule: "sets of operations run by two to six goroutines at once on shared and separate values under the race detector, and then alone; non-trivial: at least six operations ran concurrently",
		Subs: []*Sub{
			Enum("first-use", enumC30, checkC30),
			Gen("mixed", 4500, 250000, genC30, checkC30),
		}})
}
