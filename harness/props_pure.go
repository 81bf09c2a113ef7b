package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ------------------------------------------------------------------ C16

type pureOp struct {
	File int
	Kind string
	N    int
}

type pureCase struct {
	Parts []Part
	Srcs  []BS
	Ops   []pureOp
}

var pureKinds = []string{"apply", "apply", "apply", "apply", "apply lines", "apply limit", "applier", "string", "fragments", "validate", "data", "partial data", "reverse", "permute"}

func genC16(g *G) pureCase {
	c := pureCase{}
	for i, n := 0, g.Int(1, 3); i < n; i++ {
		f := g.mfileOf(8, pick(g, []string{"text", "text", "binary", ""}))
		c.Parts = append(c.Parts, Part{F: &f, Style: g.hstyle()})
	}
	c.Srcs = []BS{BS(strings.Join(g.lines(8), "")), BS(g.payload()), ""}
	for i, n := 0, g.Int(2, 14); i < n; i++ {
		c.Ops = append(c.Ops, pureOp{g.Int(0, 5), pick(g, pureKinds), g.Int(0, 9)})
	}
	return c
}

func cloneFrag(t *gitdiff.TextFragment) *gitdiff.TextFragment {
	n := *t
	n.Lines = make([]gitdiff.Line, len(t.Lines))
	for i, l := range t.Lines {
		n.Lines[i] = gitdiff.Line{Op: l.Op, Line: strings.Clone(l.Line)}
	}
	return &n
}

func cloneBin(b *gitdiff.BinaryFragment) *gitdiff.BinaryFragment {
	if b == nil {
		return nil
	}
	n := *b
	n.RawData = append([]byte(nil), b.RawData...)
	return &n
}

func cloneFile(f *gitdiff.File) *gitdiff.File {
	n := *f
	n.OldName, n.NewName = strings.Clone(f.OldName), strings.Clone(f.NewName)
	n.TextFragments = nil
	for _, t := range f.TextFragments {
		n.TextFragments = append(n.TextFragments, cloneFrag(t))
	}
	n.BinaryFragment, n.ReverseBinaryFragment = cloneBin(f.BinaryFragment), cloneBin(f.ReverseBinaryFragment)
	return &n
}

func cloneFiles(fs []*gitdiff.File) []*gitdiff.File {
	var out []*gitdiff.File
	for _, f := range fs {
		out = append(out, cloneFile(f))
	}
	return out
}

// keptLines hands out its own slices; nobody may write to them.
type keptLines struct {
	plainReaderAt
	lines [][]byte
}

func (r *keptLines) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	n := 0
	for n < len(lines) && off+int64(n) < int64(len(r.lines)) {
		lines[n] = r.lines[off+int64(n)]
		n++
	}
	if n < len(lines) {
		return n, io.EOF
	}
	return n, nil
}

// binSource finds a source that the binary fragment can be applied to: any
// for a literal, one of the declared length for a delta.
func binSource(b *gitdiff.BinaryFragment) string {
	if b == nil || b.Method != gitdiff.BinaryPatchDelta || b.Size > 1<<20 {
		return "x"
	}
	d, err := io.ReadAll(b.Data())
	if err != nil {
		return "x"
	}
	n, shift := 0, 0
	for _, c := range d {
		n |= int(c&0x7f) << shift
		shift += 7
		if c < 0x80 || shift > 21 {
			break
		}
	}
	return string(bulk(uint64(n), min(n, 1<<16)))
}

// fitting is the content a parsed file applies to.
func fitting(f *gitdiff.File) string {
	if f.IsBinary {
		return binSource(f.BinaryFragment)
	}
	s, _ := oldContent(f)
	return s
}

func outcomeText(out string, err error) string {
	if err == nil {
		return "ok: " + out
	}
	var ae *gitdiff.ApplyError
	loc := ""
	if errors.As(err, &ae) {
		loc = fmt.Sprintf(" at %d/%d/%d", ae.Line, ae.Fragment, ae.FragmentLine)
	}
	return fmt.Sprintf("failed: %v%s after %s", err, loc, out)
}

func runPure(f *gitdiff.File, op pureOp, srcs []string) (res string, err error) {
	src := srcs[op.N%len(srcs)]
	var out bytes.Buffer
	switch op.Kind {
	case "apply":
		raw := []byte(src)
		e := gitdiff.Apply(&out, bytes.NewReader(raw), f)
		if string(raw) != src {
			return "", errors.New("Apply changed its source")
		}
		return outcomeText(out.String(), e), nil
	case "apply lines":
		kl := &keptLines{plainReaderAt: plainReaderAt{src}}
		for _, l := range splitLines(src) {
			kl.lines = append(kl.lines, []byte(l)[:len(l):len(l)])
		}
		e := gitdiff.Apply(&out, kl, f)
		for i, l := range splitLines(src) {
			if string(kl.lines[i]) != l {
				return "", fmt.Errorf("Apply changed line %d of its source", i+1)
			}
		}
		return outcomeText(out.String(), e), nil
	case "apply limit":
		e := gitdiff.Apply(&out, strings.NewReader(src), f, gitdiff.WithMaxBinaryFragmentBytes(int64(op.N)))
		return outcomeText(out.String(), e), nil
	case "applier":
		if f.BinaryFragment != nil {
			a := gitdiff.NewBinaryApplier(&out, strings.NewReader(src))
			e := a.ApplyFragment(f.BinaryFragment)
			return outcomeText(out.String(), e) + outcomeText("", a.Close()), nil
		}
		a := gitdiff.NewTextApplier(&out, strings.NewReader(src))
		var e error
		for _, t := range f.TextFragments {
			if e = a.ApplyFragment(t); e != nil {
				break
			}
		}
		return outcomeText(out.String(), e), nil
	case "string":
		return f.String(), nil
	case "fragments":
		var b strings.Builder
		for _, t := range f.TextFragments {
			b.WriteString(t.Header() + "\n" + t.String())
			for _, l := range t.Lines {
				b.WriteString(l.String() + fmt.Sprint(l.Old(), l.New(), l.NoEOL(), l.Op))
			}
		}
		if f.BinaryFragment != nil {
			b.WriteString(f.BinaryFragment.String())
		}
		return b.String(), nil
	case "validate":
		var b strings.Builder
		for _, t := range f.TextFragments {
			fmt.Fprintln(&b, t.Validate())
		}
		return b.String(), nil
	case "data", "partial data":
		if f.BinaryFragment == nil {
			return "", nil
		}
		if op.Kind == "partial data" {
			b := make([]byte, op.N)
			f.BinaryFragment.Data().Read(b)
		}
		d, e := io.ReadAll(f.BinaryFragment.Data())
		return fmt.Sprint(string(d), e), nil
	case "reverse":
		if f.ReverseBinaryFragment == nil {
			return "", nil
		}
		a := gitdiff.NewBinaryApplier(&out, strings.NewReader(src))
		return outcomeText(out.String(), a.ApplyFragment(f.ReverseBinaryFragment)), nil
	case "permute":
		// any order of the fragments gives the same result, even a failing one
		// as far as the output goes
		if len(f.TextFragments) < 2 {
			return "", nil
		}
		for i := range f.TextFragments {
			for j := range f.TextFragments[:i] {
				if f.TextFragments[i].OldPosition == f.TextFragments[j].OldPosition {
					return "", nil
				}
			}
		}
		want, werr := applyTo(src, f)
		n := *f
		n.TextFragments = append([]*gitdiff.TextFragment(nil), f.TextFragments...)
		p := prng(op.N + 1)
		for i := len(n.TextFragments) - 1; i > 0; i-- {
			j := p.intn(i + 1)
			n.TextFragments[i], n.TextFragments[j] = n.TextFragments[j], n.TextFragments[i]
		}
		order := append([]*gitdiff.TextFragment(nil), n.TextFragments...)
		got, gerr := applyTo(src, &n)
		// the error counts the fragments in the order of the file
		var wae, gae *gitdiff.ApplyError
		if errors.As(werr, &wae) && errors.As(gerr, &gae) && wae.Fragment > 0 && gae.Fragment > 0 && gae.Fragment <= len(order) {
			if order[gae.Fragment-1] != f.TextFragments[wae.Fragment-1] {
				return "", fmt.Errorf("fragments in another order: error at fragment %d, want that at %d of %d before", gae.Fragment, wae.Fragment, len(order))
			}
			c := *gae
			c.Fragment, gerr = wae.Fragment, &c
		}
		if a, b := outcomeText(got, gerr), outcomeText(want, werr); a != b {
			return "", fmt.Errorf("fragments in another order: %s, want %s", q(a), q(b))
		}
		for i := range order {
			if order[i] != n.TextFragments[i] {
				return "", errors.New("Apply reordered the fragments of the file")
			}
		}
		return outcomeText(got, gerr), nil
	}
	infraf("op %q", op.Kind)
	return "", nil
}

func checkC16(c *pureCase, o *Obs) error {
	in := renderParts(c.Parts)
	files, _, err := parseString(in)
	if err != nil {
		return fmt.Errorf("Parse failed: %v\n%s", err, q(in))
	}
	if len(files) == 0 {
		return fmt.Errorf("no files in %s", q(in))
	}
	snap := cloneFiles(files)
	first := map[string]string{}
	repeats := 0
	for i, op := range c.Ops {
		k := op.File % len(files)
		srcs := []string{fitting(files[k])}
		if op.N >= 6 {
			srcs = nil
			for _, s := range c.Srcs {
				srcs = append(srcs, string(s))
			}
		}
		res, err := runPure(files[k], op, srcs)
		if err != nil {
			return fmt.Errorf("step %d: %s of file %d: %w\ninput %s", i+1, op.Kind, k+1, err, q(in))
		}
		if d := diffFileLists(files, snap); d != "" {
			return fmt.Errorf("step %d: %s of file %d changed %s\ninput %s", i+1, op.Kind, k+1, d, q(in))
		}
		key := fmt.Sprint(k, op.Kind, op.N)
		if w, ok := first[key]; ok {
			repeats++
			if w != res {
				return fmt.Errorf("step %d: %s of file %d gave %s the first time, now %s\ninput %s", i+1, op.Kind, k+1, q(w), q(res), q(in))
			}
		}
		first[key] = res
	}
	// everything once more, in another order, on freshly parsed files
	again, _, _ := parseString(in)
	for i := len(c.Ops) - 1; i >= 0; i-- {
		op := c.Ops[i]
		k := op.File % len(files)
		srcs := []string{fitting(snap[k])}
		if op.N >= 6 {
			srcs = nil
			for _, s := range c.Srcs {
				srcs = append(srcs, string(s))
			}
		}
		for _, fs := range [][]*gitdiff.File{files, again, snap} {
			res, err := runPure(fs[k], op, srcs)
			if err != nil {
				return err
			}
			if w := first[fmt.Sprint(k, op.Kind, op.N)]; w != res {
				return fmt.Errorf("%s of file %d gave %s at first, later %s\ninput %s", op.Kind, k+1, q(w), q(res), q(in))
			}
		}
	}
	o.NTIf(len(c.Ops) > 2)
	o.LabelIf(repeats > 0, "repeated")
	o.LabelIf(len(files) > 1, "several files")
	return nil
}

// changing one returned value never changes another

type aliasCase struct {
	Parts []Part
	Pick  int
	Seed  uint64
}

func checkAlias(c *aliasCase, o *Obs) error {
	in := renderParts(c.Parts)
	files, _, err := parseString(in)
	if err != nil {
		return fmt.Errorf("Parse failed: %v\n%s", err, q(in))
	}
	snap := cloneFiles(files)
	k := c.Pick % len(files)
	f := files[k]
	others := func(what string) error {
		for i := range files {
			if i == k {
				continue
			}
			if d := diffFiles(files[i], snap[i]); d != "" {
				return fmt.Errorf("%s of file %d changed file %d: %s\ninput %s", what, k+1, i+1, d, q(in))
			}
		}
		return nil
	}
	// appending within the capacity of a slice must not reach other fragments
	for i, t := range f.TextFragments {
		for len(t.Lines) < cap(t.Lines) && len(t.Lines) < len(snap[k].TextFragments[i].Lines)+64 {
			t.Lines = append(t.Lines, gitdiff.Line{Op: gitdiff.OpAdd, Line: "scribble\n"})
		}
		for j := range f.TextFragments {
			if j == i {
				continue
			}
			t2 := cloneFrag(f.TextFragments[j])
			t2.Lines = t2.Lines[:min(len(t2.Lines), len(snap[k].TextFragments[j].Lines))]
			if d := diffFrag(t2, snap[k].TextFragments[j]); d != "" {
				return fmt.Errorf("appending lines to fragment %d changed fragment %d: %s\ninput %s", i+1, j+1, d, q(in))
			}
		}
	}
	bins := []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment}
	sb := []*gitdiff.BinaryFragment{snap[k].BinaryFragment, snap[k].ReverseBinaryFragment}
	for i, b := range bins {
		if b == nil {
			continue
		}
		ext := b.RawData[:cap(b.RawData)]
		for j := len(b.RawData); j < len(ext); j++ {
			ext[j] ^= 0xff
		}
		for j := range b.RawData {
			b.RawData[j] ^= 0xff
		}
		if d := diffBin(bins[1-i], sb[1-i]); d != "" {
			return fmt.Errorf("changing the data of one binary fragment changed the other: %s\ninput %s", d, q(in))
		}
		for j := range b.RawData {
			b.RawData[j] ^= 0xff
		}
	}
	if err := others("appending to slices"); err != nil {
		return err
	}
	for _, t := range f.TextFragments {
		for j := range t.Lines {
			t.Lines[j] = gitdiff.Line{Op: gitdiff.OpDelete, Line: "scribble\n"}
		}
		t.OldPosition, t.Comment = -7, "scribble"
	}
	for _, b := range bins {
		if b != nil {
			for j := range b.RawData {
				b.RawData[j] = 0xa5
			}
			b.Size = 3
		}
	}
	fr := f.TextFragments[:cap(f.TextFragments)]
	for i := range fr {
		fr[i] = nil
	}
	f.OldName, f.NewName, f.OldMode, f.IsNew = "scribble", "scribble", 7, !f.IsNew
	if err := others("changing the fields"); err != nil {
		return err
	}
	// and parsing again is not affected
	again, _, err := parseString(in)
	if err != nil {
		return fmt.Errorf("second Parse: %v", err)
	}
	if d := diffFileLists(again, snap); d != "" {
		return fmt.Errorf("changing a parsed file changed what Parse returns: %s\ninput %s", d, q(in))
	}
	o.NTIf(len(files) > 1 || len(f.TextFragments) > 1 || f.ReverseBinaryFragment != nil)
	return nil
}

func genAlias(g *G) aliasCase {
	return aliasCase{Parts: g.parts(4, 12), Pick: g.Int(0, 5), Seed: g.Uint64()}
}

// ------------------------------------------------------------------ C17

// faultWriter accepts limit bytes and then fails.
type faultWriter struct {
	b     bytes.Buffer
	limit int
	err   error // nil: a short write without an error
	all   bool  // refuse the whole call that would pass the limit
	hits  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if room := w.limit - w.b.Len(); len(p) > room {
		w.hits++
		if w.all {
			return 0, w.err
		}
		w.b.Write(p[:room])
		return room, w.err
	}
	return w.b.Write(p)
}

// faultReaderAt fails in the at-th call.
type faultReaderAt struct {
	r         io.ReaderAt
	at, calls int
	err       error
	transient bool
	give      int // 0: no data with the error, 1: some, 2: all there is
	hits      int
}

func (r *faultReaderAt) ReadAt(p []byte, off int64) (int, error) {
	r.calls++
	if r.calls == r.at || (r.calls > r.at && !r.transient) {
		r.hits++
		switch r.give {
		case 1:
			n, _ := r.r.ReadAt(p[:len(p)/2], off)
			return n, r.err
		case 2:
			// a full read need not be taken for a failure, as io.ReadFull
			// does not
			n, _ := r.r.ReadAt(p, off)
			return min(n, max(0, len(p)-1)), r.err
		}
		return 0, r.err
	}
	return r.r.ReadAt(p, off)
}

// faultLines fails in the at-th ReadLinesAt or ReadAt call.
type faultLines struct {
	faultReaderAt
	l ownLines
}

func (r *faultLines) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	r.calls++
	if r.calls == r.at || (r.calls > r.at && !r.transient) {
		r.hits++
		n := 0
		if r.give > 0 {
			n, _ = r.l.ReadLinesAt(lines[:len(lines)/2], off)
		}
		return n, r.err
	}
	return r.l.ReadLinesAt(lines, off)
}

type ioCase struct {
	Kind      string   // text, literal, delta, copy, unused
	Script    []ML     `json:",omitempty"`
	Hunks     []Hunk   `json:",omitempty"`
	Big       *bigCase `json:",omitempty"`
	Src, Dst  BS       `json:",omitempty"`
	Seed      uint64
	Applier   bool
	Err       int
	Transient bool
	Give      int
	All       bool
	Few       bool `json:",omitempty"`
}

// points is how many offsets of a stream get a fault.
func (c *ioCase) points() int {
	if c.Few {
		return 9
	}
	return 90
}

func genC17(g *G) ioCase {
	c := ioCase{Kind: pick(g, []string{"text", "text", "text", "literal", "delta", "copy", "unused text", "unused binary", "big"}), Applier: g.Bool(), Err: g.Int(0, 3), Transient: g.Bool(), Give: g.Int(0, 2), All: g.Bool(), Seed: g.Uint64()}
	switch c.Kind {
	case "text":
		c.Script = g.script(16)
		c.Hunks = g.hunks(c.Script)
	case "big":
		b := g.bigCase()
		b.N = min(b.N, 1500)
		c.Big = &b
	case "literal", "delta":
		c.Src, c.Dst = BS(g.payload()), BS(g.payload())
		if g.Chance(3) {
			c.Dst = c.Src + c.Dst + c.Src
		}
	default:
		c.Src = BS(g.payload())
		if g.Chance(3) {
			c.Src = BS(bulk(c.Seed, pick(g, []int{32767, 32768, 32769, 65536, 70000})))
		}
	}
	return c
}

func (c *ioCase) build() (src, want string, f *gitdiff.File) {
	f = &gitdiff.File{OldName: "f", NewName: "f"}
	switch c.Kind {
	case "text":
		f.TextFragments = (&conflictCase{Hunks: c.Hunks}).frags()
		return oldOf(c.Script), newOf(c.Script), f
	case "big":
		a := c.Big.build()
		f.TextFragments = (&conflictCase{Hunks: a.Hunks}).frags()
		return oldOf(a.Script), newOf(a.Script), f
	case "literal":
		f.IsBinary, f.BinaryFragment = true, (&BinFrag{Data: c.Dst, Level: -1}).fragment()
		return string(c.Src), string(c.Dst), f
	case "delta":
		f.IsBinary, f.BinaryFragment = true, (&BinFrag{Delta: true, Data: BS(makeDelta([]byte(c.Src), []byte(c.Dst), c.Seed)), Level: -1}).fragment()
		return string(c.Src), string(c.Dst), f
	}
	return string(c.Src), string(c.Src), f
}

func (c *ioCase) apply(dst io.Writer, src io.ReaderAt, f *gitdiff.File) error {
	switch {
	case c.Kind == "unused text":
		return gitdiff.NewTextApplier(dst, src).Close()
	case c.Kind == "unused binary":
		return gitdiff.NewBinaryApplier(dst, src).Close()
	case c.Applier && f.BinaryFragment != nil:
		a := gitdiff.NewBinaryApplier(dst, src)
		if err := a.ApplyFragment(f.BinaryFragment); err != nil {
			return err
		}
		return a.Close()
	case c.Applier && len(f.TextFragments) > 0:
		a := gitdiff.NewTextApplier(dst, src)
		for _, t := range f.TextFragments {
			if err := a.ApplyFragment(t); err != nil {
				return err
			}
		}
		return a.Close()
	}
	return gitdiff.Apply(dst, src, f)
}

func ioErr(k int) error {
	switch k {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrClosedPipe
	case 3:
		return io.ErrShortWrite
	}
	return errSentinel
}

// spread yields all of lo..hi if they are few, otherwise a sample with both
// ends.
func spread(lo, hi, max int, seed uint64) []int {
	var out []int
	if hi-lo < max {
		for i := lo; i <= hi; i++ {
			out = append(out, i)
		}
		return out
	}
	p := prng(seed)
	for i := 0; i < max/3; i++ {
		out = append(out, lo+i, hi-i, lo+p.intn(hi-lo+1))
	}
	return out
}

func checkC17(c *ioCase, o *Obs) error {
	src, want, f := c.build()
	sentinel := ioErr(c.Err)
	var ok bytes.Buffer
	if err := c.apply(&ok, strings.NewReader(src), f); err != nil || ok.String() != want {
		return fmt.Errorf("without a fault: %v, output %s, want %s", err, q(ok.String()), q(want))
	}
	// the destination fails after n bytes
	for _, n := range spread(0, len(want)-1, c.points(), c.Seed) {
		for _, short := range []bool{false, true} {
			w := &faultWriter{limit: n, err: sentinel, all: c.All}
			wantErr := sentinel
			if short {
				w.err, w.all = nil, false
			}
			err := c.apply(w, strings.NewReader(src), f)
			what := fmt.Sprintf("%s: destination fails after %d of %d bytes with %v", c.Kind, n, len(want), w.err)
			if err == nil {
				return fmt.Errorf("%s: no error was reported", what)
			}
			if !short && !errors.Is(err, wantErr) {
				return fmt.Errorf("%s: the error is %v", what, err)
			}
			if !short && !strings.HasPrefix(want, w.b.String()) {
				return fmt.Errorf("%s: wrote %s, which is no prefix of %s", what, q(w.b.String()), q(want))
			}
			if w.hits == 0 {
				return fmt.Errorf("%s: error %v before the fault", what, err)
			}
		}
	}
	// the source fails in its n-th call
	var probe faultReaderAt
	probe = faultReaderAt{r: strings.NewReader(src), at: -1, transient: true}
	if err := c.apply(io.Discard, &probe, f); err != nil {
		return fmt.Errorf("counting reads: %v", err)
	}
	for _, n := range spread(1, probe.calls, c.points(), c.Seed) {
		r := &faultReaderAt{r: strings.NewReader(src), at: n, err: sentinel, transient: c.Transient, give: c.Give}
		if err := c.readFault(r, &r.hits, src, want, sentinel, f, n); err != nil {
			return err
		}
	}
	if len(f.TextFragments) > 0 {
		mk := func(at int) *faultLines {
			return &faultLines{faultReaderAt{r: strings.NewReader(src), at: at, err: sentinel, transient: c.Transient || at < 0, give: c.Give}, ownLines{plainReaderAt{src}, splitLines(src), false, 0}}
		}
		lp := mk(-1)
		if err := c.apply(io.Discard, lp, f); err != nil {
			return fmt.Errorf("counting line reads: %v", err)
		}
		for _, n := range spread(1, lp.calls, c.points(), c.Seed) {
			r := mk(n)
			if err := c.readFault(r, &r.hits, src, want, sentinel, f, n); err != nil {
				return fmt.Errorf("own lines: %w", err)
			}
		}
		o.LabelIf(probe.calls > 3, "several reads")
	}
	o.NTIf(want != "")
	o.Label(c.Kind)
	return nil
}

func (c *ioCase) readFault(r io.ReaderAt, hits *int, src, want string, sentinel error, f *gitdiff.File, n int) error {
	var out bytes.Buffer
	err := c.apply(&out, r, f)
	if *hits == 0 {
		return fmt.Errorf("%s: read %d of the source was not made, error %v", c.Kind, n, err)
	}
	if err == nil {
		return fmt.Errorf("%s: read %d of the source fails with %v: no error was reported, output %s, want %s", c.Kind, n, sentinel, q(out.String()), q(want))
	}
	if !errors.Is(err, sentinel) {
		return fmt.Errorf("%s: read %d of the source fails with %v: the error is %v", c.Kind, n, sentinel, err)
	}
	if !strings.HasPrefix(want, out.String()) {
		return fmt.Errorf("%s: read %d of the source fails: wrote %s, which is no prefix of %s", c.Kind, n, q(out.String()), q(want))
	}
	return nil
}

// ------------------------------------------------------------------ C31

type validCase struct {
	H                        Hunk
	DOL, DNL, DA, DD, DL, DT int64
	Op                       int // 0 keeps the operations
	At                       int
	Pos                      int64
}

func genC31(g *G) validCase {
	c := validCase{H: Hunk{OP: g.position(), NP: g.position()}}
	n := g.size(10)
	for i := 0; i < n; i++ {
		op := pick(g, []string{" ", " ", "-", "+"})
		s := g.line()
		if g.Chance(2) {
			s += "\n"
		}
		c.H.Lines = append(c.H.Lines, ML{op, BS(s)})
	}
	if g.Chance(4) {
		c.H.Lines = onlyOp(c.H.Lines, "+")
		c.H.OP = pick(g, []int64{0, 0, 1})
	}
	c.H.setCounts()
	d := func() int64 {
		return pick(g, []int64{1, -1, 2, -2, 1 << 32, -1 << 32, 1 << 62, 1 << 31})
	}
	for i, n := 0, pick(g, []int{0, 1, 1, 1, 2, 2, 3}); i < n; i++ {
		switch g.Int(0, 8) {
		case 0:
			c.DOL = d()
		case 1:
			c.DNL = d()
		case 2:
			c.DA = d()
		case 3:
			c.DD = d()
		case 4:
			c.DL = d()
		case 5:
			c.DT = d()
		case 6:
			c.Op, c.At = pick(g, []int{3, -1, 7, 32, '+', '-', ' ', 1 << 31, 256}), g.Int(0, 9)
		case 7: // two errors that cancel out in a sum
			x := d()
			switch g.Int(0, 3) {
			case 0:
				c.DA, c.DD = x, -x
			case 1:
				c.DL, c.DT = x, -x
			case 2:
				c.DOL, c.DNL = x, -x
			default:
				c.DOL, c.DNL = x, x
			}
		default:
			c.H.OP = pick(g, []int64{0, 0, 1})
		}
	}
	return c
}

func (c *validCase) frag() *gitdiff.TextFragment {
	f := c.H.fragment()
	f.OldLines += c.DOL
	f.NewLines += c.DNL
	f.LinesAdded += c.DA
	f.LinesDeleted += c.DD
	f.LeadingContext += c.DL
	f.TrailingContext += c.DT
	if c.Op != 0 && len(f.Lines) > 0 {
		f.Lines[c.At%len(f.Lines)].Op = gitdiff.LineOp(c.Op)
	}
	return f
}

func checkC31(c *validCase, o *Obs) error {
	f := c.frag()
	h := c.H
	h.setCounts()
	a, d, lead, trail := h.counts()
	// a fragment without changes has only leading context
	valid := f.OldLines == h.OL && f.NewLines == h.NL && f.LinesAdded == a && f.LinesDeleted == d && f.LeadingContext == lead && f.TrailingContext == trail &&
		!(f.OldPosition == 0 && f.OldLines != 0)
	if c.Op != 0 && len(f.Lines) > 0 {
		valid = false
	}
	err := f.Validate()
	if valid != (err == nil) {
		return fmt.Errorf("Validate gives %v, want valid=%v for %+v", err, valid, *f)
	}
	if d := diffFrag(f, c.frag()); d != "" {
		return fmt.Errorf("Validate changed the fragment: %s", d)
	}
	o.NTIf(len(f.Lines) > 0)
	if valid {
		o.Label("valid")
		return nil
	}
	// applying it fails, whatever the source
	old := oldOf(h.Lines)
	for _, src := range []string{old, "", "a\nb\nc\n" + old} {
		var out bytes.Buffer
		ap := gitdiff.NewTextApplier(&out, strings.NewReader(src))
		if err := ap.ApplyFragment(f); err == nil {
			return fmt.Errorf("an invalid fragment was applied: %+v", *f)
		}
		if out.Len() > 0 {
			return fmt.Errorf("applying an invalid fragment wrote %s: %+v", q(out.String()), *f)
		}
		out.Reset()
		if err := gitdiff.Apply(&out, strings.NewReader(src), &gitdiff.File{OldName: "f", NewName: "f", TextFragments: []*gitdiff.TextFragment{f}}); err == nil || out.Len() > 0 {
			return fmt.Errorf("Apply of an invalid fragment: error %v, output %s: %+v", err, q(out.String()), *f)
		}
	}
	return nil
}

// every short sequence of operations with every single wrong count

type validSmall struct {
	Ops   string
	Field int
	D     int64
	OP    int64
}

func enumC31(tier string, yield func(validSmall) bool) {
	depth := 5
	if tier == "thorough" {
		depth = 8
	}
	var rec func(ops string) bool
	rec = func(ops string) bool {
		for op := int64(0); op < 2; op++ {
			if !yield(validSmall{ops, -1, 0, op}) {
				return false
			}
			for f := 0; f < 6; f++ {
				for _, d := range []int64{1, -1} {
					if !yield(validSmall{ops, f, d, op}) {
						return false
					}
				}
			}
			for i := range ops {
				if !yield(validSmall{ops, 6, int64(i), op}) {
					return false
				}
			}
		}
		if len(ops) == depth {
			return true
		}
		for _, x := range []string{" ", "-", "+"} {
			if !rec(ops + x) {
				return false
			}
		}
		return true
	}
	rec("")
}

func checkC31small(c *validSmall, o *Obs) error {
	v := validCase{H: Hunk{OP: c.OP, NP: 1}}
	for _, op := range []byte(c.Ops) {
		v.H.Lines = append(v.H.Lines, ML{string(op), "x\n"})
	}
	v.H.setCounts()
	switch c.Field {
	case 0:
		v.DOL = c.D
	case 1:
		v.DNL = c.D
	case 2:
		v.DA = c.D
	case 3:
		v.DD = c.D
	case 4:
		v.DL = c.D
	case 5:
		v.DT = c.D
	case 6:
		v.Op, v.At = 3, int(c.D)
	}
	var nilFrag *gitdiff.TextFragment
	if nilFrag.Validate() == nil {
		return errors.New("a nil fragment is valid")
	}
	return checkC31(&v, o)
}

func init() {
	register(&Prop{ID: "C16", Rule: "random sequences of operations on the files of one patch, repeated, interleaved and repeated backwards, with deep comparison after each; and files changed in every way with the others compared; non-trivial: more than two operations, or several files or fragments",
		Subs: []*Sub{
			Gen("operations", 24000, 500000, genC16, checkC16),
			Gen("aliasing", 40000, 800000, genAlias, checkAlias),
		}})
	register(&Prop{ID: "C17", Rule: "applications in which the destination fails after every number of bytes (up to 90 per case) and the source in every call; non-trivial: the output is not empty",
		Subs: []*Sub{Gen("faults", 12000, 300000, genC17, checkC17)}})
	register(&Prop{ID: "C31", Rule: "fragments with right and wrong counts and operations against independent counting; non-trivial: the fragment has lines",
		Subs: []*Sub{
			Enum("small", enumC31, checkC31small),
			Gen("random", 150000, 4000000, genC31, checkC31),
		}})
}
