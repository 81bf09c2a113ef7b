package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// Raw searches judge arbitrary bytes. Both tiers run them on damaged seeds;
// the thorough tier also gives them to Go's coverage-guided fuzzer
// (fuzz_test.go), whose findings become replay files of the same sub.

type rawCase struct {
	Data BS
	Src  BS `json:",omitempty"`
}

func (c *rawCase) num() uint64 {
	h := fnv.New64a()
	io.WriteString(h, string(c.Data))
	io.WriteString(h, string(c.Src))
	return h.Sum64()
}

type rawTarget struct {
	seed  func(g *G) rawCase
	check func(c *rawCase, o *Obs) error
}

var rawTargets = map[string]*rawTarget{}

func addRaw(id string, quick, thorough int, seed func(g *G) rawCase, check func(c *rawCase, o *Obs) error) {
	rawTargets[id] = &rawTarget{seed, check}
	gen := func(g *G) rawCase {
		c := seed(g)
		if !g.Chance(6) {
			c.Data = BS(g.mutate(string(c.Data)))
		}
		if g.Chance(3) {
			c.Src = BS(g.mutate(string(c.Src)))
		}
		return c
	}
	props[id].Subs = append(props[id].Subs, Gen("raw", quick, thorough, gen, check))
}

// patchSeed is a patch and a source its first file may fit.
func patchSeed(g *G) rawCase {
	s := g.patchText(2, 6)
	c := rawCase{Data: BS(s)}
	if files, _, _ := parseString(s); len(files) > 0 {
		c.Src = BS(fitting(files[0]))
	}
	return c
}

// refSeed is a patch with parts of the kinds that matter for a property.
func refSeed(id string) func(g *G) rawCase {
	return func(g *G) rawCase {
		var s string
		switch k := g.Int(0, 5); {
		case k == 0:
			s = g.soup()
		case k == 1:
			s = g.patchText(3, 6)
		case id == "C03":
			c := genC03free(g)
			s = c.render()
		case id == "C04", id == "C05":
			for i, n := 0, g.Int(1, 3); i < n; i++ {
				f := g.mfile(2)
				s += f.render(g.hstyle())
			}
		case id == "C06":
			for i, n := 0, g.Int(1, 3); i < n; i++ {
				f := g.tradFile(3)
				s += f.render()
			}
		case id == "C07":
			f := g.mfileOf(2, "binary")
			s = f.render(g.hstyle())
		case id == "C08":
			s = g.junk(true) + g.patchText(2, 3) + g.junk(false) + g.patchText(2, 3)
		default:
			s = g.patchText(1, 3) + string(g.defect().Text)
		}
		return rawCase{Data: BS(s)}
	}
}

func headerSeed(g *G) rawCase {
	var a anyCase
	switch g.Int(0, 3) {
	case 0, 1:
		a = genC32header(g)
	case 2:
		a = genC32ident(g)
	default:
		a = genC32date(g)
	}
	return rawCase{Data: a.S}
}

// setupRaw runs after all properties are registered.
func setupRaw() {
	addRaw("C01", 4000, 100000, patchSeed, func(c *rawCase, o *Obs) error {
		return checkC01(&totalCase{c.Data, []BS{c.Src, ""}}, o)
	})
	addRaw("C02", 8000, 200000, patchSeed, func(c *rawCase, o *Obs) error {
		return checkC02(&textCase{c.Data}, o)
	})
	// the reference parser says what any text must give
	for _, id := range []string{"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"} {
		addRaw(id, 24000, 600000, refSeed(id), func(c *rawCase, o *Obs) error { return checkRef(string(c.Data), o) })
	}
	addRaw("C11", 2000, 40000, patchSeed, func(c *rawCase, o *Obs) error {
		return checkC11(&readerCase{Text: c.Data, Chunk: int(c.num() % 40), Seed: c.num()}, o)
	})
	addRaw("C13", 16000, 400000, patchSeed, rawApply)
	addRaw("C16", 8000, 200000, patchSeed, rawPure)
	addRaw("C19", 8000, 200000, func(g *G) rawCase {
		if g.Bool() {
			src := g.payload()
			return rawCase{BS(makeDelta([]byte(src), []byte(g.payload()), g.Uint64())), BS(src)}
		}
		c := genC19(g)
		return rawCase{BS(c.encode()), BS(c.src())}
	}, func(c *rawCase, o *Obs) error {
		o.NTIf(len(c.Data) > 2)
		return checkDelta([]byte(c.Src), []byte(c.Data), o)
	})
	addRaw("C22", 8000, 200000, patchSeed, rawFormat)
	addRaw("C27", 16000, 400000, func(g *G) rawCase { return rawCase{Data: BS(g.subject())} }, func(c *rawCase, o *Obs) error {
		s := string(c.Data)
		if !plainSubject(s) {
			return nil
		}
		for m := 0; m < 4; m++ {
			if err := checkSubject(&subjectCase{c.Data, m}, o); err != nil {
				return err
			}
		}
		return nil
	})
	addRaw("C32", 16000, 400000, headerSeed, func(c *rawCase, o *Obs) error {
		for m := 0; m < 4; m++ {
			if err := checkC32(&anyCase{S: c.Data, Mode: m}, o); err != nil {
				return err
			}
		}
		return nil
	})
}

// plainSubject tells whether a text can be a subject line as it stands.
func plainSubject(s string) bool {
	if strings.Contains(s, "=?") {
		return false
	}
	for i := 0; i < len(s); i++ {
		if (s[i] < 0x20 && s[i] != '\t') || s[i] >= 0x7f {
			return false
		}
	}
	return true
}

// hunksOf is the model of parsed fragments.
func hunksOf(ts []*gitdiff.TextFragment) []Hunk {
	var hs []Hunk
	for _, t := range ts {
		h := Hunk{OP: t.OldPosition, OL: t.OldLines, NP: t.NewPosition, NL: t.NewLines, Comment: BS(t.Comment)}
		for _, l := range t.Lines {
			h.Lines = append(h.Lines, ML{Op: l.Op.String(), S: BS(l.Line)})
		}
		hs = append(hs, h)
	}
	return hs
}

// rawApply compares the application of any parsed text file with the
// reference.
func rawApply(c *rawCase, o *Obs) error {
	files, _, _ := parseString(string(c.Data))
	for i, f := range files {
		if i > 20 {
			break
		}
		if f.IsBinary || len(f.TextFragments) == 0 {
			continue
		}
		ok := true
		for _, t := range f.TextFragments {
			// sums of positions and counts that fit
			if t.OldPosition > 1<<60 || t.OldLines > 1<<60 || t.Validate() != nil {
				ok = false
			}
			for _, l := range t.Lines {
				if l.Line == "" {
					ok = false // a marker directly after a bare operation
				}
			}
		}
		if !ok {
			continue
		}
		for _, src := range []string{string(c.Src), fitting(f), ""} {
			if err := checkC13(&conflictCase{BS(src), hunksOf(f.TextFragments)}, o); err != nil {
				return err
			}
		}
	}
	return nil
}

// rawPure compares files before and after every operation.
func rawPure(c *rawCase, o *Obs) error {
	files, _, _ := parseString(string(c.Data))
	if len(files) > 20 {
		files = files[:20]
	}
	snap := cloneFiles(files)
	text := func() string {
		s := ""
		for _, f := range files {
			s += f.String()
			for _, t := range f.TextFragments {
				s += t.String() + t.Header() + errText(t.Validate())
			}
			var out bytes.Buffer
			s += errText(gitdiff.Apply(&out, strings.NewReader(string(c.Src)), f))
			s += out.String()
		}
		return s
	}
	for _, f := range files {
		for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if b != nil && b.Size > 1<<20 {
				return nil
			}
		}
	}
	first := text()
	if d := diffFileLists(files, snap); d != "" {
		return fmt.Errorf("the operations changed %s\ninput %s", d, q(string(c.Data)))
	}
	if again := text(); again != first {
		return fmt.Errorf("the second time the operations gave %s, the first time %s", q(again), q(first))
	}
	o.NTIf(len(files) > 0)
	return nil
}

// rawFormat: the fragments of any parsed file, in a plain file, survive
// formatting and parsing, and so does the file itself when its header says
// what git headers say.
func rawFormat(c *rawCase, o *Obs) error {
	files, _, _ := parseString(string(c.Data))
	if len(files) > 20 {
		files = files[:20]
	}
	for i, f := range files {
		p := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: f.IsBinary, TextFragments: f.TextFragments, BinaryFragment: f.BinaryFragment, ReverseBinaryFragment: f.ReverseBinaryFragment}
		if err := checkFormat(p); err != nil {
			return fmt.Errorf("the content of file %d: %v\ninput %s", i+1, err, q(string(c.Data)))
		}
		if gitShaped(f) {
			o.Label("whole file")
			if err := checkFormat(f); err != nil {
				return fmt.Errorf("file %d: %v\ninput %s", i+1, err, q(string(c.Data)))
			}
		}
		o.NT()
	}
	return nil
}

// gitShaped tells whether git could have written the header of the file.
func gitShaped(f *gitdiff.File) bool {
	for _, n := range []string{f.OldName, f.NewName} {
		if strings.HasPrefix(n, "/") || strings.Contains(n, "//") || strings.Contains(n, "\x00") {
			return false
		}
	}
	if (f.OldOIDPrefix == "") != (f.NewOIDPrefix == "") {
		return false
	}
	switch {
	case f.IsNew:
		return !f.IsDelete && !f.IsCopy && !f.IsRename && f.NewMode != 0 && f.OldMode == 0 && f.OldName == "" && f.NewName != ""
	case f.IsDelete:
		return !f.IsCopy && !f.IsRename && f.OldMode != 0 && f.NewMode == 0 && f.NewName == "" && f.OldName != ""
	case f.OldName == "" || f.NewName == "":
		return false
	case f.IsCopy && f.IsRename:
		return false
	case f.OldName != f.NewName && !f.IsCopy && !f.IsRename:
		return false
	}
	return (f.OldMode != 0 && (f.NewMode != 0 || f.OldOIDPrefix != "")) || (f.OldMode == 0 && f.NewMode == 0)
}

// ------------------------------------------------- coverage-guided fuzzing

// fuzzReport goes into the evidence of the thorough tier.
type fuzzReport struct {
	Seconds     float64 `json:"seconds"`
	Executions  int     `json:"executions"`
	Interesting int     `json:"inputs_with_new_coverage"`
	Note        string  `json:"note,omitempty"`
}

var fuzzLine = regexp.MustCompile(`execs: (\d+) .*new interesting: \d+ \(total: (\d+)\)`)

// fuzz runs the fuzzer for some time and returns the inputs that failed.
func fuzz(p *Prop, bin, dir string, d time.Duration) (rep fuzzReport, fails []*failure) {
	start := time.Now()
	work := filepath.Join(dir, "fuzz")
	os.MkdirAll(work, 0o755)
	cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzRaw$", "-test.fuzztime="+d.String(),
		"-test.fuzzcachedir="+filepath.Join(work, "cache"), "-test.parallel=8", "-test.fuzzminimizetime=20s")
	cmd.Dir = work
	cmd.Env = append(workerEnv(p), "VP_FUZZ_ID="+p.ID, "VERIF_SEED="+strconv.FormatUint(*fSeed, 10), "TMPDIR="+work)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out bytes.Buffer
	lb := &limitedBuf{w: &out, n: 4 << 20}
	cmd.Stdout, cmd.Stderr = lb, lb
	if err := cmd.Start(); err != nil {
		infraf("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(d + 5*time.Minute):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		rep.Note = "the fuzzer had to be stopped"
	}
	rep.Seconds = time.Since(start).Seconds()
	for _, m := range fuzzLine.FindAllStringSubmatch(out.String(), -1) {
		rep.Executions, _ = strconv.Atoi(m[1])
		rep.Interesting, _ = strconv.Atoi(m[2])
	}
	files, _ := filepath.Glob(filepath.Join(work, "testdata/fuzz/FuzzRaw/*"))
	for _, f := range files {
		raw, rerr := os.ReadFile(f)
		if rerr != nil {
			continue
		}
		ls := strings.Split(string(raw), "\n")
		var parts []string
		for _, l := range ls[1:] {
			if s, ok := strings.CutPrefix(l, "[]byte("); ok {
				if u, uerr := strconv.Unquote(strings.TrimSuffix(s, ")")); uerr == nil {
					parts = append(parts, u)
				}
			}
		}
		if len(parts) != 2 {
			rep.Note = "unreadable input " + string(raw)
			continue
		}
		c, jerr := json.Marshal(rawCase{BS(parts[0]), BS(parts[1])})
		if jerr != nil {
			infraf("%v", jerr)
		}
		fails = append(fails, &failure{Property: p.ID, Sub: "raw", Case: c, Seed: *fSeed, Tier: *fTier,
			Error: "found by the coverage-guided fuzzer\n" + clip(out.String(), 4000)})
	}
	if err != nil && len(fails) == 0 && rep.Note == "" {
		rep.Note = "the fuzzer ended with " + err.Error() + ": " + clip(out.String(), 2000)
	}
	return rep, fails
}
