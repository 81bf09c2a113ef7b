package main

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// TradFile is a file of a unified diff without a git header.
type TradFile struct {
	Kind     string // modify, create, delete
	Old, New BS     // names as they are on disk ("/dev/null" for a missing side)
	OldTS    BS     `json:",omitempty"` // text after the name, with its tab
	NewTS    BS     `json:",omitempty"`
	Hunks    []Hunk
	Style    HunkStyle
	Slashes  int  `json:",omitempty"` // this many in place of each one in the names
	QuoteSP  bool `json:",omitempty"` // newer GNU diff quotes names with spaces
}

func (f *TradFile) render() string {
	o, n := f.quote(f.Old), f.quote(f.New)
	return "--- " + o + string(f.OldTS) + "\n+++ " + n + string(f.NewTS) + "\n" + renderHunks(f.Hunks, f.Style)
}

func (f *TradFile) quote(name BS) string {
	if f.Slashes > 1 && name != "/dev/null" {
		name = BS(strings.ReplaceAll(string(name), "/", strings.Repeat("/", f.Slashes)))
	}
	s, quoted := cquote(string(name), false)
	if !quoted && f.QuoteSP && strings.Contains(s, " ") {
		s = `"` + s + `"`
	}
	return s
}

func (f *TradFile) file() *gitdiff.File {
	r := &gitdiff.File{}
	switch f.Kind {
	case "create":
		r.IsNew = true
		r.NewName = string(f.New)
	case "delete":
		r.IsDelete = true
		r.OldName = string(f.Old)
	default:
		name := string(f.New)
		if strings.HasPrefix(name, string(f.Old)) {
			name = string(f.Old)
		}
		r.OldName, r.NewName = name, name
	}
	for i := range f.Hunks {
		r.TextFragments = append(r.TextFragments, f.Hunks[i].fragment())
	}
	return r
}

// stamp writes the instant sec+nsec at the given zone (minutes east) the way
// diff does, with digits of the fraction.
func stamp(sec int64, nsec int, zone int, digits int, colon bool) string {
	t := sec + int64(zone)*60
	days := t / 86400
	rem := t % 86400
	if rem < 0 {
		rem += 86400
		days--
	}
	y, m, d := civil(days)
	s := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, rem/3600, rem/60%60, rem%60)
	if digits > 0 {
		s += "." + fmt.Sprintf("%09d", nsec)[:digits]
	}
	sign := "+"
	z := zone
	if z < 0 {
		sign = "-"
		z = -z
	}
	c := ""
	if colon {
		c = ":"
	}
	return s + fmt.Sprintf(" %s%02d%s%02d", sign, z/60, c, z%60)
}

// civil converts days since 1970-01-01 to a date (Howard Hinnant's algorithm).
func civil(z int64) (y int64, m, d int) {
	z += 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	if mp < 10 {
		m = int(mp + 3)
	} else {
		m = int(mp - 9)
	}
	if m <= 2 {
		y++
	}
	return
}

func (g *G) zone() int {
	return pick(g, []int{0, 0, 60, -300, 330, -210, 345, 840, -720, -480, 570, 1, -1, 1439, -1439, 45})
}

// tstamp is a time stamp that is not the epoch.
func (g *G) tstamp() string {
	sec := pick(g, []int64{1, -1, 3600, -3600, 86400, -86400, 1500000000, 1 << 31, 4102444800, 946684799, 19800, -18000, 60, -60})
	if g.Bool() {
		sec = g.Int64(0, 4000000000) + 1
	}
	nsec, digits := 0, pick(g, []int{0, 9, 9, 6, 3, 1})
	if g.Chance(2) {
		nsec = g.Int(0, 999999999)
	}
	if g.Chance(5) { // the epoch second, but not the epoch
		sec, nsec, digits = 0, pick(g, []int{1, 500000000, 999999999, 100000000}), 9
	}
	return "\t" + stamp(sec, nsec, g.zone(), digits, g.Chance(6))
}

func (g *G) epoch() string {
	return "\t" + stamp(0, 0, g.zone(), pick(g, []int{0, 9, 9, 6, 3, 1}), g.Chance(4))
}

// tradName is a file name as it appears in a diff command line.
func (g *G) tradName() string {
	n := g.path()
	if g.Chance(6) && n != "dev/null" {
		n = "/" + n
	}
	if g.Chance(6) {
		// components that stay as they are
		dot := pick(g, []string{"./", "../", ".../", "./../"})
		if i := strings.LastIndexByte(n, '/'); i >= 0 && g.Bool() {
			n = n[:i+1] + dot + n[i+1:]
		} else if n[0] != '/' {
			n = dot + n
		}
	}
	return n
}

func (g *G) tradFile(maxLines int) TradFile {
	f := TradFile{Kind: pick(g, []string{"modify", "modify", "modify", "create", "delete"}), Style: g.hunkStyle()}
	f.New = BS(g.tradName())
	switch g.Int(0, 4) {
	case 0:
		f.Old = f.New
	case 1:
		f.Old = f.New + BS(pick(g, []string{".orig", "~", ".bak"}))
	case 2:
		f.Old = f.New
		f.New = f.Old + BS(pick(g, []string{".new", "~", "2", " "}))
	default:
		f.Old = BS(g.tradName())
	}
	ts := func() BS {
		switch g.Int(0, 5) {
		case 0:
			return ""
		case 1:
			return "\t"
		case 2:
			return BS("\t" + pick(g, []string{"(revision 5)", "2020-01-01", "Thu Jan  1 00:00:00 1970", "1970-01-01", "1970-01-01 00:00:00", "1970-01-01 00:00:00 +0000 x", "x 1970-01-01 00:00:00 +0000", "(working copy)", "0"}))
		default:
			return BS(g.tstamp())
		}
	}
	f.OldTS, f.NewTS = ts(), ts()
	switch f.Kind {
	case "create":
		if g.Bool() {
			f.Old = "/dev/null"
			f.OldTS = BS(pick(g, []string{"", "\t", g.epoch(), g.tstamp()}))
		} else {
			f.OldTS = BS(g.epoch())
		}
		if g.Chance(12) {
			f.NewTS = BS(g.epoch()) // the old side is looked at first
		}
	case "delete":
		if g.Bool() {
			f.New = "/dev/null"
			f.NewTS = BS(pick(g, []string{"", "\t", g.epoch(), g.tstamp()}))
		} else {
			f.NewTS = BS(g.epoch())
		}
	}
	f.Hunks = g.fileHunks(maxLines, f.Kind)
	return f
}
