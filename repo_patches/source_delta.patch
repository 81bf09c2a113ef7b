From 6d84dac390385c6794da26f36465ab4701ba1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 01/23] fix: apply zero-context insertions after the line they
 name

A fragment with no old lines gives the line before the insertion as its
old position, but it was applied one line too early.
---
 gitdiff/apply_text.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 0948178..2f7c9fa 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -65,7 +65,11 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 	}
 
 	// lines are 0-indexed, positions are 1-indexed (but new files have position = 0)
-	fragStart := f.OldPosition - 1
+	// if the fragment has no old lines, the position is the line before the fragment
+	fragStart := f.OldPosition
+	if f.OldLines > 0 {
+		fragStart--
+	}
 	if fragStart < 0 {
 		fragStart = 0
 	}
-- 
2.43.0


From 6c6af5ea6199761b5af4e38f080d9d4696c73eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 02/23] fix: accept io.EOF with a full read from an io.ReaderAt

The io.ReaderAt contract allows a reader to return io.EOF together with a
full read that ends at the end of the source.
---
 gitdiff/apply_binary.go | 3 ++-
 gitdiff/io.go           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 4864b69..a4c9a5d 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -211,7 +211,8 @@ func applyBinaryDeltaCopy(w io.Writer, op byte, delta []byte, src io.ReaderAt) (
 
 	// TODO(bkeyes): consider pooling these buffers
 	b := make([]byte, size)
-	if _, err := src.ReadAt(b, offset); err != nil {
+	// an io.ReaderAt may return io.EOF with a full read that ends at the end of the source
+	if n, err := src.ReadAt(b, offset); err != nil && (err != io.EOF || n < len(b)) {
 		return 0, delta, err
 	}
 
diff --git a/gitdiff/io.go b/gitdiff/io.go
index 8143238..c25c5b0 100644
--- a/gitdiff/io.go
+++ b/gitdiff/io.go
@@ -129,7 +129,8 @@ func (r *lineReaderAt) readBytes(line, n int64) (b []byte, offset int64, err err
 	}
 
 	b = make([]byte, size)
-	if _, err := r.r.ReadAt(b, offset); err != nil {
+	// an io.ReaderAt may return io.EOF with a full read that ends at the end of the source
+	if nr, err := r.r.ReadAt(b, offset); err != nil && (err != io.EOF || nr < len(b)) {
 		if err == io.EOF {
 			err = errors.New("ReadLinesAt: corrupt line index or changed source data")
 		}
-- 
2.43.0


From 081473dd345a6741931b8564e3f0eb2615edcee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 03/23] fix: find the end of quoted names that contain escaped
 backslashes

A quote after an escaped backslash ends the name, but was taken for an
escaped quote, so that names ending in a backslash were not parsed.
---
 gitdiff/file_header.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 7ae4bc9..f4cb195 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -437,11 +437,16 @@ func parseName(s string, term byte, dropPrefix int) (name string, n int, err err
 
 func parseQuotedName(s string) (name string, n int, err error) {
 	for n = 1; n < len(s); n++ {
-		if s[n] == '"' && s[n-1] != '\\' {
+		if s[n] == '\\' {
+			n++ // skip the escaped character, which may be a quote
+			continue
+		}
+		if s[n] == '"' {
 			n++
 			break
 		}
 	}
+	n = min(n, len(s))
 	if n == 2 {
 		return "", 0, fmt.Errorf("missing name")
 	}
-- 
2.43.0


From 5bdc3ff16a52690021f41ae134fc071176e836e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 04/23] fix: keep bytes that are not valid UTF-8 in quoted
 names

With core.quotePath=false, git does not escape bytes above 0x7F, but
strconv.Unquote replaced them when they were not valid UTF-8.
---
 gitdiff/file_header.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index f4cb195..8c6800c 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -442,18 +442,37 @@ func parseQuotedName(s string) (name string, n int, err error) {
 			continue
 		}
 		if s[n] == '"' {
-			n++
 			break
 		}
 	}
-	n = min(n, len(s))
-	if n == 2 {
+	if n >= len(s) {
+		return "", 0, strconv.ErrSyntax
+	}
+	if n == 1 {
 		return "", 0, fmt.Errorf("missing name")
 	}
-	if name, err = strconv.Unquote(s[:n]); err != nil {
-		return "", 0, err
+
+	// names are byte strings, so copy everything but escape sequences as is;
+	// strconv.Unquote would replace bytes that are not valid UTF-8
+	var b strings.Builder
+	for rest := s[1:n]; len(rest) > 0; {
+		if rest[0] != '\\' {
+			b.WriteByte(rest[0])
+			rest = rest[1:]
+			continue
+		}
+		c, multibyte, tail, err := strconv.UnquoteChar(rest, '"')
+		if err != nil {
+			return "", 0, err
+		}
+		if multibyte {
+			b.WriteRune(c)
+		} else {
+			b.WriteByte(byte(c))
+		}
+		rest = tail
 	}
-	return name, n, err
+	return b.String(), n + 1, nil
 }
 
 func parseUnquotedName(s string, term byte) (name string, n int, err error) {
-- 
2.43.0


From 8a5786f8ea5382b9cc1716fcf9f839c87f3212b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 05/23] fix: reject binary deltas with truncated or overflowing
 sizes

A delta that ended within its size header applied without an error and
a size that overflowed could become negative.
---
 gitdiff/apply_binary.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index a4c9a5d..e241875 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 )
 
 // BinaryApplier applies binary changes described in a fragment to source data.
@@ -93,7 +94,10 @@ func (a *BinaryApplier) Close() (err error) {
 }
 
 func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit int64) error {
-	srcSize, delta := readBinaryDeltaSize(frag)
+	srcSize, delta, err := readBinaryDeltaSize(frag)
+	if err != nil {
+		return err
+	}
 	if err := checkBinarySrcSize(src, srcSize); err != nil {
 		return err
 	}
@@ -102,7 +106,10 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 	// the destination from a small instruction set. First, check the expected
 	// size against the limit. Then, while executing instructions, stop as soon
 	// as a write exceeds the expected limit.
-	dstSize, delta := readBinaryDeltaSize(delta)
+	dstSize, delta, err := readBinaryDeltaSize(delta)
+	if err != nil {
+		return err
+	}
 	if limit >= 0 && dstSize > limit {
 		return fmt.Errorf("binary delta size of %d exceeds %d byte limit", dstSize, limit)
 	}
@@ -142,17 +149,22 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 //
 //	[[1xxxxxxx]...] [0xxxxxxx]
 //
-// in little-endian order, with 7 bits of the value per byte.
-func readBinaryDeltaSize(d []byte) (size int64, rest []byte) {
+// in little-endian order, with 7 bits of the value per byte. It is an error if
+// the data ends before the size or if the size overflows.
+func readBinaryDeltaSize(d []byte) (size int64, rest []byte, err error) {
 	shift := uint(0)
 	for i, b := range d {
-		size |= int64(b&0x7F) << shift
+		v := int64(b & 0x7F)
+		if v != 0 && (shift > 62 || v > math.MaxInt64>>shift) {
+			return 0, nil, errors.New("corrupt binary delta: size overflow")
+		}
+		size |= v << shift
 		shift += 7
 		if b <= 0x7F {
-			return size, d[i+1:]
+			return size, d[i+1:], nil
 		}
 	}
-	return size, nil
+	return 0, nil, errors.New("corrupt binary delta: incomplete size")
 }
 
 // applyBinaryDeltaAdd applies an add opcode in a delta-encoded binary
-- 
2.43.0


From c6551cc2cf29c73b3b7a552e41f77b53fe48c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 06/23] fix: reject base85 groups that encode more than 32 bits

Such groups wrapped around and were decoded to wrong data. Git reports
them as an invalid base85 sequence.
---
 gitdiff/base85.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdiff/base85.go b/gitdiff/base85.go
index 86db117..aeb1e7b 100644
--- a/gitdiff/base85.go
+++ b/gitdiff/base85.go
@@ -2,6 +2,7 @@ package gitdiff
 
 import (
 	"fmt"
+	"math"
 )
 
 var (
@@ -22,16 +23,19 @@ func init() {
 // alphabet defined by base85.c in the Git source tree. src must contain at
 // least len(dst) bytes of encoded data.
 func base85Decode(dst, src []byte) error {
-	var v uint32
+	var v uint64
 	var n, ndst int
 	for i, b := range src {
 		if b, ok := b85Table[b]; ok {
-			v = 85*v + uint32(b)
+			v = 85*v + uint64(b)
 			n++
 		} else {
 			return fmt.Errorf("invalid base85 byte at index %d: 0x%X", i, src[i])
 		}
 		if n == 5 {
+			if v > math.MaxUint32 {
+				return fmt.Errorf("base85 sequence overflows at index %d", i)
+			}
 			rem := len(dst) - ndst
 			for j := 0; j < 4 && j < rem; j++ {
 				dst[ndst] = byte(v >> 24)
-- 
2.43.0


From 1a36801d77bda5a1d8871594ab0122ead0a47778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 07/23] fix: reject signs in fragment ranges, modes, and scores

Negative values were accepted, so that a fragment could be applied at a
position other than the stated one and files could have negative scores.
---
 gitdiff/file_header.go |  4 ++--
 gitdiff/text.go        | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 8c6800c..3f5c004 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -370,7 +370,7 @@ func parseGitHeaderRenameTo(f *File, line, defaultName string) (err error) {
 }
 
 func parseGitHeaderScore(f *File, line, defaultName string) error {
-	score, err := strconv.ParseInt(strings.TrimSuffix(line, "%"), 10, 32)
+	score, err := strconv.ParseUint(strings.TrimSuffix(line, "%"), 10, 31)
 	if err != nil {
 		nerr := err.(*strconv.NumError)
 		return fmt.Errorf("invalid score line: %v", nerr.Err)
@@ -403,7 +403,7 @@ func parseGitHeaderIndex(f *File, line, defaultName string) error {
 }
 
 func parseMode(s string) (os.FileMode, error) {
-	mode, err := strconv.ParseInt(s, 8, 32)
+	mode, err := strconv.ParseUint(s, 8, 31)
 	if err != nil {
 		nerr := err.(*strconv.NumError)
 		return os.FileMode(0), fmt.Errorf("invalid mode line: %v", nerr.Err)
diff --git a/gitdiff/text.go b/gitdiff/text.go
index d9ddfb7..f739bcd 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -167,13 +167,13 @@ func removeLastNewline(frag *TextFragment) {
 func parseRange(s string) (start int64, end int64, err error) {
 	parts := strings.SplitN(s, ",", 2)
 
-	if start, err = strconv.ParseInt(parts[0], 10, 64); err != nil {
+	if start, err = parseRangeNumber(parts[0]); err != nil {
 		nerr := err.(*strconv.NumError)
 		return 0, 0, fmt.Errorf("bad start of range: %s: %v", parts[0], nerr.Err)
 	}
 
 	if len(parts) > 1 {
-		if end, err = strconv.ParseInt(parts[1], 10, 64); err != nil {
+		if end, err = parseRangeNumber(parts[1]); err != nil {
 			nerr := err.(*strconv.NumError)
 			return 0, 0, fmt.Errorf("bad end of range: %s: %v", parts[1], nerr.Err)
 		}
@@ -183,3 +183,9 @@ func parseRange(s string) (start int64, end int64, err error) {
 
 	return
 }
+
+// parseRangeNumber parses a non-negative number without a sign.
+func parseRangeNumber(s string) (int64, error) {
+	n, err := strconv.ParseUint(s, 10, 63)
+	return int64(n), err
+}
-- 
2.43.0


From d2b44268bbfd94f54861535d1489e6c8b56a78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 08/23] fix: parse iso-strict dates in UTC

Since version 2.45, git prints Z instead of +00:00 for UTC dates in the
iso-strict format.
---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9f42c90..9240425 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -75,7 +75,7 @@ func (h *PatchHeader) Message() string {
 func ParsePatchDate(s string) (time.Time, error) {
 	const (
 		isoFormat          = "2006-01-02 15:04:05 -0700"
-		isoStrictFormat    = "2006-01-02T15:04:05-07:00"
+		isoStrictFormat    = "2006-01-02T15:04:05Z07:00" // git prints Z for UTC
 		rfc2822Format      = "Mon, 2 Jan 2006 15:04:05 -0700"
 		shortFormat        = "2006-01-02"
 		defaultFormat      = "Mon Jan 2 15:04:05 2006 -0700"
-- 
2.43.0


From a05d9a8724a187b30e2de11d997c39aefd1a7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 09/23] fix: parse patch headers with lines longer than 64 KiB

The default token limit of bufio.Scanner made parsing fail if any line of
the header or the commit message was longer.
---
 gitdiff/patch_header.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9240425..9bffb1c 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -196,21 +196,21 @@ func ParsePatchHeader(header string, options ...PatchHeaderOption) (*PatchHeader
 
 	switch {
 	case strings.HasPrefix(firstLine, mailHeaderPrefix):
-		return parseHeaderMail(firstLine, strings.NewReader(rest), opts)
+		return parseHeaderMail(firstLine, rest, opts)
 
 	case strings.HasPrefix(firstLine, mailMinimumHeaderPrefix):
 		// With a minimum header, the first line is part of the actual mail
 		// content and needs to be parsed as part of the "rest"
-		return parseHeaderMail("", strings.NewReader(header), opts)
+		return parseHeaderMail("", header, opts)
 
 	case strings.HasPrefix(firstLine, prettyHeaderPrefix):
-		return parseHeaderPretty(firstLine, strings.NewReader(rest))
+		return parseHeaderPretty(firstLine, rest)
 	}
 
 	return nil, errors.New("unrecognized patch header format")
 }
 
-func parseHeaderPretty(prettyLine string, r io.Reader) (*PatchHeader, error) {
+func parseHeaderPretty(prettyLine, rest string) (*PatchHeader, error) {
 	const (
 		authorPrefix     = "Author:"
 		commitPrefix     = "Commit:"
@@ -228,7 +228,7 @@ func parseHeaderPretty(prettyLine string, r io.Reader) (*PatchHeader, error) {
 		h.SHA = prettyLine
 	}
 
-	s := bufio.NewScanner(r)
+	s := newLineScanner(strings.NewReader(rest), len(rest))
 	for s.Scan() {
 		line := s.Text()
 
@@ -296,6 +296,14 @@ func parseHeaderPretty(prettyLine string, r io.Reader) (*PatchHeader, error) {
 	return h, nil
 }
 
+// newLineScanner creates a scanner for the lines in r, which contains at most
+// size bytes. Unlike the default scanner, it does not limit the line length.
+func newLineScanner(r io.Reader, size int) *bufio.Scanner {
+	s := bufio.NewScanner(r)
+	s.Buffer(nil, max(size+1, bufio.MaxScanTokenSize))
+	return s
+}
+
 func scanMessageTitle(s *bufio.Scanner) (title string, indent string) {
 	var b strings.Builder
 	for i := 0; s.Scan(); i++ {
@@ -354,8 +362,8 @@ func scanMessageBody(s *bufio.Scanner, indent string, separateAppendix bool) (st
 	return body.String(), appendix.String()
 }
 
-func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*PatchHeader, error) {
-	msg, err := mail.ReadMessage(r)
+func parseHeaderMail(mailLine, rest string, opts patchHeaderOptions) (*PatchHeader, error) {
+	msg, err := mail.ReadMessage(strings.NewReader(rest))
 	if err != nil {
 		return nil, err
 	}
@@ -390,7 +398,7 @@ func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*Pa
 	subject := msg.Header.Get("Subject")
 	h.SubjectPrefix, h.Title = cleanSubject(subject, opts.subjectCleanMode)
 
-	s := bufio.NewScanner(msg.Body)
+	s := newLineScanner(msg.Body, len(rest))
 	h.Body, h.BodyAppendix = scanMessageBody(s, "", true)
 	if s.Err() != nil {
 		return nil, s.Err()
-- 
2.43.0


From 57f42db3b9af3964b5ffa294ffe928151a63f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 10/23] fix: do not ignore read errors after a disconnected
 fragment header

When looking for a file header, any error from parsing a fragment header
was ignored, including errors from reading the next line.
---
 gitdiff/file_header.go |  4 ++--
 gitdiff/text.go        | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 3f5c004..47d8072 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -21,13 +21,13 @@ func (p *parser) ParseNextFileHeader() (*File, string, error) {
 	var file *File
 	for {
 		// check for disconnected fragment headers (corrupt patch)
-		frag, err := p.ParseTextFragmentHeader()
+		frag, err := p.parseTextFragmentHeaderLine()
 		if err != nil {
 			// not a valid header, nothing to worry about
 			goto NextLine
 		}
 		if frag != nil {
-			return nil, "", p.Errorf(-1, "patch fragment without file header: %s", frag.Header())
+			return nil, "", p.Errorf(0, "patch fragment without file header: %s", frag.Header())
 		}
 
 		// check for a git-generated patch
diff --git a/gitdiff/text.go b/gitdiff/text.go
index f739bcd..cad67e0 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -37,6 +37,20 @@ func (p *parser) ParseTextFragments(f *File) (n int, err error) {
 }
 
 func (p *parser) ParseTextFragmentHeader() (*TextFragment, error) {
+	f, err := p.parseTextFragmentHeaderLine()
+	if f == nil || err != nil {
+		return nil, err
+	}
+
+	if err := p.Next(); err != nil && err != io.EOF {
+		return nil, err
+	}
+	return f, nil
+}
+
+// parseTextFragmentHeaderLine parses the current line as a fragment header
+// without advancing the parser.
+func (p *parser) parseTextFragmentHeaderLine() (*TextFragment, error) {
 	const (
 		startMark = "@@ -"
 		endMark   = " @@"
@@ -67,10 +81,6 @@ func (p *parser) ParseTextFragmentHeader() (*TextFragment, error) {
 	if f.NewPosition, f.NewLines, err = parseRange(ranges[1]); err != nil {
 		return nil, p.Errorf(0, "invalid fragment header: %v", err)
 	}
-
-	if err := p.Next(); err != nil && err != io.EOF {
-		return nil, err
-	}
 	return f, nil
 }
 
-- 
2.43.0


From 8c79e65d8ffd39ba243df446ccc8ec15362d679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 11/23] fix: decode encoded author names in mail headers

git format-patch writes names with non-ASCII characters as RFC 2047
encoded words, which were returned as they are.
---
 gitdiff/patch_header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9bffb1c..e663ff4 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"mime"
 	"mime/quotedprintable"
 	"net/mail"
 	"strconv"
@@ -379,6 +380,10 @@ func parseHeaderMail(mailLine, rest string, opts patchHeaderOptions) (*PatchHead
 
 	from := msg.Header.Get("From")
 	if from != "" {
+		// git encodes names that contain non-ASCII characters
+		if decoded, err := new(mime.WordDecoder).DecodeHeader(from); err == nil {
+			from = decoded
+		}
 		u, err := ParsePatchIdentity(from)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 8189e44beed9c70b308bdf0942f2830766bee75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 12/23] fix: find the default name in linear time

---
 gitdiff/file_header.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 47d8072..aeb07a0 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -244,12 +244,21 @@ func parseGitHeaderName(header string) (string, error) {
 	// since names may contain spaces, we can't use a known separator
 	// instead, look for a split that produces two equal names
 
+	// the second name starts after the first slash that follows the split, so
+	// find it incrementally to avoid quadratic time on long lines
+
+	slash := 0
 	for i := 0; i < len(first)-1; i++ {
 		if !isSpace(first[i]) {
 			continue
 		}
-		second = trimTreePrefix(first[i+1:], 1)
-		if name := first[:i]; name == second {
+		for slash < len(first) && (slash <= i || first[slash] != '/') {
+			slash++
+		}
+		if slash == len(first) {
+			break
+		}
+		if name := first[:i]; name == first[slash+1:] {
 			return name, nil
 		}
 	}
-- 
2.43.0


From 5c6d9ac083c3673bfda13bd5291b4c7adbf9d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 13/23] fix: accept io.EOF with a full read from a LineReaderAt

---
 gitdiff/apply_text.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 2f7c9fa..32333db 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -158,7 +158,8 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		preimage = append(preimage, make([][]byte, readSize)...)
 
 		n, err := r.ReadLinesAt(preimage[i:i+readSize], start)
-		if err != nil {
+		// a LineReaderAt may return io.EOF with a full read that ends at the end of the source
+		if err != nil && (err != io.EOF || int64(n) < readSize) {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
 			if errors.Is(err, io.EOF) {
-- 
2.43.0


From 1beedf411b7a6125d0e945d6302b175b12331168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 14/23] fix: report short writes while applying text fragments

---
 gitdiff/apply_text.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 32333db..1499539 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -100,7 +100,11 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 
 	// copy leading data before the fragment starts
 	for i, line := range preimage[:fragStart-start] {
-		if _, err := a.dst.Write(line); err != nil {
+		n, err := a.dst.Write(line)
+		if err == nil && n != len(line) {
+			err = io.ErrShortWrite
+		}
+		if err != nil {
 			a.nextLine = start + int64(i)
 			return applyError(err, lineNum(a.nextLine))
 		}
@@ -178,7 +182,11 @@ func applyTextLine(dst io.Writer, line Line, preimage [][]byte, i int64) (err er
 		return &Conflict{"fragment line does not match src line"}
 	}
 	if line.New() {
-		_, err = io.WriteString(dst, line.Line)
+		var n int
+		n, err = io.WriteString(dst, line.Line)
+		if err == nil && n != len(line.Line) {
+			err = io.ErrShortWrite
+		}
 	}
 	return err
 }
-- 
2.43.0


From 81928befbf8813faa364da5ed8ed5a657d45a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 15/23] fix: end the id in a commit line at a tab

git log --source separates the commit id and the ref with a tab, which made
the ref part of the SHA in the parsed header.
---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index e663ff4..f028e47 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -223,7 +223,7 @@ func parseHeaderPretty(prettyLine, rest string) (*PatchHeader, error) {
 	h := &PatchHeader{}
 
 	prettyLine = strings.TrimPrefix(prettyLine, prettyHeaderPrefix)
-	if i := strings.IndexByte(prettyLine, ' '); i > 0 {
+	if i := strings.IndexAny(prettyLine, " \t"); i > 0 {
 		h.SHA = prettyLine[:i]
 	} else {
 		h.SHA = prettyLine
-- 
2.43.0


From f4a37d70b5540602e99d0c444791e249b8e37d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 16/23] fix: remove only the indent of git from bodies in
 pretty headers

If the title started with spaces, those were taken for part of the indent and
the four spaces that git adds to each line were left in the body.
---
 gitdiff/patch_header.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index f028e47..f340a43 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -218,6 +218,7 @@ func parseHeaderPretty(prettyLine, rest string) (*PatchHeader, error) {
 		datePrefix       = "Date:"
 		authorDatePrefix = "AuthorDate:"
 		commitDatePrefix = "CommitDate:"
+		prettyIndent     = "    "
 	)
 
 	h := &PatchHeader{}
@@ -286,6 +287,12 @@ func parseHeaderPretty(prettyLine, rest string) (*PatchHeader, error) {
 	h.Title = title
 
 	if title != "" {
+		// Git indents the message by four spaces, any additional space at the
+		// start of the title is part of the message
+		if strings.HasPrefix(indent, prettyIndent) {
+			indent = prettyIndent
+		}
+
 		// Don't check for an appendix, pretty headers do not contain them
 		body, _ := scanMessageBody(s, indent, false)
 		if s.Err() != nil {
-- 
2.43.0


From f556f727def7c69fb58b5d5407b002826c281992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 17/23] fix: decode subjects after a prefix and subjects of any
 length

An encoded subject was not decoded when it followed a prefix that is not
removed, like [PATCH] with SubjectCleanWhitespace, and when it was longer than
the buffer of the quoted-printable reader.
---
 gitdiff/patch_header.go | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index f340a43..8d79f13 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -5,9 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"mime"
-	"mime/quotedprintable"
 	"net/mail"
 	"strconv"
 	"strings"
@@ -464,27 +462,15 @@ func cleanSubject(s string, mode SubjectCleanMode) (prefix string, subject strin
 	return
 }
 
-// Decodes a subject line. Currently only supports quoted-printable UTF-8. This format is the result
-// of a `git format-patch` when the commit title has a non-ASCII character (i.e. an emoji).
+// Decodes a subject line. This format is the result of a `git format-patch` when the commit title
+// has a non-ASCII character (i.e. an emoji). If the subject is too long, it consists of several
+// encoded words, which may also follow a prefix that is not encoded.
 // See for reference: https://stackoverflow.com/questions/27695749/gmail-api-not-respecting-utf-encoding-in-subject
 func decodeSubject(encoded string) string {
-	if !strings.HasPrefix(encoded, "=?UTF-8?q?") {
-		// not UTF-8 encoded
-		return encoded
-	}
-
-	// If the subject is too long, `git format-patch` may produce a subject line across
-	// multiple lines. When parsed, this can look like the following:
-	// <UTF8-prefix><first-line> <UTF8-prefix><second-line>
-	payload := " " + encoded
-	payload = strings.ReplaceAll(payload, " =?UTF-8?q?", "")
-	payload = strings.ReplaceAll(payload, "?=", "")
-
-	decoded, err := ioutil.ReadAll(quotedprintable.NewReader(strings.NewReader(payload)))
+	decoded, err := new(mime.WordDecoder).DecodeHeader(encoded)
 	if err != nil {
 		// if err, abort decoding and return original subject
 		return encoded
 	}
-
-	return string(decoded)
+	return decoded
 }
-- 
2.43.0


From 5d9779df841692e58c844697d0bd6ad08e06d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 18/23] fix: end the id in a commit line at a carriage return

In headers with CRLF line endings, the SHA of the parsed header ended in a
carriage return.
---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 8d79f13..7c8ed6e 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -222,7 +222,7 @@ func parseHeaderPretty(prettyLine, rest string) (*PatchHeader, error) {
 	h := &PatchHeader{}
 
 	prettyLine = strings.TrimPrefix(prettyLine, prettyHeaderPrefix)
-	if i := strings.IndexAny(prettyLine, " \t"); i > 0 {
+	if i := strings.IndexAny(prettyLine, " \t\r"); i >= 0 {
 		h.SHA = prettyLine[:i]
 	} else {
 		h.SHA = prettyLine
-- 
2.43.0


From fb8f04d10a493f4680ed8f93ff3c81b0fa50c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 19/23] fix: name the line of the bad file name in traditional
 headers

The parser has moved past the --- and +++ lines when it parses their names,
so errors named the two lines after them.
---
 gitdiff/file_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index aeb07a0..efc07e3 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -135,12 +135,12 @@ func (p *parser) ParseTraditionalFileHeader() (*File, error) {
 
 	oldName, _, err := parseName(oldLine[len(oldPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(0, "file header: %v", err)
+		return nil, p.Errorf(-2, "file header: %v", err)
 	}
 
 	newName, _, err := parseName(newLine[len(newPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(1, "file header: %v", err)
+		return nil, p.Errorf(-1, "file header: %v", err)
 	}
 
 	f := &File{}
-- 
2.43.0


From 8c50473888ca8c9d44a935c49aede8dba5b62d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 20/23] fix: name the header line when a fragment miscounts its
 lines

The offset was derived from the larger count, which is too small when the
fragment mixes added and deleted lines or has a no-newline marker.
---
 gitdiff/text.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index cad67e0..0607f82 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -89,6 +89,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 		return p.Errorf(0, "no content following fragment header")
 	}
 
+	start := p.lineno // the first line after the header
 	oldLines, newLines := frag.OldLines, frag.NewLines
 	for oldLines > 0 || newLines > 0 {
 		line := p.Line(0)
@@ -142,7 +143,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 	}
 
 	if oldLines != 0 || newLines != 0 {
-		hdr := max(frag.OldLines-oldLines, frag.NewLines-newLines) + 1
+		hdr := p.lineno - start + 1
 		return p.Errorf(-hdr, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
 	}
 	if frag.LinesAdded == 0 && frag.LinesDeleted == 0 {
-- 
2.43.0


From 277938896eab8110cc4636f80a2927092555aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 21/23] fix: keep a last header line that fills the read buffer

---
 gitdiff/patch_header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 7c8ed6e..7dc46ec 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -369,6 +369,12 @@ func scanMessageBody(s *bufio.Scanner, indent string, separateAppendix bool) (st
 }
 
 func parseHeaderMail(mailLine, rest string, opts patchHeaderOptions) (*PatchHeader, error) {
+	if rest != "" {
+		// mail.ReadMessage drops a final line without a newline if it fills
+		// the read buffer exactly
+		rest += "\n"
+	}
+
 	msg, err := mail.ReadMessage(strings.NewReader(rest))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 57a3a534e403a85f6bd9daefaca94dad4131b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 22/23] fix: number fragments by their place in the file in
 apply errors

ApplyError.Fragment is documented as the fragment number in the file, but
was the number in order of position if the fragments of a file are not in
that order.
---
 gitdiff/apply.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index e1c7209..83a87a1 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"slices"
 	"sort"
 )
 
@@ -132,9 +133,9 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		// possible to precompute the result of applying them in order
 
 		applier := NewTextApplier(dst, src, opts...)
-		for i, frag := range frags {
+		for _, frag := range frags {
 			if err := applier.ApplyFragment(frag); err != nil {
-				return applyError(err, fragNum(i))
+				return applyError(err, fragNum(slices.Index(f.TextFragments, frag)))
 			}
 		}
 		return applier.Close()
-- 
2.43.0


From 1e3171cfa5903c9e1a2a4e2cec54fa81eb790dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 23/23] fix: keep returning EOF after the end of binary
 fragment data

---
 gitdiff/binary_reader.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gitdiff/binary_reader.go b/gitdiff/binary_reader.go
index b57df40..1281533 100644
--- a/gitdiff/binary_reader.go
+++ b/gitdiff/binary_reader.go
@@ -15,6 +15,7 @@ type binaryReader struct {
 	c    io.Closer
 	size int64
 	raw  []byte
+	err  error
 }
 
 func newBinaryReader(f *BinaryFragment) io.Reader {
@@ -25,6 +26,17 @@ func newBinaryReader(f *BinaryFragment) io.Reader {
 }
 
 func (r *binaryReader) Read(p []byte) (int, error) {
+	// Repeat the final result: after checking the data, the zlib reader is
+	// closed and no longer reports io.EOF.
+	if r.err != nil {
+		return 0, r.err
+	}
+	n, err := r.read(p)
+	r.err = err
+	return n, err
+}
+
+func (r *binaryReader) read(p []byte) (int, error) {
 	// Defer initialization of the zlib reader so that we report any header
 	// errors from Read() instead of when creating the binaryReader. This
 	// allows clients to use io.ReadAll() directly with BinaryFragment.Data().
-- 
2.43.0

