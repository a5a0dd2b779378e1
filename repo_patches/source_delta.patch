From b13440975bf34d077208181161545957c7473d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 1/9] fix: Split: return no jamo for a rune that is not a
 syllable

Split computed arbitrary values for runes outside U+AC00..U+D7A3, so
LastConsonant("Go"), EndsWithConsonant("Go") and AppendPostposition on any
word not ending in a Hangul syllable answered with garbage.
---
 hangul.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hangul.go b/hangul.go
index 1f5c089..7d88a55 100644
--- a/hangul.go
+++ b/hangul.go
@@ -47,6 +47,11 @@ func Join(l, m, t rune) rune {
 
 // Split converts NFC to NFD
 func Split(c rune) (l, m, t rune) {
+	if c < 0xAC00 || c > 0xD7A3 {
+		// not a precomposed syllable, there is nothing to split
+		return 0, 0, 0
+	}
+
 	t = (c - 0xAC00) % 28
 	m = ((c - 0xAC00 - t) % 588) / 28
 	l = (c - 0xAC00) / 588
-- 
2.43.0


From 2f0c9c3fca33b35c7d0d7b43b3463a378733e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 2/9] fix: Join: reject a tail that is not a tail consonant

Tail returns 0 for an unknown rune, which tailIdx takes for "no tail", so
Join(G, A, DD) or Join(G, A, 'x') silently dropped the third rune instead
of returning U+FFFD as it does for a bad lead or medial.
---
 hangul.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hangul.go b/hangul.go
index 7d88a55..36ccf9a 100644
--- a/hangul.go
+++ b/hangul.go
@@ -38,7 +38,7 @@ func Join(l, m, t rune) rune {
 	}
 
 	ti, ok := tailIdx(Tail(t))
-	if !ok {
+	if !ok || (t != 0 && ti == 0) {
 		return rune(0xFFFD)
 	}
 
-- 
2.43.0


From c9bf2ab0274252727e9daa9adb11d216550bdc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 3/9] fix: SplitMultiElement: do not hand out the internal
 table

Writing to the returned slice changed the package's table, and with it all
later results of SplitMultiElement and Stroke.
---
 jamo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 0f56d37..0280886 100644
--- a/jamo.go
+++ b/jamo.go
@@ -86,7 +86,8 @@ var multiElements = map[rune][]rune{
 func SplitMultiElement(r rune) ([]rune, bool) {
 	r = CompatJamo(r)
 	es, ok := multiElements[r]
-	return es, ok
+	// copy, the caller should not be able to change the table
+	return append([]rune(nil), es...), ok
 }
 
 var toCompatJamo = map[rune]rune{
-- 
2.43.0


From 71e503b8569bfcd78021da712cbb91826c36b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 4/9] fix: split WE into basic letters

WE was split to U and E, but E is a multi element letter itself (WAE, in
the same position, is split to O, A, I). Stroke has no count for E and
returned 2 for WE, instead of 5, and counted every syllable with WE short.
---
 jamo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 0280886..c3957a0 100644
--- a/jamo.go
+++ b/jamo.go
@@ -77,7 +77,7 @@ var multiElements = map[rune][]rune{
 	WAE: []rune{O, A, I},
 	OE:  []rune{O, I},
 	WEO: []rune{U, EO},
-	WE:  []rune{U, E},
+	WE:  []rune{U, EO, I},
 	WI:  []rune{U, I},
 	YI:  []rune{EU, I},
 }
-- 
2.43.0


From 0baeb55d3083917f55279a65ef6d9e3f5e90d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 5/9] fix: To: encode an unrepresentable rune to exactly one
 '?'

A rune above the last one in the table gave "??". A rune beyond U+FFFF was
cut to 16 bits before the lookup, so U+2AC00 came out as U+AC00.
---
 encoding/cp949/cp949.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index e4793c8..fdcee7d 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,11 +89,7 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi >= len(p.table) {
-			p.scratch = append(p.scratch, '?')
-		}
-
-		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
+		if fi < len(p.table) && r == rune(p.table[fi].ucs2) {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
 				byte(f.cp949>>8), byte(f.cp949&0xff))
-- 
2.43.0


From d856621eb998f0a8b9d04f1f9c88f6c708eb2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 6/9] fix: cp949 Reader: do not lose data before a split or
 truncated character

When the data at hand ended with the first half of a character, none of it
was converted. At the end of the stream, or on a read error, all of it was
dropped and io.EOF returned as if nothing was missing. Convert the complete
characters, and report a truncated stream as From does.
---
 encoding/cp949/cp949.go  | 2 +-
 encoding/cp949/public.go | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index fdcee7d..d9da35e 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -43,7 +43,7 @@ func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {
 		}
 
 		if len(data) < 2 {
-			return 0, nil, ErrCP949UnexpectedStream
+			return c, p.scratch, ErrCP949UnexpectedStream
 		}
 
 		n := uint16(data[0])<<8 | uint16(data[1])
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index c1b213d..f25bf9b 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -76,8 +76,9 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			break
 		}
 		nc, cdata, cvterr := r.tr.Translate(r.rdata)
-		if cvterr != nil {
-			// TODO
+		if cvterr != nil && nc == 0 && r.err == io.EOF {
+			// The stream ends within a character.
+			r.err = cvterr
 		}
 		r.cdata = cdata
 
-- 
2.43.0


From 80993aa7e37a764016548d9148ed1a6f010907ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 7/9] fix: cp949 Reader: an empty read is not the end of the
 stream

Read with an empty buffer passed an empty buffer to the source, took its
0, nil for io.EOF and lost the rest of the stream. So did a source which
returns 0, nil once, which an io.Reader may do.
---
 encoding/cp949/public.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index f25bf9b..916eefe 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -57,6 +57,9 @@ func NewReader(r io.Reader) (io.Reader, error) {
 }
 
 func (r *cp949Reader) Read(buf []byte) (int, error) {
+	if len(buf) == 0 {
+		return 0, nil
+	}
 	for {
 		if len(r.cdata) > 0 {
 			n := copy(buf, r.cdata)
@@ -66,9 +69,9 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 		if r.err == nil {
 			r.rdata = ensureCap(r.rdata, len(r.rdata)+len(buf))
 			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
-			// Guard against non-compliant Readers.
+			// Nothing happened, which is not io.EOF. Do not spin here.
 			if n == 0 && err == nil {
-				err = io.EOF
+				return 0, nil
 			}
 			r.rdata = r.rdata[0 : len(r.rdata)+n]
 			r.err = err
-- 
2.43.0


From 0c593df0ee2fd5a805b684825781e2edf4e6b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 8/9] fix: cp949 Writer: keep a rune which is split between two
 writes

The translator took the bytes of an unfinished rune at the end of the data
for broken ones and wrote '?' for each, so io.Copy damaged text at every
buffer boundary which was not at a rune boundary. Leave them for the next
Write, as the Writer is prepared for.
---
 encoding/cp949/cp949.go  | 5 +++++
 encoding/cp949/public.go | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index d9da35e..1ad1419 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -80,6 +80,11 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			continue
 		}
 
+		if !utf8.FullRune(data) {
+			// The rest of the rune is not here, yet.
+			break
+		}
+
 		r, s := utf8.DecodeRune(data)
 		rUcs2 := uint16(r)
 		fi := sort.Search(len(p.table), func(i int) bool {
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 916eefe..1cb3e45 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -30,11 +30,16 @@ func To(in []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	_, out, err := tr.Translate(in)
+	n, out, err := tr.Translate(in)
 	if err != nil {
 		return nil, err
 	}
 
+	// Bytes of a truncated rune at the end.
+	for ; n < len(in); n++ {
+		out = append(out, '?')
+	}
+
 	return out, nil
 }
 
@@ -115,6 +120,7 @@ func NewWriter(w io.Writer) (io.Writer, error) {
 
 func (w *cp949Writer) Write(data []byte) (int, error) {
 	wdata := data
+	pending := len(w.buf)
 	if len(w.buf) > 0 {
 		w.buf = append(w.buf, data...)
 		wdata = w.buf
@@ -126,6 +132,7 @@ func (w *cp949Writer) Write(data []byte) (int, error) {
 	if n > 0 {
 		_, err = w.w.Write(cdata)
 		if err != nil {
+			w.buf = w.buf[:pending]
 			return 0, err
 		}
 	}
-- 
2.43.0


From 1de0d7484450638ad80c36d047b83914f30dc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:05 +0000
Subject: [PATCH 9/9] fix: cp949 encoding: respect the buffers given to
 Transform

Transform reported more bytes than dst had room for, which panics in the
Reader and Writer of golang.org/x/text (decoding 4096 bytes of hangul needs
6144), and took a character split at the end of src for a broken one.
---
 encoding/cp949/encoding.go | 59 +++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/encoding/cp949/encoding.go b/encoding/cp949/encoding.go
index dcf33a0..68d2545 100644
--- a/encoding/cp949/encoding.go
+++ b/encoding/cp949/encoding.go
@@ -1,7 +1,10 @@
 package cp949
 
 import (
+	"unicode/utf8"
+
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 // CP949Encoding provides the Encoding interface for CP949 encoding.
@@ -26,30 +29,54 @@ type cp949Decoder struct{}
 
 // Transform converts data from CP949 to UTF-8.
 func (d *cp949Decoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the From function to convert CP949 to UTF-8.
-	converted, err := From(src)
-	if err != nil {
-		return 0, 0, err
-	}
+	for nSrc < len(src) {
+		size := 1
+		if src[nSrc]&0x80 != 0 && nSrc+1 < len(src) {
+			size = 2
+		} else if src[nSrc]&0x80 != 0 && !atEOF {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		// Use the From function to convert CP949 to UTF-8.
+		converted, err := From(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if nDst+len(converted) > len(dst) {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 type cp949Encoder struct{}
 
 // Transform converts data from UTF-8 to CP949.
 func (e *cp949Encoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the To function to convert UTF-8 to CP949.
-	converted, err := To(src)
-	if err != nil {
-		return 0, 0, err
-	}
+	for nSrc < len(src) {
+		if !atEOF && !utf8.FullRune(src[nSrc:]) {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+		_, size := utf8.DecodeRune(src[nSrc:])
+
+		// Use the To function to convert UTF-8 to CP949.
+		converted, err := To(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if nDst+len(converted) > len(dst) {
+			return nDst, nSrc, transform.ErrShortDst
+		}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 // Reset resets the state of the Transformer.
-- 
2.43.0

