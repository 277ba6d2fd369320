From a2e9c0547589557df3ea6d7608965d71ec4c8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 1/8] fix: words iterator hot path must not bypass custom split
 functions or a space joiner

---
 words/iterator.go | 6 +++++-
 words/joiners.go  | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/words/iterator.go b/words/iterator.go
index 84bdafa..bdc9d6e 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -7,6 +7,9 @@ type Iterator[T ~string | ~[]byte] struct {
 	data  T
 	pos   int
 	start int
+	// noHotPath disables the ASCII hot path in Next, which is only valid
+	// for the default word boundaries.
+	noHotPath bool
 }
 
 var (
@@ -48,7 +51,7 @@ func (iter *Iterator[T]) Next() bool {
 	// ASCII hot path: consume contiguous ASCII alphanumerics
 	// followed by ASCII space (or end of data)
 	b := iter.data[iter.pos]
-	if isASCIIAlphanumeric(b) {
+	if !iter.noHotPath && isASCIIAlphanumeric(b) {
 		// Consume all contiguous ASCII alphanumerics
 		end := iter.pos + 1
 		for end < len(iter.data) && isASCIIAlphanumeric(iter.data[end]) {
@@ -109,6 +112,7 @@ func (iter *Iterator[T]) SetText(data T) {
 // Split sets the SplitFunc for the Iterator.
 func (iter *Iterator[T]) Split(split func(T, bool) (int, T, error)) {
 	iter.split = split
+	iter.noHotPath = true
 }
 
 // First returns the first word without advancing the iterator.
diff --git a/words/joiners.go b/words/joiners.go
index 42f7aa0..3b5ab3c 100644
--- a/words/joiners.go
+++ b/words/joiners.go
@@ -4,6 +4,8 @@ package words
 // otherwise words will be split. See the [Joiners] type.
 func (iter *Iterator[T]) Joiners(j *Joiners[T]) {
 	iter.Split(j.splitFunc)
+	// The hot path assumes that a space ends a word
+	iter.noHotPath = j != nil && runesContain(j.Middle, ' ')
 }
 
 // Joiners allows specification of characters (runes) which will join words (tokens)
-- 
2.43.0


From 312beefedd641c4cac0d2be412da97d20e97fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 2/8] fix: check a split function's advance before adding it,
 so a huge one cannot overflow the position

---
 internal/iterators/iterator.go | 4 ++--
 words/iterator.go              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/iterators/iterator.go b/internal/iterators/iterator.go
index 8b41f4e..106fe5e 100644
--- a/internal/iterators/iterator.go
+++ b/internal/iterators/iterator.go
@@ -58,10 +58,10 @@ func (iter *Iterator[T]) Next() bool {
 		panic("SplitFunc returned a zero or negative advance")
 	}
 
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(d) {
 		panic("SplitFunc advanced beyond the end of the data")
 	}
+	iter.pos += advance
 
 	return true
 }
diff --git a/words/iterator.go b/words/iterator.go
index bdc9d6e..6c5df32 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -74,10 +74,10 @@ func (iter *Iterator[T]) Next() bool {
 	if advance <= 0 {
 		panic("splitFunc returned a zero or negative advance")
 	}
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(remaining) {
 		panic("splitFunc advanced beyond end of data")
 	}
+	iter.pos += advance
 	return true
 }
 
-- 
2.43.0


From 7a03ee4e8dce3042b3b1ebc6481ff24c1fda9b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 3/8] fix: table generator must not take the body of a failed
 HTTP request for Unicode data

---
 internal/gen/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/gen/main.go b/internal/gen/main.go
index b919bad..b578721 100644
--- a/internal/gen/main.go
+++ b/internal/gen/main.go
@@ -107,6 +107,10 @@ func (p prop) generateTrie() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("%s: %s", p.URL(), resp.Status)
+	}
 
 	b := bufio.NewReader(resp.Body)
 
@@ -251,6 +255,10 @@ func (p prop) generateTests() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("%s: %s", p.TestURL(), resp.Status)
+	}
 
 	sc := bufio.NewScanner(resp.Body) // defaults to ScanLines
 
-- 
2.43.0


From 353423fb2bbfd7e324326d148d9b4a7e5c288f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 4/8] fix: table generator must not take a semicolon in a
 comment for a field separator, nor drop an unterminated last line

---
 internal/gen/main.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/gen/main.go b/internal/gen/main.go
index b578721..94c5bf3 100644
--- a/internal/gen/main.go
+++ b/internal/gen/main.go
@@ -115,23 +115,22 @@ func (p prop) generateTrie() error {
 	b := bufio.NewReader(resp.Body)
 
 	runesByProperty := map[string][]rune{}
-	for {
+	for eof := false; !eof; {
 		s, err := b.ReadString('\n')
 		if err != nil {
-			if err == io.EOF {
-				break
+			if err != io.EOF {
+				return err
 			}
-			return err
+			// the last line may lack its line feed
+			eof = true
 		}
 
+		// Comments can contain anything, including semicolons
+		s = strings.TrimSpace(strings.Split(s, "#")[0])
 		if len(s) == 0 {
 			continue
 		}
 
-		if s[0] == '\n' || s[0] == '#' {
-			continue
-		}
-
 		parts := strings.Split(s, ";")
 		runes, err := getRuneRange(parts[0])
 		if err != nil {
-- 
2.43.0


From 47aa0542d81d0c2e1a062d5de96d9797d6d0d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 5/8] fix: sentence rule SB8 must not look ahead over the same
 text again and again (quadratic time)

---
 sentences/splitfunc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sentences/splitfunc.go b/sentences/splitfunc.go
index f1246f0..43578e6 100644
--- a/sentences/splitfunc.go
+++ b/sentences/splitfunc.go
@@ -35,6 +35,7 @@ func splitFunc[T ~string | ~[]byte](data T, atEOF bool) (advance int, token T, e
 	var lastExIgnoreClose property
 	var lastExIgnoreSpClose property
 	var lastExIgnoreParaSepSpClose property
+	var sb8Pos int // SB8 is known not to apply before this position
 
 	// Rules are usually of the form Cat1 × Cat2; "current" refers to the first property
 	// to the right of the ×, from which we look back or forward
@@ -142,7 +143,7 @@ main:
 		}
 
 		// https://unicode.org/reports/tr29/#SB8
-		if lastExIgnoreSpClose.is(_ATerm) {
+		if lastExIgnoreSpClose.is(_ATerm) && pos >= sb8Pos {
 			p := pos
 
 			// ( ¬(OLetter | Upper | Lower | ParaSep | SATerm) )*
@@ -177,6 +178,9 @@ main:
 				pos = p + advance
 				continue
 			}
+
+			// Looking ahead from anywhere up to p gives the same answer
+			sb8Pos = p
 		}
 
 		// https://unicode.org/reports/tr29/#SB8a
-- 
2.43.0


From 6af56397abb241d028df70ab49e4ac45dacf2251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 6/8] fix: graphemes iterator must not look for the terminator
 of ANSI control strings again and again (quadratic time)

---
 graphemes/ansi.go     | 25 +++++++++++++++++++++++++
 graphemes/ansi8.go    | 12 ++++++++++++
 graphemes/iterator.go | 26 ++++++++++++++++++++------
 3 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/graphemes/ansi.go b/graphemes/ansi.go
index 9cd09b4..413f344 100644
--- a/graphemes/ansi.go
+++ b/graphemes/ansi.go
@@ -1,5 +1,30 @@
 package graphemes
 
+// controlString is a set of kinds of ANSI control string, by terminator.
+type controlString uint8
+
+const (
+	controlStringOSC  controlString = 1 << iota // ESC ]
+	controlStringST                             // ESC P, X, ^ or _
+	controlStringOSC8                           // 0x9D
+	controlStringST8                            // 0x90, 0x98, 0x9E or 0x9F
+)
+
+// controlStringKind returns the kind of control string that data, which starts
+// with ESC, introduces, or 0 if none.
+func controlStringKind[T ~string | ~[]byte](data T) controlString {
+	if len(data) < 2 {
+		return 0
+	}
+	switch data[1] {
+	case ']':
+		return controlStringOSC
+	case 'P', 'X', '^', '_':
+		return controlStringST
+	}
+	return 0
+}
+
 // ansiEscapeLength returns the byte length of a valid 7-bit ANSI escape
 // sequence at the start of data, or 0 if none.
 //
diff --git a/graphemes/ansi8.go b/graphemes/ansi8.go
index d9b0c48..4a0604f 100644
--- a/graphemes/ansi8.go
+++ b/graphemes/ansi8.go
@@ -1,5 +1,17 @@
 package graphemes
 
+// controlStringKind8Bit returns the kind of control string that the C1 control
+// b introduces, or 0 if none.
+func controlStringKind8Bit(b byte) controlString {
+	switch b {
+	case 0x9D:
+		return controlStringOSC8
+	case 0x90, 0x98, 0x9E, 0x9F:
+		return controlStringST8
+	}
+	return 0
+}
+
 // ansiEscapeLength8Bit returns the byte length of a valid 8-bit C1 ANSI
 // sequence at the start of data, or 0 if none.
 //
diff --git a/graphemes/iterator.go b/graphemes/iterator.go
index d37d43d..691d7c7 100644
--- a/graphemes/iterator.go
+++ b/graphemes/iterator.go
@@ -39,6 +39,9 @@ type Iterator[T ~string | ~[]byte] struct {
 	// choose this option, you are choosing to interpret non-UTF-8 data, caveat
 	// emptor.
 	AnsiEscapeSequences8Bit bool
+	// unterminated notes the kinds of control string for which there is no
+	// terminator between pos and the end of data.
+	unterminated controlString
 }
 
 var (
@@ -65,15 +68,23 @@ func (iter *Iterator[T]) Next() bool {
 
 	b := iter.data[iter.pos]
 	if iter.AnsiEscapeSequences && b == esc {
-		if a := ansiEscapeLength(iter.data[iter.pos:]); a > 0 {
-			iter.pos += a
-			return true
+		kind := controlStringKind(iter.data[iter.pos:])
+		if iter.unterminated&kind == 0 {
+			if a := ansiEscapeLength(iter.data[iter.pos:]); a > 0 {
+				iter.pos += a
+				return true
+			}
+			iter.unterminated |= kind
 		}
 	}
 	if iter.AnsiEscapeSequences8Bit && b >= 0x80 && b <= 0x9F {
-		if a := ansiEscapeLength8Bit(iter.data[iter.pos:]); a > 0 {
-			iter.pos += a
-			return true
+		kind := controlStringKind8Bit(b)
+		if iter.unterminated&kind == 0 {
+			if a := ansiEscapeLength8Bit(iter.data[iter.pos:]); a > 0 {
+				iter.pos += a
+				return true
+			}
+			iter.unterminated |= kind
 		}
 	}
 
@@ -120,6 +131,7 @@ func (iter *Iterator[T]) End() int {
 func (iter *Iterator[T]) Reset() {
 	iter.start = 0
 	iter.pos = 0
+	iter.unterminated = 0
 }
 
 // SetText sets the data for the iterator to operate on, and resets all state.
@@ -127,6 +139,7 @@ func (iter *Iterator[T]) SetText(data T) {
 	iter.data = data
 	iter.start = 0
 	iter.pos = 0
+	iter.unterminated = 0
 }
 
 // First returns the first grapheme cluster without advancing the iterator.
@@ -139,6 +152,7 @@ func (iter *Iterator[T]) First() T {
 	cp := *iter
 	cp.pos = 0
 	cp.start = 0
+	cp.unterminated = 0
 	cp.Next()
 	return cp.Value()
 }
-- 
2.43.0


From 49f8e2a331925d4ad3b42edd6356fab810c1683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 7/8] fix: joiners must not copy all of the remaining text to
 decode one rune of a named byte slice type (quadratic time)

---
 words/splitfunc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/words/splitfunc.go b/words/splitfunc.go
index bd2a438..4e65f46 100644
--- a/words/splitfunc.go
+++ b/words/splitfunc.go
@@ -28,7 +28,11 @@ func decodeRune[T ~string | ~[]byte](data T) (rune, int) {
 	case []byte:
 		return utf8.DecodeRune(v)
 	default:
-		// Handle named string/[]byte types.
+		// Handle named string/[]byte types. The conversion can copy, so it
+		// must not be of all of the data.
+		if len(data) > utf8.UTFMax {
+			data = data[:utf8.UTFMax]
+		}
 		return utf8.DecodeRuneInString(string(data))
 	}
 }
-- 
2.43.0


From f68f8e45e8022cce37a4f2a4072c1bd0d792fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 8/8] fix: the table generator must not succeed when closing a
 generated file reports that it was not stored

---
 internal/gen/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/gen/main.go b/internal/gen/main.go
index 94c5bf3..824a7b9 100644
--- a/internal/gen/main.go
+++ b/internal/gen/main.go
@@ -401,7 +401,8 @@ var unicodeTests = [%d]unicodeTest {
 		return err
 	}
 
-	return nil
+	// a file system can report as late as here that it did not store the data
+	return dst.Close()
 }
 
 func writeTrie(prop prop, trie *triegen.Trie, iotasByProperty map[string]uint64) error {
@@ -487,5 +488,6 @@ func writeTrie(prop prop, trie *triegen.Trie, iotasByProperty map[string]uint64)
 		return err
 	}
 
-	return nil
+	// a file system can report as late as here that it did not store the data
+	return dst.Close()
 }
-- 
2.43.0

