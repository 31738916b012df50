From 898d1d92cbd152c9c3676c22d6cf9d96d1a82860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 01/11] fix: unreachable lattice nodes must not win against the
 paths from BOS

---
 tokenizer/lattice/lattice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index aab4eea..962ba72 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -219,7 +219,11 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				la.list[i][index].Cost = maximumCost
 				continue
 			}
+			la.list[i][index].prev = nil
 			for j, n := range prevList {
+				if target.Start > 0 && n.prev == nil {
+					continue // no path from the BOS reaches this node.
+				}
 				var c int16
 				if n.Class != USER && target.Class != USER {
 					c = la.dic.Connection.At(int(n.Right), int(target.Left))
@@ -231,7 +235,7 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				if totalCost > maximumCost {
 					totalCost = maximumCost
 				}
-				if j == 0 || int32(totalCost) < la.list[i][index].Cost {
+				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
 					la.list[i][index].Cost = int32(totalCost)
 					la.list[i][index].prev = la.list[target.Start][j]
 				}
-- 
2.43.0


From 696cc0c0b937c537f89497a2511f684a72421111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 02/11] fix: path costs of long inputs overflowed int32

---
 tokenizer/lattice/lattice.go | 11 ++++-------
 tokenizer/lattice/node.go    |  2 +-
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 962ba72..58fecd2 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -12,7 +12,7 @@ import (
 )
 
 const (
-	maximumCost              = 1<<31 - 1
+	maximumCost              = 1<<63 - 1
 	maximumUnknownWordLength = 1024
 	searchModeKanjiLength    = 2
 	searchModeKanjiPenalty   = 3000
@@ -228,15 +228,12 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				if n.Class != USER && target.Class != USER {
 					c = la.dic.Connection.At(int(n.Right), int(target.Left))
 				}
-				totalCost := int64(c) + int64(target.Weight) + int64(n.Cost)
+				totalCost := int64(c) + int64(target.Weight) + n.Cost
 				if m != Normal {
 					totalCost += int64(additionalCost(n))
 				}
-				if totalCost > maximumCost {
-					totalCost = maximumCost
-				}
-				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
-					la.list[i][index].Cost = int32(totalCost)
+				if la.list[i][index].prev == nil || totalCost < la.list[i][index].Cost {
+					la.list[i][index].Cost = totalCost
 					la.list[i][index].prev = la.list[target.Start][j]
 				}
 			}
diff --git a/tokenizer/lattice/node.go b/tokenizer/lattice/node.go
index 00d5d07..015db0d 100644
--- a/tokenizer/lattice/node.go
+++ b/tokenizer/lattice/node.go
@@ -39,7 +39,7 @@ type Node struct {
 	Position int // byte position
 	Start    int // rune position
 	Class    NodeClass
-	Cost     int32
+	Cost     int64
 	Left     int32
 	Right    int32
 	Weight   int32
-- 
2.43.0


From 2e4797bea8bbd43ca2d64146897a113cd04b7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:16 +0000
Subject: [PATCH 03/11] fix: extended mode replaced undecodable bytes of
 unknown words by U+FFFD

---
 tokenizer/lattice/lattice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 58fecd2..1d4b155 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -255,12 +255,13 @@ func (la *Lattice) Backward(m TokenizeMode) {
 		runeLen := utf8.RuneCountInString(p.Surface)
 		stack := make([]*Node, 0, runeLen)
 		i := 0
-		for k, r := range p.Surface {
+		for k := range p.Surface {
+			_, w := utf8.DecodeRuneInString(p.Surface[k:])
 			stack = append(stack, &Node{
 				ID:       p.ID,
 				Start:    p.Start + i,
 				Class:    DUMMY,
-				Surface:  string(r),
+				Surface:  p.Surface[k : k+w],
 				Position: p.Position + k,
 			})
 			i++
-- 
2.43.0


From 7e3346ce8fac6e1b4e4d7fd3587b53248bef1d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:17 +0000
Subject: [PATCH 04/11] fix: a literal U+FFFD is three bytes long, not one

---
 tokenizer/lattice/lattice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 1d4b155..2d22b96 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -137,12 +137,8 @@ func (la *Lattice) Build(inp string) {
 		// (3) UNKNOWN DIC
 		class := la.dic.CharacterCategory(ch)
 		if !anyMatches || la.dic.InvokeList[int(class)] {
-			var endPos int
-			if ch != utf8.RuneError {
-				endPos = pos + utf8.RuneLen(ch)
-			} else {
-				endPos = pos + 1
-			}
+			_, size := utf8.DecodeRuneInString(inp[pos:])
+			endPos := pos + size
 			unkWordLen := 1
 			if la.dic.GroupList[int(class)] {
 				for i, w, size := endPos, 0, len(inp); i < size; i += w {
-- 
2.43.0


From 757611709632c234788e4c53af3a7ed07e216832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 05/11] fix: features filter mixed up concrete features with
 Any

---
 filter/feature.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/filter/feature.go b/filter/feature.go
index 0be5376..c181037 100644
--- a/filter/feature.go
+++ b/filter/feature.go
@@ -31,7 +31,7 @@ func (n filterNode) isLeaf() bool {
 
 func (n filterNode) has(s Feature) int {
 	for i, v := range n.fanout {
-		if v.val == Any || v.val == s {
+		if v.val == s {
 			return i
 		}
 	}
@@ -77,16 +77,20 @@ func (f *FeaturesFilter) add(fs Features) {
 
 // Match returns true if a filter matches given features.
 func (f *FeaturesFilter) Match(fs Features) bool {
-	n := &f.root
-	for _, v := range fs {
-		if k := n.has(v); k >= 0 {
-			n = n.fanout[k].to
-			if n.isLeaf() {
-				return true
-			}
+	return f.root.match(fs)
+}
+
+func (n filterNode) match(fs Features) bool {
+	if len(fs) == 0 {
+		return false
+	}
+	for _, v := range n.fanout {
+		if v.val != Any && v.val != fs[0] {
 			continue
 		}
-		return false
+		if v.to.isLeaf() || v.to.match(fs[1:]) {
+			return true
+		}
 	}
 	return false
 }
-- 
2.43.0


From d27053b272d97a575db553f16da256d6558df820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 06/11] fix: the splitter took separated line feeds for a
 double line feed

---
 filter/sentence_splitter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3f41dc9..b3bd17d 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -91,6 +91,8 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				return p, data[start:end], nil
 			}
 			nn = true
+		} else {
+			nn = false
 		}
 		if !s.isDelim(r) && rcount < s.MaxRuneLen {
 			continue
@@ -106,6 +108,8 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 						return p, data[start:end], nil
 					}
 					nn = true
+				} else {
+					nn = false
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
 				if end != p {
@@ -115,6 +119,7 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				}
 				p += size
 				end += size
+				nn = false
 			} else {
 				break
 			}
-- 
2.43.0


From 32cf895a54b92893e59f9a224a217b432557087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:39 +0000
Subject: [PATCH 07/11] fix: the splitter lost runes and line feeds at the end
 of the buffer

---
 filter/sentence_splitter.go | 51 ++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index b3bd17d..3071a45 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -47,6 +47,22 @@ func (s SentenceSplitter) isFollower(r rune) bool {
 	return false
 }
 
+// compact eliminates white spaces of a sentence if needed.
+func (s SentenceSplitter) compact(b []byte) []byte {
+	if !s.SkipWhiteSpace {
+		return b
+	}
+	end := 0
+	for p := 0; p < len(b); {
+		r, size := utf8.DecodeRune(b[p:])
+		if !unicode.IsSpace(r) {
+			end += copy(b[end:], b[p:p+size])
+		}
+		p += size
+	}
+	return b[:end]
+}
+
 // ScanSentences is a split function for a Scanner that returns each sentence of text.
 // nolint: gocyclo
 func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -59,6 +75,9 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 	)
 	head = true
 	for p := 0; p < len(data); {
+		if !atEOF && !utf8.FullRune(data[p:]) {
+			break // request the rest of the rune
+		}
 		r, size := utf8.DecodeRune(data[p:])
 		if s.SkipWhiteSpace && unicode.IsSpace(r) {
 			p += size
@@ -66,10 +85,10 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 			case head:
 				start, end = p, p
 			case s.isDelim(r):
-				return p, data[start:end], nil
+				return p, s.compact(data[start:end]), nil
 			case s.DoubleLineFeedSplit && r == '\n':
 				if nn {
-					return p, data[start:end], nil
+					return p, s.compact(data[start:end]), nil
 				}
 				nn = true
 			case nn:
@@ -78,17 +97,12 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 			continue
 		}
 		head = false
-		if end != p {
-			for i := 0; i < size; i++ {
-				data[end+i] = data[p+i]
-			}
-		}
 		p += size
-		end += size
+		end = p
 		rcount++
 		if s.DoubleLineFeedSplit && r == '\n' {
 			if nn {
-				return p, data[start:end], nil
+				return p, s.compact(data[start:end]), nil
 			}
 			nn = true
 		} else {
@@ -100,39 +114,34 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		// split
 		nn = false
 		for p < len(data) {
+			if !atEOF && !utf8.FullRune(data[p:]) {
+				return start, nil, nil // request the rest of the rune
+			}
 			r, size := utf8.DecodeRune(data[p:])
 			if s.SkipWhiteSpace && unicode.IsSpace(r) {
 				p += size
 				if s.DoubleLineFeedSplit && r == '\n' {
 					if nn {
-						return p, data[start:end], nil
+						return p, s.compact(data[start:end]), nil
 					}
 					nn = true
 				} else {
 					nn = false
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
-				if end != p {
-					for i := 0; i < size; i++ {
-						data[end+i] = data[p+i]
-					}
-				}
 				p += size
-				end += size
+				end = p
 				nn = false
 			} else {
 				break
 			}
 		}
-		return p, data[start:end], nil
+		return p, s.compact(data[start:end]), nil
 	}
 	if !atEOF {
 		// Request more data
-		for i := end; i < len(data); i++ {
-			data[i] = ' '
-		}
 		return start, nil, nil
 	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
-	return len(data), data[start:end], nil
+	return len(data), s.compact(data[start:end]), nil
 }
-- 
2.43.0


From 0a801857d3eea5ca282931c763cdbedec7eb6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:40 +0000
Subject: [PATCH 08/11] fix: the splitter cut off followers at the end of the
 buffer

---
 filter/sentence_splitter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3071a45..7af5a67 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -136,6 +136,9 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				break
 			}
 		}
+		if !atEOF && p == len(data) && data[p-1] != '\n' {
+			return start, nil, nil // followers may come next
+		}
 		return p, s.compact(data[start:end]), nil
 	}
 	if !atEOF {
-- 
2.43.0


From 6a2d4efe6729718f523c50b36a54b39eb72608bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:40 +0000
Subject: [PATCH 09/11] fix: trailing white spaces could become an empty
 sentence

---
 filter/sentence_splitter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 7af5a67..df22bd9 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -145,6 +145,9 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		// Request more data
 		return start, nil, nil
 	}
+	if head {
+		return len(data), nil, nil
+	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
 	return len(data), s.compact(data[start:end]), nil
 }
-- 
2.43.0


From 9497868a9d696d2d02a86831126fdf9cc54e4506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:41 +0000
Subject: [PATCH 10/11] fix: AnalyzeGraph tokens lacked Index and Position and
 ignored OmitBosEos

---
 tokenizer/tokenizer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tokenizer/tokenizer.go b/tokenizer/tokenizer.go
index 4feb38f..7359f50 100644
--- a/tokenizer/tokenizer.go
+++ b/tokenizer/tokenizer.go
@@ -150,14 +150,19 @@ func (t Tokenizer) AnalyzeGraph(w io.Writer, input string, mode TokenizeMode) []
 	tokens := make([]Token, 0, size)
 	for i := range la.Output {
 		n := la.Output[size-1-i]
+		if t.omitBosEos && n.ID == BosEosID {
+			continue
+		}
 		tok := Token{
-			ID:      n.ID,
-			Class:   TokenClass(n.Class),
-			Start:   n.Start,
-			End:     n.Start + utf8.RuneCountInString(n.Surface),
-			Surface: n.Surface,
-			dict:    t.dict,
-			udict:   t.userDict,
+			Index:    len(tokens),
+			ID:       n.ID,
+			Class:    TokenClass(n.Class),
+			Position: n.Position,
+			Start:    n.Start,
+			End:      n.Start + utf8.RuneCountInString(n.Surface),
+			Surface:  n.Surface,
+			dict:     t.dict,
+			udict:    t.userDict,
 		}
 		if tok.ID == lattice.BosEosID {
 			if i == 0 {
-- 
2.43.0


From 7292ef69121eb4eb5ee71181417b04b504291a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 11/11] fix: JSON output dropped the unigrams of extended mode

---
 cmd/tokenize/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tokenize/cmd.go b/cmd/tokenize/cmd.go
index a288a9b..8dc211b 100644
--- a/cmd/tokenize/cmd.go
+++ b/cmd/tokenize/cmd.go
@@ -201,7 +201,7 @@ func printTokensJSON(tokens []tokenizer.Token) error {
 	}
 	var array [][]byte
 	for _, v := range tokens {
-		if v.Class == tokenizer.DUMMY {
+		if v.ID == tokenizer.BosEosID {
 			continue
 		}
 		r := tokenizer.NewTokenData(v)
-- 
2.43.0

