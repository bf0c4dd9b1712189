From cf0b7df5b1f1e57af3802c72cd9a1a245372cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 01/21] fix: keep zero distance paths in the shortest path
 search

A word whose frequency is the whole dictionary's has distance 0, which
updateJumper took for 'not visited yet', so any later path replaced it.
---
 segmenter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index 0cd1125..c2dbc5c 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -184,7 +184,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 // updateJumper Update the jump information:
 //  1. When the location has never been visited
-//     (the case where jumper.minDistance is zero), or
+//     (the case where jumper.token is nil), or
 //  2. When the current shortest path at the location
 //     is greater than the new shortest path
 //
@@ -192,7 +192,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 // add the probability of the new split
 func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
 	newDistance := baseDistance + token.distance
-	if jumper.minDistance == 0 || jumper.minDistance > newDistance {
+	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
 	}
-- 
2.43.0


From 47014d65c10844e139ee9c961cbdd4e69d2ebf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 02/21] fix: score a mere prefix of a word as an unknown word

Find reports a prefix of dictionary words as found with frequency 0. calc
took its logarithm, so one such character gave every route through it a
score of -Inf and the rest of the text was cut arbitrarily.
---
 dag.go             | 2 +-
 hmm/pos/pos_seg.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index dd15cb9..4be65ab 100644
--- a/dag.go
+++ b/dag.go
@@ -178,7 +178,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
 
-			if ok {
+			if ok && freq > 0 {
 				f := math.Log(freq) - logT + rs[i+1].freq
 				r = route{freq: f, index: i}
 			} else {
diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index a3ff13d..534ae8e 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -160,7 +160,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
-			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok {
+			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok && freq > 0 {
 				r = route{
 					freq:  math.Log(freq) - seg.dict.logTotal + rs[i+1].freq,
 					index: i}
-- 
2.43.0


From b5d85fac37180b1bc8deb476139ca5e6ff48ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 03/21] fix: do not remove other words when removing a mere
 prefix

Deleting a key that is not a word itself but the prefix of words drops
these words from the trie.
---
 dictionary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 31a85bb..b95c852 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -74,6 +74,12 @@ func (dict *Dictionary) AddToken(token Token) error {
 func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
 
+	// the trie deletes the whole branch of a key that is only a prefix
+	_, err := dict.trie.Get(bytes)
+	if err != nil {
+		return err
+	}
+
 	return dict.trie.Delete(bytes)
 }
 
-- 
2.43.0


From e216d873c51c09849f8e14b3eb5994846ccdddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 04/21] fix: find the part of speech of the first dictionary
 word

Its value is 0, which Pos took for not found.
---
 hmm/pos/dict.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmm/pos/dict.go b/hmm/pos/dict.go
index cde3159..3ef9c89 100644
--- a/hmm/pos/dict.go
+++ b/hmm/pos/dict.go
@@ -51,8 +51,8 @@ func (d *Dict) Freq(key string) (float64, string, bool) {
 
 // Pos find the key return the POS and existence
 func (d *Dict) Pos(key string) (string, bool) {
-	value, _, _ := d.Seg.Value(key)
-	if value == 0 {
+	value, _, err := d.Seg.Value(key)
+	if err != nil {
 		return "", false
 	}
 
-- 
2.43.0


From 14abe05f38aa5bd03b4a290435b9e201177c1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 05/21] fix: AddStop on a segmenter without a stop word map

It panicked with an assignment to a nil map.
---
 stop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stop.go b/stop.go
index 4166f09..348ad61 100644
--- a/stop.go
+++ b/stop.go
@@ -81,7 +81,7 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 
 // AddStop add a token to the StopWord dictionary.
 func (seg *Segmenter) AddStop(text string) {
-	seg.StopWordMap[text] = true
+	seg.LoadStopArr([]string{text})
 }
 
 // AddStopArr add array stop token to stop dictionaries
-- 
2.43.0


From cc8d21295a4b6c1f3db6ebf56afad5d06593713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 06/21] fix: FindAllOccs does not end for an empty search
 string

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 4be65ab..b3f4a23 100644
--- a/dag.go
+++ b/dag.go
@@ -50,6 +50,10 @@ func FindAllOccs(data []byte, searches []string) map[string][]int {
 	results := make(map[string][]int, 0)
 	tmp := data
 	for _, search := range searches {
+		if search == "" {
+			continue
+		}
+
 		index := len(data)
 		for {
 			match := bytes.LastIndex(tmp[0:index], []byte(search))
-- 
2.43.0


From 9bfa599307babc9fd9736005840e2d3e4bed111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 07/21] fix: the search mode drops a text of a single unit

---
 segmenter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segmenter.go b/segmenter.go
index c2dbc5c..3decd62 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -98,7 +98,8 @@ func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
 	// split text to words
 	text := seg.SplitTextToWords(bytes)
 
-	return seg.segmentWords(text, searchMode)
+	// a single unit can not be divided, the search mode would drop it
+	return seg.segmentWords(text, searchMode && len(text) > 1)
 }
 
 func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
-- 
2.43.0


From b8c8c002ae34716d3c63dccbf3e8d70c818f8d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 08/21] fix: TrimPosPunct clears the text of stop words in its
 argument

---
 trim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index e9958ff..b0dee1a 100644
--- a/trim.go
+++ b/trim.go
@@ -52,7 +52,7 @@ func (seg *Segmenter) TrimPunct(s []string) (r []string) {
 func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 	for i := 0; i < len(se); i++ {
 		if !seg.NotStop && seg.IsStop(se[i].Text) {
-			se[i].Text = ""
+			continue
 		}
 
 		if se[i].Text != "" && len(se[i].Text) > 0 {
-- 
2.43.0


From 7fec44ccffab8e77f897942e0bc4aca257ad8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 09/21] fix: TrimWithPos without a part of speech drops
 everything

---
 hmm/pos/pos_seg.go | 4 ++++
 trim.go            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index 534ae8e..e97f9b3 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -386,6 +386,10 @@ func (seg *Segmenter) Trim(se []gse.SegPos) (re []gse.SegPos) {
 
 // TrimWithPos trim some pos
 func (seg *Segmenter) TrimWithPos(se []gse.SegPos, pos ...string) (re []gse.SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
diff --git a/trim.go b/trim.go
index b0dee1a..4fb06fa 100644
--- a/trim.go
+++ b/trim.go
@@ -68,6 +68,10 @@ func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 
 // TrimWithPos trim some seg with pos
 func (seg *Segmenter) TrimWithPos(se []SegPos, pos ...string) (re []SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
-- 
2.43.0


From 2a96d510017229207c36b9760b9eff377a67d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 10/21] fix: Cut does not end for a regexp that matches the
 empty string

---
 hmm/hmm_seg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 1d63329..c0e055a 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -89,6 +89,9 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 		} else {
 			cutLoc = regHan.FindStringIndex(text)
 		}
+		if cutLoc != nil && cutLoc[0] == cutLoc[1] {
+			cutLoc = nil // an empty match cuts nothing
+		}
 
 		if cutLoc == nil {
 			if len(text) == 0 {
@@ -106,6 +109,9 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 		} else {
 			nonCutLoc = regSkip.FindStringIndex(text)
 		}
+		if nonCutLoc != nil && nonCutLoc[0] == nonCutLoc[1] {
+			nonCutLoc = nil
+		}
 		if nonCutLoc == nil {
 			if len(text) == 0 {
 				break
-- 
2.43.0


From 5c5fc232d94514ab5c91f4098050aa63405e4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 11/21] fix: no dictionary word is empty or has a NUL byte

The trie keeps the values of words below a NUL label: a text with a NUL
byte after a word found that word's value under a longer key, and adding
such a word broke the trie. An empty word was counted in the totals.
---
 dictionary.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index b95c852..70b01ea 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -14,6 +14,8 @@
 package gse
 
 import (
+	stdBytes "bytes"
+
 	"github.com/vcaesar/cedar"
 )
 
@@ -47,9 +49,23 @@ func (dict *Dictionary) TotalFreq() float64 {
 	return dict.totalFreq
 }
 
+// jump follows the word from the node id of the trie. The trie keeps
+// its values below a NUL label, so that no word has a NUL byte
+func (dict *Dictionary) jump(word []byte, id int) (int, error) {
+	if stdBytes.IndexByte(word, 0) >= 0 {
+		return id, cedar.ErrNoKey
+	}
+
+	return dict.trie.Jump(word, id)
+}
+
 // AddToken add a token to the dictionary
 func (dict *Dictionary) AddToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if len(bytes) == 0 || stdBytes.IndexByte(bytes, 0) >= 0 {
+		return cedar.ErrInvalidKey
+	}
+
 	val, err := dict.trie.Get(bytes)
 	if err == nil || val > 0 {
 		return nil
@@ -75,7 +91,7 @@ func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
 
 	// the trie deletes the whole branch of a key that is only a prefix
-	_, err := dict.trie.Get(bytes)
+	_, _, err := dict.Value(bytes)
 	if err != nil {
 		return err
 	}
@@ -93,7 +109,7 @@ func (dict *Dictionary) LookupTokens(
 	)
 
 	for _, word := range words {
-		id, err = dict.trie.Jump(word, id)
+		id, err = dict.jump(word, id)
 		if err != nil {
 			break
 		}
@@ -117,7 +133,7 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 		err       error
 	)
 
-	id, err = dict.trie.Jump(word, id)
+	id, err = dict.jump(word, id)
 	if err != nil {
 		return 0, "", false
 	}
@@ -139,7 +155,7 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 // Value find word in the dictionary
 // return the word's value and id
 func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
-	id, err = dict.trie.Jump(word, id)
+	id, err = dict.jump(word, id)
 	if err != nil {
 		return 0, id, err
 	}
-- 
2.43.0


From a59a07f98dbb395414b6e0b26cc2bb205d926a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 12/21] fix: words without a frequency in the dictionary file

A line of the word alone (LoadNoFreq) got the part of speech of the line
before it, and with DictSep kept its line end in the word.
---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 58bf42c..e634ac0 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -302,7 +302,7 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 	parts := strings.Split(txt, seg.DictSep+" ")
 	size = len(parts)
 
-	text = parts[0]
+	text = strings.TrimRight(parts[0], "\r\n")
 	if size > 1 {
 		freqText = strings.TrimSpace(parts[1])
 	}
@@ -368,7 +368,7 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 			continue
 		}
 
-		if size == 2 {
+		if size <= 2 {
 			// No part of speech, marked as an empty string
 			pos = ""
 		}
-- 
2.43.0


From a2087ef2feb22190fc2c1a3bb0a722e0b73570da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 13/21] fix: DictPaths repeats a file for a name without a file

"en", "ko" and "ti" have no file: the one before was listed again.
---
 dict_util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index e634ac0..eb7bb55 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -384,8 +384,6 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 // DictPaths get the dict's paths
 func DictPaths(dictDir, filePath string) (files []string) {
-	var dictPath string
-
 	if filePath == "en" {
 		return
 	}
@@ -398,6 +396,7 @@ func DictPaths(dictDir, filePath string) (files []string) {
 	}
 
 	for i := 0; i < len(fileName); i++ {
+		dictPath := ""
 		if fileName[i] == "ja" || fileName[i] == "jp" {
 			dictPath = path.Join(dictDir, "dict/jp/dict.txt")
 		}
-- 
2.43.0


From 14a79d3a7073339d421a4a29cddd259e51efe50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 14/21] fix: TextRank depends on the map iteration order

The greatest rank was missed when it was also the first one seen, and the
edges, so the rounding of the sums, came in map order.
---
 hmm/idf/textrank.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 5fa64a0..e6ebef2 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -120,7 +120,8 @@ func (u *undirectWeightedGraph) rank() segment.Segments {
 	for _, w := range ws {
 		if w < minRank {
 			minRank = w
-		} else if w > maxRank {
+		}
+		if w > maxRank {
 			maxRank = w
 		}
 	}
@@ -168,8 +169,20 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 		}
 	}
 
-	for startEnd, weight := range cm {
-		g.addEdge(startEnd[0], startEnd[1], weight)
+	// the same order every time, the sums of the ranks depend on it
+	keys := make([][2]string, 0, len(cm))
+	for startEnd := range cm {
+		keys = append(keys, startEnd)
+	}
+	sort.Slice(keys, func(i, j int) bool {
+		if keys[i][0] == keys[j][0] {
+			return keys[i][1] < keys[j][1]
+		}
+		return keys[i][0] < keys[j][0]
+	})
+
+	for _, startEnd := range keys {
+		g.addEdge(startEnd[0], startEnd[1], cm[startEnd])
 	}
 
 	tags := g.rank()
-- 
2.43.0


From c0df57f0755f3d708b6076c7f0b7caf04e9041dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 15/21] fix: weigh a mere prefix of an idf word as an unknown
 word

Find reports such a prefix as found with frequency 0, so that it got the
weight 0 in place of the median.
---
 hmm/idf/tag_extracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 4603b74..cd3195b 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -79,7 +79,7 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 	ws := make(segment.Segments, 0)
 	var s segment.Segment
 	for k, v := range freqMap {
-		if freq, _, ok := t.Idf.Freq(k); ok {
+		if freq, _, ok := t.Idf.Freq(k); ok && freq > 0 {
 			s = segment.Segment{Text: k, Weight: freq * v}
 		} else {
 			s = segment.Segment{Text: k, Weight: t.Idf.median * v}
-- 
2.43.0


From 176fee6e4d05779130a628132231ea46701fb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 16/21] fix: the last line of a dictionary may end without a
 newline

---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index eb7bb55..bc7700b 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -342,8 +342,8 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 		if fsErr != nil {
 			if fsErr == io.EOF {
-				// End of file
-				if seg.DictSep == "" {
+				// End of file, the last line may end without a newline
+				if seg.DictSep == "" && size == 0 {
 					break
 				}
 
-- 
2.43.0


From db275835502c8eaa216a62105d9f0444299950df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 17/21] fix: loading a dictionary does not end when reading
 fails

---
 dict_util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dict_util.go b/dict_util.go
index bc7700b..5f69420 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -352,6 +352,13 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 				}
 			}
 
+			// a reader that fails would fail again for every line
+			if fsErr != io.EOF {
+				if _, err := reader.Peek(1); err != nil && err != io.EOF {
+					return err
+				}
+			}
+
 			if size > 0 {
 				if seg.MoreLog {
 					log.Printf("File '%v' line \"%v\" read error: %v, skip",
-- 
2.43.0


From 34251729aac79dc0aded8a9f5529c7565a8e7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 18/21] fix: LoadStop hides that reading a file failed

---
 stop.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stop.go b/stop.go
index 348ad61..7242526 100644
--- a/stop.go
+++ b/stop.go
@@ -74,6 +74,11 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 				seg.StopWordMap[text] = true
 			}
 		}
+
+		if err := scanner.Err(); err != nil {
+			log.Printf("Could not load dictionaries: \"%s\", %v \n", name[i], err)
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From dc6084c267a9571059af36f518c06ed4eb0429b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 19/21] fix: the median of a loaded idf dictionary stays zero

---
 hmm/idf/idf.go           | 17 ++++++++++++++++-
 hmm/idf/tag_extracker.go |  4 +++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/hmm/idf/idf.go b/hmm/idf/idf.go
index 65e1f42..925c928 100644
--- a/hmm/idf/idf.go
+++ b/hmm/idf/idf.go
@@ -45,7 +45,22 @@ func (i *Idf) LoadDict(files ...string) error {
 		files = i.seg.GetIdfPath(files...)
 	}
 
-	return i.seg.LoadDict(files...)
+	err := i.seg.LoadDict(files...)
+	i.updateMedian()
+	return err
+}
+
+// updateMedian calculates the median of the loaded tokens' IDF
+func (i *Idf) updateMedian() {
+	i.freqs = i.freqs[:0]
+	for _, token := range i.seg.Dict.Tokens {
+		i.freqs = append(i.freqs, token.Freq())
+	}
+
+	if len(i.freqs) > 0 {
+		sort.Float64s(i.freqs)
+		i.median = i.freqs[len(i.freqs)/2]
+	}
 }
 
 // Freq return the IDF of the word
diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index cd3195b..7d32d6a 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -38,7 +38,9 @@ func (t *TagExtracter) LoadIdf(fileName ...string) error {
 // LoadIdfStr load and create a new Idf dictionary from the string.
 func (t *TagExtracter) LoadIdfStr(str string) error {
 	t.Idf = NewIdf()
-	return t.Idf.seg.LoadDictStr(str)
+	err := t.Idf.seg.LoadDictStr(str)
+	t.Idf.updateMedian()
+	return err
 }
 
 // LoadStopWords load and create a new StopWord dictionary from the file.
-- 
2.43.0


From 5674db56a8bb94eabe3e4e9a0b9a8851668f878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 20/21] fix: a token divided with other options does not shift
 the segments

---
 dictionary.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 70b01ea..fae93ee 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -108,14 +108,15 @@ func (dict *Dictionary) LookupTokens(
 		err       error
 	)
 
-	for _, word := range words {
+	for i, word := range words {
 		id, err = dict.jump(word, id)
 		if err != nil {
 			break
 		}
 
 		value, err = dict.trie.Value(id)
-		if err == nil {
+		// a token added with other options may be divided in another way
+		if err == nil && len(dict.Tokens[value].text) == i+1 {
 			tokens[numOfTokens] = &dict.Tokens[value]
 			numOfTokens++
 		}
-- 
2.43.0


From f55b0f0cf84957cd6f264d1e5d0b68f7937f15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 21/21] fix: LoadDict keeps the words that are there and works
 after Empty

---
 dict_util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index 5f69420..7f8177b 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -148,8 +148,11 @@ func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 // When a participle appears both in the user dictionary and
 // in the `common dictionary`, the `user dictionary` is given priority.
 func (seg *Segmenter) LoadDict(files ...string) error {
-	if !seg.Load {
+	if seg.Dict == nil {
 		seg.Dict = NewDict()
+	}
+
+	if !seg.Load {
 		seg.Load = true
 		seg.Init()
 	}
-- 
2.43.0

