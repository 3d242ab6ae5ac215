From 912e3ce9c61f1912b2d83afbf5cd4cd2f0aeb94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 01/98] fix: bpe merges equal-rank pairs from left to right

---
 model/bpe/word.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 03b6b21..ad07893 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -261,16 +261,13 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 	}
 
 	// countComaparator return the `smaller` rank value
-	// if both ranks are equal, then return one with smaller timestamp
+	// if both ranks are equal, then return the leftmost one
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(Merge).Rank
 		c2 := b.(Merge).Rank
 
 		if c1 == c2 {
-			aTime := a.(Merge).Time
-			bTime := b.(Merge).Time
-
-			return utils.TimeComparator(aTime, bTime)
+			return utils.IntComparator(a.(Merge).Pos, b.(Merge).Pos)
 		}
 
 		return utils.IntComparator(c1, c2)
-- 
2.43.0


From 33cc40ea74b95083eabc031f791d6758087b743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 02/98] fix: bpe dropout re-queues each skipped merge once

---
 model/bpe/word.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index ad07893..17354f5 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -321,6 +321,7 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 			for _, s := range skip {
 				queue.Push(s)
 			}
+			skip = nil
 
 			if (w.Symbols[top.(Merge).Pos]).Len > 0 {
 				if (w.Symbols[top.(Merge).Pos]).Next == -1 {
-- 
2.43.0


From 636656454b54f68eb135636710a8c2bf18c73fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 03/98] fix: bpe tokenizes with its cache disabled

---
 model/bpe/bpe.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index d408818..8509d55 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -478,16 +478,18 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
 
+	if b.Cache == nil {
+		return b.WordToTokens(*b.MergeWord(sequence))
+	}
+
 	if hit, ok := b.Cache.Get(sequence); ok {
 		return b.WordToTokens(hit)
 	} else {
 		word := b.MergeWord(sequence)
 		retVal = b.WordToTokens(*word)
-		if b.Cache != nil {
-			b.Cache.SetValues([]CacheItem{
-				{sequence, *word},
-			})
-		}
+		b.Cache.SetValues([]CacheItem{
+			{sequence, *word},
+		})
 		return retVal
 	}
 }
-- 
2.43.0


From b0b90a8c1792345255851374bfcb0bb9704cfcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 04/98] fix: bpe applies the continuing subword prefix and end
 of word suffix where they belong

---
 model/bpe/bpe.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 8509d55..4849c6c 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -126,6 +126,7 @@ func (bb *BpeBuilder) Build() (*BPE, error) {
 
 	// Read files if provided
 	if bb.config.files != nil {
+		bpe.ContinuingSubwordPrefix = bb.config.continuingSubwordPrefix
 		vocab, merges, err = bpe.ReadFiles(bb.config.files.vocab, bb.config.files.merges)
 		if err != nil {
 			return nil, err
@@ -252,7 +253,11 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 	var (
 		vocab  model.Vocab
 		merges Merges = make(map[Pair]PairVal)
+		prefix string
 	)
+	if b.ContinuingSubwordPrefix != nil {
+		prefix = *b.ContinuingSubwordPrefix
+	}
 
 	err = json.Unmarshal(vocabBytes, &vocab)
 	if err != nil {
@@ -304,7 +309,7 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 
 		pair := Pair{a, b}
 		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := mergedToken(parts[0], parts[1], prefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err = fmt.Errorf("Read merge file error: key value for token: \"%s\" not found.", newToken)
@@ -384,13 +389,14 @@ func (b *BPE) MergeWord(w string) *Word {
 		)
 		byteLen = len(string(r))
 
-		// if first rune, add prefix
-		if byteIdx == 0 {
-			s = fmt.Sprintf("%v%v", prefix, string(r))
-		} else if currRuneIdx == len(chars) { // last rune, add suffix
-			s = fmt.Sprintf("%v%v", string(r), suffix)
-		} else { // the rest
-			s = string(r)
+		s = string(r)
+		// if not the first rune, add prefix
+		if byteIdx > 0 {
+			s = fmt.Sprintf("%v%v", prefix, s)
+		}
+		// if the last rune, add suffix
+		if currRuneIdx == len(chars)-1 {
+			s = fmt.Sprintf("%v%v", s, suffix)
 		}
 		currRuneIdx++
 
@@ -602,11 +608,21 @@ func makeFilePath(filename string) error {
 	return os.MkdirAll(dirName, os.ModePerm)
 }
 
-func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
+// mergedToken returns the token made by merging two tokens: the continuing
+// subword prefix of the second one is not repeated inside the result.
+func mergedToken(a, b, continuingSubwordPrefix string) string {
+	return a + strings.TrimPrefix(b, continuingSubwordPrefix)
+}
+
+func CreateMerges(vocab map[string]int, mergesData []string, continuingSubwordPrefixOpt ...string) (*Merges, error) {
 	var (
 		lineNum int    = 0
 		merges  Merges = make(map[Pair]PairVal)
+		prefix  string
 	)
+	if len(continuingSubwordPrefixOpt) > 0 {
+		prefix = continuingSubwordPrefixOpt[0]
+	}
 	for _, line := range mergesData {
 		parts := strings.Split(line, " ")
 		if len(parts) != 2 {
@@ -630,7 +646,7 @@ func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
 
 		pair := Pair{a, b}
 		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := mergedToken(parts[0], parts[1], prefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err := fmt.Errorf("Read merges error: key value for token: \"%s\" not found.", newToken)
@@ -657,7 +673,11 @@ func New(
 	continuingSubwordPrefix *string,
 	endOfWordSuffix *string,
 ) (*BPE, error) {
-	merges, err := CreateMerges(vocab, mergesData)
+	var prefix string
+	if continuingSubwordPrefix != nil {
+		prefix = *continuingSubwordPrefix
+	}
+	merges, err := CreateMerges(vocab, mergesData, prefix)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fb69ae00096ffa576e656872c56b4f76bed9d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 05/98] fix: bpe training keeps the special tokens in the
 vocabulary

---
 model/bpe/trainer.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index dc93a00..05e8a74 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -187,23 +187,20 @@ func (bt *BpeTrainer) updateProgress(p interface{}, len int, msg string) {
 }
 
 // addSpecialTokens adds the provided special tokens to the initial vocabulary
-func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) {
+func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) []string {
 	for _, tok := range bt.SpecialTokens {
 		if _, ok := w2id[tok.Content]; !ok {
 			id2w = append(id2w, tok.Content)
 			w2id[tok.Content] = len(id2w) - 1
 		}
 	}
+	return id2w
 }
 
 // computeAlphabet generate maps of `chars` from input words and limit it if relevant
-func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]int, IdToWord []string) {
+func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id2w []string) (wordToId map[string]int, IdToWord []string) {
 	// compute the alphabet from seen words
-	var (
-		alphabet map[string]int = make(map[string]int)
-		w2id     map[string]int = make(map[string]int)
-		id2w     []string
-	)
+	var alphabet map[string]int = make(map[string]int)
 
 	for word, count := range wc {
 		chars := strings.Split(word, "")
@@ -612,13 +609,13 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 
 	// 1. Add all special tokens to the vocabular
 	fmt.Printf("1. Adding special tokens...\n")
-	bt.addSpecialTokens(wordToId, idToWord)
+	idToWord = bt.addSpecialTokens(wordToId, idToWord)
 
 	// 2. Compute the initial alphabet (create maps of `chars`)
 	// These maps will be updated if `prefix`, `suffix` are added
 	// in the following steps
 	fmt.Printf("2. Creating maps of 'chars'...\n")
-	wordToId, idToWord = bt.computeAlphabet(wordCounts)
+	wordToId, idToWord = bt.computeAlphabet(wordCounts, wordToId, idToWord)
 	// fmt.Printf("Before id2Word: length %v - values:  %v\n", len(idToWord), idToWord)
 	// fmt.Printf("Before word2Id: length %v - %v\n", len(wordToId), wordToId)
 
-- 
2.43.0


From c7a435051b581f3df6588562acd3589844378dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 06/98] fix: bpe training limits the alphabet to its most
 frequent characters

---
 model/bpe/trainer.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 05e8a74..ac7a2e6 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -205,13 +205,7 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	for word, count := range wc {
 		chars := strings.Split(word, "")
 		for _, char := range chars {
-			// if char not existing, newCount will be zero
-			if newCount, ok := alphabet[char]; ok {
-				newCount += count
-				alphabet[char] = newCount
-			} else {
-				alphabet[char] = newCount
-			}
+			alphabet[char] += count
 		}
 	}
 
@@ -254,13 +248,12 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	// remove the unwanted `chars`
 	if toRemove > 0 {
 		fmt.Println("We are going to remove some chars...")
-		// 1. Sort `kept` by char alphabetically?
-		// TODO: double-check this (sort by char or freq? asc or desc)
-		sort.Slice(kept, func(i, j int) bool {
-			return kept[i].Char < kept[j].Char
+		// 1. Sort `kept` by ascending freq (`kept` is already sorted by char)
+		sort.SliceStable(kept, func(i, j int) bool {
+			return kept[i].Freq < kept[j].Freq
 		})
-		// 2. Remove the unwanted chars
-		kept = kept[:toRemove]
+		// 2. Remove the unwanted (least frequent) chars
+		kept = kept[toRemove:]
 	}
 
 	// // Keep the initial alphabet (sorted by determinism)
-- 
2.43.0


From bd0a84ec2bc5865ae9e5de486ac0c3fa7fd7dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 07/98] fix: bpe training adds the subword prefix and suffix
 themselves, where they belong

---
 model/bpe/trainer.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index ac7a2e6..f3233a4 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -310,24 +310,14 @@ func (bt *BpeTrainer) tokenizeWords(wc map[string]int, w2id map[string]int, id2w
 		for i, c := range chars {
 			var s string
 			if _, ok := w2id[c]; ok {
+				s = c
 				// Add the `continuingSubwordPrefix` if relevant
-				if i == 0 { // first `char`
-					if prefix := bt.ContinuingSubwordPrefix; prefix != nil {
-						s = fmt.Sprintf("%v%v", &prefix, c)
-					} else {
-						s = c
-					}
-				}
-				if i > 0 && i < len(chars)-1 {
-					s = c
+				if prefix := bt.ContinuingSubwordPrefix; prefix != nil && i > 0 {
+					s = fmt.Sprintf("%v%v", *prefix, s)
 				}
 				// Add the `endOfWordSuffix` if relevant
-				if i == len(chars)-1 { // last `char`
-					if suffix := bt.EndOfWordSuffix; suffix != nil {
-						s = fmt.Sprintf("%v%v", &suffix, c)
-					} else {
-						s = c
-					}
+				if suffix := bt.EndOfWordSuffix; suffix != nil && i == len(chars)-1 { // last `char`
+					s = fmt.Sprintf("%v%v", s, *suffix)
 				}
 
 				// Insert the new formed string if neccessary
-- 
2.43.0


From 33438ba7d2eb5fa96bd797e6c9f288da1513bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 08/98] fix: bpe training merges a pair in the words of every
 counting worker

---
 model/bpe/trainer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index f3233a4..b7b8673 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -407,7 +407,7 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 
 				// fmt.Printf("Word: %v\n", word)
 				var window = 2
-				for x := 0; i < len(word.Symbols)-1; x += window - 1 {
+				for x := 0; x < len(word.Symbols)-1; x += window - 1 {
 					y := x + window
 					if y > len(word.Symbols) {
 						// TODO: should we stop when last chunk < chunk size or we just return it
@@ -469,7 +469,13 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 			}
 
 			for pair, hashSet := range res.WT {
-				whereToUpdate[pair] = hashSet
+				if hs, ok := whereToUpdate[pair]; ok {
+					for k := range hashSet {
+						hs[k] = struct{}{}
+					}
+				} else {
+					whereToUpdate[pair] = hashSet
+				}
 			}
 		}
 
-- 
2.43.0


From 19cb4b9e264eae75d5e626daa48ddb19350ad4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 09/98] fix: bpe reports the pair changed after a merge at the
 start of a word

---
 model/bpe/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 17354f5..ff35d17 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -227,7 +227,7 @@ func (w *Word) Merge(c1, c2, replacement int) ([]WChange, error) {
 			}
 
 			// If there are other `chars` after the pair
-			if i > 0 && i < len(w.Symbols)-1 {
+			if i < len(w.Symbols)-1 {
 				// fmt.Println("Yes, there some char after the pair")
 				changes = append(changes, WChange{
 					C1:     second.C,
-- 
2.43.0


From a53bb26df06c8aa2aade15cf9853054874586ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 10/98] fix: bpe training breaks ties between pairs
 deterministically

---
 model/bpe/trainer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index b7b8673..77f2c24 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -639,15 +639,19 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	fmt.Printf("5. Merging pairs from top count down...\n")
 
 	// countComparator sort heap descendingly by `Count` field of TMerge struct
+	// if both counts are equal, the pair of the lowest ids comes first
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(TMerge).Count
 		c2 := b.(TMerge).Count
 
 		if c1 == c2 {
-			aTime := a.(TMerge).Time
-			bTime := b.(TMerge).Time
+			p1 := a.(TMerge).Pair
+			p2 := b.(TMerge).Pair
+			if p1.C1 != p2.C1 {
+				return utils.IntComparator(p1.C1, p2.C1)
+			}
 
-			return utils.TimeComparator(bTime, aTime)
+			return utils.IntComparator(p1.C2, p2.C2)
 		}
 
 		return utils.IntComparator(c2, c1)
-- 
2.43.0


From 0ffb36e36d5b44fd1ca740c64c01f5f96a256a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 11/98] fix: bpe training keeps the pair counts up to date

---
 model/bpe/trainer.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 77f2c24..3abe372 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -718,9 +718,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// fmt.Printf("Top: count = %v | pair: %v\n", top.Count, top.Pair)
 
 		if top.Count != pairCounts[top.Pair] {
-			pairCounts[top.Pair] = top.Count
+			// the count has changed since the pair was queued
+			top.Count = pairCounts[top.Pair]
 			queue.Push(top)
-			// fmt.Println("Not found. Push new one...")
 
 			continue
 		}
@@ -795,20 +795,10 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// NOTE: reset `whereToUpdate` first
 		whereToUpdate = make(map[Pair]UintSet)
 		for _, tc := range changes {
-			if tc.WChange.Change > 0 {
-				count := tc.WChange.Change * counts[tc.WIndex]
-
-				pair := Pair{tc.WChange.C1, tc.WChange.C2}
+			pair := Pair{tc.WChange.C1, tc.WChange.C2}
+			pairCounts[pair] += tc.WChange.Change * counts[tc.WIndex]
 
-				if _, ok := pairCounts[pair]; !ok {
-					pairCounts[pair] = count
-					// fmt.Printf("pair: %v - count: %v\n", pair, count)
-				} else {
-					c, _ := pairCounts[pair]
-					c += count
-					pairCounts[pair] = c
-					// fmt.Printf("pair: %v - count: %v\n", pair, c)
-				}
+			if tc.WChange.Change > 0 {
 
 				var hs UintSet = make(map[int]struct{})
 				if h, ok := whereToUpdate[pair]; !ok {
-- 
2.43.0


From 27dc27b9dfcfe589a6bc209bd2c41ecf91e6c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 12/98] fix: bpe training keeps one id for a token that several
 merges make

---
 model/bpe/trainer.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 3abe372..1af7904 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -659,6 +659,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 
 	var queue = binaryheap.NewWith(countComparator)
 
+	// positions keeps all the words a queued pair has been seen in
+	positions := whereToUpdate
+
 	// insert them to the queue
 	for pair, pos := range whereToUpdate {
 		if count, ok := pairCounts[pair]; ok {
@@ -730,6 +733,8 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 			break
 		}
 
+		top.Pos = positions[top.Pair]
+
 		// If `pair` is no longer mapped in its origin word, skip merging
 		var skip bool = true
 		for p, _ := range top.Pos {
@@ -764,10 +769,13 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		newToken := fmt.Sprintf("%v%v", partA, partB)
 		// fmt.Printf("new token: %v\n", newToken)
 
-		// Insert new token
-		newTokenId := len(idToWord)
-		idToWord = append(idToWord, newToken)
-		wordToId[newToken] = newTokenId
+		// Insert new token, unless other merges already make it
+		newTokenId, known := wordToId[newToken]
+		if !known {
+			newTokenId = len(idToWord)
+			idToWord = append(idToWord, newToken)
+			wordToId[newToken] = newTokenId
+		}
 		merges = append(merges, TMerges{top.Pair, newTokenId})
 
 		type TChange struct {
@@ -813,6 +821,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 			}
 		}
 
+		// No occurrence of the merged pair is left
+		pairCounts[top.Pair] = 0
+
 		// fmt.Printf("length of whereToUpdate: %v\n", len(whereToUpdate))
 		// fmt.Println(whereToUpdate)
 
@@ -822,6 +833,11 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 			// char2 := idToWord[pair.C2]
 			// fmt.Printf("pair chars: '%v%v' - pair: %v - count: %v - pos: %v\n", char1, char2, pair, count, pos)
 			if count > 0 {
+				// a pair of tokens known before may also be in other words
+				for p := range positions[pair] {
+					pos[p] = struct{}{}
+				}
+				positions[pair] = pos
 				queue.Push(TMerge{
 					pair, count, pos, time.Now(),
 				})
@@ -842,6 +858,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	var newMerges Merges = make(map[Pair]PairVal)
 
 	for i, m := range merges {
+		if _, ok := newMerges[m.Pair]; ok {
+			continue
+		}
 		pairVal := PairVal{
 			i,
 			m.PairVal,
-- 
2.43.0


From b2a6087021286bfd24d8a4a6bf42f0eb7eb80dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 13/98] fix: wordpiece offsets are in bytes, as for the other
 models

---
 model/wordpiece/wordpiece.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index a691bc9..9f49f7a 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -268,7 +268,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 		outputTokens = append(outputTokens, token)
 
@@ -278,6 +278,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 	var (
 		isBad     bool = false
 		start     int  = 0
+		byteIdx   int  = 0 // position of `start` in bytes: offsets are in bytes
 		subTokens []tokenizer.Token
 	)
 
@@ -295,7 +296,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 				currStr = &tokenizer.Token{
 					Id:      id,
 					Value:   substr,
-					Offsets: []int{start, end},
+					Offsets: []int{byteIdx, byteIdx + len(string(chars[start:end]))},
 				}
 
 				break
@@ -309,6 +310,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 
 		subTokens = append(subTokens, *currStr)
 		start = end
+		byteIdx = currStr.Offsets[1]
 	}
 
 	if isBad {
@@ -320,7 +322,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 
 		outputTokens = append(outputTokens, token)
-- 
2.43.0


From a5018d473dfa77681bb9ee9851f1d2a9d02c70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 14/98] fix: wordpiece takes the continuing subword prefix of
 its configuration

---
 model/wordpiece/wordpiece.go | 2 +-
 pretrained/model.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index 9f49f7a..6ec9dba 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -420,7 +420,7 @@ func New(
 	if opts.Has("unk_token") {
 		unkToken = opts.Get("unk_token").(string)
 	}
-	if opts.Has("continuingSubwordPrefix") {
+	if opts.Has("continuing_subword_prefix") {
 		continuingSubwordPrefix = opts.Get("continuing_subword_prefix").(string)
 	}
 	if opts.Has("max_input_chars_per_word") {
diff --git a/pretrained/model.go b/pretrained/model.go
index 507790d..3a01e3c 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -128,7 +128,7 @@ func createWordPiece(params *util.Params) (tokenizer.Model, error) {
 	}
 	if params.Has("continuing_subword_prefix") {
 		v := params.Get("continuing_subword_prefix").(string)
-		opts.Get("continuing_subword_prefix", v)
+		opts.Set("continuing_subword_prefix", v)
 	}
 
 	if params.Has("max_input_chars_per_word") {
-- 
2.43.0


From a4ba48b495d8e0c28e30818a8271710ab2a4a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 15/98] fix: wordlevel names the unknown token it gives the id
 of

---
 model/wordlevel/wordlevel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 8fc7806..3c07bbb 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -145,6 +145,7 @@ func (wl *WordLevel) Tokenize(token string) ([]tokenizer.Token, error) {
 	var (
 		id        int
 		ok, unkOk bool
+		value     string = token
 	)
 
 	id, ok = wl.vocab[token]
@@ -155,11 +156,12 @@ func (wl *WordLevel) Tokenize(token string) ([]tokenizer.Token, error) {
 			err := fmt.Errorf("Missing 'unk' token in vocab.\n")
 			return nil, err
 		}
+		value = wl.unkToken
 	}
 
 	output = append(output, tokenizer.Token{
 		Id:      id,
-		Value:   token,
+		Value:   value,
 		Offsets: []int{0, len(token)},
 	})
 
-- 
2.43.0


From d75fe9536c8d1ec88097f1ae3eff39be0b6b3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 16/98] fix: wordlevel keeps the id of an unknown token that
 the vocabulary has

---
 model/wordlevel/wordlevel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 3c07bbb..7fbd5b0 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -46,7 +46,9 @@ func (wlb *WordLevelBuilder) Vocab(vocab map[string]int) {
 // UnkToken set `UNK` token for the vocab
 func (wlb *WordLevelBuilder) UnkToken(unkToken string) {
 	wlb.config.unkToken = unkToken
-	wlb.config.vocab[unkToken] = len(wlb.config.vocab)
+	if _, ok := wlb.config.vocab[unkToken]; !ok {
+		wlb.config.vocab[unkToken] = len(wlb.config.vocab)
+	}
 }
 
 // Build builds a WordLevel using configuration
-- 
2.43.0


From 94ec9dcd6c25ac2fb45827452829560420cfa7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 17/98] fix: unigram uses vocabulary tokens longer than 20
 bytes

---
 model/unigram/unigram.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 8f40367..bb7984f 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -39,6 +39,7 @@ type Config struct {
 type Unigram struct {
 	vocab         []TokenScore
 	tokenToIDs    map[string]int
+	maxTokenLen   int // in bytes
 	unkID         *int
 	bytesFallback bool
 	fuseUnk       bool
@@ -92,8 +93,12 @@ func (ub *UnigramBuilder) FuseUnk(fuseUnk bool) *UnigramBuilder {
 func (ub *UnigramBuilder) Build() (*Unigram, error) {
 	// Create token to ID mapping
 	tokenToIDs := make(map[string]int, len(ub.config.vocab))
+	maxTokenLen := 0
 	for i, ts := range ub.config.vocab {
 		tokenToIDs[ts.Token] = i
+		if len(ts.Token) > maxTokenLen {
+			maxTokenLen = len(ts.Token)
+		}
 	}
 
 	// Validate unkID if provided
@@ -106,6 +111,7 @@ func (ub *UnigramBuilder) Build() (*Unigram, error) {
 	return &Unigram{
 		vocab:         ub.config.vocab,
 		tokenToIDs:    tokenToIDs,
+		maxTokenLen:   maxTokenLen,
 		unkID:         ub.config.unkID,
 		bytesFallback: ub.config.bytesFallback,
 		fuseUnk:       ub.config.fuseUnk,
@@ -338,8 +344,8 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		}
 
 		// Try all possible tokens starting at this position
-		// Limit the maximum token length to 20 characters for efficiency
-		maxLen := 20
+		// up to the longest token of the vocabulary
+		maxLen := u.maxTokenLen
 		if i+maxLen > n {
 			maxLen = n - i
 		}
-- 
2.43.0


From ff424c96170c32f200b6d6e0cb0393c1c1ffbaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 18/98] fix: unigram scores a segmentation with the scores of
 its tokens only

---
 model/unigram/unigram.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index bb7984f..bb3d89d 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -378,13 +378,8 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			// If the token is in the vocabulary, use its score
 			score := u.vocab[id].Score
 
-			// Add a bonus for longer tokens to match the Rust implementation
-			// This helps prioritize longer tokens like "ab" over "a" + "b"
-			tokenLength := j - i
-			lengthBonus := float64(tokenLength) * 0.1
-
 			// Calculate the new score for this path
-			newScore := lattice[i].bestScore + score + lengthBonus
+			newScore := lattice[i].bestScore + score
 
 			// If this is a better path to position j, update the lattice
 			if newScore > lattice[j].bestScore {
-- 
2.43.0


From 1fb8daec71889a27ef99f7b271b73bc5aa5d3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 19/98] fix: unigram falls back to bytes only for what its
 vocabulary lacks

---
 model/unigram/unigram.go | 82 ++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index bb3d89d..1b88b62 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -257,14 +257,6 @@ func (u *Unigram) Tokenize(sequence string) ([]tokenizer.Token, error) {
 		return u.tokensToTokenizer(tokens, sequence), nil
 	}
 
-	// If byte fallback is enabled, always use it
-	if u.bytesFallback {
-		tokens := u.tokenizeWithByteFallback(sequence)
-		u.cache.Set(sequence, tokens, CacheExpiredTime*time.Minute)
-
-		return u.tokensToTokenizer(tokens, sequence), nil
-	}
-
 	// Tokenize using the Viterbi algorithm
 	tokens, err := u.tokenizeWithViterbi(sequence)
 	if err != nil {
@@ -284,6 +276,12 @@ func (u *Unigram) tokensToTokenizer(tokens []string, sequence string) []tokenize
 		length := len(token)
 		id, ok := u.TokenToId(token)
 		if !ok {
+			// Represent an unknown token by its bytes
+			if u.bytesFallback {
+				result = append(result, u.byteFallbackTokens(token, offset)...)
+				offset += length
+				continue
+			}
 			// Handle unknown token
 			if u.unkID != nil {
 				id = *u.unkID
@@ -394,16 +392,19 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			}
 		}
 
-		// If we haven't found a single character token and we have an unknown token ID,
+		// If we haven't found a single character token and we can represent an unknown one,
 		// add an unknown token for this character
-		if !hasSingleNode && u.unkID != nil {
+		if !hasSingleNode && (u.unkID != nil || u.bytesFallback) {
 			j := i + charLen
 			if j <= n {
 				newScore := lattice[i].bestScore + unkScore
 				if newScore > lattice[j].bestScore {
 					lattice[j].bestScore = newScore
 					lattice[j].bestIndex = i
-					lattice[j].id = *u.unkID
+					lattice[j].id = -1
+					if u.unkID != nil {
+						lattice[j].id = *u.unkID
+					}
 				}
 			}
 		}
@@ -416,11 +417,6 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			return []string{sequence}, nil
 		}
 
-		// If we're using byte fallback, handle it here
-		if u.bytesFallback {
-			return u.tokenizeWithByteFallback(sequence), nil
-		}
-
 		return nil, fmt.Errorf("could not tokenize sequence with Viterbi algorithm")
 	}
 
@@ -487,32 +483,38 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 	}
 }
 
-// tokenizeWithByteFallback tokenizes a string by representing each byte as a separate token
-func (u *Unigram) tokenizeWithByteFallback(sequence string) []string {
-	var tokens []string
-
-	// Convert the string to bytes
-	bytes := []byte(sequence)
-
-	// For each byte, create a token in the format "<0xXX>"
-	for _, b := range bytes {
-		// Format the byte as a token
-		token := fmt.Sprintf("<0x%02X>", b)
-
-		// Check if the token is in the vocabulary
-		_, ok := u.TokenToId(token)
-		if ok {
-			// If the token is in the vocabulary, use it
-			tokens = append(tokens, token)
-		} else if u.unkID != nil {
-			// If the token is not in the vocabulary and we have an unknown token ID,
-			// use the unknown token
+// byteFallbackTokens represents an unknown piece found at the given offset: each of its
+// characters becomes the tokens of its bytes, in the format "<0xXX>", when the vocabulary
+// has all of them, and the unknown token otherwise.
+func (u *Unigram) byteFallbackTokens(piece string, offset int) []tokenizer.Token {
+	var tokens []tokenizer.Token
+	lastUnk := false
+
+	for len(piece) > 0 {
+		_, size := utf8.DecodeRuneInString(piece)
+		end := offset + size
+		byteTokens := make([]tokenizer.Token, 0, size)
+		for _, b := range []byte(piece[:size]) {
+			token := fmt.Sprintf("<0x%02X>", b)
+			if id, ok := u.TokenToId(token); ok {
+				byteTokens = append(byteTokens, tokenizer.Token{Id: id, Value: token, Offsets: []int{offset, end}})
+			}
+		}
+
+		switch {
+		case len(byteTokens) == size:
+			tokens = append(tokens, byteTokens...)
+			lastUnk = false
+		case u.unkID != nil && lastUnk && u.fuseUnk:
+			tokens[len(tokens)-1].Offsets[1] = end
+		case u.unkID != nil:
 			unkToken, _ := u.IdToToken(*u.unkID)
-			tokens = append(tokens, unkToken)
-		} else {
-			// If we don't have an unknown token ID, use the byte token format
-			tokens = append(tokens, token)
+			tokens = append(tokens, tokenizer.Token{Id: *u.unkID, Value: unkToken, Offsets: []int{offset, end}})
+			lastUnk = true
 		}
+
+		piece = piece[size:]
+		offset = end
 	}
 
 	return tokens
-- 
2.43.0


From fd0557e6721e1e5efd4735dc89f7e80e6280d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 20/98] fix: unigram steps over an invalid byte one byte at a
 time

---
 model/unigram/unigram.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 1b88b62..208b703 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -354,8 +354,7 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		// Get the length of the current character in UTF-8
 		charLen := 1
 		if i < n {
-			r, _ := utf8.DecodeRuneInString(sequence[i:])
-			charLen = utf8.RuneLen(r)
+			_, charLen = utf8.DecodeRuneInString(sequence[i:])
 		}
 
 		// Try to match tokens of all lengths
-- 
2.43.0


From b1b43310e4ceb8688ee0a988d82e56c7e0c1627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 21/98] fix: unigram saves its vocabulary in the form its
 configuration is read in

---
 model/unigram/unigram.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 208b703..eea4ce2 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -218,17 +218,10 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 	}
 	defer vocabFile.Close()
 
-	// Create a serializable representation of the vocabulary
-	type VocabEntry struct {
-		Token string  `json:"token"`
-		Score float64 `json:"score"`
-	}
-	vocabEntries := make([]VocabEntry, len(u.vocab))
+	// Create a serializable representation of the vocabulary: [token, score] pairs
+	vocabEntries := make([][2]interface{}, len(u.vocab))
 	for i, ts := range u.vocab {
-		vocabEntries[i] = VocabEntry{
-			Token: ts.Token,
-			Score: ts.Score,
-		}
+		vocabEntries[i] = [2]interface{}{ts.Token, ts.Score}
 	}
 
 	// Create the model config
@@ -237,6 +230,7 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		"vocab":         vocabEntries,
 		"unk_id":        u.unkID,
 		"byte_fallback": u.bytesFallback,
+		"fuse_unk":      u.fuseUnk,
 	}
 
 	encoder := json.NewEncoder(vocabFile)
-- 
2.43.0


From 820dcebe99bae73532ceee9b28cf30ad0f05cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 22/98] fix: added tokens are found wherever they occur,
 whatever their order of registration

---
 added-vocabulary.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index cafeb11..f216a6e 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -404,8 +404,8 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 	}
 
 	// Sort id-offsets by start then by pattern id
-	sort.Sort(byStart(ioPairs))
 	sort.Sort(byId(ioPairs))
+	sort.Stable(byStart(ioPairs))
 
 	// Select the matches, if they overlap, keep them
 	var (
@@ -426,19 +426,18 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		// Find out whether having overlapping neighbours.
 		// If so, keep the one with lowest Idx. All other will be skipped
 		// because `currentOffsets` will have been increased.
-		if i+1 < len(ioPairs) {
-			overlapPairs := ioPairs[i:]
-			sort.Sort(byId(overlapPairs))
-			lowestPair := overlapPairs[0] // lowest Id one
-			splits = append(splits, lowestPair)
-			currentOffsets = ioPair.offsets[1]
-			i++
-			continue
+		lowestPair := ioPair // lowest Id one
+		for _, other := range ioPairs[i+1:] {
+			if other.offsets[0] >= ioPair.offsets[1] {
+				break
+			}
+			if other.id < lowestPair.id {
+				lowestPair = other
+			}
 		}
 
-		// Not found overlap neighbours. Just apply itself
-		splits = append(splits, ioPair)
-		currentOffsets = ioPair.offsets[1]
+		splits = append(splits, lowestPair)
+		currentOffsets = lowestPair.offsets[1]
 		i++
 	}
 
-- 
2.43.0


From 3e7b60c0a658d2503024e69bc80f81ab3cd14394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 23/98] fix: added tokens match their normalized version if and
 only if they are set to

---
 added-vocabulary.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index f216a6e..f6a5bec 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -125,9 +125,23 @@ func (at AddedToken) SetNormalized(normalized bool) (retVal AddedToken) {
 func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	var reStr string // regular expression pattern
 
+	// normalize the content if the token matches its normalized version
+	content := at.Content
+	if n != nil && at.Normalized {
+		normalizedString, err := n.Normalize(normalizer.NewNormalizedFrom(content))
+		if err != nil {
+			log.Fatal(err)
+		}
+		content = normalizedString.GetNormalized()
+	}
+	// nothing is left to match
+	if content == "" {
+		return ""
+	}
+
 	if at.SingleWord {
 		var firstB, lastB string
-		runes := []rune(at.Content)
+		runes := []rune(content)
 		firstChar := runes[0]
 		lastChar := runes[len(runes)-1]
 		if isWordCharacter(firstChar) {
@@ -141,23 +155,10 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 			lastB = ``
 		}
 
-		// normalize the content
-		content := normalizer.NewNormalizedFrom(at.Content)
-		var normalized string
-		if n != nil {
-			normalizedString, err := n.Normalize(content)
-			if err != nil {
-				log.Fatal(err)
-			}
-			normalized = normalizedString.GetNormalized()
-		} else { // don't have a normalizer, just use content as is
-			normalized = at.Content
-		}
-
-		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(normalized), lastB)
+		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(content), lastB)
 
 	} else {
-		reStr = regexp.QuoteMeta(at.Content)
+		reStr = regexp.QuoteMeta(content)
 	}
 
 	if at.LStrip && at.RStrip {
@@ -337,6 +338,9 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 		}
 
 		pattern := token.GetPattern(normalizer)
+		if pattern == "" {
+			continue
+		}
 		if token.Normalized {
 			normIds = append(normIds, id)
 			normPatterns = append(normPatterns, pattern)
-- 
2.43.0


From e5ec110724a581cf38244a23239864a8c78ba993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 24/98] fix: added tokens strip all the whitespaces on their
 side, in any script

---
 added-vocabulary.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index f6a5bec..ce8e197 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -119,6 +119,9 @@ func (at AddedToken) SetNormalized(normalized bool) (retVal AddedToken) {
 	return at
 }
 
+// whitespaces is the pattern of all the whitespaces a token strips on one side
+const whitespaces = `[\s\v\x{0085}\p{Z}]*`
+
 // GetPattern retrieves the pattern built for this token, according to all the specified parameters.
 //
 // NOTE. normalizer input is optional
@@ -162,11 +165,11 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	}
 
 	if at.LStrip && at.RStrip {
-		reStr = fmt.Sprintf("(\\s)?%v(\\s)?", reStr)
+		reStr = whitespaces + reStr + whitespaces
 	} else if at.LStrip {
-		reStr = fmt.Sprintf("(\\s)?%v", reStr)
+		reStr = whitespaces + reStr
 	} else if at.RStrip {
-		reStr = fmt.Sprintf("%v(\\s)?", reStr)
+		reStr = reStr + whitespaces
 	}
 
 	return reStr
-- 
2.43.0


From f95646936bd61d319856324d35e95727e56492e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 25/98] fix: single-word added tokens respect word boundaries
 in any script, and stripped whitespace does not hide the next token

---
 added-vocabulary.go | 89 ++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 41 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index ce8e197..2d6bfb1 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -6,6 +6,7 @@ import (
 	"regexp"
 	"sort"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/sugarme/regexpset"
 	"github.com/sugarme/tokenizer/normalizer"
@@ -142,27 +143,8 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 		return ""
 	}
 
-	if at.SingleWord {
-		var firstB, lastB string
-		runes := []rune(content)
-		firstChar := runes[0]
-		lastChar := runes[len(runes)-1]
-		if isWordCharacter(firstChar) {
-			firstB = `\b`
-		} else {
-			firstB = ``
-		}
-		if isWordCharacter(lastChar) {
-			lastB = `\b`
-		} else {
-			lastB = ``
-		}
-
-		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(content), lastB)
-
-	} else {
-		reStr = regexp.QuoteMeta(content)
-	}
+	// the content is what the first group matches
+	reStr = fmt.Sprintf("(%v)", regexp.QuoteMeta(content))
 
 	if at.LStrip && at.RStrip {
 		reStr = whitespaces + reStr + whitespaces
@@ -175,17 +157,28 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	return reStr
 }
 
+// isWordCharacter tells whether a character can be part of a word: letters, marks,
+// digits, connector punctuation and join controls.
 func isWordCharacter(r rune) bool {
-	if unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.IsControl(r) || unicode.IsPunct(r) {
-		return true
-	}
-	return false
+	return unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.Is(unicode.Pc, r) ||
+		r == '\u200c' || r == '\u200d'
+}
+
+// isWholeWord tells whether the given part of a sentence does not cut any word.
+func isWholeWord(sentence string, start, end int) bool {
+	before, _ := utf8.DecodeLastRuneInString(sentence[:start])
+	first, _ := utf8.DecodeRuneInString(sentence[start:end])
+	last, _ := utf8.DecodeLastRuneInString(sentence[start:end])
+	after, _ := utf8.DecodeRuneInString(sentence[end:])
+
+	return !(isWordCharacter(before) && isWordCharacter(first)) && !(isWordCharacter(last) && isWordCharacter(after))
 }
 
 // matchingSet is a set of regular expression string
 type matchingSet struct {
-	regexSet regexpset.RegexpSet
-	ids      []int
+	regexSet   regexpset.RegexpSet
+	ids        []int
+	singleWord []bool
 }
 
 // AddedVocabulary is a vocabulary built on top of the Model
@@ -333,6 +326,7 @@ type tokenId struct {
 func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer.Normalizer) {
 	var normIds, nnormIds []int
 	var normPatterns, nnormPatterns []string
+	var normSingle, nnormSingle []bool
 	tokens := append(av.specialTokens, av.addedTokens...)
 	for _, token := range tokens {
 		id, ok := av.TokenToId(token.Content, model)
@@ -347,9 +341,11 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 		if token.Normalized {
 			normIds = append(normIds, id)
 			normPatterns = append(normPatterns, pattern)
+			normSingle = append(normSingle, token.SingleWord)
 		} else {
 			nnormIds = append(nnormIds, id)
 			nnormPatterns = append(nnormPatterns, pattern)
+			nnormSingle = append(nnormSingle, token.SingleWord)
 		}
 	}
 
@@ -362,13 +358,14 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 		log.Fatal(err)
 	}
 
-	av.splitNormalizedRe = matchingSet{*normSet, normIds}
-	av.splitRe = matchingSet{*nnormSet, nnormIds}
+	av.splitNormalizedRe = matchingSet{*normSet, normIds, normSingle}
+	av.splitRe = matchingSet{*nnormSet, nnormIds, nnormSingle}
 }
 
 type idOffsets struct {
 	id      int // optional - None value = -1
 	offsets []int
+	whole   []int // with the whitespaces stripped on both sides
 }
 
 // helper functions to sort idOffsets
@@ -394,7 +391,7 @@ func (bi byId) Swap(i, j int)      { bi[i], bi[j] = bi[j], bi[i] }
 func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (retVal []idOffsets) {
 
 	if len(sentence) == 0 {
-		return []idOffsets{{-1, []int{0, 0}}}
+		return []idOffsets{{id: -1, offsets: []int{0, 0}}}
 	}
 
 	matches := splitRe.regexSet.Matches(sentence).Matches()
@@ -402,11 +399,19 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 
 	for _, idx := range matches {
 		r := regexp.MustCompile(splitRe.regexSet.Patterns()[idx])
-		locs := r.FindAllStringIndex(sentence, -1)
-		for _, loc := range locs {
-			id := idx
-			ioPair := idOffsets{id: id, offsets: []int{loc[0], loc[1]}}
-			ioPairs = append(ioPairs, ioPair)
+		for pos := 0; pos < len(sentence); {
+			loc := r.FindStringSubmatchIndex(sentence[pos:])
+			if loc == nil {
+				break
+			}
+			start, end := pos+loc[2], pos+loc[3] // the content, without the whitespaces it strips
+			if splitRe.singleWord[idx] && !isWholeWord(sentence, start, end) {
+				_, size := utf8.DecodeRuneInString(sentence[start:])
+				pos = start + size
+				continue
+			}
+			ioPairs = append(ioPairs, idOffsets{idx, []int{start, end}, []int{pos + loc[0], pos + loc[1]}})
+			pos += loc[1]
 		}
 	}
 
@@ -444,7 +449,7 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		}
 
 		splits = append(splits, lowestPair)
-		currentOffsets = lowestPair.offsets[1]
+		currentOffsets = lowestPair.whole[1]
 		i++
 	}
 
@@ -455,16 +460,18 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 	)
 
 	for _, ioPair := range splits {
-		if startOffset < ioPair.offsets[0] {
-			finalSplits = append(finalSplits, idOffsets{-1, []int{startOffset, ioPair.offsets[0]}})
+		// the whitespaces between two tokens go to the first one that strips them
+		start := max(startOffset, ioPair.whole[0])
+		if startOffset < start {
+			finalSplits = append(finalSplits, idOffsets{id: -1, offsets: []int{startOffset, start}})
 		}
-		finalSplits = append(finalSplits, idOffsets{splitRe.ids[ioPair.id], ioPair.offsets})
-		startOffset = ioPair.offsets[1]
+		finalSplits = append(finalSplits, idOffsets{id: splitRe.ids[ioPair.id], offsets: []int{start, ioPair.whole[1]}})
+		startOffset = ioPair.whole[1]
 	}
 
 	totalByteLen := len(sentence)
 	if startOffset != totalByteLen {
-		finalSplits = append(finalSplits, idOffsets{-1, []int{startOffset, totalByteLen}})
+		finalSplits = append(finalSplits, idOffsets{id: -1, offsets: []int{startOffset, totalByteLen}})
 	}
 
 	return finalSplits
-- 
2.43.0


From 1a6a9089b71763e0418bf430d975ca78460e2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 26/98] fix: getting the vocabulary does not add the added
 tokens to the model

---
 tokenizer.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 38f9bf1..7e08b4a 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -342,14 +342,19 @@ func (t *Tokenizer) GetPadding() (retVal *PaddingParams) {
 
 // GetVocab get the vocabulary
 func (t *Tokenizer) GetVocab(withAddedTokens bool) map[string]int {
-	finalVocab := t.model.GetVocab()
-	if withAddedTokens {
-		addedVocab := t.addedVocabulary.GetVocab()
-		if len(addedVocab) > 0 {
-			for k, v := range addedVocab {
-				finalVocab[k] = v
-			}
-		}
+	modelVocab := t.model.GetVocab()
+	if !withAddedTokens {
+		return modelVocab
+	}
+
+	// NOTE. the vocabulary of the model is not ours to add to.
+	addedVocab := t.addedVocabulary.GetVocab()
+	finalVocab := make(map[string]int, len(modelVocab)+len(addedVocab))
+	for k, v := range modelVocab {
+		finalVocab[k] = v
+	}
+	for k, v := range addedVocab {
+		finalVocab[k] = v
 	}
 
 	return finalVocab
-- 
2.43.0


From faa7976b539fc217020b794344c6ad3f106e67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 27/98] fix: decoding a batch keeps every result, in the order
 of its inputs

---
 tokenizer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 7e08b4a..ea6b971 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -677,7 +677,7 @@ func (t *Tokenizer) EncodeBatch(inputs []EncodeInput, addSpecialTokens bool) (re
 
 // DecodeBatch decodes all sentences in concurrency
 func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []string {
-	var decodings []string
+	decodings := make([]string, len(sentences))
 	var wg sync.WaitGroup
 
 	wg.Add(len(sentences))
@@ -687,8 +687,7 @@ func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []str
 		go func(i int) {
 			defer wg.Done()
 
-			s := t.Decode(sentences[i], skipSpecialTokens)
-			decodings = append(decodings, s)
+			decodings[i] = t.Decode(sentences[i], skipSpecialTokens)
 		}(i)
 	}
 
-- 
2.43.0


From 55ddb1a2ba6fd5650584b5375b0df2fdddddfa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 28/98] fix: normalizing a pre-tokenized string keeps the
 splits that have tokens

---
 pretokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 6a55545..23e33e0 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -101,11 +101,11 @@ func (pt *PreTokenizedString) Normalize(nFn func(*normalizer.NormalizedString) *
 	var nSplits []Split
 
 	for _, split := range pt.splits {
+		newSplit := split
 		if split.tokens == nil {
-			newSplit := split
 			newSplit.normalized = nFn(split.normalized)
-			nSplits = append(nSplits, newSplit)
 		}
+		nSplits = append(nSplits, newSplit)
 	}
 
 	pt.splits = nSplits
-- 
2.43.0


From c71863767bda4144da4e9667cf7330f3bbe050cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 29/98] fix: a split that the model makes no token of is not an
 error

---
 pretokenizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 23e33e0..5773e62 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -124,6 +124,10 @@ func (pt *PreTokenizedString) Tokenize(tokFn func(*normalizer.NormalizedString)
 			if err != nil {
 				return nil, err
 			}
+			if toks == nil {
+				// NOTE. tokenized, even if into nothing.
+				toks = []Token{}
+			}
 			newSplit.tokens = toks
 		}
 		nSplits = append(nSplits, newSplit)
@@ -147,7 +151,7 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 	}
 
 	for _, s := range pt.splits {
-		if len(s.tokens) == 0 {
+		if s.tokens == nil {
 			err := fmt.Errorf("Split has not been tokenized. Call 'PreTokenizeString.Tokenize()' method first.\n")
 			return nil, err
 		}
-- 
2.43.0


From 9ee682447a659cf8a30d4e4756f03ccbda61477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 30/98] fix: char offsets reach the end of the string

---
 pretokenizer.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 5773e62..b2c81c6 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -170,6 +170,8 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 			}
 			currRuneIdx += 1
 		}
+		// the end of the string
+		charMap[len(pt.original)] = currRuneIdx
 	case offsetType == Byte:
 		charMap = make(map[int]int, 0)
 
@@ -222,7 +224,7 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 					log.Printf("Something wrong here. Should find from map.\n")
 					last = start + 1
 				}
-				newConvertedOffsets = []int{start, last}
+				newConvertedOffsets = []int{start, last + 1}
 
 			default:
 				newConvertedOffsets = convertedOffsets
@@ -334,19 +336,34 @@ func NewBytesToCharOffsetConverter(sequence string) *BytesToCharOffsetConverter
 
 		n += nbytes
 	}
-
 	return &BytesToCharOffsetConverter{b2c}
 }
 
+// charIndex returns the index of the character at the given byte. The end of the
+// sequence is the index that follows its last character.
+func (c *BytesToCharOffsetConverter) charIndex(byteIdx int) (int, bool) {
+	if charIdx, ok := c.b2c[byteIdx]; ok {
+		return charIdx, true
+	}
+	if byteIdx == 0 {
+		return 0, true
+	}
+	if last, ok := c.b2c[byteIdx-1]; ok {
+		return last + 1, true
+	}
+
+	return -1, false
+}
+
 // Convert converts byte-indexed offsets to character-index offsets.
 func (c *BytesToCharOffsetConverter) Convert(offsets []int) ([]int, error) {
-	start, ok := c.b2c[offsets[0]]
+	start, ok := c.charIndex(offsets[0])
 	if !ok {
 		err := fmt.Errorf("Invalid offsets start %v\n", offsets[0])
 		return nil, err
 	}
 
-	end, ok := c.b2c[offsets[1]]
+	end, ok := c.charIndex(offsets[1])
 	if !ok {
 		err := fmt.Errorf("Invalid offsets end %v\n", offsets[1])
 		return nil, err
-- 
2.43.0


From 28e5a0ff4fc06e2cd007c9cf7343e872366fd05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 31/98] fix: the tokens of a word are the ones next to each
 other that it made

---
 encoding.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/encoding.go b/encoding.go
index 341bc7f..6e51655 100644
--- a/encoding.go
+++ b/encoding.go
@@ -263,39 +263,34 @@ func (e *Encoding) TakeOverflowing() []Encoding {
 // if `none` result, `ok` will be false.
 func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 
-	var start, end int = -1, -1
+	if word < 0 {
+		return startTok, endTok, false
+	}
 
-	var inRangeWords []int
-	for _, w := range e.Words {
-		if w <= word {
-			inRangeWords = append(inRangeWords, w)
+	for i, w := range e.Words {
+		if w != word {
+			continue
 		}
-	}
-	for i, w := range inRangeWords {
-		if w == word && start < 0 {
-			start = i
+		end := i + 1
+		for end < len(e.Words) && e.Words[end] == word {
+			end++
 		}
+		return i, end, true
 	}
 
-	end = len(inRangeWords)
-
-	if start != -1 && end != -1 {
-		return start, end, true
-	} else {
-		return startTok, endTok, false
-	}
+	return startTok, endTok, false
 }
 
 // Word2Chars get the offsets of the word at a given index in
 // the input sequence
 func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
 	start, end, ok := e.Word2Tokens(word)
-	if end == 0 {
+	if !ok {
 		return retVal, false
 	} else {
 		oStart := e.Offsets[start][0]
 		oEnd := e.Offsets[end-1][1]
-		return []int{oStart, oEnd}, true // Should we check whether `ok`?
+		return []int{oStart, oEnd}, true
 	}
 }
 
-- 
2.43.0


From 25994476efd1ad163315b05e1fd56c6c9bd889b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 32/98] fix: looking up a token past the end, or in no word,
 finds nothing

---
 encoding.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/encoding.go b/encoding.go
index 6e51655..a2012f1 100644
--- a/encoding.go
+++ b/encoding.go
@@ -296,7 +296,7 @@ func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
 
 // Token2Chars get the offsets of the token at the given index
 func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
-	if tokenIdx < 0 || tokenIdx > len(e.Offsets) {
+	if tokenIdx < 0 || tokenIdx >= len(e.Offsets) {
 		return retVal, false
 	} else {
 		return e.Offsets[tokenIdx], true
@@ -305,13 +305,10 @@ func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
 
 // Token2Word get the word index of corresponding token if existing
 func (e *Encoding) Token2Word(tokenIdx int) (retVal int, ok bool) {
-	// naive search. TODO. improve algorithm
-	for i, w := range e.Words {
-		if i == tokenIdx {
-			return w, true
-		}
+	if tokenIdx < 0 || tokenIdx >= len(e.Words) || e.Words[tokenIdx] < 0 {
+		return -1, false
 	}
-	return retVal, false
+	return e.Words[tokenIdx], true
 }
 
 // Char2Token returns a token index that contains the given `char` index
@@ -636,7 +633,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 
 // Token2Sequence returns the index of the sequence containing the given token.
 func (e *Encoding) Token2Sequence(token int) (int, bool) {
-	if token > e.Len() {
+	if token < 0 || token >= e.Len() {
 		return -1, false
 	} else if len(e.SequenceRanges) == 0 {
 		return 0, true
-- 
2.43.0


From b3c7af5e1eae5a9e96e5829c7ce45cc74c8fd5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 33/98] fix: the sequence ids are one per token, and a sequence
 range is its own

---
 encoding.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/encoding.go b/encoding.go
index a2012f1..5a4dea0 100644
--- a/encoding.go
+++ b/encoding.go
@@ -190,20 +190,10 @@ func (e *Encoding) SetSequenceIds(sequenceId int) {
 
 func (e *Encoding) GetSequenceIds() []int {
 	sequences := make([]int, e.Len())
-	for seqId := 0; seqId < e.NSequences(); seqId++ {
-		r := e.SequenceRanges[seqId]
-		seqLen := r.Len()
-		var a []int
-		for i := 0; i < seqLen; i++ {
-			a = append(a, seqId)
+	for seqId, r := range e.SequenceRanges {
+		for _, i := range r {
+			sequences[i] = seqId
 		}
-		// replace items in Range r with seqId
-		start := r[0]
-		end := r[len(r)-1]
-		before := sequences[:start]
-		after := sequences[end:]
-		sequences = append(before, a...)
-		sequences = append(sequences, after...)
 	}
 
 	return sequences
@@ -657,7 +647,7 @@ func (e *Encoding) SequenceRange(sequencId int) (Range, error) {
 		return nil, err
 	}
 
-	return r[0:e.Len()], nil
+	return r, nil
 }
 
 func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
-- 
2.43.0


From 053fa45ea9363defe5dbea8086380903eae435ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 34/98] fix: truncating an encoding keeps the truncated and
 overflowing parts apart

---
 encoding.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/encoding.go b/encoding.go
index 5a4dea0..6967a1f 100644
--- a/encoding.go
+++ b/encoding.go
@@ -335,20 +335,24 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 
 	// Truncating at maxLen (exclusive) to keep.
 	// The rest (overflowing) from maxLen (inclusive)
-	newIds := e.Ids[0:maxLen]
+	// NOTE. what is kept has no capacity left, so that growing it leaves the rest as it is.
+	newIds := e.Ids[0:maxLen:maxLen]
 	oIds := e.Ids[maxLen:len(e.Ids)] // overflowing
-	newTypeIds := e.TypeIds[0:maxLen]
+	newTypeIds := e.TypeIds[0:maxLen:maxLen]
 	oTypeIds := e.TypeIds[maxLen:len(e.TypeIds)]
-	newTokens := e.Tokens[0:maxLen]
+	newTokens := e.Tokens[0:maxLen:maxLen]
 	oTokens := e.Tokens[maxLen:len(e.Tokens)]
-	newOffsets := e.Offsets[0:maxLen]
+	newOffsets := e.Offsets[0:maxLen:maxLen]
 	oOffsets := e.Offsets[maxLen:len(e.Offsets)]
-	newSpeToks := e.SpecialTokenMask[0:maxLen]
+	newSpeToks := e.SpecialTokenMask[0:maxLen:maxLen]
 	oSpeToks := e.SpecialTokenMask[maxLen:len(e.SpecialTokenMask)]
-	newAttent := e.AttentionMask[0:maxLen]
+	newAttent := e.AttentionMask[0:maxLen:maxLen]
 	oAttent := e.AttentionMask[maxLen:len(e.AttentionMask)]
-	newWords := e.Words[0:maxLen]
-	oWords := e.Words[maxLen:len(e.Words)]
+	var newWords, oWords []int
+	if len(e.Words) > 0 { // NOTE. Words is optional
+		newWords = e.Words[0:maxLen:maxLen]
+		oWords = e.Words[maxLen:len(e.Words)]
+	}
 
 	e.Ids = newIds
 	e.TypeIds = newTypeIds
@@ -357,6 +361,8 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 	e.SpecialTokenMask = newSpeToks
 	e.AttentionMask = newAttent
 	e.Words = newWords
+	// NOTE. the ranges were the ones of the whole encoding.
+	e.SequenceRanges = nil
 
 	// Separate the overflowing part into as many Encoding as needed
 	partSize := maxLen - stride
@@ -661,7 +667,7 @@ func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
 
 	start := idx * size
 	if start >= len(current) {
-		return previous[len(previous)-stride:]
+		return append([]T(nil), previous[len(previous)-stride:]...)
 	}
 
 	end := (idx + 1) * size
@@ -672,5 +678,5 @@ func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
 	curr := current[start:end]
 	prev := previous[len(previous)-stride:]
 
-	return append(prev, curr...)
+	return append(prev[:len(prev):len(prev)], curr...)
 }
-- 
2.43.0


From 0ac82d1bb401d93a15d8ea16eaf717a67f6218f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 35/98] fix: padding to the left, and of overflowing encodings
 of any length

---
 encoding.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/encoding.go b/encoding.go
index 6967a1f..25cecda 100644
--- a/encoding.go
+++ b/encoding.go
@@ -543,7 +543,7 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 	// 1. Overflowing
 	var overflowing []Encoding
 	for _, o := range e.Overflowing {
-		padded := o.pad(targetLength, padId, padTypeId, padToken, direction)
+		padded := o.Pad(targetLength, padId, padTypeId, padToken, direction)
 		overflowing = append(overflowing, *padded)
 	}
 	e.Overflowing = overflowing
@@ -574,7 +574,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		for i := 0; i < len(newTypeIds); i++ {
 			newTypeIds[i] = padTypeId
 		}
-		newTypeIds = append(newTypeIds, e.Ids...)
+		newTypeIds = append(newTypeIds, e.TypeIds...)
 		e.TypeIds = newTypeIds
 
 		newTokens := make([]string, padLength)
@@ -599,7 +599,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		e.AttentionMask = newAttentionMask
 
 		newOffsets := make([][]int, padLength)
-		for i := 0; i < len(newIds); i++ {
+		for i := 0; i < len(newOffsets); i++ {
 			newOffsets[i] = []int{0, 0}
 		}
 		newOffsets = append(newOffsets, e.Offsets...)
@@ -609,10 +609,20 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		for i := 0; i < len(newWords); i++ {
 			newWords[i] = -1
 		}
-		newWords = append(newWords, e.Words...)
+		newWords = append(newWords, e.wordsOrNone()...)
 		e.Words = newWords
 
+		// the sequences have moved to the right
+		for seqId, r := range e.SequenceRanges {
+			moved := make(Range, len(r))
+			for i, idx := range r {
+				moved[i] = idx + padLength
+			}
+			e.SequenceRanges[seqId] = moved
+		}
+
 	case Right:
+		e.Words = e.wordsOrNone()
 		for i := 0; i < padLength; i++ {
 			e.Ids = append(e.Ids, padId)
 			e.TypeIds = append(e.TypeIds, padTypeId)
@@ -627,6 +637,16 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 	return e
 }
 
+// wordsOrNone returns one word index for each token, -1 (none) for all of them if
+// there are no word indexes.
+func (e *Encoding) wordsOrNone() []int {
+	if len(e.Words) > 0 || e.Len() == 0 {
+		return e.Words
+	}
+
+	return util.Repeat(-1, e.Len())
+}
+
 // Token2Sequence returns the index of the sequence containing the given token.
 func (e *Encoding) Token2Sequence(token int) (int, bool) {
 	if token < 0 || token >= e.Len() {
-- 
2.43.0


From 4cd82df9c3e6a24e8b0f12afbab93b54fc6f1d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 36/98] fix: merging encodings keeps their sequence ranges and
 one word index per token

---
 encoding.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/encoding.go b/encoding.go
index 25cecda..b585291 100644
--- a/encoding.go
+++ b/encoding.go
@@ -443,26 +443,33 @@ func (e *Encoding) MergeWith(pair *Encoding, growingOffsets bool) (retVal *Encod
 	// Merging others
 	originalLen := e.Len()
 	if len(pair.SequenceRanges) > 0 {
+		// NOTE. a new map, as the current one may be shared with other encodings.
+		ranges := make(map[int]Range, len(e.SequenceRanges)+len(pair.SequenceRanges))
+		for seqId, r := range e.SequenceRanges {
+			ranges[seqId] = r
+		}
 		for seqId, r := range pair.SequenceRanges {
 			start := originalLen + r[0]
 			end := originalLen + r[r.Len()-1] + 1
 			newRange := NewRange(start, end)
-			var oldRange Range
-			util.DeepCopy(e.SequenceRanges[seqId], oldRange)
-			e.SequenceRanges[seqId] = util.Merge(oldRange, newRange)
+			ranges[seqId] = util.Merge(ranges[seqId], newRange)
 		}
+		e.SequenceRanges = ranges
 	}
 
+	// NOTE. Words is optional. If one of them has it, there should be one for each token.
+	if len(e.Words) > 0 || len(pair.Words) > 0 {
+		e.Words = util.Merge(e.wordsOrNone(), pair.wordsOrNone())
+	}
 	e.Ids = util.Merge(e.Ids, pair.Ids)
 	e.Tokens = util.Merge(e.Tokens, pair.Tokens)
-	e.Words = util.Merge(e.Words, pair.Words)
 	e.TypeIds = util.Merge(e.TypeIds, pair.TypeIds)
 	e.SpecialTokenMask = util.Merge(e.SpecialTokenMask, pair.SpecialTokenMask)
 	e.AttentionMask = util.Merge(e.AttentionMask, pair.AttentionMask)
 
 	// Offsets
 	var startingOffset int = 0
-	offsets := e.Offsets
+	offsets := e.Offsets[:len(e.Offsets):len(e.Offsets)]
 	if growingOffsets {
 		if len(offsets) > 0 {
 			last := offsets[len(offsets)-1]
-- 
2.43.0


From 8f3520c3dda8261821def25a18ef4edbc7d0bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 37/98] fix: padding to the left moves the sequence ranges
 along

---
 encoding.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/encoding.go b/encoding.go
index b585291..82a965d 100644
--- a/encoding.go
+++ b/encoding.go
@@ -620,12 +620,16 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		e.Words = newWords
 
 		// the sequences have moved to the right
-		for seqId, r := range e.SequenceRanges {
-			moved := make(Range, len(r))
-			for i, idx := range r {
-				moved[i] = idx + padLength
+		if len(e.SequenceRanges) > 0 {
+			ranges := make(map[int]Range, len(e.SequenceRanges))
+			for seqId, r := range e.SequenceRanges {
+				moved := make(Range, len(r))
+				for i, idx := range r {
+					moved[i] = idx + padLength
+				}
+				ranges[seqId] = moved
 			}
-			e.SequenceRanges[seqId] = moved
+			e.SequenceRanges = ranges
 		}
 
 	case Right:
-- 
2.43.0


From 289062cccd3ef0a09a03567ca65019a4e292d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 38/98] fix: truncating the longest first removes as many
 tokens as needed

---
 util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index 1e5d49c..81c3da1 100644
--- a/util.go
+++ b/util.go
@@ -96,7 +96,7 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		totalLength = len(encoding.GetIds()) + len(pairEncoding.GetIds())
 	}
 
-	if totalLength < params.MaxLength {
+	if totalLength <= params.MaxLength {
 		return encoding, pairEncoding
 	}
 
@@ -113,8 +113,9 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		for i := 0; i < toRemove; i++ {
 			if nFirst > nSecond {
 				nFirst -= 1
+			} else {
+				nSecond -= 1
 			}
-			nSecond -= 1
 		}
 
 		encoding.Truncate(nFirst, params.Stride)
-- 
2.43.0


From e5d93630c59e010028a97d49f23e3379ceac2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 39/98] fix: truncation gives no more tokens than its maximum
 length, however small

---
 encoding.go  | 20 ++++++++++++++++++++
 tokenizer.go |  9 ++++++++-
 util.go      |  6 +++---
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/encoding.go b/encoding.go
index 82a965d..4941067 100644
--- a/encoding.go
+++ b/encoding.go
@@ -393,6 +393,26 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 	return e, nil
 }
 
+// truncateTo truncates the current encoding to the given length, whatever it is.
+// A stride that leaves no room for new tokens in the overflowing parts is reduced.
+func (e *Encoding) truncateTo(maxLen int, stride int) {
+	if maxLen >= e.Len() {
+		return
+	}
+	if maxLen <= 0 {
+		overflowing := *e
+		*e = *DefaultEncoding()
+		e.Overflowing = []Encoding{overflowing}
+		return
+	}
+	if stride >= maxLen {
+		stride = maxLen - 1
+	}
+
+	// NOTE. there is no error left to get
+	e.Truncate(maxLen, stride)
+}
+
 // Merge merges all Encodings together
 func (e *Encoding) Merge(encodings []Encoding, growingOffsets bool) (retVal *Encoding) {
 	retVal = e
diff --git a/tokenizer.go b/tokenizer.go
index ea6b971..c56c933 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -604,7 +604,14 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 			nAddedTokens = processor.AddedTokens(pairEncoding != nil)
 		}
 
-		if addSpecialTokens && nAddedTokens > 0 {
+		if addSpecialTokens && nAddedTokens > 0 && trunc.MaxLength > 0 && trunc.MaxLength <= nAddedTokens {
+			// No room for any other tokens
+			tEncoding, tPairEncoding = encoding, pairEncoding
+			tEncoding.truncateTo(0, trunc.Stride)
+			if tPairEncoding != nil {
+				tPairEncoding.truncateTo(0, trunc.Stride)
+			}
+		} else if addSpecialTokens && nAddedTokens > 0 && trunc.MaxLength > 0 {
 			maxLength := trunc.MaxLength - nAddedTokens
 			params := &TruncationParams{
 				MaxLength: maxLength,
diff --git a/util.go b/util.go
index 81c3da1..83b287e 100644
--- a/util.go
+++ b/util.go
@@ -118,16 +118,16 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 			}
 		}
 
-		encoding.Truncate(nFirst, params.Stride)
+		encoding.truncateTo(nFirst, params.Stride)
 		if pairEncoding != nil {
-			pairEncoding.Truncate(nSecond, params.Stride)
+			pairEncoding.truncateTo(nSecond, params.Stride)
 		}
 
 	case OnlyFirst, OnlySecond:
 		var truncateFunc = func(target *Encoding) (*Encoding, error) {
 			targetLength := len(target.GetIds())
 			if targetLength > toRemove {
-				target.Truncate(targetLength-toRemove, params.Stride)
+				target.truncateTo(targetLength-toRemove, params.Stride)
 				return target, nil
 			} else {
 				err := errors.New(SequenceTooShort)
-- 
2.43.0


From cd5ad40d52b7a0903184f8b8171ad3b45253e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 40/98] fix: roberta processing works without trimming offsets

---
 processor/roberta.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processor/roberta.go b/processor/roberta.go
index 1c921b0..e399dbd 100644
--- a/processor/roberta.go
+++ b/processor/roberta.go
@@ -62,9 +62,9 @@ func (rp *RobertaProcessing) AddedTokens(isPair bool) int {
 func (rp *RobertaProcessing) Process(encoding, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) *tokenizer.Encoding {
 
 	var (
-		newEncoding             *tokenizer.Encoding
+		newEncoding             *tokenizer.Encoding = encoding
 		newOverflowEncodings    []tokenizer.Encoding
-		newPairEncoding         *tokenizer.Encoding
+		newPairEncoding         *tokenizer.Encoding = pairEncoding
 		newOverflowPairEncoding []tokenizer.Encoding
 	)
 	if rp.trimOffsets {
-- 
2.43.0


From cc4da7dee767b66a6695ad8450eb2dd18632b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 41/98] fix: bert and roberta processing keep track of the
 sequence of each token

---
 processor/bert.go    | 16 ++++++++++++++--
 processor/roberta.go |  6 ++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/processor/bert.go b/processor/bert.go
index 2055035..7f53189 100644
--- a/processor/bert.go
+++ b/processor/bert.go
@@ -112,7 +112,8 @@ func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokeniz
 	}
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	rangeOpt := tokenizer.WithSequenceRangeEncodingOpt(sequenceRange(0, 1, encoding.Len()))
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, rangeOpt)
 }
 
 // pairAddSpecialToken adds special token "[SEP]" to input encoding. It ignores
@@ -151,6 +152,17 @@ func (bp *BertProcessing) pairAddSpecialToken(pairEncoding *tokenizer.Encoding)
 	pairAttentionMask = append(pairAttentionMask, 1)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
+	pairRangeOpt := tokenizer.WithSequenceRangeEncodingOpt(sequenceRange(1, 0, pairEncoding.Len()))
 
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, pairRangeOpt)
+}
+
+// sequenceRange gives the range of the tokens of a sequence, in between the special tokens.
+func sequenceRange(sequenceId, start, length int) map[int]tokenizer.Range {
+	ranges := make(map[int]tokenizer.Range)
+	if length > 0 {
+		ranges[sequenceId] = tokenizer.NewRange(start, start+length)
+	}
+
+	return ranges
 }
diff --git a/processor/roberta.go b/processor/roberta.go
index e399dbd..cde9431 100644
--- a/processor/roberta.go
+++ b/processor/roberta.go
@@ -168,7 +168,8 @@ func (rp *RobertaProcessing) addSpecialToken(encoding *tokenizer.Encoding) *toke
 	attentionMask = append(attentionMask, 1)
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	rangeOpt := tokenizer.WithSequenceRangeEncodingOpt(sequenceRange(0, 1, encoding.Len()))
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, rangeOpt)
 }
 
 // addSpecialToken adds special tokens to input pair encoding. It ignores the `Overflowing` field
@@ -216,7 +217,8 @@ func (rp *RobertaProcessing) pairAddSpecialToken(pair *tokenizer.Encoding) *toke
 	pairAttentionMask = append(pairAttentionMask, 1)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	pairRangeOpt := tokenizer.WithSequenceRangeEncodingOpt(sequenceRange(1, 1, pair.Len()))
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, pairRangeOpt)
 }
 
 // TODO: implement Serialize interface for RobertaProcessing
-- 
2.43.0


From ac12120f2ed9867a828b3bcfb4e562675b0ead93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 42/98] fix: a sequence of processors adds the pair once

---
 processor/sequence.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/processor/sequence.go b/processor/sequence.go
index cad57cc..65cd53d 100644
--- a/processor/sequence.go
+++ b/processor/sequence.go
@@ -26,8 +26,27 @@ func (seq *Sequence) AddedTokens(isPair bool) (retVal int) {
 func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) (retVal *tokenizer.Encoding) {
 	// return blp.pretok.Process(encoding, pairEncoding, addSpecialTokens)
 	var encodings *tokenizer.Encoding = encoding
-	for _, p := range seq.processors {
+	for i, p := range seq.processors {
+		isLast := i == len(seq.processors)-1
+		if pairEncoding != nil && !isLast && p.AddedTokens(true) == 0 {
+			// It does not need both of them, so keep them apart for the next processors.
+			encodings = p.Process(encodings, nil, addSpecialTokens)
+			typeIds := pairEncoding.GetTypeIds()
+			pairEncoding = p.Process(pairEncoding, nil, addSpecialTokens)
+			pairEncoding.SetTypeIds(typeIds)
+			pairEncoding.SequenceRanges = nil
+			for j := range pairEncoding.Overflowing {
+				pairEncoding.Overflowing[j].SequenceRanges = nil
+			}
+			continue
+		}
+
 		encodings = p.Process(encodings, pairEncoding, addSpecialTokens)
+		// The pair is part of it from now on.
+		pairEncoding = nil
+	}
+	if pairEncoding != nil { // no processors
+		return tokenizer.DefaultProcess(encodings, pairEncoding, addSpecialTokens)
 	}
 
 	return encodings
-- 
2.43.0


From a6d0d7a20ef1bf8e50c952dce3c7e8a30e457a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 43/98] fix: validating a template accepts special tokens and
 reports the missing ones

---
 processor/template.go | 52 ++++++++++---------------------------------
 1 file changed, 12 insertions(+), 40 deletions(-)

diff --git a/processor/template.go b/processor/template.go
index a94e1f7..7246c3d 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -410,12 +410,9 @@ func (b *TemplateProcessingBuilder) Validate() error {
 	)
 
 	for _, piece := range b.Pair {
-		if piece.(*SequencePiece).Id == A {
-			hasA = true
-		}
-
-		if piece.(*SequencePiece).Id == B {
-			hasB = true
+		if p, ok := piece.(*SequencePiece); ok {
+			hasA = hasA || p.Id == A
+			hasB = hasB || p.Id == B
 		}
 	}
 
@@ -426,46 +423,21 @@ func (b *TemplateProcessingBuilder) Validate() error {
 		return err
 	}
 
-	check := func(sp string) string {
-		var exist bool
-		tok, ok := b.SpecialTokens.GetItemByOrder(0)
-		if !ok {
-			exist = false
-		} else {
-			exist = util.Contains(tok.Tokens, sp)
-		}
-
-		if exist {
-			return sp
-		} else {
-			return ""
-		}
-	}
-
 	var missing []string
-	var pieces []Piece = append(b.Single, b.Pair...)
-	for _, p := range pieces {
-		typ := getType(p)
-		switch typ {
-		case "*SequencePeice":
-			// None
-		case "*SpecialToken":
-			id := p.(*SpecialTokenPiece).Id
-			s := check(id)
-			if s != "" {
-				missing = append(missing, s)
+	for _, tpl := range []Template{b.Single, b.Pair} {
+		for _, piece := range tpl {
+			p, ok := piece.(*SpecialTokenPiece)
+			if !ok {
+				continue
+			}
+			if _, ok := b.SpecialTokens.GetItemByKey(p.Id); !ok && !util.Contains(missing, p.Id) {
+				missing = append(missing, p.Id)
 			}
 		}
 	}
 
 	if len(missing) > 0 {
-		var msg string
-		for _, s := range missing {
-			v := fmt.Sprintf("Missing SpecialToken %q", s)
-			msg = fmt.Sprintf("%s, %s", msg, v)
-		}
-
-		return fmt.Errorf(msg)
+		return fmt.Errorf("Missing SpecialToken(s) %q in the template", missing)
 	}
 
 	return nil
-- 
2.43.0


From 2f8e29f571c0a8ffcf9d985313974ba38547b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 44/98] fix: training without a pre-tokenizer takes whole lines

---
 tokenizer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index c56c933..872e04b 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -561,8 +561,7 @@ func (t *Tokenizer) doNormalize(s string) (retVal *normalizer.NormalizedString,
 // doPreTokenize does the pretokenization logic, handling the case where there is no PreTokenizer set
 func (t *Tokenizer) doPreTokenize(pretokenized *PreTokenizedString) (*PreTokenizedString, error) {
 	if t.preTokenizer == nil {
-		err := fmt.Errorf("Tokenizer.doPreTokenize() failed: there's no 'PreTokenizer' setup. You have to include a 'PreTokenizer' at the time of creating 'Tokenizer'.")
-		return nil, err
+		return pretokenized, nil
 	}
 	return (t.preTokenizer).PreTokenize(pretokenized)
 }
-- 
2.43.0


From 038064de9458e4cbb02e9460a5c1e212053de1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 45/98] fix: training reads every line of a file once, whatever
 its size

---
 tokenizer.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 872e04b..e38cb6a 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -6,7 +6,6 @@ import (
 	// "context"
 	"fmt"
 	"log"
-	"math"
 	"os"
 	"strings"
 
@@ -788,29 +787,19 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		currentJob := i
 
 		file := jobs[currentJob].File
-		// current is the counter for bytes of the file.
-		var current int64 = 0
-		var limit int64 = 100 * mb
 
 		fi, err := os.Stat(file)
 		if err != nil {
 			return err
 		}
-		fsize := float64(fi.Size())
 
-		chunkNum := int(math.Ceil(fsize / float64(limit)))
+		// NOTE. one worker for the whole file, so that each line is read exactly once.
+		scanWG.Add(1)
 
-		// Setup some workers to process
-		for n := 1; n <= chunkNum; n++ {
-			scanWG.Add(1)
-
-			go func(n int, file string) {
-				// start reading file chunk by chunk
-				current = t.processChunk(current, limit, file, wChan, trainer)
-				fmt.Printf("File chunk %d has been completed\n", n)
-				scanWG.Done()
-			}(n, file)
-		}
+		go func(fsize int64, file string) {
+			defer scanWG.Done()
+			t.processChunk(0, fsize, file, wChan, trainer)
+		}(fi.Size(), file)
 	}
 
 	// Read all incoming words from the channel and add to the dict
@@ -880,7 +869,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 	file.Seek(offset, 0) // 0 means relative to the origin of file
 
 	scanner := bufio.NewScanner(file)
-	buf := make([]byte, 0, 1*gb) // initial buffer
+	buf := make([]byte, 0, 1*mb) // initial buffer
 	scanner.Buffer(buf, 2*gb)    // max buffer size = 2GB
 
 	var cummulativeSize int64
-- 
2.43.0


From 0653881f38bcd61d5144e93ee963bf918ef8e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 46/98] fix: transforming a normalized string keeps its
 alignments and those of others right

---
 normalizer/normalized.go | 434 ++++++---------------------------------
 1 file changed, 68 insertions(+), 366 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e1a4212..894f975 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -7,7 +7,6 @@ import (
 	"unicode"
 	"unicode/utf8"
 
-	"github.com/sugarme/tokenizer/util"
 	slice "github.com/sugarme/tokenizer/util/slice"
 
 	"golang.org/x/text/unicode/norm"
@@ -174,15 +173,9 @@ func NewNormalizedFrom(s string) (retVal *NormalizedString) {
 // (data elements are in different memory locations).
 func createAligns(s string) [][]int {
 	var alignments [][]int
-	currIdx := 0
-	for i, r := range []rune(s) {
-		charLen := len([]byte(string(r)))
-		var align []int
-		if i == 0 {
-			align = []int{0, charLen}
-		} else {
-			align = []int{currIdx, currIdx + charLen}
-		}
+	for currIdx := 0; currIdx < len(s); {
+		_, charLen := utf8.DecodeRuneInString(s[currIdx:])
+		align := []int{currIdx, currIdx + charLen}
 		for byteIdx := 0; byteIdx < charLen; byteIdx++ {
 			alignments = append(alignments, align)
 		}
@@ -439,392 +432,103 @@ type ChangeMap struct {
 // of removed chars at the very beginning.
 func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeMap, initialOffset int) (retVal *NormalizedString) {
 
-	// fmt.Printf("normalized: %+v\n", n)
-	// fmt.Printf("inputRange: %v\n", inputRange)
-
-	// I. Update `original` alignments based on `initialOffset`.
-	// If `initialOffset` > 0, there are some chars being replaced.
-
-	// I.1. Determine range on `original` string and `normalized` string
-	// based on `inputRange`
+	// I. Determine the range to transform on the `normalized` string
 	var nRange *Range
 	switch inputRange.indexOn {
-	case NormalizedTarget:
-		nRange = inputRange.IntoFullRange(n.Len())
 	case OriginalTarget:
 		nRange = n.ConvertOffset(inputRange)
-	}
-
-	// NOTE: temp fix out of range occured at bpe training example
-	if nRange.end > len(n.alignments) {
-		nRange.end = len(n.alignments)
-	}
-
-	// fmt.Printf("nRange: %v\n", nRange)
-
-	// I.2. Get removed chars to a slice (`removedChars`); number of removed
-	// bytes (`initialRemoved`); and update original alignments (`n.alignmensOriginal`)
-
-	// log.Printf("===== TransformRange call (initial offset: %v) ====\n", initialOffset)
-	// Retrieve the original characters that are being replaced. This let us
-	// compute the change in byte sizes along the way.
-	nBytes := []byte(n.normalized)[nRange.start:nRange.end]
-	replacedNormalized := util.NewRuneIter(bytes.Runes(nBytes))
-	/*
-	 *   fmt.Printf("replaceddNoramlized len: %v\n", replacedNormalized.Len())
-	 *   fmt.Printf("replacedNormalized: %+q\n", func(it *util.RuneIter) []string {
-	 *     var chars []string
-	 *     for {
-	 *       r, ok := it.Next()
-	 *       if !ok {
-	 *         break
-	 *       }
-	 *       chars = append(chars, string(r))
-	 *     }
-	 *     return chars
-	 *   }(replacedNormalized))
-	 *  */
-	replacedNormalized.Reset()
-
-	// Handle the initial offset in the original alignment. All the characters
-	// that were removed from the normalized one should have their width reduced
-	// by the number of bytes we remove
-	endShiftStart := nRange.end
-	initialRemoved := 0
-	if initialOffset > 0 {
-		// log.Printf("=> Clearing alignment for %v chars\n", initialOffset)
-		removedBytes := 0
-		var removedChars []rune
-		for i := 0; i < initialOffset; i++ {
-			c, ok := replacedNormalized.Next()
-			if !ok {
-				// We want to panic here, because the NormalizedString is in
-				// a bad state if this happens. We already modified a lot of things
-				log.Fatalf("1. Expected to remove %v characters but couldn't find them ...\n", initialOffset)
-			}
-			removedBytes += len([]byte(string(c)))
-			removedChars = append(removedChars, c)
+		if nRange == nil {
+			return n
 		}
-		initialRemoved = removedBytes
-		offset := nRange.start
-		oShift := 0
-		// Then we remove all these chars, updating the alignments along the way
-		for _, c := range removedChars {
-			removedORange := expandAlignments(n.alignments[offset : offset+len(string(c))])
-			offset += len(string(c))
-			oShift += len(string(c))
-			alignments := n.alignmentsOriginal[removedORange[0]:removedORange[1]]
-			// log.Printf("Clearing alignments for char: %q - alignments: %+v\n", c, alignments)
-			// 1. Get new alignments
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				// At the very end we will apply the global shift to the remaining
-				// original offsets. We should start after these to avoid doing it twice
-				if offsets[1] > endShiftStart {
-					endShiftStart = offsets[1]
-				}
-
-				offsets[1] = applySign(offsets[1], -(oShift))
-				// Make sure the starting offset is always smaller or equal to the end
-				if offsets[0] > offsets[1] {
-					offsets[0] = offsets[1]
-				}
-
-				newAlignments = append(newAlignments, offsets)
-			}
-			// 2. Update alignmentOriginal with new alignments in `removedORange` range
-			var aligns [][]int = append(n.alignmentsOriginal[:removedORange[0]], newAlignments...)
-			aligns = append(aligns, n.alignmentsOriginal[removedORange[1]:]...)
-			n.alignmentsOriginal = aligns
+	default:
+		nRange = inputRange.IntoFullRange(n.Len())
+	}
 
-			// log.Printf("Cleared: %+v\n", alignments)
+	// II. Do the transformation based on input `changeMap`: every new char takes the
+	// alignment of the char it replaces, or of the one before it when it is added.
+	// `offset` is the position in the current `normalized` string.
+	offset := nRange.start
+	nextChar := func() {
+		if offset < nRange.end {
+			_, size := utf8.DecodeRuneInString(n.normalized[offset:nRange.end])
+			offset += size
 		}
-	} // end `If` block
-
-	// II.	Do the transformation based on input `changeMap`.
-	// 1. 	Update alignments on normalized string(`n.alignments`) and original
-	// 			string (`n.alignmentsOriginal`);
-	// 2. 	collect transformed `chars` to a string
-	// 			variable (`normalized`)
+	}
 
-	// oShift is the shift to be applied to all original alignments along the way
-	// NOTE. `oShift` and `offset` here are different from ones inside previous block
-	oShift := -(initialRemoved)
-	offset := initialRemoved + nRange.start
-	var normalizedAlignments [][]int
+	// Skip all the characters removed at the beginning
+	for i := 0; i < initialOffset; i++ {
+		nextChar()
+	}
 
-	// log.Printf("Applying transformations...\n")
 	var (
-		normalizedRunes []rune
+		normalizedAlignments [][]int
+		normalized           strings.Builder
 	)
-
-	replacedNormalized.Reset() // make sure iterating from begining
 	for _, item := range changeMap {
-		/*
-		 *     var changeType string
-		 *     switch {
-		 *     case item.Changes == 0:
-		 *       changeType = "Replacing"
-		 *     case item.Changes > 0:
-		 *       changeType = "Adding"
-		 *     case item.Changes < 0:
-		 *       changeType = fmt.Sprintf("Replacing + Removing %v following chars", item.Changes)
-		 *     default:
-		 *       changeType = "Undefined"
-		 *     }
-		 *     // log.Printf("### %+q with size %v : %v with offset %v ###\n", item.RuneVal, len(item.RuneVal), changeType, offset)
-		 *     // log.Printf("### '%v' with size %v : %v with offset %v ###\n", item.RuneVal, len(item.RuneVal), changeType, offset)
-		 *     fmt.Printf("'%v' - changes: %v\n", item.RuneVal, item.Changes)
-		 *  */
-		idx := offset
-		// fmt.Printf("idx: %v\n", idx)
 		var align []int
-		if item.Changes > 0 {
-			if idx < 1 {
-				align = []int{0, 0}
-			} else {
-				// This is a newly inserted character, so it shares the same alignment
-				// as the previous one
-				align = n.alignments[idx-1]
-			}
-		} else {
-			if idx >= len(n.alignments) {
-				align = n.alignments[len(n.alignments)-1]
-			} else {
-				align = n.alignments[idx]
-			}
+		switch {
+		case item.Changes <= 0 && offset < len(n.alignments):
+			align = n.alignments[offset]
+		case offset < 1:
+			align = []int{0, 0}
+		default:
+			// This is a newly inserted character, so it shares the same alignment
+			// as the previous one
+			align = n.alignments[offset-1]
 		}
 
-		// If we are replacing a character, find it and compute the change in size
-		var replacedChar rune
 		if item.Changes <= 0 {
-			replacedChar, _ = replacedNormalized.Next()
-		} else {
-			replacedChar = 0 // nil rune value
-		}
-		replacedCharSize := 0
-		if replacedChar > 0 {
-			replacedCharSize = len([]byte(string(replacedChar)))
-		}
-		replacedCharSizeChange := len(item.RuneVal) - replacedCharSize
-		if replacedChar > 0 {
-			// log.Printf("Replacing char: '%v' - with a change in size: %v", string(replacedChar), replacedCharSizeChange)
-		}
-
-		// If we are removing some characters, find them too
-		var nChanges int = 0
-		if item.Changes < 0 {
-			nChanges = -item.Changes
-		}
-
-		var (
-			removedChars       []rune
-			totalBytesToRemove int
-		)
-		for i := 0; i < nChanges; i++ {
-			c, ok := replacedNormalized.Next()
-			if !ok {
-				// We want to panic here, because the NormalizedString is in
-				// a bad state if this happens. We already modified a lot of things
-				// log.Fatalf("2. Expected to remove %v characters but couldn't find them ...\n", nChanges)
+			// the replaced char, and the removed ones that follow it
+			for i := 0; i <= -item.Changes; i++ {
+				nextChar()
 			}
-			removedChars = append(removedChars, c)
-			totalBytesToRemove += len(string(c))
 		}
-		// fmt.Printf("removedChars: %+q\n", string(removedChars))
-		// log.Printf("Total bytes to remove: %v\n", totalBytesToRemove)
-
-		// If we are removing characters, there are two possible scenarios:
-		//   1. We remove characters that are part of the original string (most likely)
-		//   2. We remove characters that were previously added (with NFD for example)
-		//      and are just part of the normalized string
-
-		var removingFromOriginal, removingFromNormalized int = 0, 0
-		// Guard: idx may equal len(n.alignments) when removals fall at the very end of the string.
-		if totalBytesToRemove > 0 && idx < len(n.alignments) {
-			start := n.alignments[idx][1]
-			// Bounds check to prevent index out of range panic
-			endIdx := idx + totalBytesToRemove
-			if endIdx >= len(n.alignments) {
-				endIdx = len(n.alignments) - 1
-			}
-			end := n.alignments[endIdx][1]
-			originalRange := util.MakeRange(start, end)
-			// fmt.Printf("start: %v - end: %v; range: (%+v)\n", start, end, originalRange)
-			removingFromOriginal = len(originalRange)
-			removingFromNormalized = totalBytesToRemove - len(originalRange)
-
-			// log.Printf("Bytes to remove from original alignments: %v\n", removingFromOriginal)
-			// log.Printf("Bytes to remove from normalized alignments: %v\n", removingFromNormalized)
-		}
-
-		// Update the original alignments for the **current** `char`
-		// fmt.Printf("align: %v\n", align)
-		// fmt.Printf("current alignmentsOriginal: %+v\n", n.alignmentsOriginal)
-		alignments := n.alignmentsOriginal[align[0]:align[1]]
-		// fmt.Printf("alignments: %+v\n", alignments)
-		if len(alignments) > 0 {
-			// log.Printf("Updating original alignments: %+v\n", alignments)
-
-			// Let's compute the actual change in size for the original alignment.
-			// This value may be different than `replacedCharSizeChange` because the
-			// char might not exist in the original string. It might have been added.
-			originalRange := expandAlignments(alignments)
-
-			replacedCharSizeChangeOriginal := len(item.RuneVal) - (originalRange[1] - originalRange[0])
-			// log.Printf("Change in size for the current char: %v\n", replacedCharSizeChange)
-			// log.Printf("Change in size in the original alignment for the current char: %v\n", replacedCharSizeChangeOriginal)
-
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				var newAlign []int = make([]int, 2)
-
-				// A new char is being added, we need to extend the current
-				// alignment. No need to apply the shift in this case as it
-				// should have been applied already (with a previous changes == 0).
-				if item.Changes > 0 {
-					newAlign[0] = offsets[0]
-					newAlign[1] = offsets[1] + len(item.RuneVal)
-				} else {
-					// Otherwise we just apply the shift
-					newAlign[0] = offsets[0]
-					newAlign[1] = applySign(offsets[1], replacedCharSizeChange)
-					newAlign[1] = applySign(newAlign[1], -(removingFromNormalized))
-
-					// NOTE: We only apply oShift if we are:
-					// - Removing characters
-					// - Replacing one, that has the same size in both normalized and
-					//   original alignments.
-					// Otherwise it means we are modifying multiple times the same
-					// original character. This happens when normalized characters
-					// are added (not part of the original), and then replaced.
-					if item.Changes < 0 || replacedCharSizeChange == replacedCharSizeChangeOriginal {
-						newAlign[0] = applySign(newAlign[0], oShift)
-						newAlign[1] = applySign(newAlign[1], oShift)
-					}
-				}
-
-				newAlignments = append(newAlignments, newAlign)
-			}
-
-			// Now, update original alignments for current `char` with new alignments
-			// fmt.Printf("newAlignments: %+v\n", newAlignments)
-			var aligns [][]int
-			if align[0] == 0 {
-				aligns = append(newAlignments, n.alignmentsOriginal[align[1]:]...)
-			} else {
-				aligns = append(n.alignmentsOriginal[:align[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[align[1]:]...)
-			}
-			n.alignmentsOriginal = aligns
-			// log.Printf("Updated to: %+v\n", newAlignments)
-			// fmt.Printf("current n.alignmentsOriginal: %+v\n", n.alignmentsOriginal)
-		}
-
-		// If some were removed, we need to zero them out in the original alignments
-		if removingFromOriginal > 0 {
-			start := n.alignments[idx][1]
-			end := n.alignments[idx+totalBytesToRemove][1]
-			// They should use the original alignment of the current character
-			newIdx := n.alignmentsOriginal[align[0]][1]
-			alignments := n.alignmentsOriginal[start:end]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Removing original alignments: %v\n", alignments)
-				for _, offsets := range alignments {
-					offsets[0] = newIdx
-					offsets[1] = newIdx
-					newAlignments = append(newAlignments, offsets)
-				}
-
-				aligns := append(n.alignmentsOriginal[:start], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[end:]...)
-				n.alignmentsOriginal = aligns
-			}
-		}
-
-		// Keep track of the changes for next offsets
-		offset += replacedCharSize
-		offset += totalBytesToRemove
-		// For the original only the real modifications count
-		oShift += replacedCharSizeChange
-		oShift -= totalBytesToRemove
-		// log.Printf("New normalized alignment: %vx %v\n", len(item.RuneVal), align)
 
 		for i := 0; i < len(item.RuneVal); i++ {
 			normalizedAlignments = append(normalizedAlignments, align)
 		}
+		normalized.WriteString(item.RuneVal)
+	}
 
-		// Then we keep only the char for string reconstruction
-		normalizedRunes = append(normalizedRunes, []rune(item.RuneVal)...)
-
-		// fmt.Printf("replacedCharSize: %v\n", replacedCharSize)
-		// fmt.Printf("totalBytesToRemove: %v\n", totalBytesToRemove)
-		// fmt.Printf("next offset: %v\n", offset)
+	// III. Replace alignments and the `normalized` string in range
+	newAlignments := make([][]int, 0, len(n.alignments)+len(normalizedAlignments))
+	newAlignments = append(newAlignments, n.alignments[:nRange.start]...)
+	newAlignments = append(newAlignments, normalizedAlignments...)
+	newAlignments = append(newAlignments, n.alignments[nRange.end:]...)
+	n.alignments = newAlignments
+	n.normalized = n.normalized[:nRange.start] + normalized.String() + n.normalized[nRange.end:]
 
-	} // End of `For` block
+	// IV. Update the original alignments accordingly
+	n.alignmentsOriginal = invertAlignments(n.alignments, n.LenOriginal())
 
-	// Apply the changes to the remaining original alignments
-	if oShift != 0 {
-		// log.Printf("Shifting the end  from %v using shift: %v\n", endShiftStart, oShift)
+	return n
+}
 
-		var endShift [][]int
-		for _, item := range n.alignments[endShiftStart:] {
-			endShift = append(endShift, item)
-		}
-		endRange := expandAlignments(endShift)
-
-		// log.Printf("End range: %+v\n", endRange)
-
-		if endRange != nil {
-			alignments := n.alignmentsOriginal[endRange[0]:endRange[1]]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Alignments before shifting: %+v\n", alignments)
-				for _, offsets := range alignments {
-					newOffset0 := applySign(offsets[0], oShift)
-					newOffset1 := applySign(offsets[1], oShift)
-					newAlignments = append(newAlignments, []int{newOffset0, newOffset1})
-				}
-				aligns := append(n.alignmentsOriginal[:endRange[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[endRange[1]:]...)
-				n.alignmentsOriginal = aligns
-				// log.Printf("After: %+v\n", newAlignments)
+// invertAlignments computes, for each byte of the original string, the range of the
+// normalized string that is aligned with it. Bytes aligned with nothing get an empty
+// range, right after the previous one.
+func invertAlignments(alignments [][]int, lenOriginal int) [][]int {
+	inverted := make([][]int, lenOriginal)
+	for i, align := range alignments {
+		for j := align[0]; j < align[1] && j < lenOriginal; j++ {
+			if inverted[j] == nil {
+				inverted[j] = []int{i, i + 1}
+			} else {
+				inverted[j][1] = i + 1
 			}
 		}
 	}
 
-	// replace alignments with new ones in range
-	var newAlignments [][]int
-	// fmt.Printf("nRange: %v\n", nRange)
-	// fmt.Printf("normalizedAlignments: %+v\n", normalizedAlignments)
-	// fmt.Printf("alignments to be replaced: %v\n", n.alignments[nRange.start:nRange.end])
-	// fmt.Printf("normalized alignments before action: %v\n", n.alignments)
-	if len(n.alignments[:nRange.start]) == 0 { // at the beginning
-		newAlignments = append(normalizedAlignments, n.alignments[nRange.end:]...)
-	} else { // in the middle
-		var beforeAligns, afterAligns [][]int
-		for i, a := range n.alignments {
-			if i < nRange.start {
-				beforeAligns = append(beforeAligns, a)
-			}
-			if i >= nRange.end {
-				afterAligns = append(afterAligns, a)
-			}
+	end := 0
+	for j, r := range inverted {
+		if r == nil {
+			inverted[j] = []int{end, end}
+		} else {
+			end = r[1]
 		}
-		newAlignments = append(beforeAligns, normalizedAlignments...)
-		newAlignments = append(newAlignments, afterAligns...)
 	}
-	n.alignments = newAlignments
-
-	// Finally, change the `normalized` string
-	newNormalized := n.normalized[:nRange.start] + string(normalizedRunes) + n.normalized[nRange.end:]
-	n.normalized = newNormalized
 
-	// log.Printf("New normalized alignments: %+v\nNew original alignments: %+v\n", n.alignments, n.alignmentsOriginal)
-	// log.Printf("New normalized string: %q\n", n.normalized)
-
-	return n
+	return inverted
 }
 
 // Transform applies transformations to the current normalized version, updating the current
@@ -857,9 +561,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 // {5, 6},
 // {6, 7},
 func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *NormalizedString) {
-	start := 0
-	end := len(n.original)
-	wholeRange := NewRange(start, end, OriginalTarget)
+	wholeRange := NewRange(0, n.Len(), NormalizedTarget)
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
-- 
2.43.0


From c8cf3b47d45ada1440756305a2fee2bd8545d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 47/98] fix: changing the case of, or mapping, a normalized
 string keeps its alignments

---
 normalizer/normalized.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 894f975..4479b4c 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -826,7 +826,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 	s := n.normalized
 	var changeMap []ChangeMap
 	for _, r := range []rune(s) {
-		changeMap = append(changeMap, ChangeMap{string(r), 0})
+		changeMap = append(changeMap, ChangeMap{string(nfn(r)), 0})
 	}
 
 	return n.Transform(changeMap, 0)
@@ -835,14 +835,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 // ForEach applies function on each `char` of normalized string
 // Similar to Map???
 func (n *NormalizedString) ForEach(nfn NormFn) (retVal *NormalizedString) {
-	s := n.normalized
-	var runes []rune
-	for _, r := range []rune(s) {
-		runes = append(runes, nfn(r))
-	}
-	n.normalized = string(runes)
-
-	return n
+	return n.Map(nfn)
 }
 
 // RemoveAccents removes all Unicode Mn group (M non-spacing)
@@ -854,16 +847,12 @@ func (n *NormalizedString) RemoveAccents() (retVal *NormalizedString) {
 
 // Lowercase transforms string to lowercase
 func (n *NormalizedString) Lowercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToLower(n.normalized)
-
-	return n
+	return n.Map(unicode.ToLower)
 }
 
 // Uppercase transforms string to uppercase
 func (n *NormalizedString) Uppercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToUpper(n.normalized)
-
-	return n
+	return n.Map(unicode.ToUpper)
 }
 
 // Clear clears the normalized part of the string
-- 
2.43.0


From 398fda3cb44d22629179e22997da4cbc40703d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 48/98] fix: unicode normalization composes, works on
 normalized input, and aligns every rune

---
 normalizer/normalized.go | 183 +++++++++++----------------------------
 1 file changed, 52 insertions(+), 131 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 4479b4c..e598acd 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -565,158 +565,79 @@ func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
+// NFD applies the canonical decomposition to the normalized string
 func (n *NormalizedString) NFD() (retVal *NormalizedString) {
+	return n.normalizeForm(norm.NFD)
+}
 
-	s := n.normalized
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-	// Create slice of (char, changes) to map changing
-	// if added (inserted) rune, changes = 1; `-N` if char
-	// right before N removed chars
-	// changes = 0 if this represents the old one (even if changed)
-
-	// Iterating over string and apply tranformer (NFD). One character at a time
-	// A `character` is defined as:
-	// - a sequence of runes that starts with a starter,
-	// - a rune that does not modify or combine backwards with any other rune,
-	// - followed by possibly empty sequence of non-starters, that is, runes that do (typically accents).
-	// We will iterate over string and apply transformer to each char
-	// If a char composes of one rune, there no changes
-	// If more than one rune, first is no change, the rest is 1 changes
-	it.InitString(norm.NFD, s)
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
-
-	// for i, c := range changeMap {
-	// fmt.Printf("%v - Char: %+q - changes: %v\n", i, c.RuneVal, c.Changes)
-	// }
+// NFC applies the canonical decomposition, followed by the canonical composition
+func (n *NormalizedString) NFC() (retVal *NormalizedString) {
+	return n.normalizeForm(norm.NFC)
+}
 
-	return n.Transform(changeMap, 0)
+// NFKD applies the compatibility decomposition to the normalized string
+func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
+	return n.normalizeForm(norm.NFKD)
 }
 
-func (n *NormalizedString) NFC() (retVal *NormalizedString) {
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
+// NFKC applies the compatibility decomposition, followed by the canonical composition
+func (n *NormalizedString) NFKC() (retVal *NormalizedString) {
+	return n.normalizeForm(norm.NFKC)
+}
 
+// normalizeForm applies the given unicode normalization form.
+//
+// It iterates over the segments of the string that normalize independently, that is
+// a starter followed by its (possibly many) non-starters, and aligns the runes of a
+// normalized segment with those of the segment it comes from.
+func (n *NormalizedString) normalizeForm(form norm.Form) (retVal *NormalizedString) {
 	s := n.normalized
-
-	isNFC := norm.Form.IsNormalString(norm.NFC, s)
-	if isNFC {
+	if form.IsNormalString(s) {
 		return n
 	}
 
-	it.InitString(norm.NFD, s)
-
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
-
-	return n.Transform(changeMap, 0)
-}
-
-func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
-
-	s := n.normalized
-	isNFKD := norm.Form.IsNormalString(norm.NFKD, s)
-	if isNFKD {
-		return
+	decomposed := norm.NFD
+	if form == norm.NFKC || form == norm.NFKD {
+		decomposed = norm.NFKD
 	}
 
 	var (
 		changeMap []ChangeMap
 		it        norm.Iter
 	)
-
-	it.InitString(norm.NFKD, s)
+	it.InitString(form, s)
 	for !it.Done() {
-		runes := []rune(string(it.Next()))
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
+		start := it.Pos()
+		normalized := bytes.Runes(it.Next())
+		segment := []rune(s[start:it.Pos()])
+
+		// when nothing composes, every rune of the segment gives the runes
+		// of its own decomposition
+		var changes []int
+		for _, r := range segment {
+			for i := range []rune(decomposed.String(string(r))) {
+				if i == 0 {
+					changes = append(changes, 0)
+				} else {
+					changes = append(changes, 1)
+				}
 			}
 		}
-	}
 
-	return n.Transform(changeMap, 0)
-}
-
-func (n *NormalizedString) NFKC() (retVal *NormalizedString) {
-
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFKC := norm.Form.IsNormalString(norm.NFKC, s)
-
-	if isNFKC {
-		return n
-	}
-
-	it.InitString(norm.NFKD, n.normalized)
-
-	for !it.Done() {
-		runes := []rune(string(it.Next()))
+		if len(changes) != len(normalized) {
+			changes = make([]int, len(normalized))
+			for i := range changes {
+				switch {
+				case i >= len(segment):
+					changes[i] = 1
+				case i == len(normalized)-1:
+					changes[i] = len(normalized) - len(segment)
+				}
+			}
+		}
 
-		if len(runes) == 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: 0,
-			})
-		} else if len(runes) > 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: -1,
-			})
+		for i, r := range normalized {
+			changeMap = append(changeMap, ChangeMap{string(r), changes[i]})
 		}
 	}
 
-- 
2.43.0


From 2312b20a8da9b273ec752a88b1b59f10ea84d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 49/98] fix: prepending to an empty string, or nothing, leaves
 it as it is

---
 normalizer/normalized.go | 5 +++--
 normalizer/prepend.go    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e598acd..efb84a5 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -696,7 +696,7 @@ func (n *NormalizedString) Filter(fn func(rune) bool) (retVal *NormalizedString)
 func (n *NormalizedString) Prepend(s string) (retVal *NormalizedString) {
 	chars := []rune(n.normalized)
 	var changeMap []ChangeMap
-	if len(chars) == 0 {
+	if len(chars) == 0 || len(s) == 0 {
 		return n
 	}
 
@@ -711,7 +711,8 @@ func (n *NormalizedString) Prepend(s string) (retVal *NormalizedString) {
 		changeMap = append(changeMap, c)
 	}
 	changeMap = append(changeMap, ChangeMap{string(next), 1})
-	inputRange := NewRange(0, len([]byte(string(next))), NormalizedTarget)
+	_, nextLen := utf8.DecodeRuneInString(n.normalized)
+	inputRange := NewRange(0, nextLen, NormalizedTarget)
 
 	return n.TransformRange(inputRange, changeMap, 0)
 }
diff --git a/normalizer/prepend.go b/normalizer/prepend.go
index 9fef305..88dc61a 100644
--- a/normalizer/prepend.go
+++ b/normalizer/prepend.go
@@ -12,7 +12,7 @@ func NewPrepend(prepend string) *Prepend {
 // Implement Normalizer for Prepend
 func (p *Prepend) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	if normalized.IsEmpty() {
-		return nil, nil
+		return normalized, nil
 	}
 
 	return normalized.Prepend(p.Prepend), nil
-- 
2.43.0


From 52cad18ef33e5b122162867b5f8e835644989438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 50/98] fix: bert normalization replaces every whitespace with
 a space

---
 normalizer/bert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 7adce5e..b07bc35 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -125,10 +125,10 @@ func doCleanText(n *NormalizedString) *NormalizedString {
 		if r == 0 || r == 0xfffd || isControl(r) {
 			removed += 1
 		} else {
+			if isWhitespace(r) {
+				r = ' '
+			}
 			if removed > 0 {
-				if isWhitespace(r) {
-					r = ' '
-				}
 				changeMap = append(changeMap, ChangeMap{
 					RuneVal: string(r),
 					Changes: -removed,
-- 
2.43.0


From b51e9eb3757514916ec13bcebcd8853dee20ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 51/98] fix: bert normalization strips the accents of composed
 characters

---
 normalizer/bert.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index b07bc35..a35ecf8 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -185,7 +185,8 @@ func doLowercase(n *NormalizedString) *NormalizedString {
 }
 
 func stripAccents(n *NormalizedString) *NormalizedString {
-	return n.RemoveAccents()
+	// accents are characters of their own once decomposed
+	return n.NFD().RemoveAccents()
 }
 
 // Normalize implements Normalizer interface for BertNormalizer
@@ -198,14 +199,14 @@ func (bn *BertNormalizer) Normalize(n *NormalizedString) (*NormalizedString, err
 		n = doHandleChineseChars(n)
 	}
 
-	if bn.Lowercase {
-		n = doLowercase(n)
-	}
-
 	if bn.StripAccents {
 		n = stripAccents(n)
 	}
 
+	if bn.Lowercase {
+		n = doLowercase(n)
+	}
+
 	return n, nil
 }
 
-- 
2.43.0


From 80edf0bbb55e49564d7ead587465473aeeac53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 52/98] fix: a normalizer made with options applies them

---
 normalizer/normalizer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalizer/normalizer.go b/normalizer/normalizer.go
index 9438fc8..c91bdd1 100644
--- a/normalizer/normalizer.go
+++ b/normalizer/normalizer.go
@@ -24,7 +24,7 @@ func newNormalizer(opts ...DefaultOption) *normalizer {
 
 func (n *normalizer) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 
-	return normalized, nil
+	return n.Normalizer.Normalize(normalized)
 }
 
 type Option func(*normalizer)
@@ -32,14 +32,14 @@ type Option func(*normalizer)
 // WithBertNormalizer creates normalizer with BERT normalization features.
 func WithBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents bool) Option {
 	return func(o *normalizer) {
-		NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
+		o.Normalizer = NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
 	}
 }
 
 // WithUnicodeNormalizer creates normalizer with one of unicode NFD, NFC, NFKD, or NFKC normalization feature.
 func WithUnicodeNormalizer(form norm.Form) Option {
 	return func(o *normalizer) {
-		NewUnicodeNormalizer(form)
+		o.Normalizer = NewUnicodeNormalizer(form)
 	}
 
 }
-- 
2.43.0


From 62ff65f714bf0d23a5e24f68ff158af7c986380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 53/98] fix: ranges and slices of a normalized string stay
 within it, and leave their input as it was

---
 normalizer/normalized.go | 101 ++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 50 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index efb84a5..15436ff 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -98,31 +98,19 @@ func (r *Range) On() IndexOn {
 // original provided range was out of bound.
 // maxLen is maximal len of string in `chars` (runes)
 func (r *Range) IntoFullRange(maxLen int) (retVal *Range) {
+	full := *r
+
 	// case: start out of bound (including `None` value)
-	// if r.start == -1 || r.start > maxLen {
-	if r.start == -1 {
-		r.start = 0
+	if full.start == -1 {
+		full.start = 0
 	}
 
-	/*
-	 *   if r.start > r.end {
-	 *     r.start = r.end - 1
-	 *   }
-	 *  */
 	//  case: end out of bound
-	if r.end > maxLen {
-		r.end = maxLen
+	if full.end > maxLen {
+		full.end = maxLen
 	}
 
-	/*
-	 *   // case: end is None value
-	 *   if r.end == -1 {
-	 *     // TODO: should we just accept as `None`?
-	 *     r.end = maxLen
-	 *   }
-	 *  */
-
-	return r
+	return &full
 }
 
 // A `NormalizedString` takes care of processing an "original" string to modify
@@ -252,11 +240,6 @@ func (n *NormalizedString) ConvertOffset(inputRange *Range) (retVal *Range) {
 		alignments = n.alignments
 	}
 
-	// If we target an empty range, let's return the same
-	if target.start == target.end {
-		return target
-	}
-
 	// If we target 0..0 on an empty string, we want to expand to the entire equivalent
 	if isOriginal && len(n.alignmentsOriginal) == 0 && equalIntSlice(target.Values(), []int{0, 0}) {
 		return NewRange(0, lenNormalized, indexOn)
@@ -269,26 +252,49 @@ func (n *NormalizedString) ConvertOffset(inputRange *Range) (retVal *Range) {
 	// Otherwise, just convert them.
 	// NOTE. if out of bound, return nil
 	var lowerB, upperB int = 0, len(alignments)
-	if target.start < lowerB || target.start > upperB || target.end < lowerB || target.end > upperB {
+	if target.start < lowerB || target.start > upperB || target.end < lowerB || target.end > upperB || target.start > target.end {
 		return nil
 	}
 
+	// If we target an empty range, let's return the same
+	if target.start == target.end {
+		return target
+	}
+
 	newAlignments := alignments[target.start:target.end]
 	newRange := expandAlignments(newAlignments)
 	return NewRange(newRange[0], newRange[1], indexOn)
 }
 
+// convertWithin is ConvertOffset, with empty ranges kept within the converted string
+func (n *NormalizedString) convertWithin(inputRange *Range) (retVal *Range) {
+	r := n.ConvertOffset(inputRange)
+	if r == nil {
+		return nil
+	}
+
+	maxLen := n.LenOriginal()
+	if inputRange.indexOn == OriginalTarget {
+		maxLen = n.Len()
+	}
+
+	return NewRange(min(r.start, maxLen), min(r.end, maxLen), r.indexOn)
+}
+
 // Range returns a substring of the NORMALIZED string
 func (n *NormalizedString) Range(r *Range) (retVal string) {
 
 	bytes := []byte(n.normalized)
 	switch r.indexOn {
 	case OriginalTarget:
-		nRange := n.ConvertOffset(r)
-		retVal = string(bytes[nRange.start:nRange.end])
+		if nRange := n.convertWithin(r); nRange != nil {
+			retVal = string(bytes[nRange.start:nRange.end])
+		}
 	case NormalizedTarget:
 		nRange := r.IntoFullRange(n.Len())
-		retVal = string(bytes[nRange.start:nRange.end])
+		if 0 <= nRange.start && nRange.start <= nRange.end {
+			retVal = string(bytes[nRange.start:nRange.end])
+		}
 	}
 
 	return retVal
@@ -300,11 +306,14 @@ func (n *NormalizedString) RangeOriginal(r *Range) (retVal string) {
 	bytes := []byte(n.original)
 	switch r.indexOn {
 	case NormalizedTarget:
-		oRange := n.ConvertOffset(r)
-		retVal = string(bytes[oRange.start:oRange.end])
+		if oRange := n.convertWithin(r); oRange != nil {
+			retVal = string(bytes[oRange.start:oRange.end])
+		}
 	case OriginalTarget:
 		oRange := r.IntoFullRange(n.LenOriginal())
-		retVal = string(bytes[oRange.start:oRange.end])
+		if 0 <= oRange.start && oRange.start <= oRange.end {
+			retVal = string(bytes[oRange.start:oRange.end])
+		}
 	default:
 		log.Fatalf("Invalid Range type: %v\n", r.indexOn)
 	}
@@ -342,7 +351,7 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 	}
 
 	// Check if r.start is on a rune boundary
-	if r.start != 0 {
+	if r.start != len(s) {
 		// If not the very start, verify it's a valid rune boundary
 		if !utf8.RuneStart(s[r.start]) {
 			return nil
@@ -371,24 +380,19 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 	var nRange, oRange *Range
 	switch fullRange.indexOn {
 	case OriginalTarget:
-		nRange = n.ConvertOffset(fullRange)
-		oRange = fullRange
+		nRange = n.convertWithin(fullRange)
+		oRange = fullRange.IntoFullRange(n.LenOriginal())
 	case NormalizedTarget:
-		nRange = fullRange
-		oRange = n.ConvertOffset(fullRange)
+		nRange = fullRange.IntoFullRange(n.Len())
+		oRange = n.convertWithin(fullRange)
+	}
+	if nRange == nil || oRange == nil {
+		return nil
 	}
 
 	// 2. `nShift` is normalized shift on original string
 	nShift := oRange.start
 
-	// 3. `oShift` is original shift on original string
-	var oShift int
-	if r := expandAlignments(n.alignmentsOriginal[0:nShift]); r == nil {
-		oShift = 0
-	} else {
-		oShift = r[1]
-	}
-
 	var (
 		sOriginal, sNormalized           string
 		sAlignments, sAlignmentsOriginal [][]int
@@ -398,13 +402,10 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 	sOriginal = n.RangeOriginal(fullRange)
 	sNormalized = n.Range(fullRange)
 	for _, a := range n.alignments[nRange.start:nRange.end] {
-		sAlignment := []int{a[0] - nShift, a[1] - nShift}
+		sAlignment := []int{max(a[0], nShift) - nShift, min(max(a[1], nShift), oRange.end) - nShift}
 		sAlignments = append(sAlignments, sAlignment)
 	}
-	for _, a := range n.alignmentsOriginal[oRange.start:oRange.end] {
-		sAlignmentOriginal := []int{a[0] - oShift, a[1] - oShift}
-		sAlignmentsOriginal = append(sAlignmentsOriginal, sAlignmentOriginal)
-	}
+	sAlignmentsOriginal = invertAlignments(sAlignments, len(sOriginal))
 	sOriginalShift = n.originalShift + oRange.start
 
 	return &NormalizedString{
@@ -436,7 +437,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 	var nRange *Range
 	switch inputRange.indexOn {
 	case OriginalTarget:
-		nRange = n.ConvertOffset(inputRange)
+		nRange = n.convertWithin(inputRange)
 		if nRange == nil {
 			return n
 		}
-- 
2.43.0


From d58c9b7634b5e224390b9f2ec859514684c0d5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 54/98] fix: converting ranges between bytes and chars counts
 the bytes of each char

---
 normalizer/normalized.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 15436ff..f84e4ff 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1100,7 +1100,7 @@ func BytesToChar(s string, byteRange []int) (retVal []int) {
 
 	var selectedChars []byteIdxRune
 	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
+	for i, char := range s {
 		if i >= byteRange[0] && i <= byteRange[1] {
 			selectedChars = append(selectedChars, byteIdxRune{
 				byteIdx: i,
@@ -1141,7 +1141,7 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 
 	var chars []byteIdxRune
 	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
+	for i, char := range s {
 		chars = append(chars, byteIdxRune{
 			byteIdx: i,
 			runeIdx: currRuneIdx,
@@ -1153,14 +1153,14 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 	if charRange[0] == charRange[1] {
 		for i := range chars {
 			if i == charRange[0] {
-				start = chars[i+1].byteIdx
-				end = chars[i+1].byteIdx
+				start = chars[i].byteIdx
+				end = chars[i].byteIdx
 			}
 		}
 	} else {
 		var selected []byteIdxRune
 		for _, c := range chars {
-			if c.byteIdx > charRange[0] && c.byteIdx <= charRange[1] {
+			if c.runeIdx >= charRange[0] && c.runeIdx < charRange[1] {
 				selected = append(selected, c)
 			}
 		}
-- 
2.43.0


From 36f7d93beb1836fb8c79766ebf6ef61e1c81ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 55/98] fix: inverting a pattern works for every pattern

---
 normalizer/pattern.go | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/normalizer/pattern.go b/normalizer/pattern.go
index 1a5ebe7..91b72b0 100644
--- a/normalizer/pattern.go
+++ b/normalizer/pattern.go
@@ -1,11 +1,8 @@
 package normalizer
 
 import (
-	"log"
 	// "reflect"
 	"regexp"
-
-	"github.com/sugarme/tokenizer/util"
 )
 
 // Pattern is used to split a NormalizedString
@@ -284,21 +281,7 @@ func NewInvertPattern(p Pattern) *Invert {
 
 // FindMatches implement Pattern interface for Invert
 func (i *Invert) FindMatches(inside string) []OffsetsMatch {
-	var matches []OffsetsMatch
-	typ := util.GetType(i.Pattern)
-	switch typ {
-	case "*StringPattern":
-		matches = i.Pattern.(*StringPattern).FindMatches(inside)
-	case "*RunePattern":
-		matches = i.Pattern.(*RunePattern).FindMatches(inside)
-	case "*FnPattern":
-		matches = i.Pattern.(*FnPattern).FindMatches(inside)
-	case "*RegexpPattern":
-		matches = i.Pattern.(*RegexpPattern).FindMatches(inside)
-
-	default:
-		log.Fatalf("Unsupported type - %q\n", typ)
-	}
+	matches := i.Pattern.FindMatches(inside)
 
 	return invert(matches)
 }
-- 
2.43.0


From 89a2ddb54cd30ec54c4c39ebc4d0b52bf33606a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 56/98] fix: a precompiled charsmap does not look past the end
 of its trie

---
 spm/spm-precompiled.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index 08050ef..3eebb95 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -90,6 +90,10 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 	nodePos := 0
 	var results []int
 
+	if len(da.Array) == 0 {
+		return results
+	}
+
 	unit := da.Array[nodePos]
 	nodePos ^= int(unit.Offset()) // bitwise XOR
 	for _, c := range key {
@@ -98,6 +102,9 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(c)
+		if nodePos >= len(da.Array) {
+			return results
+		}
 		unit = da.Array[nodePos]
 
 		if unit.Label() != uint(c) {
@@ -105,7 +112,7 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(unit.Offset())
-		if unit.HasLeaf() {
+		if unit.HasLeaf() && nodePos < len(da.Array) {
 			results = append(results, int(da.Array[nodePos].Value()))
 		}
 	}
@@ -132,6 +139,10 @@ func Parse(precompiledCharsmap []byte) ([]byte, Array) {
 }
 
 func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
+	if len(data) < 4 || uint64(len(data)-4) < uint64(binary.LittleEndian.Uint32(data[:4])) {
+		return nil, fmt.Errorf("invalid precompiled charsmap: %d bytes are too few for its trie", len(data))
+	}
+
 	normalizedBlob, trieBlob := Parse(data)
 
 	normalized := string(normalizedBlob)
-- 
2.43.0


From 53a1ea3ed25dca9e2149e586093e2c5df6500b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 57/98] fix: precompiled normalization rewrites every part of
 the text, and keeps its combining marks

---
 normalizer/precompiled.go | 55 ++++++++++++++++++---------------------
 spm/spm-precompiled.go    | 16 +++++++++---
 2 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/normalizer/precompiled.go b/normalizer/precompiled.go
index 9afd0a6..f3853b2 100644
--- a/normalizer/precompiled.go
+++ b/normalizer/precompiled.go
@@ -28,13 +28,14 @@ func replace(transformations []ChangeMap, oldPart, newPart string) []ChangeMap {
 	switch {
 	case diff > 0:
 		// If adding some characters, the last diff characters should be == 1
-		for i := n - 1; i >= diff || i >= 0; i-- {
+		for i := n - 1; i >= n-diff && i >= 0; i-- {
 			transformations[i].Changes = 1
 		}
 	case diff < 0:
 		// If removing some characters, the last one should include the diff
-		n := len(transformations)
-		transformations[n-1].Changes += diff
+		if n > 0 {
+			transformations[n-1].Changes += diff
+		}
 	}
 
 	return transformations
@@ -48,51 +49,45 @@ type Precompiled struct {
 func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	original := normalized.GetNormalized()
 	var transformations []ChangeMap
-	for i := 0; i < len(original); i++ {
-		transformations = append(transformations, ChangeMap{})
-	}
+	var removed int // chars removed at the beginning
 
 	graphemes := uniseg.NewGraphemes(original)
 
 	var modified bool
 
+	transform := func(part string) bool {
+		norm, ok := m.Lookup(part)
+		if !ok {
+			return false
+		}
+		modified = true
+		if len(norm) == 0 && len(transformations) == 0 {
+			removed += len([]rune(part))
+		} else {
+			transformations = replace(transformations, part, norm)
+		}
+		return true
+	}
+
 	for graphemes.Next() {
 		grapheme := graphemes.Str()
 
-		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
-				modified = true
-				transformations = replace(transformations, grapheme, norm)
-
-				continue
-			}
+		if len(grapheme) < 6 && transform(grapheme) {
+			continue
 		}
 
-		// TT. This is a hacky way to turn non-spacing marks into hexa string
-		// and pass the unit tests.
-		grapheme = spm.NormalizeMn(grapheme)
-		var charIdx int = 0
 		for _, r := range grapheme {
-			part := string(grapheme)[charIdx : charIdx+len(string(r))]
-			norm := m.Transform(part)
-			norm = spm.NormalizeMn(norm)
-			if len(norm) > 0 {
-				modified = true
-				transformations = replace(transformations, part, norm)
-			} else {
-				t := ChangeMap{
+			if !transform(string(r)) {
+				transformations = append(transformations, ChangeMap{
 					RuneVal: string(r),
 					Changes: 0,
-				}
-				transformations = append(transformations, t)
+				})
 			}
-			// charIdx += len(string(r))
 		}
 	}
 
 	if modified {
-		normalized = normalized.Transform(transformations, 0)
+		normalized = normalized.Transform(transformations, removed)
 	}
 
 	return normalized, nil
diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index 3eebb95..ba3c1b4 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -156,12 +156,22 @@ func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
 }
 
 func (m *Precompiled) Transform(chunk string) string {
+	normalized, _ := m.Lookup(chunk)
+	return normalized
+}
+
+// Lookup returns what the given chunk is normalized to (possibly nothing), and
+// whether it has a normalization.
+func (m *Precompiled) Lookup(chunk string) (string, bool) {
 	results := m.Trie.CommonPrefixSearch([]byte(chunk))
 	if len(results) == 0 {
-		return ""
+		return "", false
 	}
 
 	index := results[0]
+	if index > len(m.Normalized) {
+		return "", false
+	}
 	index2 := index
 	for index2 < len(m.Normalized) {
 		if []byte(m.Normalized)[index2] == byte(0) {
@@ -172,7 +182,7 @@ func (m *Precompiled) Transform(chunk string) string {
 
 	normalized := m.Normalized[index:index2]
 
-	return string(normalized)
+	return string(normalized), true
 }
 
 func NormalizeMn(input string) string {
@@ -218,7 +228,7 @@ func (m *Precompiled) NormalizeString(original string) string {
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
-				return strings.Join(chars, "")
+				continue
 			}
 		}
 
-- 
2.43.0


From 4fd03ec251218cf042fe4c28087aa1e53de503bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 58/98] fix: stripping a token shorter than what may be
 stripped

---
 decoder/strip.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/strip.go b/decoder/strip.go
index dd428e2..c93ebe2 100644
--- a/decoder/strip.go
+++ b/decoder/strip.go
@@ -36,7 +36,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		chars := strings.Split(token, "")
 
 		startCut := 0
-		for i := 0; i < d.Start; i++ {
+		for i := 0; i < d.Start && i < len(chars); i++ {
 			c := chars[i]
 			if c == d.Content {
 				startCut = i + 1
@@ -47,7 +47,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		}
 
 		stopCut := len(chars)
-		for i := 0; i < d.Stop; i++ {
+		for i := 0; i < d.Stop && i < len(chars)-startCut; i++ {
 			index := len(chars) - i - 1
 			if chars[index] == d.Content {
 				stopCut = index
-- 
2.43.0


From 3682afdb5c2efbcc97089a58eb729809f4922744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 59/98] fix: a token that only looks like a byte decodes as it
 is

---
 decoder/byte-fallback.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/byte-fallback.go b/decoder/byte-fallback.go
index 763f85a..72a85fa 100644
--- a/decoder/byte-fallback.go
+++ b/decoder/byte-fallback.go
@@ -43,7 +43,8 @@ func (d *ByteFallback) DecodeChain(tokens []string) []string {
 			// convert hex string to bytes
 			bytes, err = hex.DecodeString(token[3:5])
 			if err != nil {
-				panic(err)
+				// not a byte, just a token that looks like one
+				bytes = nil
 			}
 		}
 
-- 
2.43.0


From a0ef4275072c7802aefdaefa3d41aa8b5e0a6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 60/98] fix: default decoders decode

---
 decoder/bpe.go       |  2 +-
 decoder/ctc.go       | 12 +++---------
 decoder/wordpiece.go |  5 +----
 3 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/decoder/bpe.go b/decoder/bpe.go
index 44bfec7..12989b9 100644
--- a/decoder/bpe.go
+++ b/decoder/bpe.go
@@ -29,7 +29,7 @@ func NewBpeDecoder(suffix string) *BpeDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultBpeDecoder() *BpeDecoder {
-	return &BpeDecoder{suffix: "</w>"}
+	return NewBpeDecoder("</w>")
 }
 
 /*
diff --git a/decoder/ctc.go b/decoder/ctc.go
index f1f0655..23be39a 100644
--- a/decoder/ctc.go
+++ b/decoder/ctc.go
@@ -30,13 +30,7 @@ func NewCTC(padToken string, wordDelimiterToken string, cleanup bool) *CTC {
 }
 
 func DefaultCTC() *CTC {
-	base := new(DecoderBase)
-	return &CTC{
-		DecoderBase:        base,
-		PadToken:           "<pad>",
-		WordDelimiterToken: "|",
-		Cleanup:            true,
-	}
+	return NewCTC("<pad>", "|", true)
 }
 
 // dedup deduplicates consecutive elements.
@@ -45,8 +39,8 @@ func dedup(tokens []string) []string {
 
 	var previous string
 
-	for _, tok := range tokens {
-		if tok != previous {
+	for i, tok := range tokens {
+		if i == 0 || tok != previous {
 			toks = append(toks, tok)
 			previous = tok
 		}
diff --git a/decoder/wordpiece.go b/decoder/wordpiece.go
index 8c66b62..37acdc0 100644
--- a/decoder/wordpiece.go
+++ b/decoder/wordpiece.go
@@ -33,10 +33,7 @@ func NewWordPieceDecoder(prefix string, cleanup bool) *WordPieceDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultWordpieceDecoder() *WordPieceDecoder {
-	return &WordPieceDecoder{
-		prefix:  "##",
-		cleanup: true,
-	}
+	return NewWordPieceDecoder("##", true)
 }
 
 /*
-- 
2.43.0


From 02f3dffe796ad53c2b625f890ee76c40ee728469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 61/98] fix: bert normalization strips accents by default when
 it lowercases

---
 pretrained/normalizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index fa6bee3..aa5fb87 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -90,8 +90,9 @@ func createBertNormalizer(params *util.Params) (normalizer.Normalizer, error) {
 
 	cleanText := params.Get("clean_text", false).(bool)
 	handleChineseChars := params.Get("handle_chinese_chars", false).(bool)
-	stripAccents := params.Get("strip_accents", false).(bool)
 	lowercase := params.Get("lowercase", false).(bool)
+	// if not specified, accents are stripped along with lowercasing, as in the original BERT
+	stripAccents := params.Get("strip_accents", lowercase).(bool)
 
 	return normalizer.NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents), nil
 }
-- 
2.43.0


From b0c5c76dd155f0dba1350b5bfec10bc416d77f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 62/98] fix: replacing a regex in a configuration replaces what
 it matches

---
 pretrained/decoder.go    | 4 ++--
 pretrained/normalizer.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index afff515..b73d924 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -167,9 +167,9 @@ func createReplaceDecoder(params *util.Params) (*normalizer.Replace, error) {
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
 	}
 
 	content := params.Get("content").(string)
diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index aa5fb87..649e5e4 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -111,9 +111,9 @@ func createReplaceNormalizer(params *util.Params) (normalizer.Normalizer, error)
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
 	}
 
 	content := params.Get("content").(string)
-- 
2.43.0


From 8f401bd63b5bd85bf1231e6feec548eb074abd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 63/98] fix: a configuration with an Nmt normalizer is an error

---
 pretrained/normalizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index 649e5e4..40b33b1 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -174,7 +174,7 @@ func createPrecompiledNormalizer(params *util.Params) (normalizer.Normalizer, er
 
 func createNmtNormalizer(params *util.Params) (normalizer.Normalizer, error) {
 	// TODO
-	panic("NotImplementedError")
+	return nil, fmt.Errorf("Nmt normalizer is not implemented")
 }
 
 func createSequenceNormalizer(params *util.Params) (normalizer.Normalizer, error) {
-- 
2.43.0


From 5a85b238c79aacf5d6572f77160db6714fc62744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 64/98] fix: the added tokens of a configuration get the ids of
 their order

---
 pretrained/tokenizer.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pretrained/tokenizer.go b/pretrained/tokenizer.go
index e5769eb..1669300 100644
--- a/pretrained/tokenizer.go
+++ b/pretrained/tokenizer.go
@@ -72,12 +72,18 @@ func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
 	tk.WithDecoder(decoder)
 
 	// 6. AddedVocabulary
-	specialAddedTokens, addedTokens := CreateAddedTokens(config.AddedTokens)
-	if len(specialAddedTokens) > 0 {
-		tk.AddSpecialTokens(specialAddedTokens)
-	}
-	if len(addedTokens) > 0 {
-		tk.AddTokens(addedTokens)
+	// in the order of the configuration, that of their ids
+	for start, end := 0, 0; start < len(config.AddedTokens); start = end {
+		for end < len(config.AddedTokens) && config.AddedTokens[end].Special == config.AddedTokens[start].Special {
+			end++
+		}
+		specialAddedTokens, addedTokens := CreateAddedTokens(config.AddedTokens[start:end])
+		if len(specialAddedTokens) > 0 {
+			tk.AddSpecialTokens(specialAddedTokens)
+		}
+		if len(addedTokens) > 0 {
+			tk.AddTokens(addedTokens)
+		}
 	}
 
 	// 7. TruncationParams
-- 
2.43.0


From e67c90f9a30a92c6bcc3f855191bd0451988cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 65/98] fix: byte-level decoding keeps the tokens that are not
 byte-level encoded

---
 pretokenizer/bytelevel.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index f3e3ff6..52c6694 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -229,35 +229,31 @@ var _ tokenizer.Decoder = new(ByteLevel)
 // Decode converts any byte-level characters to their unicode couterpart
 // before merging everything back into a single string
 func (bl *ByteLevel) Decode(tokens []string) string {
-	s := strings.Join(tokens, "")
-	chars := strings.Split(s, "")
-
-	var bytes []byte
-
-	for _, c := range chars {
-		b := CharBytes[c]
-
-		bytes = append(bytes, b)
-	}
-
-	return string(bytes)
+	return strings.Join(bl.DecodeChain(tokens), "")
 }
 
 func (bl *ByteLevel) DecodeChain(tokens []string) []string {
 	out := make([]string, len(tokens))
 	for i, s := range tokens {
-		chars := strings.Split(s, "")
-		var bytes []byte
-		for _, c := range chars {
-			b := CharBytes[c]
+		out[i] = decodeToken(s)
+	}
 
-			bytes = append(bytes, b)
-		}
+	return out
+}
 
-		out[i] = string(bytes)
+// decodeToken converts the byte-level characters of a token to the bytes they stand
+// for. A token with any other character (an added token) is not byte-level encoded.
+func decodeToken(token string) string {
+	var bytes []byte
+	for _, c := range strings.Split(token, "") {
+		b, ok := CharBytes[c]
+		if !ok {
+			return token
+		}
+		bytes = append(bytes, b)
 	}
 
-	return out
+	return string(bytes)
 }
 
 // Implement PostProcessor for ByteLevel
-- 
2.43.0


From 6177ef0948a68ee5f0ede1607d42f949eac06d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 66/98] fix: byte-level processing keeps track of the sequence
 of each token

---
 pretokenizer/bytelevel.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index 52c6694..4dee690 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -282,8 +282,8 @@ func (bl *ByteLevel) Process(encoding, pairEncoding *tokenizer.Encoding, addSpec
 		newEncodings = encodings
 	}
 
-	for i, enc := range newEncodings {
-		enc.SetSequenceIds(i)
+	for i := range newEncodings {
+		newEncodings[i].SetSequenceIds(i)
 	}
 
 	if pairEncoding != nil {
-- 
2.43.0


From aef4dadfa124197cb9f2bab1a4041b3f432c2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 67/98] fix: metaspace splits on its replacement, whatever its
 characters

---
 pretokenizer/metaspace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretokenizer/metaspace.go b/pretokenizer/metaspace.go
index 7d9606f..4ed5d77 100644
--- a/pretokenizer/metaspace.go
+++ b/pretokenizer/metaspace.go
@@ -98,7 +98,7 @@ func (m *Metaspace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*to
 			// Never prepend
 		}
 
-		replacement := normalizer.NewRegexpPattern(m.Replacement)
+		replacement := normalizer.NewStringPattern(m.Replacement)
 		splits = normalized.Split(replacement, normalizer.MergedWithNextBehavior)
 
 		// log.Printf("splits: %+v\n", splits)
-- 
2.43.0


From 249d8ccc0d66426da570c94ab7827d2c92a86c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 68/98] fix: the whitespace pre-tokenizer keeps words of any
 script whole

---
 pretokenizer/whitespace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pretokenizer/whitespace.go b/pretokenizer/whitespace.go
index 00d071a..44a666a 100644
--- a/pretokenizer/whitespace.go
+++ b/pretokenizer/whitespace.go
@@ -21,7 +21,8 @@ var _ tokenizer.PreTokenizer = new(Whitespace)
 
 func (p *Whitespace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, normalized *normalizer.NormalizedString) []tokenizer.SplitIdx {
-		s := `\w+|[^\w\s]+`
+		// words of any script, as `\w+|[^\w\s]+` only knows of ASCII
+		s := `[\p{L}\p{M}\p{Nd}\p{Nl}\p{Pc}]+|[^\p{L}\p{M}\p{Nd}\p{Nl}\p{Pc}\s\v\x{85}\p{Z}]+`
 		rePattern := normalizer.NewRegexpPattern(s)
 		invert := normalizer.NewInvertPattern(rePattern)
 		splits := normalized.Split(invert, normalizer.RemovedBehavior)
-- 
2.43.0


From 84d8a46f0d3b37333aa13ddc1b4f02d347653670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 69/98] fix: splitting on a string in a configuration takes it
 literally

---
 pretrained/pretokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 87eb7fb..e45efe8 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -188,7 +188,7 @@ func createSplitPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error
 	if v, ok := patternMap["Regex"]; ok {
 		pattern = normalizer.NewRegexpPattern(v.(string))
 	} else if v, ok := patternMap["String"]; ok {
-		pattern = normalizer.NewRegexpPattern(v.(string))
+		pattern = normalizer.NewStringPattern(v.(string))
 	} else {
 		err := fmt.Errorf("Unsupported pattern: %#v\n", patternMap)
 		return nil, err
-- 
2.43.0


From 76f124c04e6ff69c9c2b7f9f6fbaff288a8afcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 70/98] fix: padding an encoding without word indexes gives one
 per token

---
 encoding.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index 4941067..79541d8 100644
--- a/encoding.go
+++ b/encoding.go
@@ -587,6 +587,7 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 
 func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, direction PaddingDirection) *Encoding {
 	padLength := targetLength - len(e.Ids)
+	words := e.wordsOrNone()
 
 	switch direction {
 	case Left:
@@ -636,7 +637,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		for i := 0; i < len(newWords); i++ {
 			newWords[i] = -1
 		}
-		newWords = append(newWords, e.wordsOrNone()...)
+		newWords = append(newWords, words...)
 		e.Words = newWords
 
 		// the sequences have moved to the right
@@ -653,7 +654,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		}
 
 	case Right:
-		e.Words = e.wordsOrNone()
+		e.Words = words
 		for i := 0; i < padLength; i++ {
 			e.Ids = append(e.Ids, padId)
 			e.TypeIds = append(e.TypeIds, padTypeId)
-- 
2.43.0


From 1b464bd79c3d7c15ae03d2a1dcec09d64f16360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:13 +0000
Subject: [PATCH 71/98] fix: unicode normalization aligns everything a rune
 decomposes to with it

---
 normalizer/normalized.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index f84e4ff..391c59c 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -610,6 +610,10 @@ func (n *NormalizedString) normalizeForm(form norm.Form) (retVal *NormalizedStri
 	for !it.Done() {
 		start := it.Pos()
 		normalized := bytes.Runes(it.Next())
+		// NOTE. what a rune decomposes to may come in several parts
+		for it.Pos() == start && !it.Done() {
+			normalized = append(normalized, bytes.Runes(it.Next())...)
+		}
 		segment := []rune(s[start:it.Pos()])
 
 		// when nothing composes, every rune of the segment gives the runes
-- 
2.43.0


From a80a38c5e6a7551471989bc3b0b742a90ed7fa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 72/98] fix: a sequence of processors keeps the sequence of the
 pair

---
 processor/sequence.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/processor/sequence.go b/processor/sequence.go
index 65cd53d..9833bf2 100644
--- a/processor/sequence.go
+++ b/processor/sequence.go
@@ -34,9 +34,12 @@ func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpec
 			typeIds := pairEncoding.GetTypeIds()
 			pairEncoding = p.Process(pairEncoding, nil, addSpecialTokens)
 			pairEncoding.SetTypeIds(typeIds)
+			// NOTE. it has been processed as the first sequence.
 			pairEncoding.SequenceRanges = nil
+			pairEncoding.SetSequenceIds(1)
 			for j := range pairEncoding.Overflowing {
 				pairEncoding.Overflowing[j].SequenceRanges = nil
+				pairEncoding.Overflowing[j].SetSequenceIds(1)
 			}
 			continue
 		}
-- 
2.43.0


From a1f853b4b425b3fa83cba894291a59abab1fd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 73/98] fix: bert normalization recognizes the CJK extension A
 characters

---
 normalizer/bert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index a35ecf8..ba444fa 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -72,8 +72,8 @@ func isPunctuation(c rune) bool {
 var cjk = &unicode.RangeTable{
 
 	R16: []unicode.Range16{
-		{0x4e00, 0x9fff, 1},
 		{0x3400, 0x4dbf, 1},
+		{0x4e00, 0x9fff, 1},
 		{0xf900, 0xfaff, 1},
 	},
 	R32: []unicode.Range32{
-- 
2.43.0


From dc05734c4c61d83d93dc24a6b6418f1f93c62122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 74/98] fix: an added token strips the whitespaces before it
 that an overlapped one does not take

---
 added-vocabulary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 2d6bfb1..84736b1 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -411,7 +411,7 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 				continue
 			}
 			ioPairs = append(ioPairs, idOffsets{idx, []int{start, end}, []int{pos + loc[0], pos + loc[1]}})
-			pos += loc[1]
+			pos = end // another one may strip the whitespaces of this one if this one is not kept
 		}
 	}
 
-- 
2.43.0


From 50ec64dbbe8f9a5859f0f55e1807a9e7d9b771af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 75/98] fix: BPEDecoder and word_delimiter_token are read as
 tokenizer.json writes them

---
 pretrained/decoder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index b73d924..0fa495a 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -31,7 +31,7 @@ func CreateDecoder(config map[string]interface{}) (tokenizer.Decoder, error) {
 	typ := params.Get("type").(string)
 
 	switch typ {
-	case "BPE":
+	case "BPE", "BPEDecoder":
 		return createBPEDecoder(params)
 	case "ByteLevel":
 		return createByteLevelDecoder(params)
@@ -94,7 +94,12 @@ func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
 	}
 
 	padToken := params.Get("pad_token").(string)
-	wordDelimiter := params.Get("word_delimiter").(string)
+	var wordDelimiter string
+	if params.Has("word_delimiter_token") {
+		wordDelimiter = params.Get("word_delimiter_token").(string)
+	} else {
+		wordDelimiter = params.Get("word_delimiter").(string)
+	}
 	cleanup := params.Get("cleanup").(bool)
 
 	return decoder.NewCTC(padToken, wordDelimiter, cleanup), nil
-- 
2.43.0


From 79a8c99444af8f7214aab5b2242b9035cceef4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 76/98] fix: a Metaspace decoder reads prepend_scheme

---
 pretrained/decoder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index 0fa495a..36f61a0 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -82,10 +82,13 @@ func createMetaspaceDecoder(params *util.Params) (*pretokenizer.Metaspace, error
 		return nil, nil
 	}
 
-	replacement := params.Get("replacement", "").(string)
-	addPrefixSpace := params.Get("add_prefix_space", false).(bool)
+	// The decoder reads the same parameters as the pre-tokenizer.
+	metaspace, err := createMetaspacePreTokenizer(params)
+	if err != nil {
+		return nil, err
+	}
 
-	return pretokenizer.NewMetaspace(replacement, addPrefixSpace), nil
+	return metaspace.(*pretokenizer.Metaspace), nil
 }
 
 func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
-- 
2.43.0


From a56cc88a275e10337bcd60c3b3bae3989850f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:11 +0000
Subject: [PATCH 77/98] fix: bpe reads merges of tokens that contain #version

---
 model/bpe/bpe.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 4849c6c..b27b204 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -8,7 +8,6 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
-	"regexp"
 	"sort"
 
 	// "strconv"
@@ -282,8 +281,7 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 		line := s.Text()
 
 		// Skip line with `#version`
-		re := regexp.MustCompile(`#version`)
-		if re.MatchString(line) {
+		if strings.HasPrefix(line, "#version") {
 			continue
 		}
 
-- 
2.43.0


From a6a1840ee01811459344c845a0267251c5d490cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 78/98] fix: NormalizeString removes what the precompiled map
 replaces by nothing

---
 spm/spm-precompiled.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index ba3c1b4..cd8ff0b 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -223,8 +223,7 @@ func (m *Precompiled) NormalizeString(original string) string {
 		// break a single test.
 		// You don't pass.
 		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
+			if norm, ok := m.Lookup(grapheme); ok {
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
@@ -238,9 +237,8 @@ func (m *Precompiled) NormalizeString(original string) string {
 		var charIdx int = 0
 		for _, r := range grapheme {
 			part := string(grapheme)[charIdx : charIdx+len(string(r))]
-			norm := m.Transform(part)
-			norm = normalizeMn(norm)
-			if len(norm) > 0 {
+			if norm, ok := m.Lookup(part); ok {
+				norm = normalizeMn(norm)
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
-- 
2.43.0


From a375ce643777649c5b21fb558fd79078978d55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 79/98] fix: a local file is copied to the cache also when its
 folder does not exist there yet

---
 file-util.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/file-util.go b/file-util.go
index 350dc9c..c110506 100644
--- a/file-util.go
+++ b/file-util.go
@@ -227,12 +227,35 @@ func copyFile(src, dst string) error {
 	}
 	defer source.Close()
 
-	destination, err := os.Create(dst)
+	return storeFile(dst, source)
+}
+
+// storeFile writes what it reads to the given file, and creates its directory if needed.
+// The content goes to a temporary file first, so that there's no file until it's complete.
+func storeFile(filepath string, r io.Reader) error {
+	dir := path.Dir(filepath)
+	if err := os.MkdirAll(dir, 0755); err != nil {
+		return err
+	}
+
+	out, err := os.CreateTemp(dir, path.Base(filepath)+".*.tmp")
 	if err != nil {
 		return err
 	}
-	defer destination.Close()
-	_, err = io.Copy(destination, source)
+	_, err = io.Copy(out, r)
+	if err == nil {
+		err = out.Chmod(0644)
+	}
+	if cerr := out.Close(); err == nil {
+		err = cerr
+	}
+	// Rename the tmp file to the final one
+	if err == nil {
+		err = os.Rename(out.Name(), filepath)
+	}
+	if err != nil {
+		os.Remove(out.Name())
+	}
 	return err
 }
 
-- 
2.43.0


From 59e1b03402a7a1eb39c28f2fc10feeb674e34aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 80/98] fix: a file can be downloaded several times at once

---
 file-util.go | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/file-util.go b/file-util.go
index c110506..73f6405 100644
--- a/file-util.go
+++ b/file-util.go
@@ -3,7 +3,6 @@ package tokenizer
 import (
 	"fmt"
 	"io"
-	"log"
 	"net/http"
 	"os"
 	"path"
@@ -103,22 +102,7 @@ func isValidURL(url string) bool {
 // the entire file into memory. An `io.TeeReader` is passed into Copy()
 // to report progress on the download.
 func downloadFile(url string, filepath string) error {
-	// Create path if not existing
-	dir := path.Dir(filepath)
 	filename := path.Base(filepath)
-	if _, err := os.Stat(dir); os.IsNotExist(err) {
-		if err := os.MkdirAll(dir, 0755); err != nil {
-			log.Fatal(err)
-		}
-	}
-
-	// Create the file with .tmp extension, so that we won't overwrite a
-	// file until it's downloaded fully
-	out, err := os.Create(filepath + ".tmp")
-	if err != nil {
-		return err
-	}
-	defer out.Close()
 
 	// Get the data
 	resp, err := http.Get(url)
@@ -153,7 +137,7 @@ func downloadFile(url string, filepath string) error {
 
 	// Create our bytes counter and pass it to be used alongside our writer
 	counter := &writeCounter{FileSize: downloadSize}
-	_, err = io.Copy(out, io.TeeReader(resp.Body, counter))
+	err = storeFile(filepath, io.TeeReader(resp.Body, counter))
 	if err != nil {
 		return err
 	}
@@ -162,12 +146,6 @@ func downloadFile(url string, filepath string) error {
 	// The progress use the same line so print a new line once it's finished downloading
 	fmt.Println()
 
-	// Rename the tmp file back to the original file
-	err = os.Rename(filepath+".tmp", filepath)
-	if err != nil {
-		return err
-	}
-
 	return nil
 }
 
-- 
2.43.0


From df01236b31eae89a311dcf6557a86f45a41728ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 81/98] fix: a file is requested once, without leaving a
 connection open

---
 file-util.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/file-util.go b/file-util.go
index 73f6405..bd3e252 100644
--- a/file-util.go
+++ b/file-util.go
@@ -72,18 +72,13 @@ func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err erro
 	url := fmt.Sprintf("%s/%s/resolve/main/%s", HFpath, modelNameOrPath, fileName)
 	// url := fmt.Sprintf("%s/%s/raw/main/%s", HFpath, modelNameOrPath, fileName)
 	if isValidURL(url) {
-		if _, err := http.Get(url); err == nil {
-			err := downloadFile(url, cachedFileCandidate)
-			if err != nil {
-				err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
-				return "", err
-			}
-
-			return cachedFileCandidate, nil
-		} else {
-			err = fmt.Errorf("CachedPath() failed: Unable to parse '%v' as a URL or as a local path.\n", url)
+		err := downloadFile(url, cachedFileCandidate)
+		if err != nil {
+			err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
 			return "", err
 		}
+
+		return cachedFileCandidate, nil
 	}
 
 	// Not resolves
-- 
2.43.0


From abdd1105441092e9dea2d5b828a32e6589e5b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 82/98] fix: Train returns an error for a file it cannot read

---
 tokenizer.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index e38cb6a..b86269c 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -766,13 +766,16 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 		bar := progressbar.New(int(fsize))
 
 		jobs = append(jobs, Job{f, bar})
 	}
 
+	// one error per worker
+	errs := make([]error, len(jobs))
+
 	// Step 1. scan text files by chunks in goroutines. In each goroutine,
 	// scan line by line, chop into tokens with (value, count) and
 	// queue them up in a channel for next step.
@@ -798,7 +801,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 		go func(fsize int64, file string) {
 			defer scanWG.Done()
-			t.processChunk(0, fsize, file, wChan, trainer)
+			_, errs[currentJob] = t.processChunk(0, fsize, file, wChan, trainer)
 		}(fi.Size(), file)
 	}
 
@@ -830,6 +833,12 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	<-doneChan
 	close(doneChan)
 
+	for _, err := range errs {
+		if err != nil {
+			return err
+		}
+	}
+
 	fmt.Printf("Dictionary length: %v words\n", len(dict))
 	// // Print out some samples
 	// var count = 0
@@ -858,10 +867,10 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 // channel: channel to send proccessed words to.
 // current: cummulative point where the file processing stops.
 // trainer: Trainer to process tokens
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64) {
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64, err error) {
 	file, err := os.Open(filename)
 	if err != nil {
-		panic(err)
+		return 0, err
 	}
 	defer file.Close()
 
@@ -896,13 +905,13 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 		normalized, err := t.doNormalize(line)
 		if err != nil {
-			log.Fatalf("call 'doNormalize' method error: %v\n", err)
+			return cummulativeSize, fmt.Errorf("call 'doNormalize' method error: %w", err)
 		}
 
 		pretok := NewPreTokenizedStringFromNS(normalized)
 		pretokenized, err := t.doPreTokenize(pretok)
 		if err != nil {
-			log.Fatalf("call 'doPreTokenize' method error: %v\n", err)
+			return cummulativeSize, fmt.Errorf("call 'doPreTokenize' method error: %w", err)
 		}
 
 		// NOTE. should we get OffsetType as input parameter: either Byte or Char?
@@ -934,7 +943,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 	}
 
-	return cummulativeSize
+	return cummulativeSize, scanner.Err()
 }
 
 /*
-- 
2.43.0


From 0a32dc00ceee66a9d078b7f3f2323615b25d28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 83/98] fix: concurrent first calls of CachedPath use the same
 cache directory

---
 file-util.go |  6 ++----
 init.go      | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/file-util.go b/file-util.go
index bd3e252..7b227cf 100644
--- a/file-util.go
+++ b/file-util.go
@@ -45,12 +45,10 @@ var (
 // Custom `CachedDir` can be changed by setting with environment `GO_TRANSFORMER`
 func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err error) {
 
-	if CachedDir == "NOT_SETTING" {
-		initCachePath()
-	}
+	dir := cachedDir()
 
 	// Resolves to "candidate" filename at `CacheDir`
-	cachedFileCandidate := fmt.Sprintf("%s/%s/%s", CachedDir, modelNameOrPath, fileName)
+	cachedFileCandidate := fmt.Sprintf("%s/%s/%s", dir, modelNameOrPath, fileName)
 
 	// 1. Cached candidate file exists
 	if _, err := os.Stat(cachedFileCandidate); err == nil {
diff --git a/init.go b/init.go
index b6f49f1..90a51c4 100644
--- a/init.go
+++ b/init.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"sync"
 )
 
 var (
@@ -11,6 +12,20 @@ var (
 	tokenizerEnvKey string = "GO_TOKENIZER"
 )
 
+var cachedDirMu sync.Mutex
+
+// cachedDir returns `CachedDir`, which the first caller sets up.
+func cachedDir() string {
+	cachedDirMu.Lock()
+	defer cachedDirMu.Unlock()
+
+	if CachedDir == "NOT_SETTING" {
+		initCachePath()
+	}
+
+	return CachedDir
+}
+
 func initCachePath() {
 	// default path: {$HOME}/.cache/tokenizer
 	homeDir := os.Getenv("HOME")
-- 
2.43.0


From ad7dfb6aefeaba23489d7619e2378c385af1df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 84/98] fix: Encode returns an error where truncation is
 impossible instead of ending the process

---
 tokenizer.go | 26 +++++++++++++++++++-------
 util.go      | 20 ++++++++++++--------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index b86269c..89c8348 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -478,7 +478,7 @@ func (t *Tokenizer) Encode(input EncodeInput, addSpecialTokens bool) (retVal *En
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // EncodeCharOffsets encodes the given input, using offsets relative to chars instead of bytes.
@@ -512,7 +512,7 @@ func (t *Tokenizer) EncodeCharOffsets(input EncodeInput, addSpecialTokens bool)
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // Decode decodes the given ids, back to a String
@@ -589,6 +589,15 @@ func (t *Tokenizer) doTokenize(pretokenized *PreTokenizedString, typeId int, wor
 
 // PostProcess does post-processing logic, handling the case where there is no PostProcessor set
 func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding) {
+	retVal, err := t.postProcess(encoding, pairEncoding, addSpecialTokens)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return retVal
+}
+
+func (t *Tokenizer) postProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding, err error) {
 	var tEncoding, tPairEncoding *Encoding
 
 	// 1. Truncate if needed
@@ -616,9 +625,12 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 				Strategy:  trunc.Strategy,
 				Stride:    trunc.Stride,
 			}
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, params)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, params)
 		} else {
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, trunc)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, trunc)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -633,16 +645,16 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 
 	// 3. Pad if needed
 	if t.padding == nil {
-		return finalEncoding
+		return finalEncoding, nil
 	}
 
 	var padEncodings []Encoding
 	encodings := []Encoding{*finalEncoding}
 	padEncodings = PadEncodings(encodings, *t.padding)
 	if len(padEncodings) == 1 {
-		return &padEncodings[0]
+		return &padEncodings[0], nil
 	} else {
-		return padEncodings[0].Merge(padEncodings[1:], true)
+		return padEncodings[0].Merge(padEncodings[1:], true), nil
 	}
 }
 
diff --git a/util.go b/util.go
index 83b287e..6a40476 100644
--- a/util.go
+++ b/util.go
@@ -81,14 +81,22 @@ const (
 )
 
 func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding) {
+	tEncoding, tPairEncoding, err := truncateEncodings(encoding, pairEncoding, params)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return tEncoding, tPairEncoding
+}
+
+func truncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding, err error) {
 	var (
 		totalLength int
 		toRemove    int
-		err         error
 	)
 
 	if params.MaxLength == 0 {
-		return encoding, pairEncoding
+		return encoding, pairEncoding, nil
 	}
 
 	totalLength = len(encoding.GetIds())
@@ -97,7 +105,7 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 	}
 
 	if totalLength <= params.MaxLength {
-		return encoding, pairEncoding
+		return encoding, pairEncoding, nil
 	}
 
 	toRemove = totalLength - params.MaxLength
@@ -145,11 +153,7 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 
 	}
 
-	if err != nil {
-		log.Fatal(err)
-	}
-
-	return encoding, pairEncoding
+	return encoding, pairEncoding, err
 }
 
 func PadEncodings(encodings []Encoding, params PaddingParams) []Encoding {
-- 
2.43.0


From aae3319e77ff8c1d049901266805d1ee236821d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 85/98] fix: BPE gives offsets inside the input for bytes that
 are not UTF-8

---
 model/bpe/bpe.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index b27b204..71ec44f 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -13,6 +13,7 @@ import (
 	// "strconv"
 	"log"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/model"
@@ -385,9 +386,12 @@ func (b *BPE) MergeWord(w string) *Word {
 			s       string
 			byteLen int
 		)
-		byteLen = len(string(r))
-
 		s = string(r)
+		byteLen = len(s)
+		if r == utf8.RuneError {
+			// an invalid byte takes one byte in the input
+			_, byteLen = utf8.DecodeRuneInString(w[byteIdx:])
+		}
 		// if not the first rune, add prefix
 		if byteIdx > 0 {
 			s = fmt.Sprintf("%v%v", prefix, s)
-- 
2.43.0


From 0d6300592cab0173db128b227ca506f4bbef3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 86/98] fix: BPE without an unknown token gives an error for an
 unknown character instead of panicking

---
 model/bpe/bpe.go | 50 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 71ec44f..06adcda 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -361,6 +361,15 @@ func (b *BPE) GetContinuingSubwordPrfix() *string {
 
 // MergeWord merges given word
 func (b *BPE) MergeWord(w string) *Word {
+	word, err := b.mergeWord(w)
+	if err != nil {
+		panic(err.Error())
+	}
+
+	return word
+}
+
+func (b *BPE) mergeWord(w string) (*Word, error) {
 
 	word := NewWord()
 	var (
@@ -413,8 +422,8 @@ func (b *BPE) MergeWord(w string) *Word {
 				// add `unk`
 				word.Add(unkId, byteLen)
 			} else {
-				fmt.Printf("cannot find '%s' in the vocab. \n", s)
-				panic("Can't find `unk` token in the vocab. Have you added one when initiating the model?")
+				err := fmt.Errorf("cannot find '%s' in the vocab. Can't find `unk` token in the vocab. Have you added one when initiating the model?", s)
+				return nil, err
 			}
 		}
 	}
@@ -425,7 +434,7 @@ func (b *BPE) MergeWord(w string) *Word {
 		word.MergeAll(*b.Merges)
 	}
 
-	return word
+	return word, nil
 }
 
 // WordToTokens slices word to tokens
@@ -476,30 +485,45 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 	}
 
 	if b.Dropout == nil {
-		return b.TokenizeWithCache(sequence), nil
+		return b.tokenizeWithCache(sequence)
 	}
 
-	word := b.MergeWord(sequence)
+	word, err := b.mergeWord(sequence)
+	if err != nil {
+		return nil, err
+	}
 
 	return b.WordToTokens(*word), nil
 }
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
+	retVal, err := b.tokenizeWithCache(sequence)
+	if err != nil {
+		panic(err.Error())
+	}
+
+	return retVal
+}
 
-	if b.Cache == nil {
-		return b.WordToTokens(*b.MergeWord(sequence))
+func (b BPE) tokenizeWithCache(sequence string) (retVal []tokenizer.Token, err error) {
+
+	if b.Cache != nil {
+		if hit, ok := b.Cache.Get(sequence); ok {
+			return b.WordToTokens(hit), nil
+		}
 	}
 
-	if hit, ok := b.Cache.Get(sequence); ok {
-		return b.WordToTokens(hit)
-	} else {
-		word := b.MergeWord(sequence)
-		retVal = b.WordToTokens(*word)
+	word, err := b.mergeWord(sequence)
+	if err != nil {
+		return nil, err
+	}
+	retVal = b.WordToTokens(*word)
+	if b.Cache != nil {
 		b.Cache.SetValues([]CacheItem{
 			{sequence, *word},
 		})
-		return retVal
 	}
+	return retVal, nil
 }
 
 func (b BPE) TokenToId(token string) (id int, ok bool) {
-- 
2.43.0


From 3e526adb1f2864ff710730ac8160c559ae70814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 87/98] fix: splitting next to a stray byte that is not UTF-8
 does not panic

---
 normalizer/normalized.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 391c59c..0cf9168 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -350,22 +350,29 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 		return inputRange
 	}
 
-	// Check if r.start is on a rune boundary
-	if r.start != len(s) {
-		// If not the very start, verify it's a valid rune boundary
-		if !utf8.RuneStart(s[r.start]) {
-			return nil
-		}
+	// Check if r.start and r.end are on rune boundaries
+	if !isRuneBoundary(s, r.start) || !isRuneBoundary(s, r.end) {
+		return nil
 	}
 
-	// Check if r.end is on a rune boundary
-	if r.end != len(s) {
-		if !utf8.RuneStart(s[r.end]) {
-			return nil
+	return inputRange
+}
+
+// isRuneBoundary tells whether no rune of s covers both the bytes before and after idx.
+// A byte that is not part of a valid rune stands for itself.
+func isRuneBoundary(s string, idx int) bool {
+	if idx <= 0 || idx >= len(s) || utf8.RuneStart(s[idx]) {
+		return true
+	}
+
+	for start := idx - 1; start >= 0 && start > idx-utf8.UTFMax; start-- {
+		if utf8.RuneStart(s[start]) {
+			_, size := utf8.DecodeRuneInString(s[start:])
+			return start+size <= idx
 		}
 	}
 
-	return inputRange
+	return true
 }
 
 // Slice returns a slice of the current NormalizedString
-- 
2.43.0


From b184acf546e61f8164c36f75cf96da8108ad6483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 88/98] fix: splitting by script does not panic on bytes that
 are not UTF-8

---
 pretokenizer/unicode-script.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pretokenizer/unicode-script.go b/pretokenizer/unicode-script.go
index f34436b..f7956af 100644
--- a/pretokenizer/unicode-script.go
+++ b/pretokenizer/unicode-script.go
@@ -52,9 +52,8 @@ var _ tokenizer.PreTokenizer = new(UnicodeScript)
 func (us *UnicodeScript) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, normalized *normalizer.NormalizedString) []tokenizer.SplitIdx {
 		lastScript := ""
-		offset := 0
 		var ranges []int
-		for _, c := range normalized.GetNormalized() {
+		for offset, c := range normalized.GetNormalized() {
 			script := FixedScript(c)
 			var result int
 			if script != "Any" && lastScript != "Any" && lastScript != script {
@@ -63,7 +62,6 @@ func (us *UnicodeScript) PreTokenize(pretokenized *tokenizer.PreTokenizedString)
 				result = -1
 			}
 
-			offset += len(string(c))
 			if script != "Any" {
 				lastScript = script
 			}
-- 
2.43.0


From ddb13c4161273109dfba5fb07b8e9b923ea81a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 89/98] fix: WordPiece gives offsets inside the input for bytes
 that are not UTF-8

---
 model/wordpiece/wordpiece.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index 6ec9dba..c27806c 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -276,12 +276,17 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 	}
 
 	var (
-		isBad     bool = false
-		start     int  = 0
-		byteIdx   int  = 0 // position of `start` in bytes: offsets are in bytes
+		isBad     bool  = false
+		start     int   = 0
+		byteIdx   []int // position of each char in bytes: offsets are in bytes
 		subTokens []tokenizer.Token
 	)
 
+	for i := range sequence {
+		byteIdx = append(byteIdx, i)
+	}
+	byteIdx = append(byteIdx, len(sequence))
+
 	for start < charLen {
 		end := charLen
 		var currStr *tokenizer.Token
@@ -296,7 +301,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 				currStr = &tokenizer.Token{
 					Id:      id,
 					Value:   substr,
-					Offsets: []int{byteIdx, byteIdx + len(string(chars[start:end]))},
+					Offsets: []int{byteIdx[start], byteIdx[end]},
 				}
 
 				break
@@ -310,7 +315,6 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 
 		subTokens = append(subTokens, *currStr)
 		start = end
-		byteIdx = currStr.Offsets[1]
 	}
 
 	if isBad {
-- 
2.43.0


From 854f45a27c347e27206cfeaf0f2acaceb43eaecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 90/98] fix: changing the map GetVocab gives does not change
 the tokenizer

---
 tokenizer.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 89c8348..29cd1f9 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -341,18 +341,17 @@ func (t *Tokenizer) GetPadding() (retVal *PaddingParams) {
 
 // GetVocab get the vocabulary
 func (t *Tokenizer) GetVocab(withAddedTokens bool) map[string]int {
+	// NOTE. the vocabulary of the model is not ours to add to, or to give away.
 	modelVocab := t.model.GetVocab()
-	if !withAddedTokens {
-		return modelVocab
-	}
-
-	// NOTE. the vocabulary of the model is not ours to add to.
-	addedVocab := t.addedVocabulary.GetVocab()
-	finalVocab := make(map[string]int, len(modelVocab)+len(addedVocab))
+	finalVocab := make(map[string]int, len(modelVocab))
 	for k, v := range modelVocab {
 		finalVocab[k] = v
 	}
-	for k, v := range addedVocab {
+	if !withAddedTokens {
+		return finalVocab
+	}
+
+	for k, v := range t.addedVocabulary.GetVocab() {
 		finalVocab[k] = v
 	}
 
-- 
2.43.0


From d7fa3d66ce9c7b5ec1a8ed63743bef1c8f17332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 91/98] fix: loading a pretrained tokenizer leaves the working
 directory as it was

---
 pretrained/bert.go    | 6 ++++++
 pretrained/roberta.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pretrained/bert.go b/pretrained/bert.go
index 9f3384e..022e359 100644
--- a/pretrained/bert.go
+++ b/pretrained/bert.go
@@ -80,7 +80,13 @@ func BertBaseUncased() *tokenizer.Tokenizer {
 // https://cdn.huggingface.co/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt
 func BertLargeCasedWholeWordMaskingSquad() *tokenizer.Tokenizer {
 
+	currDir, err := os.Getwd()
+	if err != nil {
+		log.Fatal(err)
+	}
 	util.CdToThis()
+	defer util.CdBack(currDir)
+
 	vocabFile := "model/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt"
 	model, err := wordpiece.NewWordPieceFromFile(vocabFile, "[UNK]")
 	if err != nil {
diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index 7760fcf..7bc800a 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -82,7 +82,13 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 // - vocab: "https://cdn.huggingface.co/deepset/roberta-base-squad2/vocab.json",
 // - merges: "https://cdn.huggingface.co/deepset/roberta-base-squad2/merges.txt",
 func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
+	currDir, err := os.Getwd()
+	if err != nil {
+		log.Fatal(err)
+	}
 	util.CdToThis()
+	defer util.CdBack(currDir)
+
 	vocabFile := "model/roberta-base-squad2-vocab.json"
 	mergesFile := "model/roberta-base-squad2-merges.txt"
 	model, err := bpe.NewBpeFromFiles(vocabFile, mergesFile)
-- 
2.43.0


From 523a793f7c7b3ce66b22b2b61d951b4c19c01bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 92/98] fix: the pretrained GPT2 and RoBERTa tokenizers decode
 byte-level text

---
 pretrained/gpt2.go    | 4 +---
 pretrained/roberta.go | 7 ++-----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/pretrained/gpt2.go b/pretrained/gpt2.go
index 58c1b9c..ca8f459 100644
--- a/pretrained/gpt2.go
+++ b/pretrained/gpt2.go
@@ -5,7 +5,6 @@ import (
 	"os"
 
 	"github.com/sugarme/tokenizer"
-	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
@@ -56,8 +55,7 @@ func GPT2(addPrefixSpace bool, trimOffsets bool) *tokenizer.Tokenizer {
 	pprocessor := processor.NewByteLevelProcessing(pretok)
 	tk.WithPostProcessor(pprocessor)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	tk.WithDecoder(pretok)
 
 	return tk
 }
diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index 7bc800a..cdce75b 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -5,7 +5,6 @@ import (
 	"os"
 
 	"github.com/sugarme/tokenizer"
-	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
@@ -58,8 +57,7 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	// postProcess.TrimOffsets(trimOffsets)
 	tk.WithPostProcessor(postProcess)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	tk.WithDecoder(blPreTokenizer)
 
 	return tk
 }
@@ -109,8 +107,7 @@ func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	postProcess := processor.DefaultRobertaProcessing()
 	tk.WithPostProcessor(postProcess)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	tk.WithDecoder(blPreTokenizer)
 
 	return tk
 }
-- 
2.43.0


From 177933aaff5e6a8c29e37e754d283c9ceeea0811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 93/98] fix: the pretrained RoBERTa tokenizers honour
 trimOffsets and addPrefixSpace

---
 pretrained/roberta.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index cdce75b..abbfb0c 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -54,7 +54,8 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
-	// postProcess.TrimOffsets(trimOffsets)
+	postProcess.TrimOffsets(trimOffsets)
+	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
 	tk.WithDecoder(blPreTokenizer)
@@ -105,6 +106,8 @@ func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
+	postProcess.TrimOffsets(trimOffsets)
+	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
 	tk.WithDecoder(blPreTokenizer)
-- 
2.43.0


From d076f33660a9443b369d8e15d65e8d53a899761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 94/98] fix: patterns of characters cover texts that are not
 UTF-8

---
 normalizer/pattern.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/normalizer/pattern.go b/normalizer/pattern.go
index 91b72b0..e20d172 100644
--- a/normalizer/pattern.go
+++ b/normalizer/pattern.go
@@ -3,6 +3,7 @@ package normalizer
 import (
 	// "reflect"
 	"regexp"
+	"unicode/utf8"
 )
 
 // Pattern is used to split a NormalizedString
@@ -52,7 +53,9 @@ func (r *RunePattern) FindMatches(inside string) []OffsetsMatch {
 
 	for byteIdx, char := range inside {
 		if char == r.rune {
-			nextIdx := byteIdx + len(string(char))
+			// NOTE. a byte that is not UTF-8 is one byte, not the ones of the character it is read as.
+			_, width := utf8.DecodeRuneInString(inside[byteIdx:])
+			nextIdx := byteIdx + width
 			// 1. Add previous unmatched if any
 			if hasPrevious {
 				prev := OffsetsMatch{Offsets: []int{prevStart, byteIdx}, Match: false}
@@ -236,7 +239,8 @@ func (fp *FnPattern) FindMatches(inside string) []OffsetsMatch {
 
 	for byteIdx, char := range inside {
 		if fp.fn(char) {
-			nextIdx := byteIdx + len(string(char))
+			_, width := utf8.DecodeRuneInString(inside[byteIdx:])
+			nextIdx := byteIdx + width
 			// 1. Add previous unmatched if any
 			if hasPrevious {
 				prev := OffsetsMatch{Offsets: []int{prevStart, byteIdx}, Match: false}
-- 
2.43.0


From 6feb3b62d17ce0a184719c06030ae794d7057942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 95/98] fix: an encoding made of tokens has the given type id

---
 encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 79541d8..9c203b5 100644
--- a/encoding.go
+++ b/encoding.go
@@ -114,7 +114,7 @@ func NewEncodingFromTokens(tokens []Token, typeId int) (retVal *Encoding) {
 		toks = append(toks, t.Value)
 	}
 
-	typeIds := make([]int, len(tokens))
+	typeIds := util.Repeat(typeId, len(tokens))
 	// words := make([]int, len(tokens))
 	var words []int
 	specialTokenMask := util.Repeat(0, len(tokens))
-- 
2.43.0


From db20dfb015f1a16926badc0b2a9496db5ffbd0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 96/98] fix: BPE gives an error where the unknown token is not
 in the vocabulary

---
 model/bpe/bpe.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 06adcda..c99256d 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -418,7 +418,10 @@ func (b *BPE) mergeWord(w string) (*Word, error) {
 		} else { // not found, add `unk`
 			if b.UnkToken != nil {
 				// get `unk` id
-				unkId := (*b.Vocab)[*b.UnkToken]
+				unkId, ok := (*b.Vocab)[*b.UnkToken]
+				if !ok {
+					return nil, fmt.Errorf("cannot find '%s' in the vocab, nor the `unk` token '%s'", s, *b.UnkToken)
+				}
 				// add `unk`
 				word.Add(unkId, byteLen)
 			} else {
-- 
2.43.0


From e985f16e941ff1e8700081830804a18c17a4c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:10 +0000
Subject: [PATCH 97/98] fix: ConfigFromFile closes the file it reads

---
 config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config.go b/config.go
index 2febf54..4aeca0f 100644
--- a/config.go
+++ b/config.go
@@ -64,6 +64,7 @@ func ConfigFromFile(file string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 
 	dec := json.NewDecoder(f)
 
-- 
2.43.0


From d310d8213c43c18f0251d1afd66e751886589bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 98/98] fix: Train ends its workers when a file vanishes

---
 tokenizer.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 29cd1f9..ca096c6 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -762,6 +762,7 @@ func (t *Tokenizer) Save(path string, pretty bool) (err error) {
 func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	type Job struct {
 		File     string
+		Size     int64
 		Progress *progressbar.ProgressBar
 	}
 
@@ -781,7 +782,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		}
 		bar := progressbar.New(int(fsize))
 
-		jobs = append(jobs, Job{f, bar})
+		jobs = append(jobs, Job{f, fsize, bar})
 	}
 
 	// one error per worker
@@ -800,20 +801,13 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	for i := 0; i < len(jobs); i++ {
 		currentJob := i
 
-		file := jobs[currentJob].File
-
-		fi, err := os.Stat(file)
-		if err != nil {
-			return err
-		}
-
 		// NOTE. one worker for the whole file, so that each line is read exactly once.
 		scanWG.Add(1)
 
 		go func(fsize int64, file string) {
 			defer scanWG.Done()
 			_, errs[currentJob] = t.processChunk(0, fsize, file, wChan, trainer)
-		}(fi.Size(), file)
+		}(jobs[currentJob].Size, jobs[currentJob].File)
 	}
 
 	// Read all incoming words from the channel and add to the dict
-- 
2.43.0

