From 7906294f39718c1de6baaaf20a4a83327922d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 01/26] fix: Date.IsValid panicked when the month was missing

---
 date.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/date.go b/date.go
index 3d631b0..ae284a2 100644
--- a/date.go
+++ b/date.go
@@ -26,6 +26,7 @@ func (self *Date) IsValid() bool {
 	if self.Month == 0 && self.Day != 0 { return false }
 	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }
 	if self.Month > 12 { return false }
+	if self.Day == 0 { return true } // no day to check (and maybe no month either)
 	if self.Day > self.monthDays() { return false }
 	return true
 }
-- 
2.43.0


From 97a503c68e5cdaea7c69a39768ee5cb075e103f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 02/26] fix: names with consecutive hyphens were accepted

---
 internal/parsing_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 6ef79a5..d2c5a46 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -199,7 +199,7 @@ func ValidateBasicName(name string) error {
 		}
 		if name[i] == '-' {
 			if prevIsHyphen {
-				errors.New("basic name can't contain consecutive hyphens")
+				return errors.New("basic name can't contain consecutive hyphens")
 			}
 			prevIsHyphen = true
 			continue
-- 
2.43.0


From 4d1620696751c7eaeb9e5cd8a46e3367b0d37103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 03/26] fix: circular buffer tail index was off by one past
 65535

---
 internal/circular_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index b03fd91..4709b38 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -148,7 +148,7 @@ func (self *CircularBufferU16[T]) unsafeLastElemIndex() uint16 {
 	index := self.headIndex + self.numElements - 1
 	
 	if index < self.headIndex { // overflow case
-		return self.numElements - (self.capacity - self.headIndex)
+		return self.numElements - (self.capacity - self.headIndex) - 1
 	} else if index < self.capacity { // simple case
 		return index
 	} else { // wrap case
-- 
2.43.0


From a8364d0f6b4c8e0f2559203c5f3544874017ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 04/26] fix: shrinking an empty circular buffer left its head
 out of range

---
 internal/circular_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index 4709b38..5f86019 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -121,7 +121,7 @@ func (self *CircularBufferU16[T]) SetCapacity(capacity uint16) bool {
 		if self.numElements > (self.capacity - self.headIndex) {
 			copy(self.buffer[self.headIndex - lenReduction : ], self.buffer[self.headIndex : ])
 			self.headIndex -= lenReduction
-		} else if self.headIndex > capacity - self.numElements {
+		} else if self.headIndex > capacity - self.numElements || self.headIndex == capacity {
 			copy(self.buffer[ : self.numElements], self.buffer[self.headIndex : self.headIndex + self.numElements])
 			self.headIndex = 0
 		}
-- 
2.43.0


From c6f0e60f4badf176501cfdbc40ea9d8be48230bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 05/26] fix: data beyond the end of the font was accepted, or
 panicked

---
 internal/parsing_buffer.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index d2c5a46..e7058bd 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -38,14 +38,13 @@ func (self *ParsingBuffer) InitGzipReader(reader io.Reader) error {
 }
 
 func (self *ParsingBuffer) EnsureEOF() error {
-	if self.eof { return nil }
-	preIndex := self.Index
-	err := self.readMore()
-	if err != nil { return err }
-	if self.Index > preIndex {
-		return errors.New("file continues beyond the expected end")
+	for !self.eof && len(self.Bytes) <= self.Index {
+		err := self.readMore()
+		if err != nil { return err }
+	}
+	if len(self.Bytes) > self.Index {
+		return self.NewError("file continues beyond the expected end")
 	}
-	if !self.eof { panic("broken code") }
 	return nil
 }
 
-- 
2.43.0


From 62197999c3a772d7d3106f67c3e746ff4bf7384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 06/26] fix: header texts were read from wrong positions when
 texts are long

---
 font.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/font.go b/font.go
index 75e605f..f5bfa6a 100644
--- a/font.go
+++ b/font.go
@@ -117,20 +117,20 @@ func (self *FontHeader) Name() string {
 	return unsafe.String(&self.Data[29], nameLen)
 }
 func (self *FontHeader) Family() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
 	return unsafe.String(&self.Data[30 + nameLen], familyLen)
 }
 func (self *FontHeader) Author() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen)
 }
 func (self *FontHeader) About() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	aboutIndex := 31 + nameLen + familyLen + authorLen
 	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2])
 	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)
-- 
2.43.0


From 6516890bc877eb4642311e969543b293ccba6b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 07/26] fix: glyph name search did not compare names in
 lexicographic order

---
 font.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index f5bfa6a..70022c8 100644
--- a/font.go
+++ b/font.go
@@ -496,11 +496,10 @@ func (self *FontGlyphs) getNthGlyphName(nth uint32, numNamedGlyphs uint32) []byt
 
 func bytesSmallerThanStr(bytes []byte, str string) bool {
 	for i := 0; i < len(bytes); i++ {
-		if i >= len(str) { return true }
-		if bytes[i] > str[i] { return false }
+		if i >= len(str) { return false } // str is a prefix, so it's smaller
+		if bytes[i] != str[i] { return bytes[i] < str[i] }
 	}
-	if len(bytes) == len(str) { return false } // equal
-	return true // smaller
+	return len(bytes) < len(str) // common prefix
 }
 
 func bytesEqStr(bytes []byte, str string) bool {
-- 
2.43.0


From 8a60d2ac46693e4d404c1264d87fd155d49c541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 08/26] fix: mapping lookup skipped range groups as if they
 were lists

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 70022c8..47e6d1b 100644
--- a/font.go
+++ b/font.go
@@ -834,7 +834,7 @@ func (self *FontMapping) Utf8WithCache(codePoint rune, settingsCache *SettingsCa
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
@@ -905,7 +905,7 @@ func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGro
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
-- 
2.43.0


From 2b94db319fdc8f2907e26e006a17f37189cc4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 09/26] fix: list mapping groups selected the wrong glyph

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 47e6d1b..013e5a1 100644
--- a/font.go
+++ b/font.go
@@ -732,7 +732,7 @@ func (self *GlyphMappingGroup) Select(choice uint8) GlyphIndex {
 	if (info & 0b1000_0000) != 0 { // range case
 		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))
 	} else {
-		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 2) : ]))
+		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 1) : ]))
 	}
 }
 
-- 
2.43.0


From 9bc47ca20bedbe50ffb0baef2997b488d4d55111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 10/26] fix: animation flags of a mapping group were read from
 its first glyph

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 013e5a1..7ac97ca 100644
--- a/font.go
+++ b/font.go
@@ -706,7 +706,7 @@ func (self *GlyphMappingGroup) Size() uint8 {
 func (self *GlyphMappingGroup) AnimationFlags() AnimationFlags {
 	if self.directMapping { return 0 }
 	if (0b0111_1111 & self.font.Data[self.offset + 0]) == 0 { return 0 }
-	return AnimationFlags(self.font.Data[self.offset + 2])
+	return AnimationFlags(self.font.Data[self.offset + 1])
 }
 func (self *GlyphMappingGroup) CaseBranch() uint8 {
 	return self.caseBranch
-- 
2.43.0


From dcf760faebe63ad37532a5439da8ee9ae2b0afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 11/26] fix: rewrite condition end offsets were indexed as
 single bytes

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 7ac97ca..93bda19 100644
--- a/font.go
+++ b/font.go
@@ -958,9 +958,9 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if conditionKey >= numConditions { panic("invalid condition key") }
 
 	var startOffset uint16 = 0
-	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + uint32(conditionKey) : ])
+	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + (uint32(conditionKey) << 1) : ])
 	if conditionKey > 0 {
-		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + uint32(conditionKey) : ])
+		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + (uint32(conditionKey) << 1) - 1 : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
 	endOffset -= 1 // we will evaluate from last to first
-- 
2.43.0


From a855f2ea6a37db3868409617f3fcfac11dc10ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 12/26] fix: evaluating a rewrite condition always panicked at
 its end

---
 font.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index 93bda19..026b1ec 100644
--- a/font.go
+++ b/font.go
@@ -963,11 +963,10 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + (uint32(conditionKey) << 1) - 1 : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
-	endOffset -= 1 // we will evaluate from last to first
 
 	offsetToRewriteConditionsData := self.OffsetToRewriteConditions + 1 + (uint32(numConditions) << 1)
 	maxDataIndex := offsetToRewriteConditionsData + uint32(endOffset)
-	if int(maxDataIndex) >= len(self.Data) { panic(invalidFontData) } // discretionary assertion
+	if int(maxDataIndex) > len(self.Data) { panic(invalidFontData) } // discretionary assertion
 	dataIndex := offsetToRewriteConditionsData + uint32(startOffset)
 	endDataIndex, satisfied := self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
 	if endDataIndex != maxDataIndex { panic(brokenCode) }
@@ -979,7 +978,7 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 
 // Returns the new dataIndex and the result.
 func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, settings []uint8) (uint32, bool) {
-	if dataIndex > maxDataIndex { panic(invalidFontData) }
+	if dataIndex >= maxDataIndex { panic(invalidFontData) }
 
 	ctrl := self.Data[dataIndex]
 	switch ctrl & 0b1110_0000 {
@@ -1061,7 +1060,7 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 }
 
 func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, numSettings uint8) uint32 {
-	if dataIndex > maxDataIndex { panic(invalidFontData) }
+	if dataIndex >= maxDataIndex { panic(invalidFontData) }
 
 	ctrl := self.Data[dataIndex]
 	switch ctrl & 0b1110_0000 {
-- 
2.43.0


From 5ad65e814d0cc137cc9e50d00ed2be02bf6cff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 13/26] fix: short-circuited rewrite conditions skipped one
 term too many

---
 font.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index 026b1ec..f2d7235 100644
--- a/font.go
+++ b/font.go
@@ -991,9 +991,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, true
 			}
@@ -1008,9 +1007,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if !satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, false
 			}
-- 
2.43.0


From b7cdf8a8e0b50b25c7b5db3d695786a51ce41886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 14/26] fix: rewrite conditions accepted a setting just past
 the last one

---
 font.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/font.go b/font.go
index f2d7235..d1360b0 100644
--- a/font.go
+++ b/font.go
@@ -1016,10 +1016,10 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		return dataIndex, true
 	case 0b0100_0000: // comparison
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		operand := self.Data[dataIndex + 2]
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if int(operand) > len(settings) { panic(invalidFontData) } // discretionary assertion
+			if int(operand) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 			operand = settings[operand]
 		}
 		switch (ctrl & 0b0000_1111) {
@@ -1035,22 +1035,22 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 	case 0b0110_0000: // quick comparison `setting == const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] == constValue
 	case 0b1000_0000: // quick comparison `setting != const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] != constValue
 	case 0b1010_0000: // quick comparison `setting < const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] < constValue
 	case 0b1100_0000: // quick comparison `setting > const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] > constValue
 	default: // undefined control mode
 		panic(invalidFontData)
@@ -1079,9 +1079,9 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		}
 		return dataIndex
 	case 0b0100_0000: // comparison
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if self.Data[dataIndex + 2] > numSettings { panic(invalidFontData) } // discretionary assertion
+			if self.Data[dataIndex + 2] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		}
 		switch (ctrl & 0b0000_1111) {
 		case 0b000: return dataIndex + 3
@@ -1094,16 +1094,16 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 			panic(invalidFontData)
 		}
 	case 0b0110_0000: // quick comparison `setting == const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1000_0000: // quick comparison `setting != const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1010_0000: // quick comparison `setting < const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1100_0000: // quick comparison `setting > const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	default: // undefined control mode
 		panic(invalidFontData)
-- 
2.43.0


From 2856818cf874857439ffd9dd94ec9c28989d0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 15/26] fix: rewrite condition comparisons compared the setting
 index

---
 font.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/font.go b/font.go
index d1360b0..282309f 100644
--- a/font.go
+++ b/font.go
@@ -1023,12 +1023,12 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			operand = settings[operand]
 		}
 		switch (ctrl & 0b0000_1111) {
-		case 0b000: return dataIndex + 3, setting == operand
-		case 0b001: return dataIndex + 3, setting != operand
-		case 0b010: return dataIndex + 3, setting  < operand
-		case 0b011: return dataIndex + 3, setting  > operand
-		case 0b100: return dataIndex + 3, setting <= operand
-		case 0b101: return dataIndex + 3, setting >= operand
+		case 0b000: return dataIndex + 3, settings[setting] == operand
+		case 0b001: return dataIndex + 3, settings[setting] != operand
+		case 0b010: return dataIndex + 3, settings[setting]  < operand
+		case 0b011: return dataIndex + 3, settings[setting]  > operand
+		case 0b100: return dataIndex + 3, settings[setting] <= operand
+		case 0b101: return dataIndex + 3, settings[setting] >= operand
 		default:
 			panic(invalidFontData)
 		}
-- 
2.43.0


From 61574aed73449fe1ce27bf98de4a8d5973e917ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 16/26] fix: rewrite rule outputs were not enumerated
 completely

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 282309f..69ed1fb 100644
--- a/font.go
+++ b/font.go
@@ -1120,7 +1120,7 @@ func (self *GlyphRewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *GlyphRewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *GlyphRewriteRule) EachOut(each func(GlyphIndex)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*2; i += 2 {
 		each(GlyphIndex(internal.DecodeUint16LE(self.Data[i : ])))
 	}
 }
@@ -1158,7 +1158,7 @@ func (self *Utf8RewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *Utf8RewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *Utf8RewriteRule) EachOut(each func(rune)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*4; i += 4 {
 		each(rune(internal.DecodeUint32LE(self.Data[i : ])))
 	}
 }
-- 
2.43.0


From 2af88805478db55db732444646ec8cdc1442d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 17/26] fix: utf8 set ranges were enumerated with wrong lengths

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 69ed1fb..64064b0 100644
--- a/font.go
+++ b/font.go
@@ -1238,9 +1238,9 @@ func (self *FontRewrites) GetGlyphSet(set uint8) GlyphRewriteSet {
 type Utf8RewriteSet internal.RawBlock
 func (self *Utf8RewriteSet) EachRange(each func(start, end rune) error) error {
 	numRanges := int(self.Data[0])
-	for i := 1; i < numRanges*5; i += 5 {
+	for i := 1; i < 1 + numRanges*5; i += 5 {
 		codePoint := rune(internal.DecodeUint32LE(self.Data[i : i + 4]))
-		err := each(codePoint, codePoint + rune(self.Data[i + 3]))
+		err := each(codePoint, codePoint + rune(self.Data[i + 4]))
 		if err != nil { return err }
 	}
 	return nil
-- 
2.43.0


From 32f1d1111678c8adfdf91d85600f36a2405371d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:52 +0000
Subject: [PATCH 18/26] fix: fonts cut before the kerning tables were accepted

The errors of reading the numbers of kerning pairs (and the lengths of the
rewrite rules) were ignored, so data ending right before them was parsed as a
font without kerning, on which the kerning queries then panic.
---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index 37537b5..2649747 100644
--- a/parse.go
+++ b/parse.go
@@ -384,6 +384,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numUtf8Rules - 1)*3)
 		if err != nil { return &font, err }
 		utf8RulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
@@ -404,6 +405,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numGlyphRules - 1)*3)
 		if err != nil { return &font, err }
 		glyphRulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
@@ -426,6 +428,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs)
 
 	numHorzKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numHorzKerningPairs > 0 {
 		if numHorzKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumHorzKerningPairs can't exceed NumGlyphs^2")
@@ -438,6 +441,7 @@ func Parse(reader io.Reader) (*Font, error) {
 
 	font.OffsetToVertKernings = uint32(parser.Index)
 	numVertKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numVertKerningPairs > 0 {
 		if numVertKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumVertKerningPairs can't exceed NumGlyphs^2")
-- 
2.43.0


From 471d7f80d35fbbf5fda2a6f9f343644a14b6d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:52 +0000
Subject: [PATCH 19/26] fix: signature read failed on readers returning less
 data at once

An io.Reader may return fewer bytes than asked for, or an error together
with the last bytes.
---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 2649747..7ce1c3f 100644
--- a/parse.go
+++ b/parse.go
@@ -52,7 +52,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil || n != 6 {
 		if n == 0 {
 			return &font, parser.NewError("failed to read any data from the file")
-- 
2.43.0


From a6c70ca0ebf715dc1a957c64ff6991f4828442c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:52 +0000
Subject: [PATCH 20/26] fix: fonts with 254 mapping switches were rejected

254 switches (indices 0 to 253) are allowed by the specification.
---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 7ce1c3f..8de7369 100644
--- a/parse.go
+++ b/parse.go
@@ -273,7 +273,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	font.OffsetToMappingSwitches = uint32(parser.Index)
 	numMappingSwitches, err := parser.ReadUint8()
 	if err != nil { return &font, err }
-	if numMappingSwitches > 253 {
+	if numMappingSwitches > 254 {
 		return &font, parser.NewError("NumMappingSwitches can't exceed 254 (both 254 and 255 are reserved)")
 	}
 	if numMappingSwitches > 0 {
-- 
2.43.0


From 0b1ebb9295929502e57a450e44acf12041a52f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:52 +0000
Subject: [PATCH 21/26] fix: fonts with long glyph masks were rejected

There is no limit for the length of a mask, other than the offsets' size.
---
 parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 8de7369..73b9850 100644
--- a/parse.go
+++ b/parse.go
@@ -196,9 +196,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {
 		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end before allowed")
 	}
-	if glyphMasksLen > (uint32(placementSize) + 255)*uint32(numGlyphs) {
-		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end beyond allowed")
-	}
+	// note: no upper bound check, masks can be arbitrarily long
 	err = parser.AdvanceBytes(int(glyphMasksLen))
 	if err != nil { return &font, err }
 
-- 
2.43.0


From 2677ced65c6c59733e3dc7a6ea244ef9b7b65e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:52 +0000
Subject: [PATCH 22/26] fix: fonts with long rewrite rules were rejected

The upper bounds forgot about the output sequence and the fragments' control
bytes. Rules are limited to 4096 bytes by the specification.
---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 73b9850..446bc59 100644
--- a/parse.go
+++ b/parse.go
@@ -386,7 +386,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
-		if int(utf8RulesLen) > int(numUtf8Rules)*(6 + 255*4) {
+		if int(utf8RulesLen) > int(numUtf8Rules)*4096 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end beyond allowed")
 		}
 
@@ -407,7 +407,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
-		if int(glyphRulesLen) > int(numGlyphRules)*514 {
+		if int(glyphRulesLen) > int(numGlyphRules)*4096 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end beyond allowed")
 		}
 
-- 
2.43.0


From 550db0e67d3876782f3b23a374af276dfbdbe168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:52 +0000
Subject: [PATCH 23/26] fix: fonts with empty rewrite sets were rejected

A set without ranges and elements takes two bytes.
---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 446bc59..9f42ea8 100644
--- a/parse.go
+++ b/parse.go
@@ -347,7 +347,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		utf8SetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(utf8SetsLen) < 1 + int(numUtf8Sets)*5 {
+		if int(utf8SetsLen) < int(numUtf8Sets)*2 {
 			return &font, parser.NewError("UTF8SetEndOffsets declares UTF8Sets to end before allowed")
 		}
 
@@ -365,7 +365,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		glyphSetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(glyphSetsLen) < 1 + int(numGlyphSets)*3 {
+		if int(glyphSetsLen) < int(numGlyphSets)*2 {
 			return &font, parser.NewError("GlyphSetEndOffsets declares GlyphSets to end before allowed")
 		}
 
-- 
2.43.0


From fb0fb8374aa171b10291692d2e6495555f2a53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:19 +0000
Subject: [PATCH 24/26] fix: rule scanners report malformed rules instead of
 crashing or misreading

---
 internal/rerules/glyphrule/rule_scanner.go | 16 +++++++++++-----
 internal/rerules/utf8rule/rule_scanner.go  | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index bb6446e..683df38 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -45,6 +45,9 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.ErrInvalidReRule
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -54,9 +57,7 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -81,6 +82,7 @@ func (self *RuleScanner) Next() (ggfnt.GlyphIndex, GlyphSetIndex, error) {
 		}
 
 		set := GlyphSetIndex(self.rule.Data[self.dataIndex])
+		if set == GlyphSetNone { return GlyphNone, GlyphSetNone, rerules.ErrInvalidReRule }
 		self.dataIndex += 1
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
@@ -139,6 +141,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) { return rerules.ErrInvalidReRule }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets   = (ctrl & 0b1111_0000) >> 4
@@ -146,11 +149,14 @@ func (self *RuleScanner) parseFragmentControl() error {
 	self.accumulatedBlockSets   += self.remainingSets
 	self.accumulatedBlockGlyphs += self.remainingGlyphs
 	numElems := self.remainingSets + self.remainingGlyphs
-	if numElems == 0 {
-		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs != self.rule.Data[1 + int(self.block)] {
+	if numElems == 0 { // only valid for an empty tail, which ends the rule
+		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs != self.rule.Data[1 + int(self.block)] || int(self.dataIndex) < len(self.rule.Data) {
 			return rerules.ErrInvalidReRule
 		}
 	} else {
+		if int(self.dataIndex) >= len(self.rule.Data) {
+			return rerules.ErrInvalidReRule
+		}
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs < self.accumulatedBlockSets {
 			return rerules.ErrInvalidReRule // ^ overflow
 		}
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 9ee5366..f2f05e5 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -44,6 +44,9 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.InvalidUtf8RuleErr(self.rule)
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -53,9 +56,7 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -79,6 +80,7 @@ func (self *RuleScanner) Next() (rune, Utf8SetIndex, error) {
 		}
 
 		set := Utf8SetIndex(self.rule.Data[self.dataIndex])
+		if set == Utf8SetNone { return RuneError, Utf8SetNone, rerules.InvalidUtf8RuleErr(self.rule) }
 		self.dataIndex += 1
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
@@ -137,6 +139,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) { return rerules.InvalidUtf8RuleErr(self.rule) }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets = (ctrl & 0b1111_0000) >> 4
@@ -144,11 +147,14 @@ func (self *RuleScanner) parseFragmentControl() error {
 	self.accumulatedBlockSets += self.remainingSets
 	self.accumulatedBlockCodePoints += self.remainingCodePoints
 	numElems := self.remainingSets + self.remainingCodePoints
-	if numElems == 0 {
-		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints != self.rule.Data[1 + int(self.block)] {
+	if numElems == 0 { // only valid for an empty tail, which ends the rule
+		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints != self.rule.Data[1 + int(self.block)] || int(self.dataIndex) < len(self.rule.Data) {
 			return rerules.InvalidUtf8RuleErr(self.rule)
 		}
 	} else {
+		if int(self.dataIndex) >= len(self.rule.Data) {
+			return rerules.InvalidUtf8RuleErr(self.rule)
+		}
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints < self.accumulatedBlockSets {
 			return rerules.InvalidUtf8RuleErr(self.rule) // ^ overflow
 		}
-- 
2.43.0


From eddb1cc3f70116e98aa9c0326f9985cefbc2f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:19 +0000
Subject: [PATCH 25/26] fix: automaton state splits keep transitions disjoint
 and apply to the next slot

---
 internal/rerules/glyphrule/decision_tree_state.go | 6 +++---
 internal/rerules/utf8rule/decision_tree_state.go  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index cff16de..70aab85 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -85,7 +85,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -124,7 +124,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -185,7 +185,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastGlyphOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 04df50d..47db3c4 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -84,7 +84,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -123,7 +123,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -184,7 +184,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastRuneOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
-- 
2.43.0


From 1432f035ab1a881cdbf30b9cd365205b2bd39bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:14 +0000
Subject: [PATCH 26/26] fix: animated mapping groups were stored with their
 frames reordered

---
 builder/font_builder_mapping.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index e19d448..49fb78d 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -1,6 +1,5 @@
 package builder
 
-import "slices"
 import "errors"
 import "fmt"
 
@@ -99,8 +98,8 @@ func (self *mappingGroup) AppendTo(data []byte, glyphLookup map[uint64]uint16, s
 		scratchBuffer[i] = glyphIndex
 	}
 
-	// sort scratch buffer, makes it easier to see if glyphs are consecutive
-	slices.Sort(scratchBuffer)
+	// use a range if the glyphs are consecutive, or a list otherwise (the
+	// order of the glyphs is relevant for animations and must be preserved)
 	if isContinuousSlice(scratchBuffer) {
 		data = append(data, 0b1000_0000 | uint8(len(self.Glyphs) - 1))
 		data = append(data, uint8(self.AnimationFlags))
-- 
2.43.0

