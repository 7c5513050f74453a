package root

// --- rewrite rules and sets (C20) ---
def wf_rules(d, o) = len(d) <= 33554432 && o + 2 <= len(d) && wf_b3(d, o + 2, le16(d, o), o + 2 + 3 * le16(d, o))
def is_rule(r, d, o, i) = text(r, d, o + 2 + 3 * le16(d, o) + b3_start(d, o + 2, i), b3_end(d, o + 2, i) - b3_start(d, o + 2, i))
def wf_sets(d, o) = len(d) <= 33554432 && o < len(d) && wf_b2(d, o + 1, d[o], o + 1 + 2 * d[o])
def is_set(r, d, o, i) = text(r, d, o + 1 + 2 * d[o] + b2_start(d, o + 1, i), b2_end(d, o + 1, i) - b2_start(d, o + 1, i))

fn FontRewrites.NumGlyphRules(self) (r)
  props C20
  requires wf_rules(self.Data, self.OffsetToGlyphRewrites)
  ensures r == le16(self.Data, self.OffsetToGlyphRewrites)
fn FontRewrites.NumUTF8Rules(self) (r)
  props C20
  requires wf_rules(self.Data, self.OffsetToUtf8Rewrites)
  ensures r == le16(self.Data, self.OffsetToUtf8Rewrites)
fn FontRewrites.NumGlyphSets(self) (r)
  props C20
  requires wf_sets(self.Data, self.OffsetToRewriteGlyphSets)
  ensures r == self.Data[self.OffsetToRewriteGlyphSets]
fn FontRewrites.NumUTF8Sets(self) (r)
  props C20
  requires wf_sets(self.Data, self.OffsetToRewriteUtf8Sets)
  ensures r == self.Data[self.OffsetToRewriteUtf8Sets]

fn FontRewrites.GetGlyphRule(self, index) (r)
  props C20
  requires wf_rules(self.Data, self.OffsetToGlyphRewrites)
  panics index >= le16(self.Data, self.OffsetToGlyphRewrites)
  ensures is_rule(r.Data, self.Data, self.OffsetToGlyphRewrites, index)
fn FontRewrites.GetUtf8Rule(self, index) (r)
  props C20
  requires wf_rules(self.Data, self.OffsetToUtf8Rewrites)
  panics index >= le16(self.Data, self.OffsetToUtf8Rewrites)
  ensures is_rule(r.Data, self.Data, self.OffsetToUtf8Rewrites, index)
fn FontRewrites.GetGlyphSet(self, set) (r)
  props C20
  requires wf_sets(self.Data, self.OffsetToRewriteGlyphSets)
  panics set >= self.Data[self.OffsetToRewriteGlyphSets]
  ensures is_set(r.Data, self.Data, self.OffsetToRewriteGlyphSets, set)
fn FontRewrites.GetUtf8Set(self, set) (r)
  props C20
  requires wf_sets(self.Data, self.OffsetToRewriteUtf8Sets)
  panics set >= self.Data[self.OffsetToRewriteUtf8Sets]
  ensures is_set(r.Data, self.Data, self.OffsetToRewriteUtf8Sets, set)

fn GlyphRewriteRule.Condition(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[0]
fn GlyphRewriteRule.HeadLen(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[1]
fn GlyphRewriteRule.BodyLen(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[2]
fn GlyphRewriteRule.TailLen(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[3]
fn GlyphRewriteRule.InLen(self) (r)
  props C20
  requires len(self.Data) >= 5 && self.Data[1] + self.Data[2] + self.Data[3] <= 255
  ensures r == self.Data[1] + self.Data[2] + self.Data[3]
fn GlyphRewriteRule.OutLen(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[4]
fn GlyphRewriteRule.EachOut(self, each)
  props C20
  requires len(self.Data) >= 5 && len(self.Data) >= 5 + 2 * self.Data[4]
  ensures calls(each) == self.Data[4]
  ensures forall k in 0..calls(each) :: arg(each, 0, k) == elem2(self.Data, 5 + 2 * k)
  loop 1
    invariant 5 <= i && i <= 5 + 2 * 255 && i == 5 + 2 * calls(each) && calls(each) <= self.Data[4]
    invariant forall k in 0..calls(each) :: arg(each, 0, k) == elem2(self.Data, 5 + 2 * k)
    decreases 5 + 2 * outSize - i
fn GlyphRewriteRule.Equals(self, other) (r)
  props C20
  ensures r <==> len(self.Data) == len(other.Data) && forall j in 0..len(self.Data) :: self.Data[j] == other.Data[j]
  loop 1
    invariant 0 <= i && i <= len(self.Data) && forall j in 0..i :: self.Data[j] == other.Data[j]
    decreases len(self.Data) - i

fn Utf8RewriteRule.Condition(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[0]
fn Utf8RewriteRule.HeadLen(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[1]
fn Utf8RewriteRule.BodyLen(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[2]
fn Utf8RewriteRule.TailLen(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[3]
fn Utf8RewriteRule.InLen(self) (r)
  props C20
  requires len(self.Data) >= 5 && self.Data[1] + self.Data[2] + self.Data[3] <= 255
  ensures r == self.Data[1] + self.Data[2] + self.Data[3]
fn Utf8RewriteRule.OutLen(self) (r)
  props C20
  requires len(self.Data) >= 5
  ensures r == self.Data[4]
fn Utf8RewriteRule.EachOut(self, each)
  props C20
  requires len(self.Data) >= 5 && len(self.Data) >= 5 + 4 * self.Data[4]
  ensures calls(each) == self.Data[4]
  ensures forall k in 0..calls(each) :: arg(each, 0, k) == elem4(self.Data, 5 + 4 * k)
  loop 1
    invariant 5 <= i && i <= 5 + 4 * 255 && i == 5 + 4 * calls(each) && calls(each) <= self.Data[4]
    invariant forall k in 0..calls(each) :: arg(each, 0, k) == elem4(self.Data, 5 + 4 * k)
    decreases 5 + 4 * outSize - i
fn Utf8RewriteRule.Equals(self, other) (r)
  props C20
  ensures r <==> len(self.Data) == len(other.Data) && forall j in 0..len(self.Data) :: self.Data[j] == other.Data[j]
  loop 1
    invariant 0 <= i && i <= len(self.Data) && forall j in 0..i :: self.Data[j] == other.Data[j]
    decreases len(self.Data) - i

def elem2(d, p) = le16(d, p)
def elem4(d, p) = ite(le32(d, p) < 2147483648, le32(d, p), le32(d, p) - 4294967296)
// a set: the number of ranges, the ranges (first element, 1 byte with the extra elements), the number of listed elements, these
def wf_set(d, w) = len(d) >= 2 && 2 + d[0] * (w + 1) <= len(d) && 2 + d[0] * (w + 1) + d[1 + d[0] * (w + 1)] * w <= len(d)

fn GlyphRewriteSet.EachRange(self, each) (err)
  props C20
  requires wf_set(self.Data, 2)
  ensures calls(each) <= self.Data[0]
  ensures forall k in 0..calls(each) :: arg(each, 0, k).First == le16(self.Data, 1 + 3 * k) && arg(each, 0, k).Last == uint16(le16(self.Data, 1 + 3 * k) + self.Data[3 + 3 * k])
  ensures forall k in 0..calls(each) - 1 :: ret(each, k) == nil
  ensures err == nil ==> calls(each) == self.Data[0] && (calls(each) > 0 ==> ret(each, calls(each) - 1) == nil)
  ensures err != nil ==> calls(each) > 0 && ret(each, calls(each) - 1) == err
  loop 1
    invariant 1 <= i && i <= 766 && i == 1 + 3 * calls(each) && calls(each) <= self.Data[0]
    invariant forall k in 0..calls(each) :: arg(each, 0, k).First == le16(self.Data, 1 + 3 * k) && arg(each, 0, k).Last == uint16(le16(self.Data, 1 + 3 * k) + self.Data[3 + 3 * k])
    invariant forall k in 0..calls(each) :: ret(each, k) == nil
    decreases 1 + 3 * numRanges - i
fn GlyphRewriteSet.EachListGlyph(self, each) (err)
  props C20
  requires wf_set(self.Data, 2)
  let e = 1 + 3 * self.Data[0]
  ensures calls(each) <= self.Data[e]
  ensures forall k in 0..calls(each) :: arg(each, 0, k) == le16(self.Data, e + 1 + 2 * k)
  ensures forall k in 0..calls(each) - 1 :: ret(each, k) == nil
  ensures err == nil ==> calls(each) == self.Data[e] && (calls(each) > 0 ==> ret(each, calls(each) - 1) == nil)
  ensures err != nil ==> calls(each) > 0 && ret(each, calls(each) - 1) == err
  loop 1
    invariant 0 <= i && i <= 255 && i == calls(each) && calls(each) <= self.Data[e]
    invariant forall k in 0..calls(each) :: arg(each, 0, k) == le16(self.Data, e + 1 + 2 * k)
    invariant forall k in 0..calls(each) :: ret(each, k) == nil
    decreases numElems - i
// the last rune of a range, with the wrap-around of 32-bit integers
def rune_add(a, b) = ite(a + b >= 2147483648, a + b - 4294967296, a + b)
fn Utf8RewriteSet.EachRange(self, each) (err)
  props C20
  requires wf_set(self.Data, 4)
  ensures calls(each) <= self.Data[0]
  ensures forall k in 0..calls(each) :: arg(each, 0, k) == elem4(self.Data, 1 + 5 * k) && arg(each, 1, k) == rune_add(elem4(self.Data, 1 + 5 * k), self.Data[5 + 5 * k])
  ensures forall k in 0..calls(each) - 1 :: ret(each, k) == nil
  ensures err == nil ==> calls(each) == self.Data[0] && (calls(each) > 0 ==> ret(each, calls(each) - 1) == nil)
  ensures err != nil ==> calls(each) > 0 && ret(each, calls(each) - 1) == err
  loop 1
    invariant 1 <= i && i <= 1276 && i == 1 + 5 * calls(each) && calls(each) <= self.Data[0]
    invariant forall k in 0..calls(each) :: arg(each, 0, k) == elem4(self.Data, 1 + 5 * k) && arg(each, 1, k) == rune_add(elem4(self.Data, 1 + 5 * k), self.Data[5 + 5 * k])
    invariant forall k in 0..calls(each) :: ret(each, k) == nil
    decreases 1 + 5 * numRanges - i
fn Utf8RewriteSet.EachListRune(self, each) (err)
  props C20
  requires wf_set(self.Data, 4)
  let e = 1 + 5 * self.Data[0]
  ensures calls(each) <= self.Data[e]
  ensures forall k in 0..calls(each) :: arg(each, 0, k) == elem4(self.Data, e + 1 + 4 * k)
  ensures forall k in 0..calls(each) - 1 :: ret(each, k) == nil
  ensures err == nil ==> calls(each) == self.Data[e] && (calls(each) > 0 ==> ret(each, calls(each) - 1) == nil)
  ensures err != nil ==> calls(each) > 0 && ret(each, calls(each) - 1) == err
  loop 1
    invariant 0 <= i && i <= 255 && i == calls(each) && calls(each) <= self.Data[e]
    invariant forall k in 0..calls(each) :: arg(each, 0, k) == elem4(self.Data, e + 1 + 4 * k)
    invariant forall k in 0..calls(each) :: ret(each, k) == nil
    decreases numElems - i
