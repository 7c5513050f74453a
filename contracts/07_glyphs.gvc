package root

// --- glyph data and placement (C12) ---
// end offsets (3 bytes per glyph) at OffsetToGlyphMasks, then the records
def gm_end(f, g) = le24(f.Data, f.OffsetToGlyphMasks + 3 * g)
def gm_start(f, g) = ite(g == 0, 0, le24(f.Data, f.OffsetToGlyphMasks + 3 * g - 3))
def gm_data(f) = f.OffsetToGlyphMasks + 3 * num_glyphs(f)
def place_len(f) = ite(vert(f), 4, 1)
def wf_masks(f) = wf_metrics(f) && num_glyphs(f) > 0 && gm_data(f) <= len(f.Data) \
   && gm_data(f) + gm_end(f, num_glyphs(f) - 1) <= len(f.Data) \
   && (forall g in 0..num_glyphs(f) :: gm_start(f, g) + place_len(f) <= gm_end(f, g) && gm_end(f, g) <= gm_end(f, num_glyphs(f) - 1))
def glyph_rec(f, g) = gm_data(f) + gm_start(f, g)

fn FontGlyphs.Count(self) (r)
  props C12
  requires wf_metrics(self)
  ensures r == num_glyphs(self)

fn FontGlyphs.hasVertLayout(self) (r)
  props C12
  requires wf_metrics(self)
  ensures r <==> vert(self)

fn FontGlyphs.Advance(self, glyphIndex) (r)
  props C12
  requires wf_masks(self)
  panics glyphIndex >= num_glyphs(self)
  ensures r == self.Data[glyph_rec(self, glyphIndex)]

fn FontGlyphs.Placement(self, glyphIndex) (r)
  props C12
  requires wf_masks(self)
  panics glyphIndex >= num_glyphs(self)
  let o = glyph_rec(self, glyphIndex)
  ensures r.Advance == self.Data[o]
  ensures vert(self) ==> r.TopAdvance == self.Data[o + 1] && r.BottomAdvance == self.Data[o + 2] && r.HorzCenter == self.Data[o + 3]
  ensures !vert(self) ==> r.TopAdvance == 0 && r.BottomAdvance == 0 && r.HorzCenter == 0

fn FontGlyphs.getGlyphDataOffsets(self, glyphIndex) (a, b)
  props C12
  requires wf_masks(self) && glyphIndex < num_glyphs(self)
  ensures a == gm_start(self, glyphIndex) && b == gm_end(self, glyphIndex)

fn FontGlyphs.getGlyphDataStartOffset(self, glyphIndex) (a)
  props C12
  requires wf_masks(self) && glyphIndex < num_glyphs(self)
  ensures a == gm_start(self, glyphIndex)

fn GlyphPlacement.appendWithoutVertLayout(self, buffer) (r)
  props C12 C27
  modifies elems(buffer, len(buffer), cap(buffer))
  ensures grown(r, buffer, 1) && r[len(buffer)] == self.Advance

fn GlyphPlacement.appendWithVertLayout(self, buffer) (r)
  props C12 C27
  modifies elems(buffer, len(buffer), cap(buffer))
  ensures grown(r, buffer, 4) && r[len(buffer)] == self.Advance && r[len(buffer) + 1] == self.TopAdvance \
     && r[len(buffer) + 2] == self.BottomAdvance && r[len(buffer) + 3] == self.HorzCenter

fn GlyphRange.Contains(self, index) (r)
  props C12
  ensures r <==> self.First <= index && index <= self.Last

fn GlyphRange.Validate(self, maxGlyphs) (err)
  props C12
  ensures err == nil <==> self.First <= self.Last && self.Last < maxGlyphs

fn NewRange(first, last) (r)
  props C12
  panics last < first
  ensures r.First == first && r.Last == last

// --- glyph names (C13) ---
def gs_n(d, o) = le16(d, o)
def gs_ends(d, o) = o + 2 + 2 * gs_n(d, o)
def gs_end(d, o, i) = le24(d, gs_ends(d, o) + 3 * i)
def gs_start(d, o, i) = ite(i == 0, 0, le24(d, gs_ends(d, o) + 3 * i - 3))
def gs_data(d, o) = gs_ends(d, o) + 3 * gs_n(d, o)
def gn_n(f) = gs_n(f.Data, f.OffsetToGlyphNames)
def gn_end(f, i) = gs_end(f.Data, f.OffsetToGlyphNames, i)
def gn_start(f, i) = gs_start(f.Data, f.OffsetToGlyphNames, i)
def gn_data(f) = gs_data(f.Data, f.OffsetToGlyphNames)
def gn_id(f, i) = le16(f.Data, f.OffsetToGlyphNames + 2 + 2 * i)
def wf_gnames(f) = f.OffsetToGlyphNames + 2 <= len(f.Data) && len(f.Data) <= 33554432 && gn_data(f) <= len(f.Data) \
   && (gn_n(f) > 0 ==> gn_data(f) + gn_end(f, gn_n(f) - 1) <= len(f.Data)) \
   && (forall i in 0..gn_n(f) :: gn_start(f, i) <= gn_end(f, i) && gn_end(f, i) <= gn_end(f, gn_n(f) - 1))
// the bytes of the i-th name, in the glyph names section at offset o of the data d
def gname(d, o, i) = d[gs_data(d, o) + gs_start(d, o, i) : gs_data(d, o) + gs_end(d, o, i)]
// lexicographic order of byte sequences: a is smaller than b when they agree up to some position where
// a ends (and b does not) or has the smaller byte
opaqueb lex_at(a, b, k) = k <= len(a) && k < len(b) && (k == len(a) || a[k] < b[k]) && (forall j in 0..k :: a[j] == b[j])
opaqueb lex_less(a, b) = exists k in 0..len(b) :: lex_at(a, b, k)
opaqueb same_text(a, b) = len(a) == len(b) && forall j in 0..len(b) :: a[j] == b[j]
// the i-th stored name relative to the text s and to the j-th name
opaqueb name_below(d, o, i, s) = lex_less(gname(d, o, i), s)
opaqueb name_is(d, o, i, s) = same_text(gname(d, o, i), s)
opaqueb names_ordered(d, o, i, j) = lex_less(gname(d, o, i), gname(d, o, j))

lemma LexAt(a: seq, b: seq, c: seq, k, l)
  reveal lex_at
  requires lex_at(a, b, k) && lex_at(b, c, l) && 0 <= k && 0 <= l
  ensures lex_at(a, c, min(k, l))
lemma LexTrans(a: seq, b: seq, c: seq)
  reveal lex_less
  requires lex_less(a, b) && lex_less(b, c)
  ensures lex_less(a, c)
  use forall k in 0..len(b) :: forall l in 0..len(c) :: LexAt(a, b, c, k, l)
lemma LexIrr(a: seq, b: seq)
  reveal lex_less lex_at same_text
  requires lex_less(a, b)
  ensures !same_text(a, b)
lemma LexAtSub(a: seq, b: seq, c: seq, k)
  reveal lex_at same_text
  requires lex_at(a, b, k) && same_text(b, c) && 0 <= k
  ensures lex_at(a, c, k)
lemma LexSub(a: seq, b: seq, c: seq)
  reveal lex_less same_text
  requires lex_less(a, b) && same_text(b, c)
  ensures lex_less(a, c)
  use forall k in 0..len(b) :: LexAtSub(a, b, c, k)

lemma NameTrans(d: seq, o, i, j, s: seq)
  reveal names_ordered name_below
  requires names_ordered(d, o, i, j) && name_below(d, o, j, s)
  ensures name_below(d, o, i, s)
  use LexTrans(gname(d, o, i), gname(d, o, j), s)
lemma NameIrr(d: seq, o, i, s: seq)
  reveal name_is name_below
  requires name_below(d, o, i, s)
  ensures !name_is(d, o, i, s)
  use LexIrr(gname(d, o, i), s)
lemma NameSub(d: seq, o, i, j, s: seq)
  reveal names_ordered name_is name_below
  requires names_ordered(d, o, i, j) && name_is(d, o, j, s)
  ensures name_below(d, o, i, s)
  use LexSub(gname(d, o, i), gname(d, o, j), s)

fn bytesSmallerThanStr(bytes, str) (r)
  reveal lex_less lex_at
  props C13
  ensures r <==> lex_less(bytes, str)
  loop 1
    invariant i <= len(str)
    mention lex_at(bytes, str, i)
    invariant forall j in 0..i :: bytes[j] == str[j]

fn bytesEqStr(bytes, str) (r)
  reveal same_text
  props C13
  ensures r <==> same_text(bytes, str)
  loop 1
    invariant forall j in 0..i :: bytes[j] == str[j]

fn FontGlyphs.NamedCount(self) (r)
  props C13
  requires self.OffsetToGlyphNames + 2 <= len(self.Data) && len(self.Data) <= 33554432
  ensures r == gn_n(self)

fn FontGlyphs.getNthGlyphName(self, nth, numNamedGlyphs) (r)
  props C13
  requires wf_gnames(self) && nth < gn_n(self) && numNamedGlyphs == gn_n(self)
  ensures same(r, gname(self.Data, self.OffsetToGlyphNames, nth))

fn FontGlyphs.FindIndexByName(self, name) (r)
  reveal name_below name_is
  props C13
  requires wf_gnames(self) && (forall j in 0..gn_n(self) :: forall i in 0..j :: names_ordered(self.Data, self.OffsetToGlyphNames, i, j))
  let n = gn_n(self)
  ensures forall i in 0..n :: name_is(self.Data, self.OffsetToGlyphNames, i, name) ==> r == gn_id(self, i)
  ensures (forall i in 0..n :: !name_is(self.Data, self.OffsetToGlyphNames, i, name)) ==> r == GlyphMissing
  use forall i in 0..n :: NameIrr(self.Data, self.OffsetToGlyphNames, i, name)
  use forall i in 0..n :: forall j in 0..n :: NameSub(self.Data, self.OffsetToGlyphNames, i, j, name)
  loop 1
    invariant minIndex <= maxIndex && maxIndex < n
    invariant forall i in 0..minIndex :: name_below(self.Data, self.OffsetToGlyphNames, i, name)
    invariant maxIndex == n - 1 || !name_below(self.Data, self.OffsetToGlyphNames, maxIndex, name)
    use forall i in 0..midIndex :: NameTrans(self.Data, self.OffsetToGlyphNames, i, midIndex, name)
    mention name_below(self.Data, self.OffsetToGlyphNames, midIndex, name)
