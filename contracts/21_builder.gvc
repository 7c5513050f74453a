package builder

// what was in the data before is still there, and the data is the caller's
// own backing array or a new one
def kept(r, b) = len(r) >= len(b) && (forall k in 0..len(b) :: r[k] == old(b[k])) && stored(r, b, len(r) - len(b))

// --- rewrite sets ---

fn reGlyphSet.GetSize(self) (r)
  props C27
  requires len(self.ranges) <= 255 && len(self.list) <= 255
  ensures r == 2 + 3 * len(self.ranges) + 2 * len(self.list)

def rng_ok(m, g) = has(m, g.First) && (g.First == g.Last || has(m, g.Last) && m[g.First] <= m[g.Last] && m[g.Last] - m[g.First] <= 255)
def rng_at(r, j, m, g) = le16(r, j) == m[g.First] && r[j + 2] == ite(g.First == g.Last, 0, m[g.Last] - m[g.First])

fn reGlyphSet.AppendTo(self, data, glyphLookup) (r, err)
  props C27
  requires len(self.ranges) < 255 && len(self.list) < 255
  modifies elems(data, len(data), cap(data))
  let n = old(len(data))
  let K = n <= len(data) && (forall k in 0..n :: data[k] == old(data[k])) && ite(len(data) <= old(cap(data)), ref(data) == old(ref(data)) && offs(data) == old(offs(data)) && cap(data) == old(cap(data)), fresh(data)) && (n < len(data) ==> ref(data) > 0)
  let nr = len(self.ranges)
  let m = glyphLookup
  let S = self.ranges
  let L = self.list
  ensures kept(r, data)
  ensures err == nil <==> (forall k in 0..nr :: rng_ok(m, S[k])) && (forall k in 0..len(L) :: has(m, L[k]))
  ensures err == nil ==> len(r) == n + 2 + 3 * nr + 2 * len(L) && r[n] == nr && r[n + 1 + 3 * nr] == len(L)
  ensures err == nil ==> forall k in 0..nr :: rng_at(r, n + 1 + 3 * k, m, S[k])
  ensures err == nil ==> forall k in 0..len(L) :: le16(r, n + 2 + 3 * nr + 2 * k) == m[L[k]]
  loop 1
    invariant K && len(data) == n + 1 + 3 * _i && data[n] == nr
    invariant forall k in 0.._i :: rng_ok(m, S[k])
    invariant forall k in 0.._i :: rng_at(data, n + 1 + 3 * k, m, S[k])
  loop 2
    invariant K && len(data) == n + 2 + 3 * nr + 2 * _i && data[n] == nr && data[n + 1 + 3 * nr] == len(L)
    invariant forall k in 0..nr :: rng_at(data, n + 1 + 3 * k, m, S[k])
    invariant forall k in 0.._i :: has(m, L[k])
    invariant forall k in 0.._i :: le16(data, n + 2 + 3 * nr + 2 * k) == m[L[k]]

// --- rewrite rules: one fragment ---

fn glyphRewriteRule.appendAccumulatedInBlock(self, data, groups, elements, groupLookup, glyphLookup) (r, err)
  props C27
  requires len(groups) <= 15 && len(elements) <= 15 && (groups != nil || elements != nil)
  modifies elems(data, len(data), cap(data))
  let n = old(len(data))
  let K = n <= len(data) && (forall k in 0..n :: data[k] == old(data[k])) && ite(len(data) <= old(cap(data)), ref(data) == old(ref(data)) && offs(data) == old(offs(data)) && cap(data) == old(cap(data)), fresh(data)) && (n < len(data) ==> ref(data) > 0)
  let ng = len(groups)
  ensures kept(r, data)
  ensures err == nil <==> (forall k in 0..ng :: has(groupLookup, groups[k])) && (forall k in 0..len(elements) :: has(glyphLookup, elements[k]))
  ensures err == nil ==> len(r) == n + 1 + ng + 2 * len(elements) && r[n] == 16 * ng + len(elements)
  ensures err == nil ==> forall k in 0..ng :: r[n + 1 + k] == groupLookup[groups[k]]
  ensures err == nil ==> forall k in 0..len(elements) :: le16(r, n + 1 + ng + 2 * k) == glyphLookup[elements[k]]
  loop 1
    invariant K && len(data) == n + 1 + _i && data[n] == 16 * ng + len(elements)
    invariant forall k in 0.._i :: has(groupLookup, groups[k])
    invariant forall k in 0.._i :: data[n + 1 + k] == groupLookup[groups[k]]
  loop 2
    invariant K && len(data) == n + 1 + ng + 2 * _i && data[n] == 16 * ng + len(elements)
    invariant forall k in 0..ng :: data[n + 1 + k] == groupLookup[groups[k]]
    invariant forall k in 0.._i :: has(glyphLookup, elements[k])
    invariant forall k in 0.._i :: le16(data, n + 1 + ng + 2 * k) == glyphLookup[elements[k]]

fn utf8RewriteRule.appendAccumulatedInBlock(self, data, groups, elements, groupLookup) (r, err)
  props C27
  requires len(groups) <= 15 && len(elements) <= 15 && (groups != nil || elements != nil)
  modifies elems(data, len(data), cap(data))
  let n = old(len(data))
  let K = n <= len(data) && (forall k in 0..n :: data[k] == old(data[k])) && ite(len(data) <= old(cap(data)), ref(data) == old(ref(data)) && offs(data) == old(offs(data)) && cap(data) == old(cap(data)), fresh(data)) && (n < len(data) ==> ref(data) > 0)
  let ng = len(groups)
  ensures kept(r, data)
  ensures err == nil <==> forall k in 0..ng :: has(groupLookup, groups[k])
  ensures err == nil ==> len(r) == n + 1 + ng + 4 * len(elements) && r[n] == 16 * ng + len(elements)
  ensures err == nil ==> forall k in 0..ng :: r[n + 1 + k] == groupLookup[groups[k]]
  ensures err == nil ==> forall k in 0..len(elements) :: le32(r, n + 1 + ng + 4 * k) == uint32(elements[k])
  loop 1
    invariant K && len(data) == n + 1 + _i && data[n] == 16 * ng + len(elements)
    invariant forall k in 0.._i :: has(groupLookup, groups[k])
    invariant forall k in 0.._i :: data[n + 1 + k] == groupLookup[groups[k]]
  loop 2
    invariant K && len(data) == n + 1 + ng + 4 * _i && data[n] == 16 * ng + len(elements)
    invariant forall k in 0..ng :: data[n + 1 + k] == groupLookup[groups[k]]
    invariant forall k in 0.._i :: le32(data, n + 1 + ng + 4 * k) == uint32(elements[k])

// --- mappings ---

// the group g as written at r[j]: one glyph, or a range (top bit set) or a list
// with animation flags; glyph k of it is the index the map m gives to g[k]
def mg_size(r, j, g) = ite(len(g) == 1, 3, ite(r[j] >= 128, 4, 2 + 2 * len(g)))
def mg_head(r, j, g, fl) = ite(len(g) == 1, r[j] == 0, r[j + 1] == fl && (r[j] == len(g) - 1 || r[j] == 127 + len(g)))
def mg_glyph(r, j, g, k) = ite(len(g) == 1, le16(r, j + 1), ite(r[j] >= 128, (le16(r, j + 2) + k) % 65536, le16(r, j + 2 + 2 * k)))
def mg_at(r, j, m, g, fl) = mg_head(r, j, g, fl) && forall k in 0..len(g) :: m[g[k]] == mg_glyph(r, j, g, k)

fn mappingGroup.AppendTo(self, data, glyphLookup, scratchBuffer) (r, sb, err)
  props C27
  let n = old(len(data))
  let K = n <= len(data) && (forall k in 0..n :: data[k] == old(data[k])) && ite(len(data) <= old(cap(data)), ref(data) == old(ref(data)) && offs(data) == old(offs(data)) && cap(data) == old(cap(data)), fresh(data)) && (n < len(data) ==> ref(data) > 0)
  let G = self.Glyphs
  let m = glyphLookup
  requires 1 <= len(G) && len(G) <= 128 && (forall k in 0..len(G) :: has(m, G[k])) && len(scratchBuffer) == 0
  modifies elems(data, len(data), cap(data)), elems(scratchBuffer, 0, cap(scratchBuffer))
  ensures err == nil && kept(r, data) && len(r) == n + mg_size(r, n, G) && len(sb) == 0 && (stored(sb, scratchBuffer, 0) || fresh(sb))
  ensures mg_at(r, n, m, G, self.AnimationFlags)
  loop 1
    invariant 0 <= i && i <= len(G) && len(scratchBuffer) == len(G)
    invariant forall k in 0..i :: scratchBuffer[k] == m[G[k]]
    decreases len(G) - i
  loop 2
    invariant 1 <= i && i <= len(G)
    invariant forall k in 0..i :: slice[k] == (slice[0] + k) % 65536
    decreases len(G) - i
  loop 3
    invariant K && len(data) == n + 2 + 2 * _i && data[n] == len(G) - 1 && data[n + 1] == self.AnimationFlags
    invariant forall k in 0.._i :: le16(data, n + 2 + 2 * k) == m[G[k]]

// where the group after c others begins, the first being at j
opaque mg_next(d, j) = ite(d[j] == 0, j + 3, ite(d[j] >= 128, j + 4, j + 4 + 2 * d[j]))
rec mg_pos(d, j, c) = ite(c <= 0, j, mg_next(d, mg_pos(d, j, c - 1)))
   measure d: seq | max(0, c)
lemma GMono(d: seq, j, c, i)
  reveal mg_next
  requires 0 <= j && 0 <= c && c <= i && (forall k in 0..len(d) :: d[k] >= 0)
  ensures mg_pos(d, j, c) + 3 * (i - c) <= mg_pos(d, j, i) && j <= mg_pos(d, j, c)
  decreases i
  use c < i ==> GMono(d, j, c, i - 1)
  use c > 0 && c == i ==> GMono(d, j, c - 1, i - 1)
lemma GPos(d: seq, e: seq, j, c)
  reveal mg_next
  requires 0 <= j && 0 <= c && begins(e, d) && mg_pos(d, j, c) <= len(d)
  ensures mg_pos(e, j, c) == mg_pos(d, j, c)
  decreases c
  use c > 0 ==> GMono(d, j, c - 1, c)
  use c > 0 ==> GMono(d, j, 0, c - 1)
  use c > 0 ==> GPos(d, e, j, c - 1)

fn mappingEntry.AppendTo(self, data, glyphLookup, scratchBuffer) (r, sb, err)
  props C27
  logical c
  reveal mg_next
  let n = old(len(data))
  let K = n <= len(data) && (forall k in 0..n :: data[k] == old(data[k])) && ite(len(data) <= old(cap(data)), ref(data) == old(ref(data)) && offs(data) == old(offs(data)) && cap(data) == old(cap(data)), fresh(data)) && (n < len(data) ==> ref(data) > 0)
  let m = glyphLookup
  let C = self.SwitchCases
  let nc = len(C)
  let x = self.SwitchType
  let g = C[c].Glyphs
  requires len(scratchBuffer) == 0 && 1 <= nc && (x >= 254 ==> nc == 1) && (x == 255 ==> len(C[0].Glyphs) == 1) && (x == 254 ==> len(C[0].Glyphs) > 1)
  requires forall j in 0..nc :: 1 <= len(C[j].Glyphs) && len(C[j].Glyphs) <= 128
  requires forall k in 0..128 :: forall j in 0..nc :: k < len(C[j].Glyphs) ==> has(m, C[j].Glyphs[k])
  modifies elems(data, len(data), cap(data)), elems(scratchBuffer, 0, cap(scratchBuffer))
  ensures kept(r, data) && len(r) > n && r[n] == x && len(sb) == 0
  ensures x == 255 ==> err == nil && len(r) == n + 3 && le16(r, n + 1) == m[C[0].Glyphs[0]]
  ensures x < 255 && err == nil ==> len(r) == mg_pos(r, n + 1, nc)
  ensures x < 255 && err == nil && 0 <= c && c < nc ==> mg_at(r, mg_pos(r, n + 1, c), m, g, C[c].AnimationFlags)
  ensures err != nil ==> x < 254 && len(r) > 33554432
  let E = cur(data)
  let l = len(E)
  loop 1
    invariant K && len(data) > n && data[n] == x && len(scratchBuffer) == 0 && (ref(scratchBuffer) == old(ref(scratchBuffer)) && offs(scratchBuffer) == old(offs(scratchBuffer)) && cap(scratchBuffer) == old(cap(scratchBuffer)) || fresh(scratchBuffer))
    invariant len(data) == mg_pos(E, n + 1, _i)
    invariant 0 <= c && c < _i ==> mg_at(data, mg_pos(E, n + 1, c), m, g, C[c].AnimationFlags)
    invariant 0 <= c && c < _i ==> n + 1 <= mg_pos(E, n + 1, c) && mg_pos(E, n + 1, c) + mg_size(data, mg_pos(E, n + 1, c), g) <= len(data)
    assert begins(data, start(E)) && data[n] == x
    assert mg_at(data, start(l), m, C[_i - 1].Glyphs, C[_i - 1].AnimationFlags) && len(data) == start(l) + mg_size(data, start(l), C[_i - 1].Glyphs)
    use GPos(start(E), E, n + 1, start(_i))
    assert mg_pos(E, n + 1, start(_i)) == start(l) && mg_next(E, start(l)) == len(data)
    use GMono(start(E), n + 1, c, start(_i))
    use GPos(start(E), E, n + 1, c)
    assert 0 <= c && c < start(_i) ==> mg_pos(E, n + 1, c) == mg_pos(start(E), n + 1, c) && mg_pos(E, n + 1, c) + mg_size(E, mg_pos(E, n + 1, c), g) <= start(l)
    assert 0 <= c && c < start(_i) ==> mg_head(E, mg_pos(E, n + 1, c), g, C[c].AnimationFlags)
    assert forall k in 0..len(g) :: 0 <= c && c < start(_i) ==> m[g[k]] == mg_glyph(start(E), mg_pos(start(E), n + 1, c), g, k)
    assert forall k in 0..len(g) :: 0 <= c && c < start(_i) ==> mg_glyph(E, mg_pos(E, n + 1, c), g, k) == mg_glyph(start(E), mg_pos(start(E), n + 1, c), g, k)
    assert 0 <= c && c < _i ==> mg_head(E, mg_pos(E, n + 1, c), g, C[c].AnimationFlags)
    assert forall k in 0..len(g) :: 0 <= c && c < _i ==> m[g[k]] == mg_glyph(E, mg_pos(E, n + 1, c), g, k)

// --- settings ---

fn settingEntry.AppendTo(self, data, builtinWords, words) (r)
  props C27
  let n = old(len(data))
  let K = n <= len(data) && (forall k in 0..n :: data[k] == old(data[k])) && ite(len(data) <= old(cap(data)), ref(data) == old(ref(data)) && offs(data) == old(offs(data)) && cap(data) == old(cap(data)), fresh(data)) && (n < len(data) ==> ref(data) > 0)
  let O = self.Options
  let B = builtinWords
  requires forall k in 0..len(O) :: has(words, O[k]) || has(B, O[k])
  requires forall k in 0..len(O) :: ite(has(words, O[k]), words[O[k]], B[O[k]]) <= 255
  modifies elems(data, len(data), cap(data))
  ensures kept(r, data) && len(r) == n + len(O)
  ensures forall k in 0..len(O) :: r[n + k] == uint8(ite(has(words, O[k]), words[O[k]], B[O[k]]))
  loop 1
    invariant K && len(data) == n + _i
    invariant forall k in 0.._i :: data[n + k] == uint8(ite(has(words, O[k]), words[O[k]], B[O[k]]))
