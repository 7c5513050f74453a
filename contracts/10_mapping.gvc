package root

// --- mapping (C16) ---
def mp_n(f) = le16(f.Data, f.OffsetToMapping)
// The table at o: the number of entries, the code points (4 bytes each), the end offsets (3 bytes each), the entries.
opaque cp_at(d, o, i) = le32(d, o + 2 + 4 * i)
opaqueb mapped(d, o, cp) = exists i in 0..le16(d, o) :: cp_at(d, o, i) == cp
opaque mp_start(d, o, i) = o + 2 + 7 * le16(d, o) + b3_start(d, o + 2 + 4 * le16(d, o), i)
opaque mp_end(d, o, i) = o + 2 + 7 * le16(d, o) + b3_end(d, o + 2 + 4 * le16(d, o), i)
// The group of glyphs at p: a byte with the number of glyphs minus one and the range flag (128), a byte of
// animation flags when there is more than one glyph, the first glyph of the range or all the glyphs.
opaque grp_n(d, p) = d[p] % 128 + 1
opaque grp_len(d, p) = ite(grp_n(d, p) > 1, 2, 1) + ite(d[p] >= 128, 2, 2 * grp_n(d, p))
// position of the k-th group of those that begin at p
rec grp_at(d, p, k) = ite(k <= 0, p, grp_at(d, p, k - 1) + grp_len(d, grp_at(d, p, k - 1)))
// n groups begin at p, the last one ends at e or before
opaqueb grps_ok(d, p, n, e) = forall c in 0..n :: grp_at(d, p, c) < e && grp_at(d, p, c) + grp_len(d, grp_at(d, p, c)) <= e
def m_sw(f, i) = f.Data[mp_start(f.Data, f.OffsetToMapping, i)]
def m_cases(f, i) = ite(m_sw(f, i) < 254, ms_cases(f, m_sw(f, i)), ite(m_sw(f, i) == 254, 1, 0))
def m_case(f, i, s) = ite(m_sw(f, i) < 254, ms_case(f, m_sw(f, i), s), 0)
def m_start(f, i) = mp_start(f.Data, f.OffsetToMapping, i)
def m_end(f, i) = mp_end(f.Data, f.OffsetToMapping, i)
def m_cp(f, i) = cp_at(f.Data, f.OffsetToMapping, i)
def wf_mapping(f) = wf_switches(f) && f.OffsetToMapping + 2 <= len(f.Data) \
   && wf_b3(f.Data, f.OffsetToMapping + 2 + 4 * mp_n(f), mp_n(f), f.OffsetToMapping + 2 + 7 * mp_n(f)) \
   && (forall j in 0..mp_n(f) :: forall i in 0..j :: m_cp(f, i) < m_cp(f, j)) \
   && (forall i in 0..mp_n(f) :: m_sw(f, i) >= 254 || m_sw(f, i) < ms_n(f)) \
   && (forall i in 0..mp_n(f) :: m_sw(f, i) == 255 ==> m_start(f, i) + 3 <= m_end(f, i)) \
   && (forall i in 0..mp_n(f) :: grps_ok(f.Data, m_start(f, i) + 1, m_cases(f, i), m_end(f, i)))

lemma MapPlace(f: *FontMapping, i)
  reveal mp_start mp_end
  requires wf_mapping(f) && 0 <= i && i < mp_n(f)
  ensures f.OffsetToMapping + 2 + 7 * mp_n(f) <= m_start(f, i) && m_start(f, i) < m_end(f, i) && m_end(f, i) <= len(f.Data)
lemma GrpMono(d: seq, p, c: nat)
  reveal grp_len grp_n
  ensures p <= grp_at(d, p, c)
  decreases c
  use c > 0 ==> GrpMono(d, p, c - 1)
lemma GrpPos(d: seq, p, n, e, c)
  reveal grps_ok
  requires grps_ok(d, p, n, e) && 0 <= c && c < n
  ensures grp_at(d, p, c) < e && grp_at(d, p, c) + grp_len(d, grp_at(d, p, c)) <= e
lemma MapAbsent(f: *FontMapping, k, cp)
  reveal mapped
  requires wf_mapping(f) && 0 <= k && k < mp_n(f) && forall i in 0..k :: m_cp(f, i) < cp
  requires m_cp(f, k) > cp || k == mp_n(f) - 1 && m_cp(f, k) != cp
  ensures !mapped(f.Data, f.OffsetToMapping, cp)
lemma MapPresent(f: *FontMapping, k, cp)
  reveal mapped
  requires 0 <= k && k < mp_n(f) && m_cp(f, k) == cp
  ensures mapped(f.Data, f.OffsetToMapping, cp)
lemma MapNone(f: *FontMapping, cp)
  reveal mapped
  requires mp_n(f) == 0
  ensures !mapped(f.Data, f.OffsetToMapping, cp)
// the active case of an entry has a group, inside the entry
lemma MapCase(f: *FontMapping, i, s: []uint8)
  requires wf_mapping(f) && 0 <= i && i < mp_n(f) && in_range(f, s) && m_sw(f, i) < 255
  ensures 0 <= m_case(f, i, s) && m_case(f, i, s) < m_cases(f, i) && m_cases(f, i) <= 254
  use m_sw(f, i) < 254 ==> SwPlace(f, m_sw(f, i))
  use m_sw(f, i) < 254 ==> SwDigits(f, m_sw(f, i))
  use m_sw(f, i) < 254 ==> SwInRange(f, m_sw(f, i), s)
  use m_sw(f, i) < 254 ==> SwRange(f.Data, f.OffsetToSettingDefinitions, s, ms_end(f, m_sw(f, i)), ms_end(f, m_sw(f, i)) - ms_start(f, m_sw(f, i)))
lemma MapGroup(f: *FontMapping, i, c)
  requires wf_mapping(f) && 0 <= i && i < mp_n(f) && 0 <= c && c < m_cases(f, i)
  ensures m_start(f, i) + 1 <= grp_at(f.Data, m_start(f, i) + 1, c)
  ensures grp_at(f.Data, m_start(f, i) + 1, c) < m_end(f, i)
  ensures grp_at(f.Data, m_start(f, i) + 1, c) + grp_len(f.Data, grp_at(f.Data, m_start(f, i) + 1, c)) <= m_end(f, i)
  use GrpPos(f.Data, m_start(f, i) + 1, m_cases(f, i), m_end(f, i), c)
  use GrpMono(f.Data, m_start(f, i) + 1, c)

// g is the group of entry i under the settings s
def is_group(g, f, i, s) = g.font == f && g.switchType == m_sw(f, i) && g.caseBranch == m_case(f, i, s) \
   && (g.directMapping <==> m_sw(f, i) == 255) \
   && g.offset == ite(m_sw(f, i) == 255, m_start(f, i) + 1, grp_at(f.Data, m_start(f, i) + 1, m_case(f, i, s)))
// the bytes of the group g are there
def wf_group(g) = ref(g.font) != 0 && small(g.font) && ite(g.directMapping, g.offset + 2 <= len(g.font.Data), \
   g.offset < len(g.font.Data) && g.offset + grp_len(g.font.Data, g.offset) <= len(g.font.Data))

fn FontMapping.NumEntries(self) (r)
  props C16
  requires self.OffsetToMapping + 2 <= len(self.Data) && small(self)
  ensures r == mp_n(self)

fn FontMapping.Utf8(self, codePoint, settings) (r, found)
  reveal cp_at mp_start mp_end grp_n grp_len
  props C16
  requires wf_mapping(self) && in_range(self, settings)
  let n = mp_n(self)
  let cp = uint32(codePoint)
  ensures found <==> mapped(self.Data, self.OffsetToMapping, cp)
  ensures found ==> forall i in 0..n :: m_cp(self, i) == cp ==> is_group(r, self, i, settings)
  ensures found ==> wf_group(r)
  use n == 0 ==> MapNone(self, cp)
  loop 1
    invariant minIndex <= 65535 && maxIndex >= -1 && maxIndex <= 65535
    invariant 0 <= minIndex && maxIndex < n && (n == 0 || minIndex <= maxIndex)
    invariant n > 0 ==> maxIndex >= 0
    invariant forall i in 0..minIndex :: m_cp(self, i) < cp
    invariant maxIndex == n - 1 || m_cp(self, maxIndex) >= cp
    mention m_cp(self, midIndex)
    mention m_cp(self, minIndex)
    use n > 0 && m_cp(self, minIndex) != cp && (minIndex == n - 1 || m_cp(self, minIndex) > cp) ==> MapAbsent(self, minIndex, cp)
    use n > 0 && m_cp(self, minIndex) == cp ==> MapPresent(self, minIndex, cp)
    use minIndex < n ==> MapPlace(self, minIndex)
    use minIndex < n && m_sw(self, minIndex) < 255 ==> MapCase(self, minIndex, settings)
  cut targetSwitchCase
    hide cp_at mp_start mp_end
    let s0 = m_start(self, minIndex) + 1
    assert 0 <= minIndex && minIndex < n && m_cp(self, minIndex) == cp && mapped(self.Data, self.OffsetToMapping, cp)
    assert m_sw(self, minIndex) < 255 && group.font == self && group.switchType == m_sw(self, minIndex) && !group.directMapping
    assert group.caseBranch == m_case(self, minIndex, settings) && targetSwitchCase == group.caseBranch && targetSwitchCase < m_cases(self, minIndex)
    assert grps_ok(self.Data, s0, m_cases(self, minIndex), m_end(self, minIndex)) && s0 >= 1
    assert offsetToMappingData + startOffset == s0 && offsetToMappingData + endOffset == m_end(self, minIndex)
    assert 0 <= offsetToMappingData && m_end(self, minIndex) <= len(self.Data)
    assert len(self.Data) <= 33554432 && m_cases(self, minIndex) <= 254
    assert m_sw(self, minIndex) >= 254 || m_sw(self, minIndex) < ms_n(self)
    assert forall i in 0..n :: m_cp(self, i) == cp ==> i == minIndex
    use GrpPos(self.Data, s0, m_cases(self, minIndex), m_end(self, minIndex), group.caseBranch)
  loop 2
    use GrpPos(self.Data, s0, m_cases(self, minIndex), m_end(self, minIndex), group.caseBranch - targetSwitchCase)
    use targetSwitchCase > 0 ==> GrpPos(self.Data, s0, m_cases(self, minIndex), m_end(self, minIndex), group.caseBranch - targetSwitchCase + 1)
    use GrpMono(self.Data, s0, group.caseBranch - targetSwitchCase)
    invariant targetSwitchCase <= group.caseBranch && startOffset <= 33554432
    invariant offsetToMappingData + startOffset == grp_at(self.Data, s0, group.caseBranch - targetSwitchCase)
    decreases targetSwitchCase

fn FontMapping.Ascii(self, codePoint, settings) (r, found)
  props C16
  requires wf_mapping(self) && in_range(self, settings)
  let n = mp_n(self)
  ensures found <==> mapped(self.Data, self.OffsetToMapping, codePoint)
  ensures found ==> forall i in 0..n :: m_cp(self, i) == codePoint ==> is_group(r, self, i, settings)
  ensures found ==> wf_group(r)

fn GlyphMappingGroup.Size(self) (r)
  reveal grp_n grp_len
  props C16
  requires wf_group(self)
  ensures r == g_size(self)

fn GlyphMappingGroup.AnimationFlags(self) (r)
  reveal grp_n grp_len
  props C16
  requires wf_group(self)
  ensures r == ite(g_size(self) == 1, 0, self.font.Data[self.offset + 1])

fn GlyphMappingGroup.CaseBranch(self) (r)
  props C16
  ensures r == self.caseBranch

fn GlyphMappingGroup.Select(self, choice) (r)
  reveal grp_n grp_len
  props C16
  requires wf_group(self)
  panics choice >= g_size(self)
  let d = self.font.Data
  let o = self.offset
  ensures self.directMapping ==> r == le16(d, o)
  ensures !self.directMapping && g_size(self) == 1 ==> r == le16(d, o + 1)
  ensures !self.directMapping && g_size(self) > 1 && d[o] >= 128 ==> r == uint16(le16(d, o + 2) + choice)
  ensures !self.directMapping && g_size(self) > 1 && d[o] < 128 ==> r == le16(d, o + 2 + 2 * choice)

def g_size(g) = ite(g.directMapping, 1, grp_n(g.font.Data, g.offset))
