package root

// --- settings cache (C17) ---
// the parts of a cache do not share memory and fit together
def sc_ok(c) = blok(c.mappingSettingRelevanceFlags) && blok(c.rewriteConditionsSettingRelevanceFlags) \
   && blok(c.mappingCaseCachingFlags) && blok(c.rewriteConditionsCachingFlags) && blok(c.rewriteConditionsCachedBools) \
   && c.mappingSettingRelevanceFlags.size == len(c.settings) && c.rewriteConditionsSettingRelevanceFlags.size == len(c.settings) \
   && c.mappingCaseCachingFlags.size == len(c.mappingCachedCases) \
   && c.rewriteConditionsCachingFlags.size == c.rewriteConditionsCachedBools.size \
   && len(c.settings) <= 255 && len(c.mappingCachedCases) <= 255 && c.rewriteConditionsCachingFlags.size <= 255 \
   && separate(c.mappingCachedCases, c.settings) && separate(c.mappingCaseCachingFlags.bools, c.mappingCachedCases) \
   && separate(c.mappingCaseCachingFlags.bools, c.settings) && apart(c.rewriteConditionsCachingFlags.bools, c.rewriteConditionsCachedBools.bools) \
   && separate(c.rewriteConditionsCachingFlags.bools, c.settings) && separate(c.rewriteConditionsCachedBools.bools, c.settings) \
   && apart(c.mappingCaseCachingFlags.bools, c.rewriteConditionsCachingFlags.bools) \
   && apart(c.mappingCaseCachingFlags.bools, c.rewriteConditionsCachedBools.bools) \
   && separate(c.mappingCachedCases, c.rewriteConditionsCachingFlags.bools) && separate(c.mappingCachedCases, c.rewriteConditionsCachedBools.bools) \
   && apart(c.mappingCaseCachingFlags.bools, c.mappingSettingRelevanceFlags.bools) && separate(c.mappingCachedCases, c.mappingSettingRelevanceFlags.bools) \
   && apart(c.mappingCaseCachingFlags.bools, c.rewriteConditionsSettingRelevanceFlags.bools) && separate(c.mappingCachedCases, c.rewriteConditionsSettingRelevanceFlags.bools) \
   && apart(c.rewriteConditionsCachingFlags.bools, c.mappingSettingRelevanceFlags.bools) && apart(c.rewriteConditionsCachedBools.bools, c.mappingSettingRelevanceFlags.bools) \
   && apart(c.rewriteConditionsCachingFlags.bools, c.rewriteConditionsSettingRelevanceFlags.bools) && apart(c.rewriteConditionsCachedBools.bools, c.rewriteConditionsSettingRelevanceFlags.bools) \
   && separate(c.settings, c.mappingSettingRelevanceFlags.bools) && separate(c.settings, c.rewriteConditionsSettingRelevanceFlags.bools)
// not the same memory, unless there is none
def apart(a, b) = separate(a, b) || ref(a) == 0
// every setting is taken to matter for mappings and for conditions
def sc_rel(c) = (forall i in 0..len(c.settings) :: flag(c.mappingSettingRelevanceFlags, i) == 1) \
   && (forall i in 0..len(c.settings) :: flag(c.rewriteConditionsSettingRelevanceFlags, i) == 1)
def case_known(c, k) = flag(c.mappingCaseCachingFlags, k) == 1
def cond_known(c, k) = flag(c.rewriteConditionsCachingFlags, k) == 1
def n_cases(c) = len(c.mappingCachedCases)
def n_conds(c) = c.rewriteConditionsCachedBools.size

fn SettingsCache.UnsafeSlice(self) (r)
  props C17
  ensures same(r, self.settings)

fn SettingsCache.Get(self, key) (r)
  props C17
  ensures r == ite(key < len(self.settings), self.settings[key], 0)

fn SettingsCache.Set(self, key, option) (m, c)
  props C17
  requires sc_ok(self) && sc_rel(self)
  panics key >= len(self.settings)
  modifies elems(self.settings, key, key + 1), elems(self.mappingCaseCachingFlags.bools), elems(self.rewriteConditionsCachingFlags.bools)
  ensures m && c && sc_ok(self) && sc_rel(self)
  ensures forall i in 0..len(self.settings) :: self.settings[i] == ite(i == key, option, old(self.settings[i]))
  ensures forall i in 0..n_cases(self) :: !case_known(self, i)
  ensures forall i in 0..n_conds(self) :: !cond_known(self, i)

fn SettingsCache.GetMappingCase(self, switchTypeIndex) (v, known)
  reveal bitat
  props C17
  requires sc_ok(self)
  requires switchTypeIndex >= 254 || switchTypeIndex < n_cases(self)
  ensures switchTypeIndex >= 254 ==> v == 0 && known
  ensures switchTypeIndex < 254 ==> (known <==> case_known(self, switchTypeIndex))
  ensures switchTypeIndex < 254 && known ==> v == self.mappingCachedCases[switchTypeIndex]

fn SettingsCache.CacheMappingCase(self, switchTypeIndex, result)
  props C17
  requires sc_ok(self) && switchTypeIndex < n_cases(self)
  modifies elems(self.mappingCaseCachingFlags.bools), elems(self.mappingCachedCases, switchTypeIndex, switchTypeIndex + 1)
  ensures forall i in 0..n_cases(self) :: case_known(self, i) <==> i == switchTypeIndex || old(case_known(self, i))
  ensures forall i in 0..n_cases(self) :: self.mappingCachedCases[i] == ite(i == switchTypeIndex, result, old(self.mappingCachedCases[i]))

fn SettingsCache.GetRewriteCondition(self, conditionIndex) (v, known)
  reveal bitat
  props C17
  requires sc_ok(self)
  requires conditionIndex == 255 || conditionIndex < n_conds(self)
  ensures conditionIndex == 255 ==> v && known
  ensures conditionIndex < 255 ==> (known <==> cond_known(self, conditionIndex))
  ensures conditionIndex < 255 && known ==> (v <==> flag(self.rewriteConditionsCachedBools, conditionIndex) == 1)

fn SettingsCache.CacheRewriteCondition(self, conditionIndex, satisfied)
  props C17
  requires sc_ok(self) && conditionIndex < n_conds(self)
  modifies elems(self.rewriteConditionsCachingFlags.bools), elems(self.rewriteConditionsCachedBools.bools)
  ensures forall i in 0..n_conds(self) :: cond_known(self, i) <==> i == conditionIndex || old(cond_known(self, i))
  ensures forall i in 0..n_conds(self) :: flag(self.rewriteConditionsCachedBools, i) == ite(i == conditionIndex, ite(satisfied, 1, 0), old(flag(self.rewriteConditionsCachedBools, i)))

fn NewSettingsCache(font) (c)
  props C17
  requires wf_switches(font) && wf_stnames(font) && font.OffsetToRewriteConditions < len(font.Data)
  ensures sc_ok(c) && sc_rel(c) && len(c.settings) == st_n(font) && n_cases(c) == ms_n(font) && n_conds(c) == font.Data[font.OffsetToRewriteConditions]
  ensures forall i in 0..len(c.settings) :: c.settings[i] == 0
  ensures forall i in 0..n_cases(c) :: !case_known(c, i)
  ensures forall i in 0..n_conds(c) :: !cond_known(c, i)
  ensures fresh(c) && fresh(c.settings)

// --- mapping through caches (C17) ---
// the known cases are the active ones
def cases_ok(c, f) = sc_ok(c) && n_cases(c) == ms_n(f) && in_range(f, c.settings) \
   && forall k in 0..n_cases(c) :: case_known(c, k) ==> c.mappingCachedCases[k] == ms_case(f, k, c.settings)
def font_apart(c, f) = separate(f.Data, c.settings) && separate(f.Data, c.mappingCachedCases) && separate(f.Data, c.mappingCaseCachingFlags.bools) \
   && separate(f.Data, c.rewriteConditionsCachingFlags.bools) && separate(f.Data, c.rewriteConditionsCachedBools.bools)

fn FontMapping.Utf8WithCache(self, codePoint, settingsCache) (r, found)
  reveal cp_at mp_start mp_end grp_n grp_len
  props C17 C16
  requires wf_mapping(self) && cases_ok(settingsCache, self) && font_apart(settingsCache, self)
  modifies elems(settingsCache.mappingCaseCachingFlags.bools), elems(settingsCache.mappingCachedCases)
  let n = mp_n(self)
  let cp = uint32(codePoint)
  let settings = settingsCache.settings
  ensures found <==> mapped(self.Data, self.OffsetToMapping, cp)
  ensures found ==> forall i in 0..n :: m_cp(self, i) == cp ==> is_group(r, self, i, settings)
  ensures found ==> wf_group(r) && (r.switchType >= 254 || r.switchType < ms_n(self))
  ensures found ==> forall i in 0..n :: m_cp(self, i) == cp && m_sw(self, i) < 255 ==> r.caseBranch < m_cases(self, i)
  ensures cases_ok(settingsCache, self)
  use n == 0 ==> MapNone(self, cp)
  loop 1
    invariant minIndex <= 65535 && maxIndex >= -1 && maxIndex <= 65535
    invariant 0 <= minIndex && maxIndex < n && (n == 0 || minIndex <= maxIndex)
    invariant n > 0 ==> maxIndex >= 0
    invariant forall i in 0..minIndex :: m_cp(self, i) < cp
    invariant maxIndex == n - 1 || m_cp(self, maxIndex) >= cp
    mention m_cp(self, midIndex)
    mention m_cp(self, minIndex)
    use n > 0 && m_cp(self, minIndex) != cp && (minIndex == n - 1 || m_cp(self, minIndex) > cp) ==> MapAbsent(self, minIndex, cp)
    use n > 0 && m_cp(self, minIndex) == cp ==> MapPresent(self, minIndex, cp)
    use minIndex < n ==> MapPlace(self, minIndex)
    use minIndex < n && m_sw(self, minIndex) < 255 ==> MapCase(self, minIndex, settings)
  cut targetSwitchCase
    hide cp_at mp_start mp_end
    let s0 = m_start(self, minIndex) + 1
    assert 0 <= minIndex && minIndex < n && m_cp(self, minIndex) == cp && mapped(self.Data, self.OffsetToMapping, cp)
    assert m_sw(self, minIndex) < 255 && group.font == self && group.switchType == m_sw(self, minIndex) && !group.directMapping
    assert group.caseBranch == m_case(self, minIndex, settings) && targetSwitchCase == group.caseBranch && targetSwitchCase < m_cases(self, minIndex)
    assert grps_ok(self.Data, s0, m_cases(self, minIndex), m_end(self, minIndex)) && s0 >= 1
    assert offsetToMappingData + startOffset == s0 && offsetToMappingData + endOffset == m_end(self, minIndex)
    assert 0 <= offsetToMappingData && m_end(self, minIndex) <= len(self.Data)
    assert len(self.Data) <= 33554432 && m_cases(self, minIndex) <= 254
    assert m_sw(self, minIndex) >= 254 || m_sw(self, minIndex) < ms_n(self)
    assert forall i in 0..n :: m_cp(self, i) == cp ==> i == minIndex
    assert cases_ok(settingsCache, self)
    use GrpPos(self.Data, s0, m_cases(self, minIndex), m_end(self, minIndex), group.caseBranch)
  loop 2
    use GrpPos(self.Data, s0, m_cases(self, minIndex), m_end(self, minIndex), group.caseBranch - targetSwitchCase)
    use targetSwitchCase > 0 ==> GrpPos(self.Data, s0, m_cases(self, minIndex), m_end(self, minIndex), group.caseBranch - targetSwitchCase + 1)
    use GrpMono(self.Data, s0, group.caseBranch - targetSwitchCase)
    invariant targetSwitchCase <= group.caseBranch && startOffset <= 33554432
    invariant offsetToMappingData + startOffset == grp_at(self.Data, s0, group.caseBranch - targetSwitchCase)
    decreases targetSwitchCase

// --- mapping cache (C17) ---
def mc_size(c) = len(c.mappingEntries)
def mc_link(k, n) = k < n || k == 65535
// the entries, the list that links them and the index fit together
def mc_ok(c) = ref(c.font) != 0 && ref(c.cachedMappings) != 0 && 1 <= mc_size(c) && mc_size(c) <= 65000 && c.lruIndex < mc_size(c) && mc_link(c.mruIndex, mc_size(c)) \
   && (forall j in 0..mc_size(c) :: mc_link(c.mappingEntries[j].prevEntry, mc_size(c)) && mc_link(c.mappingEntries[j].nextEntry, mc_size(c))) \
   && (forall j in 0..mc_size(c) :: c.mappingEntries[j].dropSignature <= c.dropCounter) \
   && (forall p in -2147483648..2147483648 :: has(c.cachedMappings, p) ==> c.cachedMappings[p] < mc_size(c) && c.mappingEntries[c.cachedMappings[p]].codePoint == p)
// entry j of the cache holds the group of a case of table entry i
def mc_holds(c, j, f, i) = c.mappingEntries[j].switchType == m_sw(f, i) && (c.mappingEntries[j].directMapping <==> m_sw(f, i) == 255) \
   && ite(m_sw(f, i) == 255, c.mappingEntries[j].caseBranch == 0 && c.mappingEntries[j].mappingOffset == m_start(f, i) + 1, \
      c.mappingEntries[j].caseBranch < m_cases(f, i) && c.mappingEntries[j].mappingOffset == grp_at(f.Data, m_start(f, i) + 1, c.mappingEntries[j].caseBranch))
def mc_data(c, f) = forall p in -2147483648..2147483648 :: has(c.cachedMappings, p) ==> mapped(f.Data, f.OffsetToMapping, uint32(p)) \
   && (c.mappingEntries[c.cachedMappings[p]].switchType >= 254 || c.mappingEntries[c.cachedMappings[p]].switchType < ms_n(f)) \
   && forall i in 0..mp_n(f) :: m_cp(f, i) == uint32(p) ==> mc_holds(c, c.cachedMappings[p], f, i)
// the entries made or confirmed since the last drop hold the active case
def mc_cur(c, f, s) = forall p in -2147483648..2147483648 :: has(c.cachedMappings, p) && c.mappingEntries[c.cachedMappings[p]].dropSignature == c.dropCounter ==> \
   forall i in 0..mp_n(f) :: m_cp(f, i) == uint32(p) ==> c.mappingEntries[c.cachedMappings[p]].caseBranch == m_case(f, i, s)
// g is the group of table entry i under s, as far as it can be observed
def shows_group(g, f, i, s) = g.font == f && g.caseBranch == m_case(f, i, s) && (g.directMapping <==> m_sw(f, i) == 255) \
   && g.offset == ite(m_sw(f, i) == 255, m_start(f, i) + 1, grp_at(f.Data, m_start(f, i) + 1, m_case(f, i, s)))

fn mappingEntry.ToMappingGroup(self, font) (g)
  props C17
  ensures g.font == font && g.offset == self.mappingOffset && g.caseBranch == self.caseBranch && g.directMapping == self.directMapping

fn mappingEntry.Update(self, dropCounter, group)
  props C17
  modifies self.dropSignature, self.mappingOffset, self.switchType, self.caseBranch, self.directMapping
  ensures self.dropSignature == dropCounter && self.mappingOffset == group.offset && self.switchType == group.switchType \
    && self.caseBranch == group.caseBranch && self.directMapping == group.directMapping

fn MappingCache.initEntriesLinking(self)
  props C17
  requires 1 <= mc_size(self) && mc_size(self) <= 65000
  modifies elems(self.mappingEntries)
  ensures forall j in 0..mc_size(self) :: mc_link(self.mappingEntries[j].prevEntry, mc_size(self)) && mc_link(self.mappingEntries[j].nextEntry, mc_size(self))
  ensures forall j in 0..mc_size(self) :: self.mappingEntries[j].dropSignature == old(self.mappingEntries[j].dropSignature)
  loop 1
    invariant i <= size
    invariant forall j in 0..i :: ite(j == 0, self.mappingEntries[j].prevEntry == 65535, self.mappingEntries[j].prevEntry == j - 1) && self.mappingEntries[j].nextEntry == j + 1
    invariant forall j in 0..mc_size(self) :: self.mappingEntries[j].dropSignature == old(self.mappingEntries[j].dropSignature)
    decreases size - i

fn NewMappingCache(font, size) (c)
  props C17
  nilok font
  panics size <= 0 || size > 65000 || ref(font) == 0
  ensures fresh(c) && mc_ok(c) && mc_size(c) == size && c.font == font
  ensures forall p in -2147483648..2147483648 :: !has(c.cachedMappings, p)

fn MappingCache.Reset(self, font)
  props C17
  requires mc_ok(self)
  modifies self.font, self.mruIndex, self.lruIndex, elems(self.mappingEntries), elems(self.cachedMappings)
  ensures mc_ok(self) && self.font == font
  ensures forall p in -2147483648..2147483648 :: !has(self.cachedMappings, p)

fn MappingCache.Drop(self)
  props C17
  requires mc_ok(self) && self.dropCounter < 4294967295
  modifies self.dropCounter
  ensures mc_ok(self) && forall j in 0..mc_size(self) :: self.mappingEntries[j].dropSignature < self.dropCounter

fn MappingCache.Get(self, codePoint, settings) (r, found)
  props C17
  inline mappingEntry.ToMappingGroup mappingEntry.Update MappingCache.updateMRU
  requires mc_ok(self) && wf_mapping(self.font) && cases_ok(settings, self.font) && font_apart(settings, self.font)
  requires mc_data(self, self.font) && mc_cur(self, self.font, settings.settings)
  modifies self.lruIndex, self.mruIndex, elems(self.mappingEntries), elems(self.cachedMappings)
  modifies elems(settings.mappingCaseCachingFlags.bools), elems(settings.mappingCachedCases)
  let f = self.font
  ensures found <==> mapped(f.Data, f.OffsetToMapping, uint32(codePoint))
  ensures found ==> forall i in 0..mp_n(f) :: m_cp(f, i) == uint32(codePoint) ==> shows_group(r, f, i, settings.settings)
  ensures cases_ok(settings, f)
  ensures mc_ok(self)
  ensures mc_data(self, f)
  ensures mc_cur(self, f, settings.settings)
