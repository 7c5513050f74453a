package internal/rerules/glyphrule

// --- automaton states (C22) ---
def t_first(T, k) = T[k].Range.First
def t_last(T, k) = T[k].Range.Last
def t_ok(T) = len(T) <= 254 && (forall k in 0..len(T) :: t_first(T, k) <= t_last(T, k)) && (forall k in 0..len(T) :: forall l in 0..k :: t_last(T, l) < t_first(T, k))
opaqueb covers(F, L, c) = exists k in 0..len(F) :: F[k] <= c && c <= L[k]
def cov(T, c) = covers(proj(T, Range.First), proj(T, Range.Last), c)
lemma CovAt(F: ints, L: ints, k, c)
  reveal covers
  requires 0 <= k && k < len(F) && F[k] <= c && c <= L[k]
  ensures covers(F, L, c)
lemma CovInsert(F: ints, L: ints, G: ints, M: ints, i, a, b, c)
  reveal covers
  requires 0 <= i && i <= len(F) && len(G) == len(F) + 1 && len(L) == len(F) && len(M) == len(G)
  requires G[i] == a && M[i] == b
  requires forall k in 0..i :: G[k] == F[k] && M[k] == L[k]
  requires forall k in i + 1..len(G) :: G[k] == F[k - 1] && M[k] == L[k - 1]
  requires forall k in i..len(F) :: F[k] == G[k + 1] && L[k] == M[k + 1]
  requires forall k in 0..i :: F[k] == G[k] && L[k] == M[k]
  ensures covers(G, M, c) <==> covers(F, L, c) || a <= c && c <= b
lemma CovSplit(F: ints, L: ints, G: ints, M: ints, t, x, c)
  reveal covers
  requires 0 <= t && t < len(F) && len(G) == len(F) + 1 && len(L) == len(F) && len(M) == len(G)
  requires F[t] <= x && x < L[t] && G[t + 1] == x + 1 && M[t + 1] == L[t] && G[t] == F[t] && M[t] == x
  requires forall k in 0..t :: G[k] == F[k] && M[k] == L[k]
  requires forall k in t + 2..len(G) :: G[k] == F[k - 1] && M[k] == L[k - 1]
  requires forall k in t + 1..len(F) :: F[k] == G[k + 1] && L[k] == M[k + 1]
  requires forall k in 0..t :: F[k] == G[k] && L[k] == M[k]
  ensures covers(G, M, c) <==> covers(F, L, c)
def same_t(T, k, U, l) = T[k].Range.First == U[l].Range.First && T[k].Range.Last == U[l].Range.Last && T[k].NextState == U[l].NextState && T[k].RuleMatch == U[l].RuleMatch


fn State.findGlyphTransition(self, glyphIndex) (i, found)
  props C22
  requires t_ok(self.Transitions)
  let T = self.Transitions
  ensures found ==> i < len(T) && t_first(T, i) <= glyphIndex && glyphIndex <= t_last(T, i)
  ensures !found ==> forall k in 0..len(T) :: !(t_first(T, k) <= glyphIndex && glyphIndex <= t_last(T, k))
  ensures i <= len(T) && (forall k in 0..i :: t_last(T, k) < glyphIndex)
  loop 1
    invariant 0 <= minIndex && minIndex <= len(T) && maxIndex < len(T) && (minIndex <= maxIndex || len(T) == 0 && minIndex == 0)
    invariant forall k in 0..minIndex :: t_last(T, k) < glyphIndex
    invariant forall k in maxIndex + 1..len(T) :: glyphIndex < t_first(T, k)
    decreases maxIndex - minIndex

fn State.Trigger(self, c) (next, rule)
  props C22
  requires t_ok(self.Transitions)
  let T = self.Transitions
  ensures forall k in 0..len(T) :: t_first(T, k) <= c && c <= t_last(T, k) ==> next == T[k].NextState && rule == T[k].RuleMatch
  ensures (forall k in 0..len(T) :: !(t_first(T, k) <= c && c <= t_last(T, k))) ==> next == 255 && rule == 255

fn State.Reset(self)
  props C22
  modifies *self
  ensures len(self.Transitions) == 0 && self.MinHeadLen == 255 && self.MaxHeadLen == 0

fn State.CopyDataFrom(self, other)
  props C22
  modifies *self, elems(self.Transitions, 0, cap(self.Transitions))
  requires ref(self.Transitions) != ref(other.Transitions) || len(other.Transitions) == 0
  let T = self.Transitions
  let U = old(other.Transitions)
  ensures len(T) == len(U) && (forall k in 0..len(T) :: same_t(T, k, U, k))
  ensures self.MinHeadLen == other.MinHeadLen && self.MaxHeadLen == other.MaxHeadLen

fn State.UpdateHeadLen(self, headLen)
  props C22
  modifies self.MinHeadLen, self.MaxHeadLen
  ensures self.MinHeadLen == min(old(self.MinHeadLen), headLen) && self.MaxHeadLen == max(old(self.MaxHeadLen), headLen)
fn State.SatisfiesMinRequiredHead(self, n) (r)
  props C22
  ensures r <==> self.MinHeadLen <= n && n <= self.MaxHeadLen

fn Transition.ShortenRTL(self, lastGlyphOfPre) (r)
  props C22
  requires self.Range.First <= lastGlyphOfPre && lastGlyphOfPre < self.Range.Last
  modifies self.Range.Last
  ensures self.Range.Last == lastGlyphOfPre && r.First == lastGlyphOfPre + 1 && r.Last == old(self.Range.Last)

fn State.confrontRanges(self, candidateRange, incomingRange) (mode, r)
  props C22
  requires candidateRange.First <= candidateRange.Last && incomingRange.First <= incomingRange.Last
  let a = candidateRange.First
  let b = candidateRange.Last
  let x = incomingRange.First
  let y = incomingRange.Last
  ensures mode == ite(x < a, 0, ite(x > b, 5, ite(x == a, ite(y >= b, 2, 1), ite(y >= b, 4, 3))))
  ensures r.First == x && r.Last == ite(x < a, min(y, a - 1), ite(x > b, y, min(y, b)))

fn State.unsafeInsertUninitializedTransition(self, R) (i, err)
  props C22
  logical c
  requires t_ok(self.Transitions) && R.First <= R.Last
  requires forall k in 0..len(self.Transitions) :: t_last(self.Transitions, k) < R.First || R.Last < t_first(self.Transitions, k)
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures err == nil <==> len(U) < 254
  ensures err == nil ==> len(T) == len(U) + 1 && i <= len(U) && T[i].Range.First == R.First && T[i].Range.Last == R.Last
  ensures err == nil ==> forall k in 0..i :: same_t(T, k, U, k)
  ensures err == nil ==> forall k in i + 1..len(T) :: same_t(T, k, U, k - 1)
  ensures err == nil ==> (cov(T, c) <==> cov(U, c) || R.First <= c && c <= R.Last)
  ensures err == nil ==> t_ok(T)
  ensures err == nil ==> ite(len(U) + 1 <= old(cap(self.Transitions)), ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) && cap(T) == old(cap(self.Transitions)), fresh(T))
  use err == nil ==> CovInsert(proj(U, Range.First), proj(U, Range.Last), proj(T, Range.First), proj(T, Range.Last), i, R.First, R.Last, c)
  loop 1
    invariant 0 <= orderedIndex && orderedIndex <= len(U)
    invariant forall k in orderedIndex..len(U) :: R.Last < t_first(U, k)
    decreases orderedIndex

fn State.splitTransitionAt(self, t, x) (err)
  props C22
  logical c
  requires t_ok(self.Transitions) && t < len(self.Transitions) && t_first(self.Transitions, t) <= x && x < t_last(self.Transitions, t)
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures err == nil <==> len(U) < 254
  ensures err == nil ==> len(T) == len(U) + 1
  ensures err == nil ==> forall k in 0..t :: same_t(T, k, U, k)
  ensures err == nil ==> forall k in t + 2..len(T) :: same_t(T, k, U, k - 1)
  ensures err == nil ==> (cov(T, c) <==> cov(U, c))
  ensures err == nil ==> t_first(T, t) == t_first(U, t) && t_last(T, t) == x && t_first(T, t + 1) == x + 1 && t_last(T, t + 1) == t_last(U, t)
  ensures err == nil ==> T[t].NextState == U[t].NextState && T[t].RuleMatch == U[t].RuleMatch && T[t + 1].NextState == U[t].NextState && T[t + 1].RuleMatch == U[t].RuleMatch
  ensures err == nil ==> t_ok(T)
  ensures err == nil ==> ite(len(U) + 1 <= old(cap(self.Transitions)), ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) && cap(T) == old(cap(self.Transitions)), fresh(T))
  use err == nil ==> CovSplit(proj(U, Range.First), proj(U, Range.Last), proj(T, Range.First), proj(T, Range.Last), t, x, c)

fn State.splitTransitionBy(self, t, R) (err)
  props C22
  logical c
  requires t_ok(self.Transitions) && t < len(self.Transitions) && t_first(self.Transitions, t) < R.First && R.First <= R.Last && R.Last < t_last(self.Transitions, t)
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures err == nil <==> len(U) < 253
  ensures err == nil ==> len(T) == len(U) + 2
  ensures err == nil ==> forall k in 0..t :: same_t(T, k, U, k)
  ensures err == nil ==> forall k in t + 3..len(T) :: same_t(T, k, U, k - 2)
  ensures err == nil ==> (cov(T, c) <==> cov(U, c))
  ensures err == nil ==> t_first(T, t) == t_first(U, t) && t_last(T, t) == R.First - 1 && t_first(T, t + 1) == R.First && t_last(T, t + 1) == R.Last && t_first(T, t + 2) == R.Last + 1 && t_last(T, t + 2) == t_last(U, t)
  ensures err == nil ==> forall k in t..t + 3 :: T[k].NextState == U[t].NextState && T[k].RuleMatch == U[t].RuleMatch
  ensures err == nil ==> t_ok(T)
  ensures err == nil ==> (cap(T) == old(cap(self.Transitions)) && ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) || fresh(T))

fn Transition.Link(self, ruleMatchIndex, stateLinker, numSplits) (err)
  props C22
  modifies self.RuleMatch, self.NextState
  ensures ruleMatchIndex != 255 ==> err == nil && self.NextState == old(self.NextState) && self.RuleMatch == ite(old(self.RuleMatch) == 255, ruleMatchIndex, old(self.RuleMatch))
  ensures ruleMatchIndex == 255 ==> self.RuleMatch == old(self.RuleMatch)

fn State.insertNewTransition(self, R, ruleMatchIndex, stateLinker, numSplits) (err)
  props C22
  requires t_ok(self.Transitions) && R.First <= R.Last
  requires forall k in 0..len(self.Transitions) :: t_last(self.Transitions, k) < R.First || R.Last < t_first(self.Transitions, k)
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  logical i
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures len(U) >= 254 ==> err != nil
  ensures ruleMatchIndex != 255 && len(U) < 254 ==> err == nil
  ensures err == nil ==> len(T) == len(U) + 1 && t_ok(T)
  ensures err == nil ==> ite(len(U) + 1 <= old(cap(self.Transitions)), ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) && cap(T) == old(cap(self.Transitions)), fresh(T))
  ensures err == nil && 0 <= i && i <= len(U) && (i == 0 || t_last(U, i - 1) < R.First) && (i == len(U) || R.Last < t_first(U, i)) ==> T[i].Range.First == R.First && T[i].Range.Last == R.Last && T[i].RuleMatch == ruleMatchIndex && (ruleMatchIndex != 255 ==> T[i].NextState == 255)
  ensures err == nil && 0 <= i && i <= len(U) && (i == 0 || t_last(U, i - 1) < R.First) && (i == len(U) || R.Last < t_first(U, i)) ==> (forall k in 0..i :: same_t(T, k, U, k)) && (forall k in i + 1..len(T) :: same_t(T, k, U, k - 1))

fn State.AppendRange(self, R, ruleMatchIndex, stateLinker) (err)
  props C22
  logical c
  requires t_ok(self.Transitions) && R.First <= R.Last && R.Last < 65535
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures err == nil ==> t_ok(T)
  ensures err == nil ==> (cov(T, c) <==> cov(U, c) || old(R.First) <= c && c <= old(R.Last))
  loop 1
    invariant t_ok(T) && candidateTrans <= len(T) && glyphRange.Last == old(R.Last) && old(R.First) <= glyphRange.First && glyphRange.First <= old(R.Last) + 1
    invariant forall k in 0..candidateTrans :: t_last(T, k) < glyphRange.First
    invariant cov(T, c) <==> cov(U, c) || old(R.First) <= c && c < glyphRange.First
    invariant cap(T) == old(cap(self.Transitions)) && ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) || fresh(T)
    use candidateTrans < len(T) ==> CovAt(proj(T, Range.First), proj(T, Range.Last), candidateTrans, c)
    decreases len(T) + 510 - 2 * candidateTrans

package internal/rerules/utf8rule

fn State.findRuneTransition(self, codePoint) (i, found)
  props C22
  requires t_ok(self.Transitions)
  let T = self.Transitions
  ensures found ==> i < len(T) && t_first(T, i) <= codePoint && codePoint <= t_last(T, i)
  ensures !found ==> forall k in 0..len(T) :: !(t_first(T, k) <= codePoint && codePoint <= t_last(T, k))
  ensures i <= len(T) && (forall k in 0..i :: t_last(T, k) < codePoint)
  loop 1
    invariant 0 <= minIndex && minIndex <= len(T) && maxIndex < len(T) && (minIndex <= maxIndex || len(T) == 0 && minIndex == 0)
    invariant forall k in 0..minIndex :: t_last(T, k) < codePoint
    invariant forall k in maxIndex + 1..len(T) :: codePoint < t_first(T, k)
    decreases maxIndex - minIndex

fn State.Trigger(self, c) (next, rule)
  props C22
  requires t_ok(self.Transitions)
  let T = self.Transitions
  ensures forall k in 0..len(T) :: t_first(T, k) <= c && c <= t_last(T, k) ==> next == T[k].NextState && rule == T[k].RuleMatch
  ensures (forall k in 0..len(T) :: !(t_first(T, k) <= c && c <= t_last(T, k))) ==> next == 255 && rule == 255

fn State.Reset(self)
  props C22
  modifies *self
  ensures len(self.Transitions) == 0 && self.MinHeadLen == 255 && self.MaxHeadLen == 0

fn State.CopyDataFrom(self, other)
  props C22
  modifies *self, elems(self.Transitions, 0, cap(self.Transitions))
  requires ref(self.Transitions) != ref(other.Transitions) || len(other.Transitions) == 0
  let T = self.Transitions
  let U = old(other.Transitions)
  ensures len(T) == len(U) && (forall k in 0..len(T) :: same_t(T, k, U, k))
  ensures self.MinHeadLen == other.MinHeadLen && self.MaxHeadLen == other.MaxHeadLen

fn State.UpdateHeadLen(self, headLen)
  props C22
  modifies self.MinHeadLen, self.MaxHeadLen
  ensures self.MinHeadLen == min(old(self.MinHeadLen), headLen) && self.MaxHeadLen == max(old(self.MaxHeadLen), headLen)
fn State.SatisfiesMinRequiredHead(self, n) (r)
  props C22
  ensures r <==> self.MinHeadLen <= n && n <= self.MaxHeadLen

fn Transition.ShortenRTL(self, lastRuneOfPre) (r)
  props C22
  requires self.Range.First <= lastRuneOfPre && lastRuneOfPre < self.Range.Last
  modifies self.Range.Last
  ensures self.Range.Last == lastRuneOfPre && r.First == lastRuneOfPre + 1 && r.Last == old(self.Range.Last)

fn State.confrontRanges(self, candidateRange, incomingRange) (mode, r)
  props C22
  requires candidateRange.First <= candidateRange.Last && incomingRange.First <= incomingRange.Last
  let a = candidateRange.First
  let b = candidateRange.Last
  let x = incomingRange.First
  let y = incomingRange.Last
  ensures mode == ite(x < a, 0, ite(x > b, 5, ite(x == a, ite(y >= b, 2, 1), ite(y >= b, 4, 3))))
  ensures r.First == x && r.Last == ite(x < a, min(y, a - 1), ite(x > b, y, min(y, b)))

fn State.unsafeInsertUninitializedTransition(self, R) (i, err)
  props C22
  logical c
  requires t_ok(self.Transitions) && R.First <= R.Last
  requires forall k in 0..len(self.Transitions) :: t_last(self.Transitions, k) < R.First || R.Last < t_first(self.Transitions, k)
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures err == nil <==> len(U) < 254
  ensures err == nil ==> len(T) == len(U) + 1 && i <= len(U) && T[i].Range.First == R.First && T[i].Range.Last == R.Last
  ensures err == nil ==> forall k in 0..i :: same_t(T, k, U, k)
  ensures err == nil ==> forall k in i + 1..len(T) :: same_t(T, k, U, k - 1)
  ensures err == nil ==> (cov(T, c) <==> cov(U, c) || R.First <= c && c <= R.Last)
  ensures err == nil ==> t_ok(T)
  ensures err == nil ==> ite(len(U) + 1 <= old(cap(self.Transitions)), ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) && cap(T) == old(cap(self.Transitions)), fresh(T))
  use err == nil ==> CovInsert(proj(U, Range.First), proj(U, Range.Last), proj(T, Range.First), proj(T, Range.Last), i, R.First, R.Last, c)
  loop 1
    invariant 0 <= orderedIndex && orderedIndex <= len(U)
    invariant forall k in orderedIndex..len(U) :: R.Last < t_first(U, k)
    decreases orderedIndex

fn State.splitTransitionAt(self, t, x) (err)
  props C22
  logical c
  requires t_ok(self.Transitions) && t < len(self.Transitions) && t_first(self.Transitions, t) <= x && x < t_last(self.Transitions, t)
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures err == nil <==> len(U) < 254
  ensures err == nil ==> len(T) == len(U) + 1
  ensures err == nil ==> forall k in 0..t :: same_t(T, k, U, k)
  ensures err == nil ==> forall k in t + 2..len(T) :: same_t(T, k, U, k - 1)
  ensures err == nil ==> (cov(T, c) <==> cov(U, c))
  ensures err == nil ==> t_first(T, t) == t_first(U, t) && t_last(T, t) == x && t_first(T, t + 1) == x + 1 && t_last(T, t + 1) == t_last(U, t)
  ensures err == nil ==> T[t].NextState == U[t].NextState && T[t].RuleMatch == U[t].RuleMatch && T[t + 1].NextState == U[t].NextState && T[t + 1].RuleMatch == U[t].RuleMatch
  ensures err == nil ==> t_ok(T)
  ensures err == nil ==> ite(len(U) + 1 <= old(cap(self.Transitions)), ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) && cap(T) == old(cap(self.Transitions)), fresh(T))
  use err == nil ==> CovSplit(proj(U, Range.First), proj(U, Range.Last), proj(T, Range.First), proj(T, Range.Last), t, x, c)

fn State.splitTransitionBy(self, t, R) (err)
  props C22
  logical c
  requires t_ok(self.Transitions) && t < len(self.Transitions) && t_first(self.Transitions, t) < R.First && R.First <= R.Last && R.Last < t_last(self.Transitions, t)
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures err == nil <==> len(U) < 253
  ensures err == nil ==> len(T) == len(U) + 2
  ensures err == nil ==> forall k in 0..t :: same_t(T, k, U, k)
  ensures err == nil ==> forall k in t + 3..len(T) :: same_t(T, k, U, k - 2)
  ensures err == nil ==> (cov(T, c) <==> cov(U, c))
  ensures err == nil ==> t_first(T, t) == t_first(U, t) && t_last(T, t) == R.First - 1 && t_first(T, t + 1) == R.First && t_last(T, t + 1) == R.Last && t_first(T, t + 2) == R.Last + 1 && t_last(T, t + 2) == t_last(U, t)
  ensures err == nil ==> forall k in t..t + 3 :: T[k].NextState == U[t].NextState && T[k].RuleMatch == U[t].RuleMatch
  ensures err == nil ==> t_ok(T)
  ensures err == nil ==> (cap(T) == old(cap(self.Transitions)) && ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) || fresh(T))

fn Transition.Link(self, ruleMatchIndex, stateLinker, numSplits) (err)
  props C22
  modifies self.RuleMatch, self.NextState
  ensures ruleMatchIndex != 255 ==> err == nil && self.NextState == old(self.NextState) && self.RuleMatch == ite(old(self.RuleMatch) == 255, ruleMatchIndex, old(self.RuleMatch))
  ensures ruleMatchIndex == 255 ==> self.RuleMatch == old(self.RuleMatch)

fn State.insertNewTransition(self, R, ruleMatchIndex, stateLinker, numSplits) (err)
  props C22
  requires t_ok(self.Transitions) && R.First <= R.Last
  requires forall k in 0..len(self.Transitions) :: t_last(self.Transitions, k) < R.First || R.Last < t_first(self.Transitions, k)
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  logical i
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures len(U) >= 254 ==> err != nil
  ensures ruleMatchIndex != 255 && len(U) < 254 ==> err == nil
  ensures err == nil ==> len(T) == len(U) + 1 && t_ok(T)
  ensures err == nil ==> ite(len(U) + 1 <= old(cap(self.Transitions)), ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) && cap(T) == old(cap(self.Transitions)), fresh(T))
  ensures err == nil && 0 <= i && i <= len(U) && (i == 0 || t_last(U, i - 1) < R.First) && (i == len(U) || R.Last < t_first(U, i)) ==> T[i].Range.First == R.First && T[i].Range.Last == R.Last && T[i].RuleMatch == ruleMatchIndex && (ruleMatchIndex != 255 ==> T[i].NextState == 255)
  ensures err == nil && 0 <= i && i <= len(U) && (i == 0 || t_last(U, i - 1) < R.First) && (i == len(U) || R.Last < t_first(U, i)) ==> (forall k in 0..i :: same_t(T, k, U, k)) && (forall k in i + 1..len(T) :: same_t(T, k, U, k - 1))

fn State.AppendRange(self, R, ruleMatchIndex, stateLinker) (err)
  props C22
  logical c
  requires t_ok(self.Transitions) && R.First <= R.Last && R.Last < 2147483647
  modifies self.Transitions, elems(self.Transitions, 0, cap(self.Transitions))
  let T = self.Transitions
  let U = old(self.Transitions)
  ensures err == nil ==> t_ok(T)
  ensures err == nil ==> (cov(T, c) <==> cov(U, c) || old(R.First) <= c && c <= old(R.Last))
  loop 1
    invariant t_ok(T) && candidateTrans <= len(T) && runeRange.Last == old(R.Last) && old(R.First) <= runeRange.First && runeRange.First <= old(R.Last) + 1
    invariant forall k in 0..candidateTrans :: t_last(T, k) < runeRange.First
    invariant cov(T, c) <==> cov(U, c) || old(R.First) <= c && c < runeRange.First
    invariant cap(T) == old(cap(self.Transitions)) && ref(T) == old(ref(self.Transitions)) && offs(T) == old(offs(self.Transitions)) || fresh(T)
    use candidateTrans < len(T) ==> CovAt(proj(T, Range.First), proj(T, Range.Last), candidateTrans, c)
    decreases len(T) + 510 - 2 * candidateTrans
