package root

// --- rewrite conditions (C19) ---
// A condition is a prefix expression. d: data, m: its exclusive end, p: position of a subexpression, s: settings.
def c_kind(d, p) = d[p] / 32
def c_terms(d, p) = d[p] % 32
def c_group(d, p) = c_kind(d, p) <= 1
// position after the subexpression at p, and after k consecutive subexpressions from p (past m when cut short)
rec c_end(d, m, p) = ite(p >= m, m + 1, ite(c_group(d, p), c_endk(d, m, p + 1, c_terms(d, p)), ite(c_kind(d, p) == 2, p + 3, p + 2)))
   measure d: seq | max(0, m - p), 0, 0
rec c_endk(d, m, p, k) = ite(k <= 0, p, ite(c_endk(d, m, p, k - 1) < p, m + 1, c_end(d, m, c_endk(d, m, p, k - 1))))
   measure d: seq | max(0, m - p), 1, max(0, k)
// well-formed, with settings below ns
def c_leaf(d, ns, p) = d[p + 1] < ns && c_kind(d, p) != 7 && (c_kind(d, p) == 2 ==> d[p] % 16 <= 5 && (d[p] / 16 % 2 == 0 ==> d[p + 2] < ns))
recb c_ok(d, m, ns, p) = p < m && p < c_end(d, m, p) && c_end(d, m, p) <= m && ite(c_group(d, p), c_okk(d, m, ns, p + 1, c_terms(d, p)), c_leaf(d, ns, p))
   measure d: seq | max(0, m - p), 0, 0
recb c_okk(d, m, ns, p, k) = k <= 0 || c_okk(d, m, ns, p, k - 1) && c_endk(d, m, p, k - 1) >= p && c_ok(d, m, ns, c_endk(d, m, p, k - 1))
   measure d: seq | max(0, m - p), 1, max(0, k)
// value
def c_op(op, x, y) = op == 0 && x == y || op == 1 && x != y || op == 2 && x < y || op == 3 && x > y || op == 4 && x <= y || op == 5 && x >= y
def c_cmp(d, s, p) = c_op(d[p] % 16, s[d[p + 1]], ite(d[p] / 16 % 2 == 0, s[d[p + 2]], d[p + 2]))
def c_quick(d, s, p) = c_op(c_kind(d, p) - 3, s[d[p + 1]], c_terms(d, p))
recb c_sat(d, m, s, p) = p < m && ite(c_kind(d, p) == 0, c_or(d, m, s, p + 1, c_terms(d, p)), ite(c_kind(d, p) == 1, c_and(d, m, s, p + 1, c_terms(d, p)), \
   ite(c_kind(d, p) == 2, c_cmp(d, s, p), c_quick(d, s, p))))
   measure d: seq, s: seq | max(0, m - p), 0, 0
recb c_or(d, m, s, p, k) = k > 0 && (c_or(d, m, s, p, k - 1) || c_endk(d, m, p, k - 1) >= p && c_sat(d, m, s, c_endk(d, m, p, k - 1)))
   measure d: seq, s: seq | max(0, m - p), 1, max(0, k)
recb c_and(d, m, s, p, k) = k <= 0 || c_and(d, m, s, p, k - 1) && (c_endk(d, m, p, k - 1) >= p ==> c_sat(d, m, s, c_endk(d, m, p, k - 1)))
   measure d: seq, s: seq | max(0, m - p), 1, max(0, k)

lemma CondOkk(d: seq, m, ns, p, i: nat, k)
  requires i < k && c_okk(d, m, ns, p, k)
  ensures c_okk(d, m, ns, p, i) && c_ok(d, m, ns, c_endk(d, m, p, i))
  decreases k
  use i < k - 1 ==> CondOkk(d, m, ns, p, i, k - 1)
lemma CondOr(d: seq, m, s: seq, p, i: nat, k)
  requires i <= k && c_or(d, m, s, p, i)
  ensures c_or(d, m, s, p, k)
  decreases k
  use i < k ==> CondOr(d, m, s, p, i, k - 1)
lemma CondAnd(d: seq, m, s: seq, p, i: nat, k)
  requires i <= k && !c_and(d, m, s, p, i)
  ensures !c_and(d, m, s, p, k)
  decreases k
  use i < k ==> CondAnd(d, m, s, p, i, k - 1)

fn FontRewrites.skipConditionSubexpr(self, dataIndex, maxDataIndex, numSettings) (r)
  props C19
  requires maxDataIndex <= len(self.Data) && small(self)
  requires c_ok(self.Data, maxDataIndex, numSettings, dataIndex)
  ensures r == c_end(self.Data, maxDataIndex, dataIndex)
  decreases maxDataIndex - dataIndex
  let d = self.Data
  let p = old(dataIndex) + 1
  loop 1
    invariant i <= numTerms && dataIndex == c_endk(d, maxDataIndex, p, i) && dataIndex >= p && dataIndex <= maxDataIndex
    use i < numTerms ==> CondOkk(d, maxDataIndex, numSettings, p, i, numTerms)
    decreases numTerms - i
  loop 2
    invariant i <= numTerms && dataIndex == c_endk(d, maxDataIndex, p, i) && dataIndex >= p && dataIndex <= maxDataIndex
    use i < numTerms ==> CondOkk(d, maxDataIndex, numSettings, p, i, numTerms)
    decreases numTerms - i

fn FontRewrites.evalConditionSubexpr(self, dataIndex, maxDataIndex, settings) (r, sat)
  props C19
  requires maxDataIndex <= len(self.Data) && small(self)
  let ns = min(len(settings), 255)
  requires c_ok(self.Data, maxDataIndex, min(len(settings), 255), dataIndex)
  ensures r == c_end(self.Data, maxDataIndex, dataIndex)
  ensures sat <==> c_sat(self.Data, maxDataIndex, settings, dataIndex)
  decreases maxDataIndex - dataIndex
  let d = self.Data
  let p = old(dataIndex) + 1
  let m = maxDataIndex
  loop 1
    invariant i <= numTerms && dataIndex == c_endk(d, m, p, i) && dataIndex >= p && dataIndex <= m
    invariant !c_or(d, m, settings, p, i)
    use i < numTerms ==> CondOkk(d, m, ns, p, i, numTerms)
    decreases numTerms - i
  loop 2
    invariant i <= numTerms && dataIndex == c_endk(d, m, p, i) && dataIndex >= p && dataIndex <= m
    invariant c_or(d, m, settings, p, i)
    use i < numTerms ==> CondOkk(d, m, ns, p, i, numTerms)
    use CondOr(d, m, settings, p, i, numTerms)
    decreases numTerms - i
  loop 3
    invariant i <= numTerms && dataIndex == c_endk(d, m, p, i) && dataIndex >= p && dataIndex <= m
    invariant c_and(d, m, settings, p, i)
    use i < numTerms ==> CondOkk(d, m, ns, p, i, numTerms)
    decreases numTerms - i
  loop 4
    invariant i <= numTerms && dataIndex == c_endk(d, m, p, i) && dataIndex >= p && dataIndex <= m
    invariant !c_and(d, m, settings, p, i)
    use i < numTerms ==> CondOkk(d, m, ns, p, i, numTerms)
    use CondAnd(d, m, settings, p, i, numTerms)
    decreases numTerms - i

def rc_o(f) = f.OffsetToRewriteConditions
def rc_n(f) = f.Data[f.OffsetToRewriteConditions]
def rc_data(f) = rc_o(f) + 1 + 2 * rc_n(f)
def rc_start(f, i) = rc_data(f) + b2_start(f.Data, rc_o(f) + 1, i)
def rc_end(f, i) = rc_data(f) + b2_end(f.Data, rc_o(f) + 1, i)
def wf_conds(f) = small(f) && rc_o(f) < len(f.Data) && wf_b2(f.Data, rc_o(f) + 1, rc_n(f), rc_data(f))

fn FontRewrites.NumConditions(self) (r)
  props C19
  requires rc_o(self) < len(self.Data)
  ensures r == rc_n(self)

fn FontRewrites.EvaluateCondition(self, conditionKey, settings) (sat)
  props C19
  requires wf_conds(self)
  requires conditionKey < rc_n(self) ==> c_ok(self.Data, rc_end(self, conditionKey), min(len(settings), 255), rc_start(self, conditionKey)) \
     && c_end(self.Data, rc_end(self, conditionKey), rc_start(self, conditionKey)) == rc_end(self, conditionKey)
  panics conditionKey >= rc_n(self)
  ensures sat <==> c_sat(self.Data, rc_end(self, conditionKey), settings, rc_start(self, conditionKey))
