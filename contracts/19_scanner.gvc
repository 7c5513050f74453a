package internal/rerules/glyphrule

// --- scanning the match sequence of rules (C21) ---
// the scanner's fields: i data index, b block, rem elements of the block not
// yet announced by a control byte, s and g elements announced and not yet read
def s_len(d, b) = d[1 + b]
def s_acc(S) = S.accumulatedBlockSets + S.accumulatedBlockGlyphs
def s_read(S) = ite(S.block >= 1, S.rule.Data[1], 0) + ite(S.block >= 2, S.rule.Data[2], 0) + s_acc(S) - S.remainingSets - S.remainingGlyphs
def s_inv(S) = 5 <= len(S.rule.Data) && S.block <= 2 && S.rule.Data[2] > 0 && S.rule.Data[1] + S.rule.Data[2] + S.rule.Data[3] <= 255 \
   && s_acc(S) + S.remainingBlockElements == s_len(S.rule.Data, S.block) && S.remainingSets <= S.accumulatedBlockSets && S.remainingGlyphs <= S.accumulatedBlockGlyphs \
   && S.remainingSets <= 15 && S.remainingGlyphs <= 15 && 5 <= S.dataIndex && S.dataIndex <= len(S.rule.Data) && S.dataIndex <= 7 + 2 * 255 + 3 * s_read(S)
def s_state(S) = s_inv(S) && (S.dataIndex < len(S.rule.Data) <==> S.remainingSets + S.remainingGlyphs > 0)

// the control byte at i of block b, with rem elements of the block left to announce
def c_sets(d, i) = d[i] / 16
def c_elems(d, i) = d[i] % 16
def ctl_ok(d, i, b, rem) = i < len(d) && ite(d[i] == 0, rem == 0 && i + 1 == len(d), i + 1 < len(d) && c_sets(d, i) + c_elems(d, i) <= rem)
// the state after the control byte
def at_ctl(S, d, i, b, rem) = S.block == b && S.remainingSets == c_sets(d, i) && S.remainingGlyphs == c_elems(d, i) \
   && S.remainingBlockElements == rem - c_sets(d, i) - c_elems(d, i) && S.dataIndex == i + 1

// what follows an element ending at i
def after_ok(d, i, b, rem, left) = ite(i == len(d), left == 0 && rem == 0 && (b == 1 && d[3] == 0 || b == 2), \
   left > 0 || ite(rem > 0, ctl_ok(d, i, b, rem), b < 2 && ctl_ok(d, i, b + 1, s_len(d, b + 1))))

fn RuleBlock.Next(self) (r, err)
  props C21
  ensures err == nil <==> self < 2
  ensures err == nil ==> r == self + 1

fn IsValidRuleGlyphIndex(x) (r)
  props C21
  ensures r <==> x < 56789

fn RuleScanner.Start(self, rule) (err)
  props C21
  requires len(rule.Data) <= 33554432
  modifies *self
  let d = rule.Data
  let h = d[1] == 0
  let c0 = 5 + 2 * d[4]
  ensures err == nil <==> len(d) >= 11 && d[4] > 0 && d[1] + d[2] + d[3] <= 255 && d[4] <= d[2] \
     && ite(h, c0 < len(d) && d[c0] == 0 && ctl_ok(d, c0 + 1, 1, d[2]), ctl_ok(d, c0, 0, d[1]))
  ensures err == nil ==> same(self.rule.Data, d) && s_state(self) && s_read(self) == 0 && self.dataIndex < len(d)
  ensures err == nil ==> ite(h, at_ctl(self, d, c0 + 1, 1, d[2]), at_ctl(self, d, c0, 0, d[1]))

fn RuleScanner.HasNext(self) (r)
  props C21
  ensures r <==> self.dataIndex < len(self.rule.Data)

fn RuleScanner.Block(self) (r)
  props C21
  ensures r == self.block
fn RuleScanner.Condition(self) (r)
  props C21
  requires len(self.rule.Data) >= 5
  ensures r == self.rule.Data[0]
fn RuleScanner.HeadLen(self) (r)
  props C21
  requires len(self.rule.Data) >= 5
  ensures r == self.rule.Data[1]
fn RuleScanner.BodyLen(self) (r)
  props C21
  requires len(self.rule.Data) >= 5
  ensures r == self.rule.Data[2]
fn RuleScanner.TailLen(self) (r)
  props C21
  requires len(self.rule.Data) >= 5
  ensures r == self.rule.Data[3]

fn RuleScanner.Next(self) (elem, set, err)
  props C21
  requires s_state(self) && len(self.rule.Data) <= 33554432
  panics self.dataIndex >= len(self.rule.Data)
  modifies self.dataIndex, self.block, self.remainingSets, self.remainingGlyphs, self.remainingBlockElements, self.accumulatedBlockSets, self.accumulatedBlockGlyphs
  let d = self.rule.Data
  let i = old(self.dataIndex)
  let isset = old(self.remainingSets) > 0
  let j = i + ite(isset, 1, 2)
  let left = old(self.remainingSets) + old(self.remainingGlyphs) - 1
  let b = old(self.block)
  let rem = old(self.remainingBlockElements)
  let x = le16(d, i)
  ensures err == nil <==> j <= len(d) && ite(isset, d[i] != 255, x < 56789) && after_ok(d, j, b, rem, left)
  ensures err == nil ==> ite(isset, set == d[i] && elem == 65535, set == 255 && elem == x)
  ensures err == nil ==> s_state(self) && self.dataIndex > i
  // every step reads one element, and the scan ends after all of them
  ensures err == nil ==> s_read(self) == old(s_read(self)) + 1
  ensures err == nil && self.dataIndex == len(d) ==> s_read(self) == d[1] + d[2] + d[3]
  ensures err == nil && (j == len(d) || left > 0) ==> self.dataIndex == j && self.block == b && self.remainingBlockElements == rem \
     && self.remainingSets == old(self.remainingSets) - ite(isset, 1, 0) && self.remainingGlyphs == old(self.remainingGlyphs) - ite(isset, 0, 1)
  ensures err == nil && j < len(d) && left == 0 ==> ite(rem > 0, at_ctl(self, d, j, b, rem), at_ctl(self, d, j, b + 1, s_len(d, b + 1)))

package internal/rerules/utf8rule

// --- scanning the match sequence of rules (C21) ---
// the scanner's fields: i data index, b block, rem elements of the block not
// yet announced by a control byte, s and g elements announced and not yet read
def us_acc(S) = S.accumulatedBlockSets + S.accumulatedBlockCodePoints
def us_read(S) = ite(S.block >= 1, S.rule.Data[1], 0) + ite(S.block >= 2, S.rule.Data[2], 0) + us_acc(S) - S.remainingSets - S.remainingCodePoints
def us_inv(S) = 5 <= len(S.rule.Data) && S.block <= 2 && S.rule.Data[2] > 0 && S.rule.Data[1] + S.rule.Data[2] + S.rule.Data[3] <= 255 \
   && us_acc(S) + S.remainingBlockElements == s_len(S.rule.Data, S.block) && S.remainingSets <= S.accumulatedBlockSets && S.remainingCodePoints <= S.accumulatedBlockCodePoints \
   && S.remainingSets <= 15 && S.remainingCodePoints <= 15 && 5 <= S.dataIndex && S.dataIndex <= len(S.rule.Data) && S.dataIndex <= 7 + 4 * 255 + 5 * us_read(S)
def us_state(S) = us_inv(S) && (S.dataIndex < len(S.rule.Data) <==> S.remainingSets + S.remainingCodePoints > 0)

// the control byte at i of block b, with rem elements of the block left to announce
// the state after the control byte
def uat_ctl(S, d, i, b, rem) = S.block == b && S.remainingSets == c_sets(d, i) && S.remainingCodePoints == c_elems(d, i) \
   && S.remainingBlockElements == rem - c_sets(d, i) - c_elems(d, i) && S.dataIndex == i + 1

// what follows an element ending at i

fn RuleBlock.Next(self) (r, err)
  props C21
  ensures err == nil <==> self < 2
  ensures err == nil ==> r == self + 1

fn IsValidRuleCodePoint(x) (r)
  props C21
  ensures r <==> x != 65533

fn RuleScanner.Start(self, rule) (err)
  props C21
  requires len(rule.Data) <= 33554432
  modifies *self
  let d = rule.Data
  let h = d[1] == 0
  let c0 = 5 + 4 * d[4]
  ensures err == nil <==> len(d) >= 13 && d[4] > 0 && d[1] + d[2] + d[3] <= 255 && d[4] <= d[2] \
     && ite(h, c0 < len(d) && d[c0] == 0 && ctl_ok(d, c0 + 1, 1, d[2]), ctl_ok(d, c0, 0, d[1]))
  ensures err == nil ==> same(self.rule.Data, d) && us_state(self) && us_read(self) == 0 && self.dataIndex < len(d)
  ensures err == nil ==> ite(h, uat_ctl(self, d, c0 + 1, 1, d[2]), uat_ctl(self, d, c0, 0, d[1]))

fn RuleScanner.HasNext(self) (r)
  props C21
  ensures r <==> self.dataIndex < len(self.rule.Data)

fn RuleScanner.Block(self) (r)
  props C21
  ensures r == self.block
fn RuleScanner.Condition(self) (r)
  props C21
  requires len(self.rule.Data) >= 5
  ensures r == self.rule.Data[0]
fn RuleScanner.HeadLen(self) (r)
  props C21
  requires len(self.rule.Data) >= 5
  ensures r == self.rule.Data[1]
fn RuleScanner.BodyLen(self) (r)
  props C21
  requires len(self.rule.Data) >= 5
  ensures r == self.rule.Data[2]
fn RuleScanner.TailLen(self) (r)
  props C21
  requires len(self.rule.Data) >= 5
  ensures r == self.rule.Data[3]

fn RuleScanner.Next(self) (elem, set, err)
  props C21
  requires us_state(self) && len(self.rule.Data) <= 33554432
  panics self.dataIndex >= len(self.rule.Data)
  modifies self.dataIndex, self.block, self.remainingSets, self.remainingCodePoints, self.remainingBlockElements, self.accumulatedBlockSets, self.accumulatedBlockCodePoints
  let d = self.rule.Data
  let i = old(self.dataIndex)
  let isset = old(self.remainingSets) > 0
  let j = i + ite(isset, 1, 4)
  let left = old(self.remainingSets) + old(self.remainingCodePoints) - 1
  let b = old(self.block)
  let rem = old(self.remainingBlockElements)
  let x = i32of(le32(d, i))
  ensures err == nil <==> j <= len(d) && ite(isset, d[i] != 255, x != 65533) && after_ok(d, j, b, rem, left)
  ensures err == nil ==> ite(isset, set == d[i] && elem == 65533, set == 255 && elem == x)
  ensures err == nil ==> us_state(self) && self.dataIndex > i
  // every step reads one element, and the scan ends after all of them
  ensures err == nil ==> us_read(self) == old(us_read(self)) + 1
  ensures err == nil && self.dataIndex == len(d) ==> us_read(self) == d[1] + d[2] + d[3]
  ensures err == nil && (j == len(d) || left > 0) ==> self.dataIndex == j && self.block == b && self.remainingBlockElements == rem \
     && self.remainingSets == old(self.remainingSets) - ite(isset, 1, 0) && self.remainingCodePoints == old(self.remainingCodePoints) - ite(isset, 0, 1)
  ensures err == nil && j < len(d) && left == 0 ==> ite(rem > 0, uat_ctl(self, d, j, b, rem), uat_ctl(self, d, j, b + 1, s_len(d, b + 1)))

