package root

// --- switch evaluation (C15) ---
// p is the position of a setting index in the data d, od the position of the setting definitions.
// Number of options of that setting, and its current value in s.
opaque dig_n(d, od, p) = opt_n(d, od, d[p])
opaque dig(d, s, p) = s[d[p]]
// combinations of the j last settings of a list that ends at e, and the mixed radix number of their values
rec sw_w(d, od, e, j) = ite(j <= 0, 1, sw_w(d, od, e, j - 1) * dig_n(d, od, e - j))
rec sw_v(d, od, s, e, j) = ite(j <= 0, 0, sw_v(d, od, s, e, j - 1) + dig(d, s, e - j) * sw_w(d, od, e, j - 1))

lemma MulMono(a, b, w)
  requires a <= b && w >= 0
  ensures a * w <= b * w
lemma MulPos(a, b)
  requires a >= 1 && b >= 1
  ensures a * b >= 1 && a * b >= a && a * b >= b
lemma SwPos(d: seq, od, e, j: nat)
  requires forall p in e - j..e :: dig_n(d, od, p) >= 1
  ensures sw_w(d, od, e, j) >= 1
  decreases j
  use j > 0 ==> SwPos(d, od, e, j - 1)
  use j > 0 ==> MulPos(sw_w(d, od, e, j - 1), dig_n(d, od, e - j))
lemma SwMono(d: seq, od, e, i: nat, j: nat)
  requires i <= j && forall p in e - j..e :: dig_n(d, od, p) >= 1
  ensures 1 <= sw_w(d, od, e, i) && sw_w(d, od, e, i) <= sw_w(d, od, e, j)
  decreases j
  use SwPos(d, od, e, i)
  use i < j ==> SwMono(d, od, e, i, j - 1)
  use i < j ==> SwPos(d, od, e, j - 1)
  use i < j ==> MulPos(sw_w(d, od, e, j - 1), dig_n(d, od, e - j))
// cases are numbered from 0 to combinations - 1
lemma SwRange(d: seq, od, s: seq, e, j: nat)
  requires forall p in e - j..e :: dig_n(d, od, p) >= 1
  requires forall p in e - j..e :: 0 <= dig(d, s, p) && dig(d, s, p) < dig_n(d, od, p)
  ensures 0 <= sw_v(d, od, s, e, j) && sw_v(d, od, s, e, j) < sw_w(d, od, e, j)
  decreases j
  use j > 0 ==> SwRange(d, od, s, e, j - 1)
  use j > 0 ==> SwPos(d, od, e, j - 1)
  use j > 0 ==> MulMono(dig(d, s, e - j), dig_n(d, od, e - j) - 1, sw_w(d, od, e, j - 1))
  use j > 0 ==> MulMono(0, dig(d, s, e - j), sw_w(d, od, e, j - 1))
// the two digits of a number below b * w are determined by it
lemma DivUnique(a, x, b, y, w)
  requires 0 <= a && a < w && 0 <= b && b < w && a + x * w == b + y * w
  ensures x == y && a == b
  use x > y ==> MulMono(y + 1, x, w)
  use y > x ==> MulMono(x + 1, y, w)
// different choices of options give different cases
lemma SwInjective(d: seq, od, s: seq, z: seq, e, j: nat)
  requires forall p in e - j..e :: dig_n(d, od, p) >= 1
  requires forall p in e - j..e :: 0 <= dig(d, s, p) && dig(d, s, p) < dig_n(d, od, p)
  requires forall p in e - j..e :: 0 <= dig(d, z, p) && dig(d, z, p) < dig_n(d, od, p)
  requires sw_v(d, od, s, e, j) == sw_v(d, od, z, e, j)
  ensures forall p in e - j..e :: dig(d, s, p) == dig(d, z, p)
  decreases j
  use j > 0 ==> SwRange(d, od, s, e, j - 1)
  use j > 0 ==> SwRange(d, od, z, e, j - 1)
  use j > 0 ==> DivUnique(sw_v(d, od, s, e, j - 1), dig(d, s, e - j), sw_v(d, od, z, e, j - 1), dig(d, z, e - j), sw_w(d, od, e, j - 1))
  use j > 0 ==> SwInjective(d, od, s, z, e, j - 1)

def ms_n(f) = f.Data[f.OffsetToMappingSwitches]
def ms_ends(f) = f.OffsetToMappingSwitches + 1
def ms_data(f) = ms_ends(f) + 2 * ms_n(f)
// where the list of settings of switch k begins and ends, the switches being at o
opaque sw_start(d, o, k) = o + 1 + 2 * d[o] + b2_start(d, o + 1, k)
opaque sw_end(d, o, k) = o + 1 + 2 * d[o] + b2_end(d, o + 1, k)
def ms_start(f, k) = sw_start(f.Data, f.OffsetToMappingSwitches, k)
def ms_end(f, k) = sw_end(f.Data, f.OffsetToMappingSwitches, k)
// number of cases of switch k, and the active one
def ms_cases(f, k) = sw_w(f.Data, f.OffsetToSettingDefinitions, ms_end(f, k), ms_end(f, k) - ms_start(f, k))
def ms_case(f, k, s) = sw_v(f.Data, f.OffsetToSettingDefinitions, s, ms_end(f, k), ms_end(f, k) - ms_start(f, k))
// the settings of switch k are settings, and have at most 254 combinations
opaqueb sw_ok(d, o, od, k, n) = (forall p in sw_start(d, o, k)..sw_end(d, o, k) :: d[p] < n) \
   && sw_w(d, od, sw_end(d, o, k), sw_end(d, o, k) - sw_start(d, o, k)) <= 254
def ms_ok(f, k) = sw_ok(f.Data, f.OffsetToMappingSwitches, f.OffsetToSettingDefinitions, k, st_n(f))
def wf_switches(f) = wf_opts(f) && f.OffsetToMappingSwitches < len(f.Data) && wf_b2(f.Data, ms_ends(f), ms_n(f), ms_data(f)) \
   && (forall k in 0..ms_n(f) :: ms_ok(f, k))
// every setting has one of its options
def in_range(f, s) = len(s) == st_n(f) && forall i in 0..st_n(f) :: s[i] < nopts(f, i)

lemma SwPlace(f: *FontMapping, k)
  reveal sw_start sw_end
  requires wf_switches(f) && 0 <= k && k < ms_n(f)
  ensures ms_start(f, k) < ms_end(f, k) && ms_end(f, k) <= len(f.Data) && ms_data(f) <= ms_start(f, k) && ms_end(f, k) <= ms_start(f, k) + 65535
lemma SwDigits(f: *FontMapping, k)
  reveal dig_n sw_ok
  requires wf_switches(f) && 0 <= k && k < ms_n(f)
  ensures forall p in ms_start(f, k)..ms_end(f, k) :: f.Data[p] < st_n(f)
  ensures forall p in ms_start(f, k)..ms_end(f, k) :: dig_n(f.Data, f.OffsetToSettingDefinitions, p) >= 1 && dig_n(f.Data, f.OffsetToSettingDefinitions, p) <= 255
  ensures ms_cases(f, k) <= 254
lemma SwInRange(f: *FontMapping, k, s: []uint8)
  reveal dig_n dig sw_ok
  requires wf_switches(f) && 0 <= k && k < ms_n(f) && in_range(f, s)
  ensures forall p in ms_start(f, k)..ms_end(f, k) :: 0 <= dig(f.Data, s, p) && dig(f.Data, s, p) < dig_n(f.Data, f.OffsetToSettingDefinitions, p)

fn FontMapping.NumSwitchTypes(self) (r)
  props C15
  requires self.OffsetToMappingSwitches < len(self.Data)
  ensures r == ms_n(self)

fn FontMapping.EvaluateSwitch(self, switchKey, settings) (r)
  reveal dig dig_n sw_start sw_end
  props C15
  requires wf_switches(self) && in_range(self, settings)
  panics switchKey >= ms_n(self)
  let d = self.Data
  let od = self.OffsetToSettingDefinitions
  let e = ms_end(self, switchKey)
  let n = ms_end(self, switchKey) - ms_start(self, switchKey)
  ensures r == ms_case(self, switchKey, settings)
  use switchKey < ms_n(self) ==> SwPlace(self, switchKey)
  use switchKey < ms_n(self) ==> SwDigits(self, switchKey)
  use switchKey < ms_n(self) ==> SwInRange(self, switchKey, settings)
  loop 1
    invariant startOffset <= endOffset && offsetToMappingSwitchesData + endOffset < e
    invariant offsetToMappingSwitchesData == ms_data(self) && offsetToMappingSwitchesData + startOffset == e - n
    invariant result == sw_v(d, od, settings, e, e - 1 - offsetToMappingSwitchesData - endOffset)
    invariant caseCombinations == sw_w(d, od, e, e - 1 - offsetToMappingSwitchesData - endOffset)
    decreases endOffset
    use SwRange(d, od, settings, e, e - offsetToMappingSwitchesData - endOffset)
    use SwMono(d, od, e, e - offsetToMappingSwitchesData - endOffset, n)
    use SwMono(d, od, e, e - 1 - offsetToMappingSwitchesData - endOffset, n)
