package root

// --- kerning (C18) ---
// A table at o: the number of pairs (3 bytes), the pairs (4 bytes each: the second glyph, then the first), the signed values.
def k_n(d, o) = le24(d, o)
opaque k_pair(d, o, i) = le32(d, o + 3 + 4 * i)
def s8(b) = ite(b < 128, b, b - 256)
opaque k_val(d, o, i) = s8(d[o + 3 + 4 * le24(d, o) + i])
def wf_kern(d, o) = len(d) <= 33554432 && o + 3 + 5 * k_n(d, o) <= len(d) \
   && (forall j in 0..k_n(d, o) :: forall i in 0..j :: k_pair(d, o, i) < k_pair(d, o, j))
opaqueb k_has(d, o, t) = exists i in 0..le24(d, o) :: k_pair(d, o, i) == t

lemma KernAbsent(d: []uint8, o, k, t)
  reveal k_has
  requires wf_kern(d, o) && 0 <= k && k < k_n(d, o) && forall i in 0..k :: k_pair(d, o, i) < t
  requires k_pair(d, o, k) > t || k == k_n(d, o) - 1 && k_pair(d, o, k) != t
  ensures !k_has(d, o, t)
lemma KernPresent(d: []uint8, o, k)
  reveal k_has
  requires 0 <= k && k < k_n(d, o)
  ensures k_has(d, o, k_pair(d, o, k))
lemma KernNone(d: []uint8, o, t)
  reveal k_has
  requires k_n(d, o) == 0
  ensures !k_has(d, o, t)

fn FontKerning.NumPairs(self) (r)
  props C18
  requires self.OffsetToHorzKernings + 3 <= len(self.Data) && small(self)
  ensures r == k_n(self.Data, self.OffsetToHorzKernings)

fn FontKerning.NumVertPairs(self) (r)
  props C18
  requires self.OffsetToVertKernings + 3 <= len(self.Data) && small(self)
  ensures r == k_n(self.Data, self.OffsetToVertKernings)

fn FontKerning.Get(self, prev, curr) (r)
  reveal k_pair k_val
  props C18
  requires self.OffsetToHorzKernings + 3 <= len(self.Data) && wf_kern(self.Data, self.OffsetToHorzKernings)
  let d = self.Data
  let o = self.OffsetToHorzKernings
  let n = k_n(self.Data, self.OffsetToHorzKernings)
  let t = 65536 * prev + curr
  ensures forall i in 0..n :: k_pair(d, o, i) == t ==> r == k_val(d, o, i)
  ensures !k_has(d, o, t) ==> r == 0
  use n == 0 ==> KernNone(d, o, t)
  loop 1
    invariant minIndex <= 16777216 && maxIndex >= -1 && maxIndex <= 16777216
    invariant 0 <= minIndex && maxIndex < n && (n == 0 || minIndex <= maxIndex)
    invariant n > 0 ==> maxIndex >= 0
    invariant forall i in 0..minIndex :: k_pair(d, o, i) < t
    invariant maxIndex == n - 1 || k_pair(d, o, maxIndex) >= t
    mention k_pair(d, o, midIndex)
    mention k_val(d, o, minIndex)
    use n > 0 && k_pair(d, o, minIndex) != t && (minIndex == n - 1 || k_pair(d, o, minIndex) > t) ==> KernAbsent(d, o, minIndex, t)
    use n > 0 && k_pair(d, o, minIndex) == t ==> KernPresent(d, o, minIndex)

fn FontKerning.GetVert(self, prev, curr) (r)
  reveal k_pair k_val
  props C18
  requires self.OffsetToVertKernings + 3 <= len(self.Data) && wf_kern(self.Data, self.OffsetToVertKernings)
  let d = self.Data
  let o = self.OffsetToVertKernings
  let n = k_n(self.Data, self.OffsetToVertKernings)
  let t = 65536 * prev + curr
  ensures forall i in 0..n :: k_pair(d, o, i) == t ==> r == k_val(d, o, i)
  ensures !k_has(d, o, t) ==> r == 0
  use n == 0 ==> KernNone(d, o, t)
  loop 1
    invariant minIndex <= 16777216 && maxIndex >= -1 && maxIndex <= 16777216
    invariant 0 <= minIndex && maxIndex < n && (n == 0 || minIndex <= maxIndex)
    invariant n > 0 ==> maxIndex >= 0
    invariant forall i in 0..minIndex :: k_pair(d, o, i) < t
    invariant maxIndex == n - 1 || k_pair(d, o, maxIndex) >= t
    mention k_pair(d, o, midIndex)
    mention k_val(d, o, minIndex)
    use n > 0 && k_pair(d, o, minIndex) != t && (minIndex == n - 1 || k_pair(d, o, minIndex) > t) ==> KernAbsent(d, o, minIndex, t)
    use n > 0 && k_pair(d, o, minIndex) == t ==> KernPresent(d, o, minIndex)
