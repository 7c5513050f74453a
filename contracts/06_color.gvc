package root

// --- colors (C11) ---
// A section of n keys at o: the key count, n exclusive end indices (one byte each), the entries
// (es bytes each), n exclusive name end offsets (two bytes each), the names.
def sec_n(d, o) = d[o]
def sec_end(d, o, i) = d[o + 1 + i]
def sec_start(d, o, i) = ite(i == 0, 0, d[o + i])
def sec_total(d, o) = ite(sec_n(d, o) == 0, 0, d[o + sec_n(d, o)])
def sec_data(d, o) = o + 1 + sec_n(d, o)
def sec_ne(d, o, es) = o + 1 + sec_n(d, o) + es * sec_total(d, o)
def sec_na(d, o, es) = sec_ne(d, o, es) + 2 * sec_n(d, o)
def nam_end(d, o, es, i) = le16(d, sec_ne(d, o, es) + 2 * i)
def nam_start(d, o, es, i) = ite(i == 0, 0, le16(d, sec_ne(d, o, es) + 2 * i - 2))
def wf_ends(d, o) = forall i in 0..sec_n(d, o) :: sec_start(d, o, i) < sec_end(d, o, i)
def wf_incr(d, o) = forall i in 0..sec_n(d, o) :: sec_end(d, o, i) <= sec_total(d, o)
def wf_names(d, o, es) = forall i in 0..sec_n(d, o) :: nam_start(d, o, es, i) < nam_end(d, o, es, i) \
   && nam_end(d, o, es, i) <= nam_end(d, o, es, sec_n(d, o) - 1)
def wf_sec(d, o, es) = o < len(d) && len(d) <= 33554432 && sec_na(d, o, es) <= len(d) && wf_ends(d, o) && wf_incr(d, o) \
   && (sec_n(d, o) > 0 ==> sec_na(d, o, es) + nam_end(d, o, es, sec_n(d, o) - 1) <= len(d)) && wf_names(d, o, es)
def wf_dyes(f) = wf_sec(f.Data, f.OffsetToDyes, 1)
def wf_pals(f) = wf_sec(f.Data, f.OffsetToPalettes, 4)
def dye_o(f) = f.OffsetToDyes
def pal_o(f) = f.OffsetToPalettes

fn FontColor.NumDyes(self) (r)
  props C11
  requires dye_o(self) < len(self.Data) && small(self)
  ensures r == sec_n(self.Data, dye_o(self))

fn FontColor.NumPalettes(self) (r)
  props C11
  requires pal_o(self) < len(self.Data) && small(self)
  ensures r == sec_n(self.Data, pal_o(self))

fn FontColor.NumDyeIndices(self) (r)
  props C11
  requires wf_dyes(self)
  ensures r == sec_total(self.Data, dye_o(self))

fn FontColor.NumPaletteIndices(self) (r)
  props C11
  requires wf_pals(self)
  ensures r == sec_total(self.Data, pal_o(self))

fn FontColor.Count(self) (r)
  props C11
  requires wf_dyes(self) && wf_pals(self)
  panics sec_total(self.Data, dye_o(self)) + sec_total(self.Data, pal_o(self)) > 255
  ensures r == sec_total(self.Data, dye_o(self)) + sec_total(self.Data, pal_o(self))

fn FontColor.NumDyeAlphas(self, key) (r)
  props C11
  requires wf_dyes(self)
  panics key >= sec_n(self.Data, dye_o(self))
  ensures r == sec_end(self.Data, dye_o(self), key) - sec_start(self.Data, dye_o(self), key)

fn FontColor.NumPaletteColors(self, key) (r)
  props C11
  requires wf_pals(self)
  panics key >= sec_n(self.Data, pal_o(self))
  ensures r == sec_end(self.Data, pal_o(self), key) - sec_start(self.Data, pal_o(self), key)

fn FontColor.EachDyeAlpha(self, key, fn)
  props C11
  requires wf_dyes(self)
  panics key >= sec_n(self.Data, dye_o(self))
  let a = sec_start(self.Data, dye_o(self), key)
  let n = sec_end(self.Data, dye_o(self), key) - a
  ensures calls(fn) == n
  ensures forall k in 0..n :: arg(fn, 0, k) == self.Data[sec_data(self.Data, dye_o(self)) + a + k]
  loop 1
    invariant calls(fn) == alphaIndex - a && alphaIndex <= a + n
    invariant forall k in 0..calls(fn) :: arg(fn, 0, k) == self.Data[sec_data(self.Data, dye_o(self)) + a + k]

fn FontColor.EachPaletteColor(self, key, fn)
  props C11
  requires wf_pals(self)
  panics key >= sec_n(self.Data, pal_o(self))
  let a = sec_start(self.Data, pal_o(self), key)
  let n = sec_end(self.Data, pal_o(self), key) - a
  let o = sec_data(self.Data, pal_o(self))
  ensures calls(fn) == n
  ensures forall k in 0..n :: arg(fn, 0, k).R == self.Data[o + 4 * (a + k)] && arg(fn, 0, k).G == self.Data[o + 4 * (a + k) + 1] \
     && arg(fn, 0, k).B == self.Data[o + 4 * (a + k) + 2] && arg(fn, 0, k).A == self.Data[o + 4 * (a + k) + 3]
  loop 1
    invariant calls(fn) == colorIndex - a && colorIndex <= a + n
    invariant forall k in 0..calls(fn) :: arg(fn, 0, k).R == self.Data[o + 4 * (a + k)] && arg(fn, 0, k).G == self.Data[o + 4 * (a + k) + 1] \
     && arg(fn, 0, k).B == self.Data[o + 4 * (a + k) + 2] && arg(fn, 0, k).A == self.Data[o + 4 * (a + k) + 3]

fn FontColor.EachDye(self, fn)
  props C11
  requires wf_dyes(self)
  let o = dye_o(self)
  ensures calls(fn) == sec_n(self.Data, o)
  ensures forall k in 0..calls(fn) :: arg(fn, 0, k) == k \
     && text(arg(fn, 1, k), self.Data, sec_na(self.Data, o, 1) + nam_start(self.Data, o, 1, k), nam_end(self.Data, o, 1, k) - nam_start(self.Data, o, 1, k))
  loop 1
    invariant i <= numDyes && calls(fn) == i && offsetToNextDyeNameEnd == sec_ne(self.Data, o, 1) + 2 * i
    invariant nameStartOffset == nam_start(self.Data, o, 1, i)
    invariant forall k in 0..i :: arg(fn, 0, k) == k \
     && text(arg(fn, 1, k), self.Data, sec_na(self.Data, o, 1) + nam_start(self.Data, o, 1, k), nam_end(self.Data, o, 1, k) - nam_start(self.Data, o, 1, k))

fn FontColor.EachPalette(self, fn)
  props C11
  requires wf_pals(self)
  let o = pal_o(self)
  ensures calls(fn) == sec_n(self.Data, o)
  ensures forall k in 0..calls(fn) :: arg(fn, 0, k) == k \
     && text(arg(fn, 1, k), self.Data, sec_na(self.Data, o, 4) + nam_start(self.Data, o, 4, k), nam_end(self.Data, o, 4, k) - nam_start(self.Data, o, 4, k))
  loop 1
    invariant i <= numPalettes && calls(fn) == i && offsetToNextPaletteNameEnd == sec_ne(self.Data, o, 4) + 2 * i
    invariant nameStartOffset == nam_start(self.Data, o, 4, i)
    invariant forall k in 0..i :: arg(fn, 0, k) == k \
     && text(arg(fn, 1, k), self.Data, sec_na(self.Data, o, 4) + nam_start(self.Data, o, 4, k), nam_end(self.Data, o, 4, k) - nam_start(self.Data, o, 4, k))
