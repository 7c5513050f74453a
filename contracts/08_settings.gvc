package root

// --- blobs: n exclusive end offsets (2 or 3 bytes each) at e, the entries from o ---
def b2_end(d, e, i) = le16(d, e + 2 * i)
def b2_start(d, e, i) = ite(i == 0, 0, le16(d, e + 2 * i - 2))
def wf_b2(d, e, n, o) = o <= len(d) && e + 2 * n <= o && (n > 0 ==> o + b2_end(d, e, n - 1) <= len(d)) \
   && (forall i in 0..n :: b2_start(d, e, i) < b2_end(d, e, i) && b2_end(d, e, i) <= b2_end(d, e, n - 1))
def b3_end(d, e, i) = le24(d, e + 3 * i)
def b3_start(d, e, i) = ite(i == 0, 0, le24(d, e + 3 * i - 3))
def wf_b3(d, e, n, o) = o <= len(d) && e + 3 * n <= o && (n > 0 ==> o + b3_end(d, e, n - 1) <= len(d)) \
   && (forall i in 0..n :: b3_start(d, e, i) < b3_end(d, e, i) && b3_end(d, e, i) <= b3_end(d, e, n - 1))
def small(f) = len(f.Data) <= 33554432

// --- words and settings (C14) ---
def w_n(f) = f.Data[f.OffsetToWords]
def w_ends(f) = f.OffsetToWords + 1
def w_data(f) = w_ends(f) + 2 * w_n(f)
def wf_words(f) = small(f) && f.OffsetToWords < len(f.Data) && wf_b2(f.Data, w_ends(f), w_n(f), w_data(f))
// r is the word of index i, the words section being at o
opaqueb is_word(d, o, i, r) = ite(i < d[o], text(r, d, o + 1 + 2 * d[o] + b2_start(d, o + 1, i), b2_end(d, o + 1, i) - b2_start(d, o + 1, i)), predefined(r, i))
def predefined(r, i) = len(r) == len(predefWords[i]) && forall j in 0..len(r) :: r[j] == predefWords[i][j]

def st_n(f) = f.Data[f.OffsetToSettingNames]
def st_nends(f) = f.OffsetToSettingNames + 1
def st_names(f) = st_nends(f) + 2 * st_n(f)
def wf_stnames(f) = small(f) && f.OffsetToSettingNames < len(f.Data) && wf_b2(f.Data, st_nends(f), st_n(f), st_names(f))
def so_data(f) = f.OffsetToSettingDefinitions + 2 * st_n(f)
def so_start(f, i) = b2_start(f.Data, f.OffsetToSettingDefinitions, i)
def so_end(f, i) = b2_end(f.Data, f.OffsetToSettingDefinitions, i)
opaque opt_n(d, od, i) = b2_end(d, od, i) - b2_start(d, od, i)
def nopts(f, i) = opt_n(f.Data, f.OffsetToSettingDefinitions, i)
def wf_opts(f) = small(f) && f.OffsetToSettingNames < len(f.Data) && wf_b2(f.Data, f.OffsetToSettingDefinitions, st_n(f), so_data(f)) \
   && forall i in 0..st_n(f) :: 1 <= nopts(f, i) && nopts(f, i) <= 255

fn GetPredefinedWord(i) (r)
  props C14
  ensures predefined(r, i)

fn FontSettings.NumWords(self) (r)
  props C14
  requires wf_words(self)
  ensures r == w_n(self)

fn FontSettings.GetWord(self, index) (r)
  reveal is_word
  props C14
  requires wf_words(self)
  ensures is_word(self.Data, self.OffsetToWords, index, r)

fn FontSettings.Count(self) (r)
  props C14
  requires self.OffsetToSettingNames < len(self.Data)
  ensures r == st_n(self)

fn FontSettings.GetNumOptions(self, key) (r)
  reveal opt_n
  props C14 C15
  requires wf_opts(self)
  ensures r == ite(key < st_n(self), nopts(self, key), 0)

fn FontSettings.GetOptionName(self, key, option) (r)
  reveal opt_n
  props C14
  requires wf_opts(self) && wf_words(self)
  panics key >= st_n(self) || option >= nopts(self, key)
  ensures is_word(self.Data, self.OffsetToWords, self.Data[so_data(self) + so_start(self, key) + option], r)

fn FontSettings.Each(self, fn)
  props C14
  requires wf_stnames(self)
  let e = st_nends(self)
  ensures calls(fn) == st_n(self)
  ensures forall k in 0..calls(fn) :: arg(fn, 0, k) == k \
     && text(arg(fn, 1, k), self.Data, st_names(self) + b2_start(self.Data, e, k), b2_end(self.Data, e, k) - b2_start(self.Data, e, k))
  loop 1
    invariant 0 <= i && i <= numSettings && calls(fn) == i
    invariant prevNameEnd == b2_start(self.Data, e, i)
    invariant forall k in 0..i :: arg(fn, 0, k) == k \
     && text(arg(fn, 1, k), self.Data, st_names(self) + b2_start(self.Data, e, k), b2_end(self.Data, e, k) - b2_start(self.Data, e, k))
