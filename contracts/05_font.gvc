package root

// r is the n bytes of d from position o on
def text(r, d, o, n) = len(r) == n && forall i in 0..n :: r[i] == d[o + i]

// --- header (C09) ---
def h_fam(f) = 29 + f.Data[28]
def h_aut(f) = h_fam(f) + 1 + f.Data[h_fam(f)]
def h_abo(f) = h_aut(f) + 1 + f.Data[h_aut(f)]
def h_end(f) = h_abo(f) + 2 + le16(f.Data, h_abo(f))
def wf_header(f) = len(f.Data) > 29 && len(f.Data) > h_fam(f) + 1 && len(f.Data) > h_aut(f) + 1 \
   && len(f.Data) > h_abo(f) + 2 && len(f.Data) > h_end(f)

fn FontHeader.FormatVersion(self) (r)
  props C09
  requires len(self.Data) >= 28
  ensures r == le32(self.Data, 0)

fn FontHeader.ID(self) (r)
  props C09
  requires len(self.Data) >= 28
  ensures r == le64(self.Data, 4)

fn FontHeader.VersionMajor(self) (r)
  props C09
  requires wf_header(self)
  ensures r == le16(self.Data, 12)

fn FontHeader.VersionMinor(self) (r)
  props C09
  requires wf_header(self)
  ensures r == le16(self.Data, 14)

def date_at(d, s, o) = d.Year == le16(s, o) && d.Month == s[o + 2] && d.Day == s[o + 3]

fn FontHeader.FirstVersionDate(self) (r)
  props C09
  requires wf_header(self)
  ensures date_at(r, self.Data, 16)

fn FontHeader.MajorVersionDate(self) (r)
  props C09
  requires wf_header(self)
  ensures date_at(r, self.Data, 20)

fn FontHeader.MinorVersionDate(self) (r)
  props C09
  requires wf_header(self)
  ensures date_at(r, self.Data, 24)

fn FontHeader.Name(self) (r)
  props C09
  requires len(self.Data) > 29 && len(self.Data) > h_fam(self)
  ensures text(r, self.Data, 29, self.Data[28])

fn FontHeader.Family(self) (r)
  props C09
  requires wf_header(self)
  ensures text(r, self.Data, h_fam(self) + 1, self.Data[h_fam(self)])

fn FontHeader.Author(self) (r)
  props C09
  requires wf_header(self)
  ensures text(r, self.Data, h_aut(self) + 1, self.Data[h_aut(self)])

fn FontHeader.About(self) (r)
  props C09
  requires wf_header(self)
  ensures text(r, self.Data, h_abo(self) + 2, le16(self.Data, h_abo(self)))

// --- metrics (C10) ---
def wf_metrics(f) = f.OffsetToMetrics + 15 <= len(f.Data) && len(f.Data) <= 33554432
def met(f, k) = f.Data[f.OffsetToMetrics + k]
def num_glyphs(f) = le16(f.Data, f.OffsetToMetrics)
def vert(f) = met(f, 2) == 1

fn FontMetrics.NumGlyphs(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == num_glyphs(self)

fn FontMetrics.HasVertLayout(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r <==> vert(self)

fn FontMetrics.Monospaced(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r <==> met(self, 3) != 0

fn FontMetrics.MonoWidth(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 3)

fn FontMetrics.LineHeight(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 4) + met(self, 6) + met(self, 12)

fn FontMetrics.Ascent(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 4)

fn FontMetrics.ExtraAscent(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 5)

fn FontMetrics.Descent(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 6)

fn FontMetrics.ExtraDescent(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 7)

fn FontMetrics.UppercaseAscent(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 8)

fn FontMetrics.MidlineAscent(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 9)

fn FontMetrics.HorzInterspacing(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 10)

fn FontMetrics.VertInterspacing(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 11)

fn FontMetrics.LineGap(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 12)

fn FontMetrics.VertLineFullWidth(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 13) + met(self, 14)

fn FontMetrics.VertLineWidth(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 13)

fn FontMetrics.VertLineGap(self) (r)
  props C10
  requires wf_metrics(self)
  ensures r == met(self, 14)

fn FontMetrics.Validate(self, mode) (err)
  props C10
  requires wf_metrics(self)
  requires !mode
  ensures err == nil <==> num_glyphs(self) > 0 && met(self, 2) <= 1 && met(self, 4) > 0 && met(self, 5) <= met(self, 4) \
     && (met(self, 11) == 0 || vert(self))

