package internal

opaque entropy(v) = v
fn LazyEntropyUint64(value) (r)
  trusted only that it is a function of its argument; the measure itself is not specified (entropy is never revealed)
  ensures r == entropy(value)

package root

// --- parsing (C25): the layout of a font's data d, each section where the previous one ends ---
def o_short(d, o) = o + 1 + d[o]
opaque o_met(d) = o_short(d, o_short(d, o_short(d, 28))) + 2 + le16(d, o_short(d, o_short(d, o_short(d, 28))))
opaque o_dye(d) = o_met(d) + 15
// a section with one key count (1 or 2 bytes), end offsets (2 or 3 bytes) and entries
def last2(d, o, n) = ite(n == 0, 0, le16(d, o + 2 * n - 2))
def last3(d, o, n) = ite(n == 0, 0, le24(d, o + 3 * n - 3))
def colors_end(d, o, es) = sec_na(d, o, es) + last2(d, sec_ne(d, o, es), sec_n(d, o))
def colors_ok(d, o, es) = sec_n(d, o) == 0 || sec_total(d, o) >= sec_n(d, o) && last2(d, sec_ne(d, o, es), sec_n(d, o)) >= sec_n(d, o)
opaque o_pal(d) = colors_end(d, o_dye(d), 1)
opaque o_gnm(d) = colors_end(d, o_pal(d), 4)
def l_glyphs(d) = le16(d, o_met(d))
def l_place(d) = ite(d[o_met(d) + 2] == 1, 4, 1)
def l_named(d) = le16(d, o_gnm(d))
opaque o_gms(d) = o_gnm(d) + 2 + 5 * l_named(d) + last3(d, o_gnm(d) + 2 + 2 * l_named(d), l_named(d))
opaque o_wrd(d) = o_gms(d) + 3 * l_glyphs(d) + last3(d, o_gms(d), l_glyphs(d))
opaque o_stn(d) = o_wrd(d) + 1 + 2 * d[o_wrd(d)] + last2(d, o_wrd(d) + 1, d[o_wrd(d)])
def l_sets(d) = d[o_stn(d)]
opaque o_std(d) = o_stn(d) + 1 + 2 * l_sets(d) + last2(d, o_stn(d) + 1, l_sets(d))
opaque o_msw(d) = o_std(d) + 2 * l_sets(d) + last2(d, o_std(d), l_sets(d))
opaque o_map(d) = o_msw(d) + 1 + 2 * d[o_msw(d)] + last2(d, o_msw(d) + 1, d[o_msw(d)])
def l_maps(d) = le16(d, o_map(d))
opaque o_cnd(d) = o_map(d) + 2 + 7 * l_maps(d) + last3(d, o_map(d) + 2 + 4 * l_maps(d), l_maps(d))
opaque o_uset(d) = o_cnd(d) + 1 + 2 * d[o_cnd(d)] + last2(d, o_cnd(d) + 1, d[o_cnd(d)])
opaque o_gset(d) = o_uset(d) + 1 + 2 * d[o_uset(d)] + last2(d, o_uset(d) + 1, d[o_uset(d)])
opaque o_urul(d) = o_gset(d) + 1 + 2 * d[o_gset(d)] + last2(d, o_gset(d) + 1, d[o_gset(d)])
opaque o_grul(d) = o_urul(d) + 2 + 3 * le16(d, o_urul(d)) + last3(d, o_urul(d) + 2, le16(d, o_urul(d)))
opaque o_hker(d) = o_grul(d) + 2 + 3 * le16(d, o_grul(d)) + last3(d, o_grul(d) + 2, le16(d, o_grul(d)))
opaque o_vker(d) = o_hker(d) + 3 + 5 * le24(d, o_hker(d))
opaque o_end(d) = o_vker(d) + 3 + 5 * le24(d, o_vker(d))

opaqueb low_entropy(id) = fless(entropy(id), MinEntropyID)
def within(x, n, lo, hi) = n == 0 || n * lo <= x && x <= n * hi
opaqueb ok_hdr(d) = le32(d, 0) == 2 && !low_entropy(le64(d, 4)) && d[28] > 0
opaqueb ok_met(d) = le16(d, o_met(d)) > 0 && d[o_met(d) + 2] <= 1 && d[o_met(d) + 4] > 0 && d[o_met(d) + 5] <= d[o_met(d) + 4] && (d[o_met(d) + 11] == 0 || d[o_met(d) + 2] == 1)
opaqueb ok_dye(d) = colors_ok(d, o_dye(d), 1)
opaqueb ok_pal(d) = colors_ok(d, o_pal(d), 4) && (sec_n(d, o_pal(d)) > 0 ==> sec_total(d, o_dye(d)) + sec_total(d, o_pal(d)) <= 255) \
   && sec_n(d, o_dye(d)) + sec_n(d, o_pal(d)) <= 255
opaqueb ok_gnm(d) = l_named(d) <= l_glyphs(d) && o_gms(d) - (o_gnm(d) + 2 + 5 * l_named(d)) <= 32 * l_named(d)
opaqueb ok_gms(d) = o_wrd(d) - (o_gms(d) + 3 * l_glyphs(d)) >= l_place(d) * l_glyphs(d)
opaqueb ok_wrd(d) = within(last2(d, o_wrd(d) + 1, d[o_wrd(d)]), d[o_wrd(d)], 1, 32)
opaqueb ok_stn(d) = within(last2(d, o_stn(d) + 1, l_sets(d)), l_sets(d), 1, 32)
opaqueb ok_std(d) = last2(d, o_std(d), l_sets(d)) >= l_sets(d)
opaqueb ok_msw(d) = d[o_msw(d)] <= 254 && within(last2(d, o_msw(d) + 1, d[o_msw(d)]), d[o_msw(d)], 1, l_sets(d))
opaqueb ok_map(d) = last3(d, o_map(d) + 2 + 4 * l_maps(d), l_maps(d)) >= 3 * l_maps(d)
opaqueb ok_cnd(d) = last2(d, o_cnd(d) + 1, d[o_cnd(d)]) >= 2 * d[o_cnd(d)]
opaqueb ok_uset(d) = last2(d, o_uset(d) + 1, d[o_uset(d)]) >= 2 * d[o_uset(d)]
opaqueb ok_gset(d) = last2(d, o_gset(d) + 1, d[o_gset(d)]) >= 2 * d[o_gset(d)]
opaqueb ok_urul(d) = within(last3(d, o_urul(d) + 2, le16(d, o_urul(d))), le16(d, o_urul(d)), 8, 4096)
opaqueb ok_grul(d) = within(last3(d, o_grul(d) + 2, le16(d, o_grul(d))), le16(d, o_grul(d)), 8, 4096)
opaqueb ok_hker(d) = le24(d, o_hker(d)) <= l_glyphs(d) * l_glyphs(d)
opaqueb ok_vker(d) = le24(d, o_vker(d)) <= l_glyphs(d) * l_glyphs(d)
def parse_ok(d) = len(d) <= 33554432 && o_end(d) == len(d) && ok_hdr(d) && ok_met(d) && ok_dye(d) && ok_pal(d) && ok_gnm(d) && ok_gms(d) \
   && ok_wrd(d) && ok_stn(d) && ok_std(d) && ok_msw(d) && ok_map(d) && ok_cnd(d) && ok_uset(d) && ok_gset(d) && ok_urul(d) && ok_grul(d) \
   && ok_hker(d) && ok_vker(d)
def parsed(f, d) = f.OffsetToMetrics == o_met(d) && f.OffsetToDyes == o_dye(d) && f.OffsetToPalettes == o_pal(d) \
   && f.OffsetToGlyphNames == o_gnm(d) && f.OffsetToGlyphMasks == o_gms(d) && f.OffsetToWords == o_wrd(d) \
   && f.OffsetToSettingNames == o_stn(d) && f.OffsetToSettingDefinitions == o_std(d) && f.OffsetToMappingSwitches == o_msw(d) \
   && f.OffsetToMapping == o_map(d) && f.OffsetToRewriteConditions == o_cnd(d) && f.OffsetToRewriteUtf8Sets == o_uset(d) \
   && f.OffsetToRewriteGlyphSets == o_gset(d) && f.OffsetToUtf8Rewrites == o_urul(d) && f.OffsetToGlyphRewrites == o_grul(d) \
   && f.OffsetToHorzKernings == o_hker(d) && f.OffsetToVertKernings == o_vker(d) \
   && len(f.Data) == len(d) && forall i in 0..len(d) :: f.Data[i] == d[i]
def signed(r) = len(r.head) >= 6 && r.head[0] == 't' && r.head[1] == 'g' && r.head[2] == 'g' && r.head[3] == 'f' && r.head[4] == 'n' && r.head[5] == 't'

fn FontHeader.Validate(self, mode) (e)
  reveal low_entropy ok_hdr
  props C25
  requires len(self.Data) > 29 && len(self.Data) > h_fam(self) && !mode
  ensures e == nil <==> ok_hdr(self.Data)

fn FontColor.Validate(self, mode) (e)
  props C25
  requires self.OffsetToDyes < len(self.Data) && self.OffsetToPalettes < len(self.Data) && small(self) && !mode
  ensures e == nil <==> sec_n(self.Data, self.OffsetToDyes) + sec_n(self.Data, self.OffsetToPalettes) <= 255
fn FontGlyphs.Validate(self, mode) (e)
  props C25
  requires self.OffsetToGlyphNames + 2 <= len(self.Data) && wf_metrics(self) && !mode
  ensures e == nil <==> le16(self.Data, self.OffsetToGlyphNames) <= num_glyphs(self)
fn FontSettings.Validate(self, mode) (e)
  props C25
  requires !mode
  ensures e == nil
fn FontMapping.Validate(self, mode) (e)
  props C25
  requires !mode
  ensures e == nil
fn FontRewrites.Validate(self, mode) (e)
  props C25
  requires !mode
  ensures e == nil
fn FontKerning.Validate(self, mode) (e)
  props C25
  requires !mode
  ensures e == nil

lemma Layout(d: seq)
  reveal o_met o_dye o_pal o_gnm o_gms o_wrd o_stn o_std o_msw o_map o_cnd o_uset o_gset o_urul o_grul o_hker o_vker o_end
  ensures o_met(d) >= 31 && o_dye(d) == o_met(d) + 15 \
     && o_pal(d) >= o_dye(d) + 1 \
     && o_gnm(d) >= o_pal(d) + 1 \
     && o_gms(d) >= o_gnm(d) + 2 \
     && o_wrd(d) >= o_gms(d) + 0 \
     && o_stn(d) >= o_wrd(d) + 1 \
     && o_std(d) >= o_stn(d) + 1 \
     && o_msw(d) >= o_std(d) + 0 \
     && o_map(d) >= o_msw(d) + 1 \
     && o_cnd(d) >= o_map(d) + 2 \
     && o_uset(d) >= o_cnd(d) + 1 \
     && o_gset(d) >= o_uset(d) + 1 \
     && o_urul(d) >= o_gset(d) + 1 \
     && o_grul(d) >= o_urul(d) + 2 \
     && o_hker(d) >= o_grul(d) + 2 \
     && o_vker(d) >= o_hker(d) + 3 \
     && o_end(d) >= o_vker(d) + 3

def ps(p, r, i) = pb_ok(p) && fresh(p.TempBuff) && fresh(p.Bytes) && fresh(p.gzipReader) && same(p.gzipReader.data, r.gunzip) \
   && (p.gzipReader.faulty <==> r.faulty) && signed(r) && p.Index == i
def seen_met(f, d) = ok_hdr(d)
def seen_dye(f, d) = seen_met(f, d) && ok_met(d) && f.OffsetToMetrics == o_met(d)
def seen_pal(f, d) = seen_dye(f, d) && ok_dye(d) && f.OffsetToDyes == o_dye(d)
def seen_gnm(f, d) = seen_pal(f, d) && ok_pal(d) && f.OffsetToPalettes == o_pal(d)
def seen_gms(f, d) = seen_gnm(f, d) && ok_gnm(d) && f.OffsetToGlyphNames == o_gnm(d)
def seen_wrd(f, d) = seen_gms(f, d) && ok_gms(d) && f.OffsetToGlyphMasks == o_gms(d)
def seen_stn(f, d) = seen_wrd(f, d) && ok_wrd(d) && f.OffsetToWords == o_wrd(d)
def seen_std(f, d) = seen_stn(f, d) && ok_stn(d) && f.OffsetToSettingNames == o_stn(d)
def seen_msw(f, d) = seen_std(f, d) && ok_std(d) && f.OffsetToSettingDefinitions == o_std(d)
def seen_map(f, d) = seen_msw(f, d) && ok_msw(d) && f.OffsetToMappingSwitches == o_msw(d)
def seen_cnd(f, d) = seen_map(f, d) && ok_map(d) && f.OffsetToMapping == o_map(d)
def seen_uset(f, d) = seen_cnd(f, d) && ok_cnd(d) && f.OffsetToRewriteConditions == o_cnd(d)
def seen_gset(f, d) = seen_uset(f, d) && ok_uset(d) && f.OffsetToRewriteUtf8Sets == o_uset(d)
def seen_urul(f, d) = seen_gset(f, d) && ok_gset(d) && f.OffsetToRewriteGlyphSets == o_gset(d)
def seen_grul(f, d) = seen_urul(f, d) && ok_urul(d) && f.OffsetToUtf8Rewrites == o_urul(d)
def seen_hker(f, d) = seen_grul(f, d) && ok_grul(d) && f.OffsetToGlyphRewrites == o_grul(d)
def seen_vker(f, d) = seen_hker(f, d) && ok_hker(d) && f.OffsetToHorzKernings == o_hker(d)

fn Parse(reader) (f, e)
  props C25
  requires reader != nil && reader.pos == 0
  modifies reader.pos
  ensures e == nil ==> signed(reader)
  ensures e == nil ==> parse_ok(reader.gunzip)
  ensures e == nil ==> parsed(f, reader.gunzip)
  ensures e != nil ==> reader.faulty || !signed(reader) || !parse_ok(reader.gunzip)
  use Layout(reader.gunzip)
  loop 1
    unroll 3
  cut InitGzipReader
    reveal o_met ok_hdr
    assert signed(reader) && reader.pos == 6 && fresh(parser.TempBuff) && fresh(parser.Bytes) && separate(parser.TempBuff, parser.Bytes)
    assert len(parser.TempBuff) == 1024 && len(parser.Bytes) == 0 && parser.Index == 0 && !parser.eof
  cut OffsetToMetrics
    reveal o_dye ok_met
    assert ps(parser, reader, o_met(reader.gunzip)) && seen_met(font, reader.gunzip)
  cut OffsetToDyes
    reveal o_pal ok_dye
    assert ps(parser, reader, o_dye(reader.gunzip)) && seen_dye(font, reader.gunzip)
  cut OffsetToPalettes
    reveal o_gnm ok_pal
    assert ps(parser, reader, o_pal(reader.gunzip)) && seen_pal(font, reader.gunzip)
    assert usedColorIndices == sec_total(reader.gunzip, o_dye(reader.gunzip))
  cut Color
    reveal ok_pal
    assert ps(parser, reader, o_gnm(reader.gunzip)) && seen_pal(font, reader.gunzip) && font.OffsetToPalettes == o_pal(reader.gunzip)
    assert sec_n(reader.gunzip, o_pal(reader.gunzip)) == 0 || sec_total(reader.gunzip, o_dye(reader.gunzip)) + sec_total(reader.gunzip, o_pal(reader.gunzip)) <= 255
    assert colors_ok(reader.gunzip, o_pal(reader.gunzip), 4) && sameat(font.Data, parser.Bytes)
  cut OffsetToGlyphNames
    reveal o_gms ok_gnm ok_met
    assert ps(parser, reader, o_gnm(reader.gunzip)) && seen_gnm(font, reader.gunzip)
    assert sameat(font.Data, parser.Bytes)
  cut OffsetToGlyphMasks
    reveal o_wrd ok_gms ok_gnm
    assert ps(parser, reader, o_gms(reader.gunzip)) && seen_gms(font, reader.gunzip)
    assert numGlyphs >= 1
    assert numGlyphs == l_glyphs(reader.gunzip) && (hasVertLayout <==> reader.gunzip[o_met(reader.gunzip) + 2] == 1)
  cut OffsetToWords
    reveal o_stn ok_wrd
    assert ps(parser, reader, o_wrd(reader.gunzip)) && seen_wrd(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
  cut OffsetToSettingNames
    reveal o_std o_msw ok_stn ok_std
    assert ps(parser, reader, o_stn(reader.gunzip)) && seen_stn(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
  cut OffsetToMappingSwitches
    reveal o_map ok_msw
    assert ps(parser, reader, o_msw(reader.gunzip)) && seen_msw(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
    assert numSettings == l_sets(reader.gunzip)
  cut OffsetToMapping
    reveal o_cnd ok_map
    assert ps(parser, reader, o_map(reader.gunzip)) && seen_map(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
  cut OffsetToRewriteConditions
    reveal o_uset ok_cnd
    assert ps(parser, reader, o_cnd(reader.gunzip)) && seen_cnd(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
  cut OffsetToRewriteUtf8Sets
    reveal o_gset ok_uset
    assert ps(parser, reader, o_uset(reader.gunzip)) && seen_uset(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
  cut OffsetToRewriteGlyphSets
    reveal o_urul ok_gset
    assert ps(parser, reader, o_gset(reader.gunzip)) && seen_gset(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
  cut OffsetToUtf8Rewrites
    reveal o_grul ok_urul
    assert ps(parser, reader, o_urul(reader.gunzip)) && seen_urul(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
  cut OffsetToGlyphRewrites
    reveal o_hker ok_grul
    assert ps(parser, reader, o_grul(reader.gunzip)) && seen_grul(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
  cut OffsetToHorzKernings
    reveal o_vker ok_hker
    assert ps(parser, reader, o_hker(reader.gunzip)) && seen_hker(font, reader.gunzip)
    assert numGlyphs == l_glyphs(reader.gunzip)
  cut OffsetToVertKernings
    reveal o_end ok_vker
    assert ps(parser, reader, o_vker(reader.gunzip)) && seen_vker(font, reader.gunzip)
    assert maxKerningPairs == l_glyphs(reader.gunzip) * l_glyphs(reader.gunzip)
