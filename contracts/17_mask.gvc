package ext

// --- glyph masks (C07, C08) ---
// alpha_at(pixels, stride, min x, min y, x, y): the pixel at (x, y); kept
// uninterpreted where only image's own methods touch the pixels.
opaque alpha_at(p, s, mx, my, x, y) = p[(y - my) * s + (x - mx)]
def al(m, x, y) = alpha_at(m.Pix, m.Stride, m.Rect.Min.X, m.Rect.Min.Y, x, y)
def maxarea() = 2147483648

fn image.NewAlpha(r) (m)
  trusted the documentation of image.NewAlpha
  requires (r.Max.X - r.Min.X) * (r.Max.Y - r.Min.Y) <= maxarea()
  requires r.Min.X <= r.Max.X && r.Min.Y <= r.Max.Y
  ensures m != nil && fresh(m) && fresh(m.Pix) && m.Stride == r.Max.X - r.Min.X && len(m.Pix) == (r.Max.X - r.Min.X) * (r.Max.Y - r.Min.Y)
  ensures m.Rect.Min.X == r.Min.X && m.Rect.Min.Y == r.Min.Y && m.Rect.Max.X == r.Max.X && m.Rect.Max.Y == r.Max.Y
  ensures forall x in r.Min.X..r.Max.X :: forall y in r.Min.Y..r.Max.Y :: al(m, x, y) == 0

fn image.Alpha.SetAlpha(self, x, y, c)
  trusted the documentation of SetAlpha: the pixel at (x, y), when inside the bounds, and no other
  modifies elems(self.Pix, 0, len(self.Pix))
  ensures forall u in self.Rect.Min.X..self.Rect.Max.X :: forall v in self.Rect.Min.Y..self.Rect.Max.Y :: al(self, u, v) == ite(u == x && v == y, c.A, old(al(self, u, v)))

fn image.Rectangle.Empty(self) (r)
  trusted the documentation of Rectangle.Empty
  ensures r <==> self.Min.X >= self.Max.X || self.Min.Y >= self.Max.Y

fn image.Pt(x, y) (p)
  trusted the documentation of image.Pt
  ensures p.X == x && p.Y == y

package mask

// one operation at d[i]
def nz(b) = ite(b < 128, b + 1, b - 256)
def bit(c, k) = c / k % 2
def op_draw(d, i) = i + 1 + bit(d[i], 1) + bit(d[i], 2) + bit(d[i], 4)
def op_diag(d, i) = bit(d[i], 16) == 1
opaque op_next(d, i) = op_draw(d, i) + ite(op_diag(d, i), 1, bit(d[i], 32) + bit(d[i], 64))
opaqueb op_bad(c) = bit(c, 8) == 1 && bit(c, 4) == 1 \
   || ite(bit(c, 16) == 1, c / 128 == 1 || bit(c, 32) == 0, c / 128 == 1 && bit(c, 32) + bit(c, 64) > 0)
opaque op_col(d, i, col) = ite(bit(d[i], 1) == 1, d[i + 1], col)
opaque op_x(d, i, x) = ite(bit(d[i], 2) == 1, x + nz(d[i + 1 + bit(d[i], 1)]), x)
opaque op_y(d, i, y) = ite(bit(d[i], 4) == 1, y + nz(d[i + 1 + bit(d[i], 1) + bit(d[i], 2)]), y + bit(d[i], 8))
opaque op_w(d, i) = ite(op_diag(d, i) || bit(d[i], 32) == 1, d[op_draw(d, i)] + 1, ite(bit(d[i], 64) + d[i] / 128 > 0, 1, 0))
opaque op_h(d, i) = ite(op_diag(d, i), d[op_draw(d, i)] + 1, ite(bit(d[i], 64) == 1, d[op_draw(d, i) + bit(d[i], 32)] + 1, ite(bit(d[i], 32) + d[i] / 128 > 0, 1, 0)))
// whether the operation, with its drawing position at (x, y), draws (u, v)
def op_hit(d, i, x, y, u, v) = x <= u && u < x + op_w(d, i) && ite(op_diag(d, i), \
   ite(bit(d[i], 64) == 1, v == y + op_w(d, i) - 1 - (u - x), v == y + (u - x)), \
   y <= v && v < y + op_h(d, i))

// the drawing part of an operation with control byte c, read up to d[i]
def r_n(c) = ite(bit(c, 16) == 1, 1, bit(c, 32) + bit(c, 64))
def r_w(d, c, i) = ite(bit(c, 16) == 1 || bit(c, 32) == 1, d[i + 1] + 1, ite(bit(c, 64) + c / 128 > 0, 1, 0))
def r_h(d, c, i) = ite(bit(c, 16) == 1, d[i + 1] + 1, ite(bit(c, 64) == 1, d[i + 1 + bit(c, 32)] + 1, ite(bit(c, 32) + c / 128 > 0, 1, 0)))
def r_hit(d, c, i, x, y, u, v) = x <= u && u < x + r_w(d, c, i) && ite(bit(c, 16) == 1, \
   ite(bit(c, 64) == 1, v == y + r_w(d, c, i) - 1 - (u - x), v == y + (u - x)), \
   y <= v && v < y + r_h(d, c, i))

// d[i:] is a sequence of whole, consistent operations
recb ras_ok(d, i) = i == len(d) || 0 <= i && i < len(d) && !op_bad(d[i]) && op_next(d, i) <= len(d) && ras_ok(d, op_next(d, i))
   measure d: seq | max(0, len(d) - i)
// the smallest and largest drawn coordinates
rec ras_minx(d, i, x, a) = ite(i < 0 || i >= len(d), a, ras_minx(d, op_next(d, i), op_x(d, i, x) + op_w(d, i), ite(op_w(d, i) > 0, min(a, op_x(d, i, x)), a)))
   measure d: seq | max(0, len(d) - i)
rec ras_maxx(d, i, x, a) = ite(i < 0 || i >= len(d), a, ras_maxx(d, op_next(d, i), op_x(d, i, x) + op_w(d, i), ite(op_w(d, i) > 0, max(a, op_x(d, i, x) + op_w(d, i)), a)))
   measure d: seq | max(0, len(d) - i)
rec ras_miny(d, i, y, a) = ite(i < 0 || i >= len(d), a, ras_miny(d, op_next(d, i), op_y(d, i, y), ite(op_w(d, i) > 0, min(a, op_y(d, i, y)), a)))
   measure d: seq | max(0, len(d) - i)
rec ras_maxy(d, i, y, a) = ite(i < 0 || i >= len(d), a, ras_maxy(d, op_next(d, i), op_y(d, i, y), ite(op_w(d, i) > 0, max(a, op_y(d, i, y) + op_h(d, i)), a)))
   measure d: seq | max(0, len(d) - i)
// the colour of (u, v) once d[i:] is drawn over a
rec ras_px(d, i, x, y, col, u, v, a) = ite(i < 0 || i >= len(d), a, ras_px(d, op_next(d, i), op_x(d, i, x) + op_w(d, i), op_y(d, i, y), op_col(d, i, col), u, v, \
     ite(op_hit(d, i, op_x(d, i, x), op_y(d, i, y), u, v), op_col(d, i, col), a)))
   measure d: seq | max(0, len(d) - i)

def far() = 9223372036854775807
def d_minx(d) = ras_minx(d, 0, 0, far())
def d_miny(d) = ras_miny(d, 0, 0, far())
def d_maxx(d) = ras_maxx(d, 0, 0, 0 - far() - 1)
def d_maxy(d) = ras_maxy(d, 0, 0, 0 - far() - 1)

fn nzint8AsInt(value) (r)
  props C07
  ensures 0 - 128 <= r && r <= 128 && r == nz(value)

fn computeRasterOpsRect(rasterOps) (rect, err)
  reveal op_next op_x op_y op_w op_h op_bad
  unfold 1
  props C07
  requires len(rasterOps) <= 33554432
  ensures err == nil <==> ras_ok(rasterOps, 0)
  ensures err == nil ==> rect.Min.X == d_minx(rasterOps) && rect.Min.Y == d_miny(rasterOps) && rect.Max.X == d_maxx(rasterOps) && rect.Max.Y == d_maxy(rasterOps)
  let d = rasterOps
  loop 1
    invariant 0 <= index && index < len(rasterOps)
    invariant 0 - 128 * index <= x && x <= 384 * index && 0 - 128 * index <= y && y <= 128 * index
    invariant 0 - 4294967296 <= x && x <= 12884901888 && 0 - 4294967296 <= y && y <= 4294967296
    invariant ras_ok(d, 0) <==> ras_ok(d, index)
    invariant ras_minx(d, index, x, rect.Min.X) == d_minx(d)
    invariant ras_miny(d, index, y, rect.Min.Y) == d_miny(d)
    invariant ras_maxx(d, index, x, rect.Max.X) == d_maxx(d)
    invariant ras_maxy(d, index, y, rect.Max.Y) == d_maxy(d)
    decreases len(rasterOps) - index

fn Rasterize(rasterOps) (m, err)
  reveal op_col op_next op_x op_y op_w op_h op_bad
  unfold 1
  props C07
  logical u v
  requires len(rasterOps) <= 33554432
  requires (d_maxx(rasterOps) - d_minx(rasterOps)) * (d_maxy(rasterOps) - d_miny(rasterOps)) <= maxarea()
  ensures err == nil <==> ras_ok(rasterOps, 0)
  ensures err == nil ==> (m == nil <==> d_minx(rasterOps) >= d_maxx(rasterOps) || d_miny(rasterOps) >= d_maxy(rasterOps))
  ensures err != nil ==> m == nil
  ensures m != nil ==> m.Rect.Min.X == d_minx(rasterOps) && m.Rect.Min.Y == d_miny(rasterOps) && m.Rect.Max.X == d_maxx(rasterOps) && m.Rect.Max.Y == d_maxy(rasterOps)
  ensures m != nil ==> m.Stride == m.Rect.Max.X - m.Rect.Min.X && len(m.Pix) == m.Stride * (m.Rect.Max.Y - m.Rect.Min.Y) && fresh(m) && fresh(m.Pix)
  ensures m != nil ==> m.Rect.Min.X <= u && u < m.Rect.Max.X && m.Rect.Min.Y <= v && v < m.Rect.Max.Y ==> al(m, u, v) == ras_px(rasterOps, 0, 0, 0, 255, u, v, 0)
  let d = old(rasterOps)
  let inv = mask != nil && fresh(mask) && fresh(mask.Pix) && ras_ok(d, 0) && mask.Rect.Min.X == d_minx(d) && mask.Rect.Min.Y == d_miny(d) && mask.Rect.Max.X == d_maxx(d) && mask.Rect.Max.Y == d_maxy(d) \
     && mask.Stride == mask.Rect.Max.X - mask.Rect.Min.X && len(mask.Pix) == mask.Stride * (mask.Rect.Max.Y - mask.Rect.Min.Y)  \
     && mask.Rect.Min.X < mask.Rect.Max.X && mask.Rect.Min.Y < mask.Rect.Max.Y
  let inside = mask.Rect.Min.X <= u && u < mask.Rect.Max.X && mask.Rect.Min.Y <= v && v < mask.Rect.Max.Y
  loop 1
    invariant 0 <= index && index < len(rasterOps)
    invariant 0 - 128 * index <= x && x <= 384 * index && 0 - 128 * index <= y && y <= 128 * index
    invariant 0 - 4294967296 <= x && x <= 12884901888 && 0 - 4294967296 <= y && y <= 4294967296
    invariant inv && ras_ok(d, index)
    invariant inside ==> ras_px(d, index, x, y, paletteIndex, u, v, al(mask, u, v)) == ras_px(d, 0, 0, 0, 255, u, v, 0)
    decreases len(rasterOps) - index
  cut ctrlFlagDiagonalMode
    assert start(index) <= index && index < len(rasterOps) && ctrl == d[start(index)]
    assert op_diag(d, start(index)) ==> bit(ctrl, 32) == 1 && ctrl < 128
    assert !op_diag(d, start(index)) && ctrl >= 128 ==> bit(ctrl, 32) + bit(ctrl, 64) == 0
    let n = index + 1 + r_n(ctrl)
    assert n <= len(d) && ras_ok(d, n)
    assert 0 - 128 * index <= x && x <= 384 * index && 0 - 128 * index <= y && y <= 128 * index + 1
    assert inv
    assert inside ==> ras_px(d, n, x + r_w(d, ctrl, index), y, paletteIndex, u, v, ite(r_hit(d, ctrl, index, x, y, u, v), paletteIndex, al(mask, u, v))) == ras_px(d, 0, 0, 0, 255, u, v, 0)
  loop 2
    invariant 0 <= i && i <= diagonalLen && 1 <= diagonalLen && diagonalLen <= 256 && inv
    invariant 0 - 128 * index <= x - i && x - i <= 384 * index - 384 && 0 - 128 * index <= y - (diagonalLen - i) && y - (diagonalLen - i) <= 128 * index && index < len(d)
    invariant 0 - 17179869184 <= x && x <= 17179869184 && 0 - 17179869184 <= y && y <= 17179869184
    invariant inside ==> \
       ras_px(d, index + 1, x + diagonalLen - i, y - (diagonalLen - i), paletteIndex, u, v, ite(x <= u && u < x + diagonalLen - i && v == y - 1 - (u - x), paletteIndex, al(mask, u, v))) == ras_px(d, 0, 0, 0, 255, u, v, 0)
    decreases diagonalLen - i
  loop 3
    invariant 0 <= i && i <= diagonalLen && 1 <= diagonalLen && diagonalLen <= 256 && inv
    invariant 0 - 128 * index <= x - i && x - i <= 384 * index - 384 && 0 - 128 * index <= y - i && y - i <= 128 * index && index < len(d)
    invariant 0 - 17179869184 <= x && x <= 17179869184 && 0 - 17179869184 <= y && y <= 17179869184
    invariant inside ==> \
       ras_px(d, index + 1, x + diagonalLen - i, y - i, paletteIndex, u, v, ite(x <= u && u < x + diagonalLen - i && v == y + (u - x), paletteIndex, al(mask, u, v))) == ras_px(d, 0, 0, 0, 255, u, v, 0)
    decreases diagonalLen - i
  loop 4
    invariant 0 <= j && j <= yInc && 1 <= yInc && yInc <= 256 && 1 <= xInc && xInc <= 256 && inv
    invariant 0 - 17179869184 <= x && x <= 17179869184 && 0 - 17179869184 <= y && y <= 17179869184
    invariant inside ==> \
       ras_px(d, index + 1, x + xInc, y, paletteIndex, u, v, ite(x <= u && u < x + xInc && y + j <= v && v < y + yInc, paletteIndex, al(mask, u, v))) == ras_px(d, 0, 0, 0, 255, u, v, 0)
    decreases yInc - j
  loop 5
    invariant 0 <= i && i <= xInc && inv
    invariant inside ==> \
       ras_px(d, index + 1, x + xInc, y, paletteIndex, u, v, ite(x <= u && u < x + xInc && (y + j + 1 <= v && v < y + yInc || v == y + j && x + i <= u), paletteIndex, al(mask, u, v))) == ras_px(d, 0, 0, 0, 255, u, v, 0)
    decreases xInc - i

package root

def mask_data(f, g) = f.Data[glyph_rec(f, g) + place_len(f) : gm_data(f) + gm_end(f, g)]

fn FontGlyphs.RasterizeMask(self, glyphIndex) (m)
  props C12
  logical u v
  requires wf_masks(self) && glyphIndex < num_glyphs(self)
  let d = old(mask_data(self, glyphIndex))
  requires (d_maxx(d) - d_minx(d)) * (d_maxy(d) - d_miny(d)) <= maxarea()
  panics !ras_ok(d, 0)
  ensures m == nil <==> d_minx(d) >= d_maxx(d) || d_miny(d) >= d_maxy(d)
  ensures m != nil ==> m.Rect.Min.X == d_minx(d) && m.Rect.Min.Y == d_miny(d) && m.Rect.Max.X == d_maxx(d) && m.Rect.Max.Y == d_maxy(d)
  ensures m != nil ==> m.Stride == m.Rect.Max.X - m.Rect.Min.X && len(m.Pix) == m.Stride * (m.Rect.Max.Y - m.Rect.Min.Y) && fresh(m) && fresh(m.Pix)
  ensures m != nil ==> m.Rect.Min.X <= u && u < m.Rect.Max.X && m.Rect.Min.Y <= v && v < m.Rect.Max.Y ==> al(m, u, v) == ras_px(d, 0, 0, 0, 255, u, v, 0)
