package ext

fn image.Rect(x0, y0, x1, y1) (r)
  trusted the documentation of image.Rect: the rectangle with well-ordered corners
  ensures r.Min.X == min(x0, x1) && r.Min.Y == min(y0, y1) && r.Max.X == max(x0, x1) && r.Max.Y == max(y0, y1)

package mask

// --- computing rectangles and encoding masks (C08) ---
def near(x) = 0 - 1073741824 <= x && x <= 1073741824
def farish(x) = 0 - 1073741825 <= x && x <= 1073741825
def wf_alpha(m) = near(m.Rect.Min.X) && near(m.Rect.Min.Y) && near(m.Rect.Max.X) && near(m.Rect.Max.Y) \
   && 0 <= m.Stride && m.Stride <= 1073741824 \
   && (m.Rect.Min.X < m.Rect.Max.X && m.Rect.Min.Y < m.Rect.Max.Y ==> m.Stride >= m.Rect.Max.X - m.Rect.Min.X && (m.Rect.Max.Y - m.Rect.Min.Y - 1) * m.Stride + (m.Rect.Max.X - m.Rect.Min.X) <= len(m.Pix))
def in_alpha(m, u, v) = m.Rect.Min.X <= u && u < m.Rect.Max.X && m.Rect.Min.Y <= v && v < m.Rect.Max.Y
lemma RowMono(a, b, w)
  requires a <= b && w >= 0
  ensures a * w <= b * w

fn ComputeRect(mask) (r)
  props C08
  logical u v
  reveal alpha_at
  requires wf_alpha(mask)
  ensures in_alpha(mask, u, v) && al(mask, u, v) != 0 ==> r.Min.X <= u && u < r.Max.X && r.Min.Y <= v && v < r.Max.Y
  ensures r.Min.X < r.Max.X && r.Min.Y < r.Max.Y || r.Min.X == 0 && r.Min.Y == 0 && r.Max.X == 0 && r.Max.Y == 0
  ensures r.Min.X < r.Max.X ==> mask.Rect.Min.X <= r.Min.X && r.Max.X <= mask.Rect.Max.X && mask.Rect.Min.Y <= r.Min.Y && r.Max.Y <= mask.Rect.Max.Y
  ensures r.Min.X < r.Max.X ==> exists y in mask.Rect.Min.Y..mask.Rect.Max.Y :: al(mask, r.Min.X, y) != 0
  ensures r.Min.X < r.Max.X ==> exists y in mask.Rect.Min.Y..mask.Rect.Max.Y :: al(mask, r.Max.X - 1, y) != 0
  ensures r.Min.X < r.Max.X ==> exists x in mask.Rect.Min.X..mask.Rect.Max.X :: al(mask, x, r.Min.Y) != 0
  ensures r.Min.X < r.Max.X ==> exists x in mask.Rect.Min.X..mask.Rect.Max.X :: al(mask, x, r.Max.Y - 1) != 0
  let R = mask.Rect
  let sides = minX <= maxX && R.Min.X <= minX && maxX < R.Max.X \
     && (exists q in R.Min.Y..R.Max.Y :: al(mask, minX, q) != 0) && (exists q in R.Min.Y..R.Max.Y :: al(mask, maxX, q) != 0)
  let ends = minY <= maxY && R.Min.Y <= minY && maxY < R.Max.Y \
     && (exists q in R.Min.X..R.Max.X :: al(mask, q, minY) != 0) && (exists q in R.Min.X..R.Max.X :: al(mask, q, maxY) != 0)
  loop 1
    invariant R.Min.Y <= y && (y <= R.Max.Y || y == R.Min.Y)
    invariant empty ==> minX == R.Max.X + 1 && maxX == R.Min.X - 1 && minY == R.Max.Y + 1 && maxY == R.Min.Y - 1
    invariant !empty ==> R.Min.X < R.Max.X && sides && ends && maxY < y
    invariant in_alpha(mask, u, v) && v < y && al(mask, u, v) != 0 ==> !empty && minX <= u && u <= maxX && minY <= v && v <= maxY
    use RowMono(y - R.Min.Y, 2147483648, mask.Stride)
    use RowMono(0, y - R.Min.Y, mask.Stride)
    decreases R.Max.Y - y
  loop 2
    invariant R.Min.Y <= y && y < R.Max.Y && R.Min.X <= x && (x <= R.Max.X || x == R.Min.X) && index == (y - R.Min.Y) * mask.Stride + (x - R.Min.X)
    invariant empty && !activeValueInRow ==> minX == R.Max.X + 1 && maxX == R.Min.X - 1
    invariant empty ==> minY == R.Max.Y + 1 && maxY == R.Min.Y - 1
    invariant !empty ==> R.Min.X < R.Max.X && ends && maxY < y
    invariant !empty || activeValueInRow ==> sides
    invariant activeValueInRow ==> exists q in R.Min.X..R.Max.X :: al(mask, q, y) != 0
    invariant in_alpha(mask, u, v) && v < y && al(mask, u, v) != 0 ==> !empty && minX <= u && u <= maxX && minY <= v && v <= maxY
    invariant in_alpha(mask, u, v) && v == y && u < x && al(mask, u, v) != 0 ==> activeValueInRow && minX <= u && u <= maxX
    use RowMono(y - R.Min.Y, R.Max.Y - R.Min.Y - 1, mask.Stride)
    use RowMono(0, y - R.Min.Y, mask.Stride)
    decreases R.Max.X - x

// what a fragment covers
def f_cov(f, u, v) = f.minX <= u && u <= f.maxX && ite(f.diagonalType == 0, f.minY <= v && v <= f.maxY, ite(f.diagonalType == 1, v == f.minY + (f.maxX - u), v == f.minY + (u - f.minX)))
def f_in(f, R) = R.Min.X <= f.minX && f.minX <= f.maxX && f.maxX < R.Max.X && R.Min.Y <= f.minY && f.minY <= f.maxY && f.maxY < R.Max.Y \
   && f.diagonalType <= 2 && (f.diagonalType != 0 ==> f.maxX - f.minX == f.maxY - f.minY && f.minX < f.maxX)
def pat(m, x, y) = m.Pix[(y - m.Rect.Min.Y) * m.Stride + (x - m.Rect.Min.X)]
// an image as the encoder makes it: no padding, all of it in memory
def tight(m) = near(m.Rect.Min.X) && near(m.Rect.Min.Y) && near(m.Rect.Max.X) && near(m.Rect.Max.Y) && m.Rect.Min.X <= m.Rect.Max.X && m.Rect.Min.Y <= m.Rect.Max.Y \
   && m.Stride == m.Rect.Max.X - m.Rect.Min.X && len(m.Pix) == m.Stride * (m.Rect.Max.Y - m.Rect.Min.Y) && len(m.Pix) <= maxarea()
def idx(m, x, y) = (y - m.Rect.Min.Y) * m.Stride + (x - m.Rect.Min.X)
def same_nb(m, x, y, w) = ite(y > m.Rect.Min.Y && pat(m, x, y - 1) == w, 1, 0) + ite(y + 1 < m.Rect.Max.Y && pat(m, x, y + 1) == w, 1, 0) \
   + ite(x > m.Rect.Min.X && pat(m, x - 1, y) == w, 1, 0) + ite(x + 1 < m.Rect.Max.X && pat(m, x + 1, y) == w, 1, 0)
// indices of pixels are inside the image
lemma PixIn(w, h, x, y, n)
  requires 0 <= x && x < w && 0 <= y && y < h && n == w * h
  ensures 0 <= y * w + x && y * w + x < n

fn countNeighbours(self, x, y, index, w) (n)
  props C08
  requires tight(self) && in_alpha(self, x, y) && index == idx(self, x, y)
  use PixIn(self.Stride, self.Rect.Max.Y - self.Rect.Min.Y, x - self.Rect.Min.X, y - self.Rect.Min.Y, len(self.Pix))
  use y > self.Rect.Min.Y ==> PixIn(self.Stride, self.Rect.Max.Y - self.Rect.Min.Y, x - self.Rect.Min.X, y - 1 - self.Rect.Min.Y, len(self.Pix))
  use y + 1 < self.Rect.Max.Y ==> PixIn(self.Stride, self.Rect.Max.Y - self.Rect.Min.Y, x - self.Rect.Min.X, y + 1 - self.Rect.Min.Y, len(self.Pix))
  ensures n == same_nb(self, x, y, w)
lemma PixInj(w, x, y, u, v)
  requires 0 <= x && x < w && 0 <= u && u < w && y * w + x == v * w + u
  ensures x == u && y == v

fn rasterFragment.ClearFrom(self, img)
  props C08
  logical u v
  reveal alpha_at
  requires tight(img) && f_in(self, img.Rect)
  modifies elems(img.Pix, 0, len(img.Pix))
  let R = img.Rect
  let S = img.Stride
  let H = R.Max.Y - R.Min.Y
  ensures in_alpha(img, u, v) ==> al(img, u, v) == ite(f_cov(self, u, v), 0, old(al(img, u, v)))
  loop 1
    invariant self.minY - R.Min.Y <= y && y <= self.maxY + 1 - R.Min.Y
    invariant in_alpha(img, u, v) ==> al(img, u, v) == ite(f_cov(self, u, v) && v - R.Min.Y < y, 0, old(al(img, u, v)))
    decreases self.maxY + 1 - R.Min.Y - y
  loop 2
    invariant self.minX - R.Min.X <= x && x <= self.maxX + 1 - R.Min.X && index <= y * S + self.minX + 2147483648 && index == y * S + self.minX + x - (self.minX - R.Min.X)
    invariant in_alpha(img, u, v) ==> al(img, u, v) == ite(f_cov(self, u, v) && (v - R.Min.Y < y || v - R.Min.Y == y && u - R.Min.X < x), 0, old(al(img, u, v)))
    use x < S ==> PixIn(S, H, x, y, len(img.Pix))
    use in_alpha(img, u, v) && y * S + x == (v - R.Min.Y) * S + (u - R.Min.X) && x < S ==> PixInj(S, x, y, u - R.Min.X, v - R.Min.Y)
    decreases self.maxX + 1 - R.Min.X - x
  loop 3
    invariant 0 <= i && i <= steps && steps == self.maxX + 1 - self.minX && index == (self.minY - R.Min.Y + i) * S + (self.maxX - R.Min.X - i)
    invariant in_alpha(img, u, v) ==> al(img, u, v) == ite(f_cov(self, u, v) && self.maxX - u < i, 0, old(al(img, u, v)))
    use i < steps ==> PixIn(S, H, self.maxX - R.Min.X - i, self.minY - R.Min.Y + i, len(img.Pix))
    use in_alpha(img, u, v) && index == (v - R.Min.Y) * S + (u - R.Min.X) && i < steps ==> PixInj(S, self.maxX - R.Min.X - i, self.minY - R.Min.Y + i, u - R.Min.X, v - R.Min.Y)
    decreases steps - i
  loop 4
    invariant 0 <= i && i <= steps && steps == self.maxX + 1 - self.minX && index == (self.minY - R.Min.Y + i) * S + (self.minX - R.Min.X + i)
    invariant in_alpha(img, u, v) ==> al(img, u, v) == ite(f_cov(self, u, v) && u - self.minX < i, 0, old(al(img, u, v)))
    use i < steps ==> PixIn(S, H, self.minX - R.Min.X + i, self.minY - R.Min.Y + i, len(img.Pix))
    use in_alpha(img, u, v) && index == (v - R.Min.Y) * S + (u - R.Min.X) && i < steps ==> PixInj(S, self.minX - R.Min.X + i, self.minY - R.Min.Y + i, u - R.Min.X, v - R.Min.Y)
    decreases steps - i

fn findLine(self, x, y, index, value) (r)
  props C08
  logical u v
  reveal alpha_at
  let R = self.Rect
  let S = self.Stride
  let H = R.Max.Y - R.Min.Y
  requires tight(self) && in_alpha(self, x, y) && index == idx(self, x, y) && pat(self, x, y) == value && same_nb(self, x, y, value) == 1
  use PixIn(S, H, x - R.Min.X, y - R.Min.Y, len(self.Pix))
  use y > R.Min.Y ==> PixIn(S, H, x - R.Min.X, y - 1 - R.Min.Y, len(self.Pix))
  use y + 1 < R.Max.Y ==> PixIn(S, H, x - R.Min.X, y + 1 - R.Min.Y, len(self.Pix))
  ensures r.diagonalType == 0 && r.value == value && f_in(r, R) && f_cov(r, x, y)
  ensures f_cov(r, u, v) ==> al(self, u, v) == value
  let box = rect.diagonalType == 0 && rect.value == value && f_in(rect, R)
  loop 1
    invariant box && rect.minY == y && rect.maxY == y && rect.maxX == x && index == (y - R.Min.Y) * S + (rect.minX - 1 - R.Min.X)
    invariant f_cov(rect, u, v) ==> al(self, u, v) == value
    use rect.minX > R.Min.X ==> PixIn(S, H, rect.minX - 1 - R.Min.X, y - R.Min.Y, len(self.Pix))
    decreases rect.minX - R.Min.X
  loop 2
    invariant box && rect.maxY == y && rect.minX == x && rect.maxX == x && index == (rect.minY - 1 - R.Min.Y) * S + (x - R.Min.X)
    invariant f_cov(rect, u, v) ==> al(self, u, v) == value
    use rect.minY > R.Min.Y ==> PixIn(S, H, x - R.Min.X, rect.minY - 1 - R.Min.Y, len(self.Pix))
    decreases rect.minY - R.Min.Y
  loop 3
    invariant box && rect.minY == y && rect.minX == x && rect.maxX == x && index == (rect.maxY + 1 - R.Min.Y) * S + (x - R.Min.X)
    invariant f_cov(rect, u, v) ==> al(self, u, v) == value
    use rect.maxY + 1 < R.Max.Y ==> PixIn(S, H, x - R.Min.X, rect.maxY + 1 - R.Min.Y, len(self.Pix))
    decreases R.Max.Y - rect.maxY
  loop 4
    invariant box && rect.minY == y && rect.maxY == y && rect.minX == x && index == (y - R.Min.Y) * S + (rect.maxX + 1 - R.Min.X)
    invariant f_cov(rect, u, v) ==> al(self, u, v) == value
    use rect.maxX + 1 < R.Max.X ==> PixIn(S, H, rect.maxX + 1 - R.Min.X, y - R.Min.Y, len(self.Pix))
    decreases R.Max.X - rect.maxX

fn findRect(self, x, y, value) (r)
  props C08
  logical u v
  reveal alpha_at
  let R = self.Rect
  let S = self.Stride
  let H = R.Max.Y - R.Min.Y
  requires tight(self) && in_alpha(self, x, y) && pat(self, x, y) == value
  use PixIn(S, H, x - R.Min.X, y - R.Min.Y, len(self.Pix))
  ensures r.diagonalType == 0 && r.value == value && f_in(r, R) && f_cov(r, x, y)
  ensures f_cov(r, u, v) ==> al(self, u, v) == value
  let box = rect.diagonalType == 0 && rect.value == value && f_in(rect, R) && rect.minX == x && rect.minY == y && width == rect.maxX - rect.minX + 1 && height == rect.maxY - rect.minY + 1
  loop 1
    invariant box && (!stoppedExpandingDown ==> rect.maxY + 1 < R.Max.Y) && (!stoppedExpandingRight ==> rect.maxX + 1 < R.Max.X)
    invariant f_cov(rect, u, v) ==> al(self, u, v) == value
    decreases ite(stoppedExpandingDown, 0, 1 + R.Max.Y - rect.maxY) + ite(stoppedExpandingRight, 0, 1 + R.Max.X - rect.maxX)
  loop 2
    invariant 0 <= i && i <= width && index == (rect.maxY + 1 - R.Min.Y) * S + (rect.minX - R.Min.X) + i && allPixelsExpandable
    invariant v == rect.maxY + 1 && rect.minX <= u && u < rect.minX + i ==> al(self, u, v) == value
    use i < width ==> PixIn(S, H, rect.minX - R.Min.X + i, rect.maxY + 1 - R.Min.Y, len(self.Pix))
    decreases width - i
  loop 3
    invariant 0 <= i && i <= height && index == (rect.minY - R.Min.Y + i) * S + (rect.maxX - R.Min.X) + 1 && allPixelsExpandable
    invariant u == rect.maxX + 1 && rect.minY <= v && v < rect.minY + i ==> al(self, u, v) == value
    use i < height ==> PixIn(S, H, rect.maxX - R.Min.X + 1, rect.minY - R.Min.Y + i, len(self.Pix))
    decreases height - i

fn findDiagonal(self, x, y, index, value) (r, found)
  props C08
  logical u v
  reveal alpha_at
  let R = self.Rect
  let S = self.Stride
  let H = R.Max.Y - R.Min.Y
  requires tight(self) && in_alpha(self, x, y) && index == idx(self, x, y) && pat(self, x, y) == value && same_nb(self, x, y, value) == 0
  use PixIn(S, H, x - R.Min.X, y - R.Min.Y, len(self.Pix))
  use x + 1 < R.Max.X && y + 1 < R.Max.Y ==> PixIn(S, H, x + 1 - R.Min.X, y + 1 - R.Min.Y, len(self.Pix))
  use x > R.Min.X && y + 1 < R.Max.Y ==> PixIn(S, H, x - 1 - R.Min.X, y + 1 - R.Min.Y, len(self.Pix))
  ensures found ==> r.diagonalType != 0 && r.value == value && f_in(r, R) && f_cov(r, x, y)
  ensures found && f_cov(r, u, v) ==> al(self, u, v) == value
  loop 1
    invariant diag.value == value && diag.minX == x && diag.minY == y && x < diag.maxX && diag.maxX < R.Max.X && diag.maxY < R.Max.Y && diag.maxX - x == diag.maxY - y
    invariant diagIndex == (diag.maxY - R.Min.Y) * S + (diag.maxX - R.Min.X) && maxSteps == min(R.Max.X - 1 - diag.maxX, R.Max.Y - 1 - diag.maxY)
    invariant x <= u && u <= diag.maxX && v == y + (u - x) ==> al(self, u, v) == value
    use maxSteps > 0 ==> PixIn(S, H, diag.maxX + 1 - R.Min.X, diag.maxY + 1 - R.Min.Y, len(self.Pix))
    decreases maxSteps
  loop 2
    invariant diag.value == value && diag.maxX == x && diag.minY == y && R.Min.X <= diag.minX && diag.minX < x && diag.maxY < R.Max.Y && x - diag.minX == diag.maxY - y
    invariant diagIndex == (diag.maxY - R.Min.Y) * S + (diag.minX - R.Min.X) && maxSteps == min(diag.minX - R.Min.X, R.Max.Y - 1 - diag.maxY)
    invariant diag.minX <= u && u <= x && v == y + (x - u) ==> al(self, u, v) == value
    use maxSteps > 0 ==> PixIn(S, H, diag.minX - 1 - R.Min.X, diag.maxY + 1 - R.Min.Y, len(self.Pix))
    decreases maxSteps
lemma MulLt(a, b, s)
  requires a * s < s * b && s >= 0
  ensures a < b
lemma MulAll(a, b, s)
  requires a * s >= s * b && s > 0
  ensures a >= b
lemma AlAt(p: seq, s, mx, my, x, y)
  reveal alpha_at
  ensures alpha_at(p, s, mx, my, x, y) == p[(y - my) * s + (x - mx)]



fn Encoder.computeMaskFragments(self, mask)
  props C08
  logical u v
  reveal alpha_at
  let R = mask.Rect
  let S = R.Max.X - R.Min.X
  let H = R.Max.Y - R.Min.Y
  let F = self.fragments
  requires near(R.Min.X) && near(R.Min.Y) && near(R.Max.X) && near(R.Max.Y) && R.Min.X <= R.Max.X && R.Min.Y <= R.Max.Y
  requires mask.Stride == S && S * H <= len(mask.Pix) && S * H <= maxarea() && len(self.fragments) == 0
  modifies self.fragments, elems(self.fragments, 0, cap(self.fragments))
  ensures cap(F) == old(cap(F)) && ref(F) == old(ref(F)) && offs(F) == old(offs(F)) || fresh(F)
  ensures forall k in 0..len(F) :: f_in(F[k], R) && F[k].value != 0
  ensures forall k in 0..len(F) :: in_alpha(mask, u, v) && f_cov(F[k], u, v) ==> F[k].value == al(mask, u, v)
  ensures in_alpha(mask, u, v) && al(mask, u, v) != 0 ==> exists k in 0..len(F) :: f_cov(F[k], u, v)
  use in_alpha(mask, u, v) ==> PixIn(S, H, u - R.Min.X, v - R.Min.Y, S * H)
  let copied = maskCopy != nil && fresh(maskCopy) && fresh(maskCopy.Pix) && tight(maskCopy) && maskCopy.Rect.Min.X == R.Min.X && maskCopy.Rect.Min.Y == R.Min.Y && maskCopy.Rect.Max.X == R.Max.X && maskCopy.Rect.Max.Y == R.Max.Y && maskCopy.Stride == S \
     && (cap(F) == old(cap(F)) && ref(F) == old(ref(F)) && offs(F) == old(offs(F)) || fresh(F))
  let all = forall k in 0..len(F) :: f_in(F[k], R) && F[k].value != 0
  let right = forall k in 0..len(F) :: in_alpha(mask, u, v) && f_cov(F[k], u, v) ==> F[k].value == al(mask, u, v)
  let rest = in_alpha(mask, u, v) ==> al(maskCopy, u, v) == al(mask, u, v) || al(maskCopy, u, v) == 0 && (exists k in 0..len(F) :: f_cov(F[k], u, v))
  cut Stride
    hide alpha_at
    assert copied && len(F) == 0
    assert in_alpha(mask, u, v) ==> al(maskCopy, u, v) == al(mask, u, v)
  loop 1
    invariant copied && all
    invariant right
    invariant rest
    invariant R.Min.Y <= y && y <= R.Max.Y && index == (y - R.Min.Y) * S && x == R.Min.X
    invariant R.Min.X <= minX && R.Min.Y <= minY && (maxX < R.Max.X || maxX == R.Min.X) && (maxY < R.Max.Y || maxY == R.Min.Y) && R.Min.X <= maxX && R.Min.Y <= maxY
    invariant in_alpha(mask, u, v) && v < y && al(maskCopy, u, v) != 0 ==> minX <= u && u <= maxX && minY <= v && v <= maxY
    use index < len(maskCopy.Pix) ==> MulLt(y - R.Min.Y, H, S)
    use S > 0 && index >= len(maskCopy.Pix) ==> MulAll(y - R.Min.Y, H, S)
    decreases R.Max.Y - y
  loop 2
    invariant copied && all
    invariant right
    invariant rest
    invariant R.Min.X <= x && x <= R.Max.X && R.Min.Y <= y && y < R.Max.Y && index == (y - R.Min.Y) * S + (x - R.Min.X)
    invariant R.Min.X <= minX && R.Min.Y <= minY && (maxX < R.Max.X || maxX == R.Min.X) && (maxY < R.Max.Y || maxY == R.Min.Y) && R.Min.X <= maxX && R.Min.Y <= maxY
    invariant in_alpha(mask, u, v) && (v < y || v == y && u < x) && al(maskCopy, u, v) != 0 ==> minX <= u && u <= maxX && minY <= v && v <= maxY
    use x < R.Max.X ==> AlAt(maskCopy.Pix, S, R.Min.X, R.Min.Y, x, y)
    use x < R.Max.X ==> PixIn(S, H, x - R.Min.X, y - R.Min.Y, len(maskCopy.Pix))
    decreases R.Max.X - x
  loop 3
    invariant copied && all
    invariant right
    invariant rest
    invariant R.Min.X <= minX && R.Min.Y <= y && (minX <= maxX && y <= maxY ==> maxX < R.Max.X && maxY < R.Max.Y) && farish(maxX) && farish(maxY)
    invariant in_alpha(mask, u, v) && al(maskCopy, u, v) != 0 ==> minX <= u && u <= maxX && y <= v && v <= maxY
    decreases maxY + 1 - y
  loop 4
    invariant copied && all
    invariant right
    invariant rest
    invariant R.Min.X <= minX && R.Min.Y <= y && y <= maxY && (minX <= maxX && y <= maxY ==> maxX < R.Max.X && maxY < R.Max.Y) && farish(maxX) && farish(maxY)
    invariant minX <= x && (x <= maxX + 1 || x == minX) && index == (y - R.Min.Y) * S + (x - R.Min.X)
    invariant in_alpha(mask, u, v) && al(maskCopy, u, v) != 0 ==> minX <= u && u <= maxX && (v > y || v == y && u >= x) && v <= maxY
    use x <= maxX ==> AlAt(maskCopy.Pix, S, R.Min.X, R.Min.Y, x, y)
    use x <= maxX ==> PixIn(S, H, x - R.Min.X, y - R.Min.Y, len(maskCopy.Pix))
    decreases maxX + 1 - x

// the state after a sequence of operations
rec ras_fx(d, i, x) = ite(i < 0 || i >= len(d), x, ras_fx(d, op_next(d, i), op_x(d, i, x) + op_w(d, i)))
   measure d: seq | max(0, len(d) - i)
rec ras_fy(d, i, y) = ite(i < 0 || i >= len(d), y, ras_fy(d, op_next(d, i), op_y(d, i, y)))
   measure d: seq | max(0, len(d) - i)
rec ras_fc(d, i, col) = ite(i < 0 || i >= len(d), col, ras_fc(d, op_next(d, i), op_col(d, i, col)))
   measure d: seq | max(0, len(d) - i)
// a sequence of operations drawn before others
def begins(e, d) = len(d) <= len(e) && forall k in 0..len(d) :: e[k] == d[k]
lemma OpSame(d: seq, e: seq, i, j, x, y, col, u, v)
  reveal op_next op_x op_y op_w op_h op_bad op_col
  requires 0 <= i && 0 <= j && i < len(d) && j < len(e) && op_next(d, i) <= len(d) && j + op_next(d, i) - i <= len(e)
  requires forall k in 0..op_next(d, i) - i :: d[i + k] == e[j + k]
  ensures op_next(e, j) - j == op_next(d, i) - i && op_w(e, j) == op_w(d, i) && op_next(d, i) > i
  ensures op_bad(e[j]) <==> op_bad(d[i])
  ensures op_x(e, j, x) == op_x(d, i, x) && op_y(e, j, y) == op_y(d, i, y) && op_col(e, j, col) == op_col(d, i, col)
  ensures op_hit(e, j, x, y, u, v) <==> op_hit(d, i, x, y, u, v)
lemma RasSnoc(d: seq, e: seq, i, x, y, col, u, v, a)
  requires 0 <= i && i <= len(d) && ras_ok(d, i) && begins(e, d)
  ensures ras_px(e, i, x, y, col, u, v, a) == ras_px(e, len(d), ras_fx(d, i, x), ras_fy(d, i, y), ras_fc(d, i, col), u, v, ras_px(d, i, x, y, col, u, v, a))
  ensures ras_ok(e, i) <==> ras_ok(e, len(d))
  ensures ras_fx(e, i, x) == ras_fx(e, len(d), ras_fx(d, i, x)) && ras_fy(e, i, y) == ras_fy(e, len(d), ras_fy(d, i, y)) && ras_fc(e, i, col) == ras_fc(e, len(d), ras_fc(d, i, col))
  decreases len(d) - i
  use i < len(d) ==> OpSame(d, e, i, i, x, y, col, u, v)
  use i < len(d) ==> OpSame(d, e, i, i, op_x(d, i, x), op_y(d, i, y), col, u, v)
  use i < len(d) ==> RasSnoc(d, e, op_next(d, i), op_x(d, i, x) + op_w(d, i), op_y(d, i, y), op_col(d, i, col), u, v, ite(op_hit(d, i, op_x(d, i, x), op_y(d, i, y), u, v), op_col(d, i, col), a))
lemma RasOne(e: seq, n, x, y, col, u, v, a)
  unfold 2
  requires 0 <= n && n < len(e) && op_next(e, n) == len(e)
  ensures ras_ok(e, n) <==> !op_bad(e[n])
  ensures ras_fx(e, n, x) == op_x(e, n, x) + op_w(e, n) && ras_fy(e, n, y) == op_y(e, n, y) && ras_fc(e, n, col) == op_col(e, n, col)
  ensures ras_px(e, n, x, y, col, u, v, a) == ite(op_hit(e, n, op_x(e, n, x), op_y(e, n, y), u, v), op_col(e, n, col), a)
// drawing one more operation, the one in p
lemma RasAdd(d: seq, e: seq, p: seq, x, y, col, u, v, a)
  requires ras_ok(d, 0) && begins(e, d) && len(p) >= 1 && op_next(p, 0) >= 1 && op_next(p, 0) <= len(p) && len(e) == len(d) + op_next(p, 0) && !op_bad(p[0])
  requires forall k in 0..op_next(p, 0) :: p[k] == e[len(d) + k]
  let x1 = op_x(p, 0, ras_fx(d, 0, x))
  let y1 = op_y(p, 0, ras_fy(d, 0, y))
  let c1 = op_col(p, 0, ras_fc(d, 0, col))
  ensures ras_ok(e, 0)
  ensures ras_fx(e, 0, x) == x1 + op_w(p, 0) && ras_fy(e, 0, y) == y1 && ras_fc(e, 0, col) == c1
  ensures ras_px(e, 0, x, y, col, u, v, a) == ite(op_hit(p, 0, x1, y1, u, v), c1, ras_px(d, 0, x, y, col, u, v, a))
  use RasSnoc(d, e, 0, x, y, col, u, v, a)
  use OpSame(p, e, 0, len(d), ras_fx(d, 0, x), ras_fy(d, 0, y), ras_fc(d, 0, col), u, v)
  use OpSame(p, e, 0, len(d), x1, y1, c1, u, v)
  use RasOne(e, len(d), ras_fx(d, 0, x), ras_fy(d, 0, y), ras_fc(d, 0, col), u, v, ras_px(d, 0, x, y, col, u, v, a))

fn Encoder.AppendRasterOps(self, data, mask) (r)
  props C08
  logical u v
  reveal op_next op_x op_y op_w op_h op_bad op_col
  let R = mask.Rect
  let S = R.Max.X - R.Min.X
  let H = R.Max.Y - R.Min.Y
  let F = self.fragments
  let n0 = old(len(data))
  requires R.Min.X <= R.Max.X && R.Min.Y <= R.Max.Y && 0 - 128 <= R.Min.X && R.Max.X <= 129 && 0 - 128 <= R.Min.Y && R.Max.Y <= 129 && S <= 128 && H <= 128
  requires mask.Stride == S && S * H <= len(mask.Pix) && ref(data) != ref(mask.Pix)
  modifies self.fragments, elems(self.fragments, 0, cap(self.fragments)), elems(data, len(data), cap(data))
  ensures n0 <= len(r) && (forall k in 0..n0 :: r[k] == old(data[k])) && ras_ok(r[n0 : len(r)], 0)
  ensures in_alpha(mask, u, v) ==> ras_px(r[n0 : len(r)], 0, 0, 0, 255, u, v, 0) == al(mask, u, v)
  ensures !in_alpha(mask, u, v) ==> ras_px(r[n0 : len(r)], 0, 0, 0, 255, u, v, 0) == 0
  let D = data[n0 : len(data)]
  let px = ras_px(D, 0, 0, 0, 255, u, v, 0)
  let E = cur(D)
  let P = cur(payload)
  let c0 = payload[0]
  let f = self.fragments[i]
  let kept = n0 <= len(data) && (forall k in 0..n0 :: data[k] == old(data[k])) && (ref(data) == old(ref(data)) && offs(data) == old(offs(data)) && cap(data) == old(cap(data)) || fresh(data)) && ref(data) != ref(mask.Pix)
  let frs = (forall k in 0..len(F) :: f_in(F[k], R) && F[k].value != 0) && (forall k in 0..len(F) :: in_alpha(mask, u, v) && f_cov(F[k], u, v) ==> F[k].value == al(mask, u, v)) \
     && (in_alpha(mask, u, v) && al(mask, u, v) != 0 ==> exists k in 0..len(F) :: f_cov(F[k], u, v))
  let drawn = (px == 0 || in_alpha(mask, u, v) && px == al(mask, u, v)) && (forall k in 0..i :: f_cov(F[k], u, v) ==> px == al(mask, u, v))
  loop 1
    invariant 0 <= i && i <= len(F)
    invariant kept
    invariant forall k in 0..len(F) :: f_in(F[k], R) && F[k].value != 0
    invariant forall k in 0..len(F) :: in_alpha(mask, u, v) && f_cov(F[k], u, v) ==> F[k].value == al(mask, u, v)
    invariant in_alpha(mask, u, v) && al(mask, u, v) != 0 ==> exists k in 0..len(F) :: f_cov(F[k], u, v)
    invariant ras_ok(D, 0) && ras_fx(D, 0, 0) == x && ras_fy(D, 0, 0) == y && ras_fc(D, 0, 255) == value
    invariant x == 0 && y == 0 || R.Min.X < x && x <= R.Max.X && R.Min.Y <= y && y < R.Max.Y
    invariant drawn
    assert begins(D, start(E)) && len(D) == len(start(D)) + op_next(P, 0)
    assert forall k in 0..op_next(P, 0) :: P[k] == D[len(start(D)) + k]
    use RasAdd(start(E), D, P, 0, 0, 255, u, v, 0)
    assert px == ite(f_cov(start(f), u, v), value, start(px))
    assert px == 0 || in_alpha(mask, u, v) && px == al(mask, u, v)
    assert f_cov(start(f), u, v) ==> px == al(mask, u, v)
    assert forall k in 0..start(i) :: f_cov(F[k], u, v) ==> px == al(mask, u, v)
    decreases len(F) - i
  cut GetDistsFrom
    assert 0 <= i && i < len(F) && kept && frs && drawn && ras_ok(D, 0) && ras_fx(D, 0, 0) == x && ras_fy(D, 0, 0) == y && ras_fc(D, 0, 255) == start(value)
    assert x == 0 && y == 0 || R.Min.X < x && x <= R.Max.X && R.Min.Y <= y && y < R.Max.Y
    assert f_in(f, R) && f.value != 0
    assert f_cov(f, u, v) ==> in_alpha(mask, u, v)
    assert f_cov(f, u, v) ==> value == al(mask, u, v)
    assert c0 <= 1 && payloadSize == 1 + c0 && value == f.value && value == ite(c0 == 1, payload[1], start(value))
  cut GetDrawSizes
    assert 0 <= i && i < len(F) && kept && frs && drawn && ras_ok(D, 0) && ras_fx(D, 0, 0) == x && ras_fy(D, 0, 0) == y && ras_fc(D, 0, 255) == start(value)
    assert f_in(f, R) && f.value != 0
    assert f_cov(f, u, v) ==> in_alpha(mask, u, v)
    assert f_cov(f, u, v) ==> value == al(mask, u, v)
    assert xDist == f.minX - x && yDist == f.minY - y && value == f.value && 0 - 256 <= x && x <= 256 && 0 - 256 <= y && y <= 256
    assert c0 == 0 || c0 == 1 || c0 == 2 || c0 == 3 || c0 == 4 || c0 == 5 || c0 == 6 || c0 == 7 || c0 == 8 || c0 == 9 || c0 == 10 || c0 == 11
    assert payloadSize == 1 + bit(c0, 1) + bit(c0, 2) + bit(c0, 4)
    assert value == ite(bit(c0, 1) == 1, payload[1], start(value))
    assert xDist == ite(bit(c0, 2) == 1, nz(payload[1 + bit(c0, 1)]), 0)
    assert yDist == ite(bit(c0, 4) == 1, nz(payload[1 + bit(c0, 1) + bit(c0, 2)]), bit(c0, 8))
  cut append
    hide op_next op_x op_y op_w op_h op_bad op_col
    assert 0 <= i && i < len(F) && kept && frs && drawn && ras_ok(D, 0) && ras_fx(D, 0, 0) == start(x) && ras_fy(D, 0, 0) == start(y) && ras_fc(D, 0, 255) == start(value)
    assert f_in(f, R) && f.value != 0 && value == f.value
    assert f_cov(f, u, v) ==> in_alpha(mask, u, v)
    assert f_cov(f, u, v) ==> value == al(mask, u, v)
    assert c0 % 16 <= 11
    assert value == ite(bit(c0, 1) == 1, payload[1], start(value))
    assert f.minX - start(x) == ite(bit(c0, 2) == 1, nz(payload[1 + bit(c0, 1)]), 0)
    assert f.minY - start(y) == ite(bit(c0, 4) == 1, nz(payload[1 + bit(c0, 1) + bit(c0, 2)]), bit(c0, 8))
    assert x == f.maxX + 1 && y == f.minY
    assert op_diag(P, 0) <==> f.diagonalType != 0
    assert op_diag(P, 0) ==> (bit(P[0], 64) == 1 <==> f.diagonalType == 1)
    assert op_draw(P, 0) <= 4 && payloadSize == op_draw(P, 0) + ite(op_diag(P, 0), 1, bit(c0, 32) + bit(c0, 64))
    assert op_w(P, 0) == f.maxX + 1 - f.minX
    assert op_h(P, 0) == f.maxY + 1 - f.minY
    assert op_hit(P, 0, f.minX, f.minY, u, v) <==> f_cov(f, u, v)
    assert !op_bad(P[0])
    assert 1 <= payloadSize && payloadSize <= 8 && op_next(P, 0) == payloadSize
    assert op_x(P, 0, start(x)) == f.minX && op_y(P, 0, start(y)) == f.minY && op_col(P, 0, start(value)) == value
