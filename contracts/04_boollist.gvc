package internal

// bit i of the list
opaque bitat(a, i) = (a[i / 8] >> (i % 8)) & 1
def flag(b, i) = bitat(b.bools, i)
def bit_at(b, i, k, v) = ((b.bools[i / 8] >> k) & 1) == ite(i % 8 == k, ite(v, 1, 0), (old(b.bools[i / 8]) >> k) & 1)
def bits_set(b, i, v) = bit_at(b, i, 0, v) && bit_at(b, i, 1, v) && bit_at(b, i, 2, v) && bit_at(b, i, 3, v) \
   && bit_at(b, i, 4, v) && bit_at(b, i, 5, v) && bit_at(b, i, 6, v) && bit_at(b, i, 7, v)
def blok(b) = b.size >= 0 && b.size <= 1099511627776 && 8 * len(b.bools) >= b.size

fn NewBoolList(size) (r)
  reveal bitat
  props C05
  requires size <= 1099511627776
  ensures r.size == max(size, 0) && 8 * len(r.bools) >= r.size && (fresh(r.bools) || ref(r.bools) == 0 && len(r.bools) == 0)
  ensures forall i in 0..r.size :: flag(r, i) == 0

fn BoolList.Push(self, value)
  reveal bitat
  props C05
  requires blok(self) && self.size < 1099511627776 && len(self.bools) == (self.size + 7) / 8
  modifies self.size, self.bools, elems(self.bools, 0, cap(self.bools))
  ensures blok(self) && self.size == old(self.size) + 1 && len(self.bools) == (self.size + 7) / 8
  ensures forall i in 0..old(self.size) :: flag(self, i) == old(flag(self, i))
  ensures flag(self, old(self.size)) == ite(value, 1, 0)

fn BoolList.SetAllFalse(self)
  reveal bitat
  props C05
  requires blok(self)
  modifies elems(self.bools, 0, len(self.bools))
  ensures forall i in 0..self.size :: flag(self, i) == 0
  loop 1
    invariant forall k in 0.._i :: self.bools[k] == 0

fn BoolList.SetAllTrue(self)
  reveal bitat
  props C05
  requires blok(self)
  modifies elems(self.bools, 0, len(self.bools))
  ensures forall i in 0..self.size :: flag(self, i) == 1
  loop 1
    invariant forall k in 0.._i :: self.bools[k] == 255

fn BoolList.Get(self, i) (r)
  reveal bitat
  props C05
  requires blok(self)
  panics i < 0 || i >= self.size
  ensures r <==> flag(self, i) == 1

fn BoolList.IsSet(self, i) (r)
  reveal bitat
  props C05
  requires blok(self)
  panics i < 0 || i >= self.size
  ensures r <==> flag(self, i) == 1

fn BoolList.IsUnset(self, i) (r)
  reveal bitat
  props C05
  requires blok(self)
  panics i < 0 || i >= self.size
  ensures r <==> flag(self, i) == 0

fn BoolList.GetU8(self, i) (r)
  reveal bitat
  props C05
  requires blok(self) && i < self.size
  ensures r <==> flag(self, i) == 1

fn BoolList.IsSetU8(self, i) (r)
  reveal bitat
  props C05
  requires blok(self) && i < self.size
  ensures r <==> flag(self, i) == 1

fn BoolList.IsUnsetU8(self, i) (r)
  reveal bitat
  props C05
  requires blok(self) && i < self.size
  ensures r <==> flag(self, i) == 0

fn BoolList.Set(self, i, value)
  reveal bitat
  props C05
  requires blok(self)
  panics i < 0 || i >= self.size
  modifies elems(self.bools, i / 8, i / 8 + 1)
  cases i % 8 in 0..8
  ensures bits_set(self, i, value)
  ensures forall k in 0..len(self.bools) :: k != i / 8 ==> self.bools[k] == old(self.bools[k])
  ensures forall k in 0..8 * len(self.bools) :: flag(self, k) == ite(k == i, ite(value, 1, 0), old(flag(self, k)))

fn BoolList.SetU8(self, i, value)
  reveal bitat
  props C05
  requires blok(self) && i < self.size
  modifies elems(self.bools, i / 8, i / 8 + 1)
  cases i % 8 in 0..8
  ensures bits_set(self, i, value)
  ensures forall k in 0..len(self.bools) :: k != i / 8 ==> self.bools[k] == old(self.bools[k])
  ensures forall k in 0..8 * len(self.bools) :: flag(self, k) == ite(k == i, ite(value, 1, 0), old(flag(self, k)))

fn BoolList.GetWordAndBitMaskU8(self, i) (w, m)
  props C05
  ensures w == i / 8 && m == 1 << (i % 8)

fn BoolList.RawGetU8(self, word, bitMask) (r)
  props C05
  requires word < len(self.bools)
  ensures r <==> (self.bools[word] & bitMask) != 0
