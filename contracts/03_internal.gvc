package internal

// --- slice helpers (C06) ---

fn GrowSliceByN(buffer, increase) (r)
  props C06
  requires increase >= 0 && len(buffer) + increase <= 140737488355328
  ensures len(r) == len(buffer) + increase && (forall i in 0..len(buffer) :: r[i] == buffer[i])
  ensures ite(len(buffer) + increase <= cap(buffer), ref(r) == ref(buffer) && offs(r) == offs(buffer) && cap(r) == cap(buffer), fresh(r))

fn GrowSliceByOne(buffer) (r)
  props C06
  ensures len(r) == len(buffer) + 1 && (forall i in 0..len(buffer) :: r[i] == buffer[i])
  ensures ite(len(buffer) + 1 <= cap(buffer), ref(r) == ref(buffer) && offs(r) == offs(buffer) && cap(r) == cap(buffer), fresh(r))

fn SetSliceSize(buffer, size) (r)
  props C06
  requires size >= 0
  ensures len(r) == size
  ensures ite(size <= cap(buffer), ref(r) == ref(buffer) && offs(r) == offs(buffer) && cap(r) == cap(buffer), fresh(r))

fn DeleteElementAt(buffer, index) (r)
  props C06
  requires index >= 0 && index < 9223372036854775807
  modifies elems(buffer, index, len(buffer))
  ensures index >= len(buffer) ==> same(r, buffer)
  ensures index < len(buffer) ==> len(r) == len(buffer) - 1 && ref(r) == ref(buffer) && offs(r) == offs(buffer)
  ensures index < len(buffer) ==> forall i in 0..index :: r[i] == old(buffer[i])
  ensures index < len(buffer) ==> forall i in index..len(buffer) - 1 :: r[i] == old(buffer[i + 1])
  ensures index < len(buffer) ==> buffer[len(buffer) - 1] == old(buffer[index])

def sorted(s) = forall i in 0..len(s) :: forall j in i..len(s) :: s[i] <= s[j]
def ascending(s) = forall i in 0..len(s) :: forall j in i + 1..len(s) :: s[i] < s[j]

fn BadBinarySearch(slice, target) (r, found)
  props C06
  requires sorted(slice)
  ensures 0 <= r && r <= len(slice)
  ensures forall i in 0..r :: slice[i] < target
  ensures forall i in r..len(slice) :: slice[i] >= target
  ensures found <==> (r < len(slice) && slice[r] == target)
  loop 1
    invariant 0 <= minIndex && minIndex <= maxIndex && maxIndex <= len(slice)
    invariant forall i in 0..minIndex :: slice[i] < target
    invariant forall i in maxIndex..len(slice) :: slice[i] >= target
    decreases maxIndex - minIndex

fn BasicOrderedNonRepeatInsert(buffer, element) (r)
  props C06
  requires ascending(buffer)
  modifies elems(buffer, 0, cap(buffer))
  ensures ascending(r)
  ensures (exists i in 0..len(buffer) :: old(buffer[i]) == element) ==> same(r, buffer) && (forall i in 0..len(buffer) :: r[i] == old(buffer[i]))
  ensures (forall i in 0..len(buffer) :: old(buffer[i]) != element) ==> len(r) == len(buffer) + 1
  ensures forall i in 0..len(buffer) :: old(buffer[i]) < element ==> r[i] == old(buffer[i])
  ensures forall i in 0..len(buffer) :: old(buffer[i]) > element && len(r) > len(buffer) ==> r[i + 1] == old(buffer[i])
  ensures forall i in 0..len(r) :: (i == 0 || r[i - 1] < element) && (i == len(r) - 1 || r[i + 1] > element) && len(r) > len(buffer) ==> r[i] == element
  ensures len(r) > len(buffer) ==> exists i in 0..len(r) :: r[i] == element
  loop 1
    invariant 0 <= insertionIndex && insertionIndex <= len(buffer)
    invariant forall i in insertionIndex..len(buffer) :: buffer[i] > element
    decreases insertionIndex

fn BoolErrCheck(value) (e)
  props C06
  ensures e == nil <==> value <= 1

fn BoolToUint8(truthy) (r)
  props C06
  ensures r == ite(truthy, 1, 0)

// --- names (C02) ---

def alnum(c) = c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
def basic_name(s) = len(s) >= 1 && len(s) <= 32 && (forall i in 0..len(s) :: alnum(s[i]) || s[i] == '-') \
  && s[0] != '-' && s[len(s) - 1] != '-' && (forall i in 1..len(s) :: !(s[i] == '-' && s[i - 1] == '-'))
def spaced_name(s) = len(s) >= 1 && len(s) <= 32 && (forall i in 0..len(s) :: alnum(s[i]) || s[i] == '-' || s[i] == ' ')

fn isAZaz09(char) (r)
  props C02
  ensures r <==> alnum(char)

fn ValidateBasicName(name) (e)
  props C02
  ensures e == nil <==> basic_name(name)
  loop 1
    invariant 0 <= i && i <= len(name)
    invariant forall k in 0..i :: alnum(name[k]) || name[k] == '-'
    invariant forall k in 1..i :: !(name[k] == '-' && name[k - 1] == '-')
    invariant prevIsHyphen <==> (i > 0 && name[i - 1] == '-')

fn validateBasicSpacedName(name) (e)
  props C02
  ensures e == nil <==> spaced_name(name)
  loop 1
    invariant 0 <= i && i <= len(name)
    invariant forall k in 0..i :: alnum(name[k]) || name[k] == '-' || name[k] == ' '

fn ParsingBuffer.ValidateBasicName(self, name) (e)
  props C02
  ensures e == nil <==> basic_name(name)

fn ParsingBuffer.ValidateBasicSpacedName(self, name) (e)
  props C02
  ensures e == nil <==> spaced_name(name)

// --- circular buffer (C04): element i is at(q, i) ---

def cbok(q) = q.capacity == len(q.buffer) && q.numElements <= q.capacity && (q.headIndex < q.capacity || q.headIndex == 0)
def at(q, i) = q.buffer[ite(q.headIndex + i < q.capacity, q.headIndex + i, q.headIndex + i - q.capacity)]
def peekok(q) = q.numPeeks < q.numElements || q.numPeeks == 0

fn CircularBufferU16.IsEmpty(self) (r)
  props C04
  ensures r <==> self.numElements == 0

fn CircularBufferU16.Capacity(self) (r)
  props C04
  ensures r == self.capacity

fn CircularBufferU16.Size(self) (r)
  props C04
  ensures r == self.numElements

fn CircularBufferU16.Clear(self)
  props C04
  requires cbok(self)
  modifies self.headIndex, self.numElements, self.numPeeks
  ensures cbok(self) && self.numElements == 0 && peekok(self)

fn CircularBufferU16.Push(self, element)
  props C04
  requires cbok(self)
  panics self.numElements >= self.capacity
  modifies self.numElements, elems(self.buffer)
  ensures cbok(self) && self.numElements == old(self.numElements) + 1
  ensures forall i in 0..old(self.numElements) :: at(self, i) == old(at(self, i))
  ensures at(self, old(self.numElements)) == element
  ensures old(peekok(self)) ==> peekok(self)

fn CircularBufferU16.PeekAhead(self) (v, ok)
  props C04
  requires cbok(self) && peekok(self)
  modifies self.numPeeks
  ensures peekok(self)
  ensures ok <==> old(self.numPeeks) + 1 < self.numElements
  ensures self.numPeeks == old(self.numPeeks) + ite(ok, 1, 0)
  ensures self.numElements > 0 ==> v == at(self, self.numPeeks)

fn CircularBufferU16.DiscardPeeks(self)
  props C04
  modifies self.numPeeks
  ensures self.numPeeks == 0

fn CircularBufferU16.ConfirmPeeks(self)
  props C04
  requires cbok(self) && peekok(self)
  modifies self.headIndex, self.numElements, self.numPeeks
  ensures cbok(self) && self.numPeeks == 0 && self.numElements == old(self.numElements) - old(self.numPeeks)
  ensures forall i in 0..self.numElements :: at(self, i) == old(at(self, i + self.numPeeks))

fn CircularBufferU16.Head(self) (r)
  props C04
  requires cbok(self)
  panics self.numElements == 0
  ensures r == at(self, 0)

fn CircularBufferU16.Tail(self) (r)
  props C04
  requires cbok(self)
  panics self.numElements == 0
  ensures r == at(self, self.numElements - 1)

fn CircularBufferU16.PopHead(self) (r)
  props C04
  requires cbok(self)
  panics self.numElements == 0
  modifies self.headIndex, self.numElements
  ensures cbok(self) && r == old(at(self, 0)) && self.numElements == old(self.numElements) - 1
  ensures forall i in 0..self.numElements :: at(self, i) == old(at(self, i + 1))

fn CircularBufferU16.PopTail(self) (r)
  props C04
  requires cbok(self)
  panics self.numElements == 0
  modifies self.numElements
  ensures cbok(self) && r == old(at(self, self.numElements - 1)) && self.numElements == old(self.numElements) - 1
  ensures forall i in 0..self.numElements :: at(self, i) == old(at(self, i))

fn CircularBufferU16.SetMinCapacity(self, capacity) (r)
  props C04
  requires cbok(self)
  modifies self.headIndex, self.buffer, self.capacity, elems(self.buffer, 0, cap(self.buffer))
  ensures r
  ensures cbok(self) && self.capacity == max(capacity, old(self.capacity))
  ensures forall i in 0..self.numElements :: at(self, i) == old(at(self, i))

fn CircularBufferU16.SetCapacity(self, capacity) (r)
  props C04
  requires cbok(self)
  modifies self.headIndex, self.buffer, self.capacity, elems(self.buffer, 0, cap(self.buffer))
  ensures r <==> capacity >= self.numElements
  ensures cbok(self) && self.capacity == ite(r, capacity, old(self.capacity))
  ensures forall i in 0..self.numElements :: at(self, i) == old(at(self, i))
  ensures !r ==> self.headIndex == old(self.headIndex) && sameat(self.buffer, self.buffer) && (forall i in 0..len(self.buffer) :: self.buffer[i] == old(self.buffer[i]))
