package internal

// r is b followed by n more elements, stored in b's spare capacity when that
// is large enough and in fresh memory otherwise.
def stored(r, b, n) = ite(len(b) + n <= cap(b), ref(r) == ref(b) && offs(r) == offs(b) && cap(r) == cap(b), fresh(r)) \
   && (n > 0 ==> ref(r) > 0)
def grown(r, b, n) = len(r) == len(b) + n && (forall i in 0..len(b) :: r[i] == old(b[i])) && stored(r, b, n)

def le16(b, i) = b[i] + 256 * b[i + 1]
def le24(b, i) = b[i] + 256 * b[i + 1] + 65536 * b[i + 2]
def le32(b, i) = b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * b[i + 3]
def le64(b, i) = le32(b, i) + 4294967296 * le32(b, i + 4)

fn DecodeUint16LE(buffer) (r)
  props C01
  panics len(buffer) < 2
  ensures r == le16(buffer, 0)

fn DecodeUint24LE(buffer) (r)
  props C01
  panics len(buffer) < 3
  ensures r == le24(buffer, 0)

fn DecodeUint32LE(buffer) (r)
  props C01
  panics len(buffer) < 4
  ensures r == le32(buffer, 0)

fn DecodeUint64LE(buffer) (r)
  props C01
  panics len(buffer) < 8
  ensures r == le64(buffer, 0)

fn DecodeDate(buffer) (y, m, d)
  props C01 C03
  panics len(buffer) < 4
  ensures y == le16(buffer, 0) && m == buffer[2] && d == buffer[3]

fn EncodeUint16LE(buffer, value)
  props C01
  panics len(buffer) < 2
  modifies elems(buffer, 0, 2)
  ensures le16(buffer, 0) == value

fn EncodeUint24LE(buffer, value)
  props C01
  panics len(buffer) < 3
  modifies elems(buffer, 0, 3)
  ensures le24(buffer, 0) == value % 16777216

fn EncodeUint32LE(buffer, value)
  props C01
  panics len(buffer) < 4
  modifies elems(buffer, 0, 4)
  ensures le32(buffer, 0) == value

fn AppendUint8(buffer, value) (r)
  props C01
  modifies elems(buffer, len(buffer), cap(buffer))
  ensures grown(r, buffer, 1) && r[len(buffer)] == value

fn AppendUint16LE(buffer, value) (r)
  props C01
  modifies elems(buffer, len(buffer), cap(buffer))
  ensures grown(r, buffer, 2) && le16(r, len(buffer)) == value

fn AppendUint24LE(buffer, value) (r)
  props C01
  modifies elems(buffer, len(buffer), cap(buffer))
  ensures grown(r, buffer, 3) && le24(r, len(buffer)) == value % 16777216

fn AppendUint32LE(buffer, value) (r)
  props C01
  modifies elems(buffer, len(buffer), cap(buffer))
  ensures grown(r, buffer, 4) && le32(r, len(buffer)) == value

fn AppendUint64LE(buffer, value) (r)
  props C01
  modifies elems(buffer, len(buffer), cap(buffer))
  ensures grown(r, buffer, 8) && le64(r, len(buffer)) == value

fn AppendShortString(buffer, str) (r)
  props C01
  panics len(str) > 255
  modifies elems(buffer, len(buffer), cap(buffer))
  ensures grown(r, buffer, 1 + len(str)) && r[len(buffer)] == len(str)
  ensures forall i in 0..len(str) :: r[len(buffer) + 1 + i] == str[i]

fn AppendString(buffer, str) (r)
  props C01
  panics len(str) > 65535
  modifies elems(buffer, len(buffer), cap(buffer))
  ensures grown(r, buffer, 2 + len(str)) && le16(r, len(buffer)) == len(str)
  ensures forall i in 0..len(str) :: r[len(buffer) + 2 + i] == str[i]

fn AppendByteDigits(value, str) (r)
  props C01
  let n = ite(value > 99, 3, ite(value > 9, 2, 1))
  modifies elems(str, len(str), cap(str))
  ensures grown(r, str, n)
  ensures r[len(str) + n - 1] == '0' + value % 10
  ensures value > 9 ==> r[len(str) + n - 2] == '0' + (value / 10) % 10
  ensures value > 99 ==> r[len(str)] == '0' + value / 100
