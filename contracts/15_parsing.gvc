package ext

// --- streams and the parsing buffer (C24) ---
//
// The standard library's readers are described by ghost state: data is the
// whole decompressed stream, pos how much of it was delivered, faulty whether
// some read of it reports something else than data or the end.
ghost compress/gzip.Reader data string
ghost compress/gzip.Reader pos int
ghost compress/gzip.Reader faulty bool
// an io.Reader's contents: head is its bytes, pos how many were read, gunzip
// what the gzip stream after a six byte signature decompresses to, faulty
// whether reading it fails or the gzip data is damaged
ghost io.Reader head string
ghost io.Reader pos int
ghost io.Reader gunzip string
ghost io.Reader faulty bool

fn compress/gzip.Reader.Read(self, p) (n, err)
  trusted io.Reader's documented contract, the stream being what the gzip data decompresses to
  modifies self.pos, elems(p, 0, len(p))
  ensures 0 <= n && n <= len(p)
  ensures self.pos == old(self.pos) + n && self.pos <= len(self.data)
  ensures forall i in 0..n :: p[i] == self.data[old(self.pos) + i]
  ensures err == io.EOF ==> self.pos == len(self.data)
  ensures (err != nil && err != io.EOF || err == nil && n == 0 && len(p) > 0) ==> self.faulty

fn compress/gzip.NewReader(r) (z, err)
  trusted the documentation of gzip.NewReader
  modifies r.pos
  ensures err == nil ==> ref(z) > 0 && fresh(z) && z.pos == 0 && (r.faulty <==> z.faulty)
  ensures err == nil && old(r.pos) == 6 ==> same(z.data, r.gunzip)
  ensures err != nil ==> r.faulty

fn io.ReadFull(r, buf) (n, err)
  trusted the documentation of io.ReadFull
  modifies r.pos, elems(buf, 0, len(buf))
  ensures 0 <= n && n <= len(buf) && old(r.pos) + n <= len(r.head) && r.pos == old(r.pos) + n
  ensures forall i in 0..n :: buf[i] == r.head[old(r.pos) + i]
  ensures err == nil <==> n == len(buf)
  ensures err != nil ==> r.faulty || len(r.head) < old(r.pos) + len(buf)

package internal

def pb_ok(b) = b.gzipReader != nil && len(b.TempBuff) > 0 && len(b.TempBuff) <= 65536 && separate(b.TempBuff, b.Bytes) \
   && 0 <= b.Index && b.Index <= len(b.Bytes) && len(b.Bytes) <= 33554432 \
   && b.gzipReader.pos == len(b.Bytes) && len(b.Bytes) <= len(b.gzipReader.data) \
   && (b.eof ==> len(b.Bytes) == len(b.gzipReader.data)) \
   && forall i in 0..len(b.Bytes) :: b.Bytes[i] == b.gzipReader.data[i]
def pb_frame(b) = sameat(b.TempBuff, b.TempBuff) && b.gzipReader == old(b.gzipReader) && len(b.Bytes) >= old(len(b.Bytes)) \
   && (ref(b.Bytes) > 0 && fresh(b.Bytes) || ref(b.Bytes) == refold(b.Bytes) && offs(b.Bytes) == offold(b.Bytes) && cap(b.Bytes) == old(cap(b.Bytes)))
// a read of everything below index n failed for a reason
def pb_why(b, n) = b.gzipReader.faulty || n > len(b.gzipReader.data) || len(b.gzipReader.data) > 33554432

def i8of(b) = ite(b < 128, b, b - 256)
def i32of(x) = ite(x < 2147483648, x, x - 4294967296)

fn ParsingBuffer.NewError(self, details) (e)
  props C24
  ensures e != nil

fn ParsingBuffer.InitBuffers(self)
  props C24
  modifies self.TempBuff, self.Bytes, self.Index, self.eof
  ensures len(self.TempBuff) == 1024 && len(self.Bytes) == 0 && self.Index == 0 && !self.eof
  ensures fresh(self.TempBuff) && fresh(self.Bytes) && separate(self.TempBuff, self.Bytes)

fn ParsingBuffer.InitGzipReader(self, reader) (e)
  props C24
  requires reader != nil
  modifies self.gzipReader, reader.pos
  ensures e == nil ==> self.gzipReader != nil && fresh(self.gzipReader) && self.gzipReader.pos == 0 && (reader.faulty <==> self.gzipReader.faulty)
  ensures e == nil && old(reader.pos) == 6 ==> same(self.gzipReader.data, reader.gunzip)
  ensures e != nil ==> reader.faulty

fn ParsingBuffer.readMore(self) (e)
  props C24
  requires pb_ok(self) && !self.eof
  modifies self.Bytes, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self) && self.Index == old(self.Index)
  ensures e == nil ==> pb_ok(self) && len(self.Bytes) >= old(len(self.Bytes)) && (self.eof || len(self.Bytes) > old(len(self.Bytes)))
  ensures e != nil ==> self.gzipReader.faulty || len(self.gzipReader.data) > 33554432
  loop 1
    invariant 0 <= retries && retries <= 3
    invariant pb_ok(self) && !self.eof && len(self.Bytes) == old(len(self.Bytes)) && sameat(self.Bytes, self.Bytes)
    invariant pb_frame(self) && self.Index == old(self.Index)
    invariant retries > 0 ==> self.gzipReader.faulty
    decreases 3 - retries

fn ParsingBuffer.readUpTo(self, newIndex) (e)
  props C24
  requires pb_ok(self)
  panics newIndex <= self.Index
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == newIndex
  ensures e != nil ==> self.Index == old(self.Index) && pb_why(self, newIndex)
  loop 1
    invariant pb_ok(self) && pb_frame(self) && self.Index == old(self.Index)
    decreases ite(self.eof, 0, 1), newIndex - len(self.Bytes)

fn ParsingBuffer.EnsureEOF(self) (e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self) && self.Index == old(self.Index)
  ensures e == nil ==> pb_ok(self) && len(self.Bytes) == self.Index && self.Index == len(self.gzipReader.data)
  ensures e != nil ==> self.gzipReader.faulty || self.Index < len(self.gzipReader.data)
  loop 1
    invariant pb_ok(self) && pb_frame(self) && self.Index == old(self.Index)
    decreases ite(self.eof, 0, 1), self.Index + 1 - len(self.Bytes)

fn ParsingBuffer.AdvanceBytes(self, n) (e)
  props C24
  requires pb_ok(self) && n <= 1099511627776
  panics n < 0
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + n
  ensures e != nil ==> self.Index == old(self.Index) && pb_why(self, self.Index + n)

fn ParsingBuffer.ReadUint64(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 8 && v == le64(self.gzipReader.data, old(self.Index))
  ensures e != nil ==> v == 0 && self.Index == old(self.Index) && pb_why(self, self.Index + 8)

fn ParsingBuffer.ReadUint32(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 4 && v == le32(self.gzipReader.data, old(self.Index))
  ensures e != nil ==> v == 0 && self.Index == old(self.Index) && pb_why(self, self.Index + 4)

fn ParsingBuffer.ReadUint24(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 3 && v == le24(self.gzipReader.data, old(self.Index))
  ensures e != nil ==> v == 0 && self.Index == old(self.Index) && pb_why(self, self.Index + 3)

fn ParsingBuffer.ReadInt32(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 4 && v == i32of(le32(self.gzipReader.data, old(self.Index)))
  ensures e != nil ==> v == 0 && self.Index == old(self.Index) && pb_why(self, self.Index + 4)

fn ParsingBuffer.ReadUint16(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 2 && v == le16(self.gzipReader.data, old(self.Index))
  ensures e != nil ==> v == 0 && self.Index == old(self.Index) && pb_why(self, self.Index + 2)

fn ParsingBuffer.ReadUint8(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 1 && v == self.gzipReader.data[old(self.Index)]
  ensures e != nil ==> v == 0 && self.Index == old(self.Index) && pb_why(self, self.Index + 1)

fn ParsingBuffer.ReadInt8(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 1 && v == i8of(self.gzipReader.data[old(self.Index)])
  ensures e != nil ==> v == 0 && self.Index == old(self.Index) && pb_why(self, self.Index + 1)

fn ParsingBuffer.ReadBool(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 1 && self.gzipReader.data[old(self.Index)] == ite(v, 1, 0)
  ensures e != nil ==> !v && (pb_why(self, old(self.Index) + 1) || self.gzipReader.data[old(self.Index)] > 1)

fn ParsingBuffer.AdvanceShortSlice(self) (e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 1 + self.gzipReader.data[old(self.Index)]
  ensures e != nil ==> pb_why(self, old(self.Index) + 1) || pb_why(self, old(self.Index) + 1 + self.gzipReader.data[old(self.Index)])

fn ParsingBuffer.ReadShortStr(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 1 + self.gzipReader.data[old(self.Index)] && len(v) == self.gzipReader.data[old(self.Index)] && forall i in 0..len(v) :: v[i] == self.gzipReader.data[old(self.Index) + 1 + i]
  ensures e != nil ==> len(v) == 0 && (pb_why(self, old(self.Index) + 1) || pb_why(self, old(self.Index) + 1 + self.gzipReader.data[old(self.Index)]))

fn ParsingBuffer.ReadString(self) (v, e)
  props C24
  requires pb_ok(self)
  modifies self.Bytes, self.Index, self.eof, elems(self.Bytes, len(self.Bytes), cap(self.Bytes)), elems(self.TempBuff), self.gzipReader.pos
  ensures pb_frame(self)
  ensures e == nil ==> pb_ok(self) && self.Index == old(self.Index) + 2 + le16(self.gzipReader.data, old(self.Index)) && len(v) == le16(self.gzipReader.data, old(self.Index)) && forall i in 0..len(v) :: v[i] == self.gzipReader.data[old(self.Index) + 2 + i]
  ensures e != nil ==> len(v) == 0 && (pb_why(self, old(self.Index) + 2) || pb_why(self, old(self.Index) + 2 + le16(self.gzipReader.data, old(self.Index))))
