# HSMS framing (C09): codec/secs2.go. The connection is ghost state: inAt(r, i) is the i-th byte
# that reader r ever delivers, inpos[r] how many were taken from it so far.
specfun inAt(Any, Int) Int
ghost inpos Counts
axiom[C09,C10] in_byte(r Any, i Int) trig inAt(r, i) : 0 <= inAt(r, i) && inAt(r, i) <= 255

func io.ReadFull(r, buf) (n, err)
  trusted
  modifies elems(buf), inpos
  ensures err == nil ==> n == len(buf) && inpos[r] == old(inpos[r]) + len(buf)
  ensures err == nil ==> forall(i, off(buf), off(buf) + len(buf), row(buf)[i] == inAt(r, old(inpos[r]) + i - off(buf)), row(buf)[i])
  ensures err != nil ==> inpos[r] >= old(inpos[r]) && inpos[r] < old(inpos[r]) + max(len(buf), 1)

# what was written last: to which connection, how many bytes, which, and with what result
ghost writes int
ghost outConn Any
ghost outLen int
ghost outB Bytes
ghost outErr Any
iface io.ReadWriter.Write(self, p) (n, err)
  modifies writes, outConn, outLen, outB, outErr
  ensures writes == old(writes) + 1 && outConn == self && outLen == len(p) && outErr == err
  ensures forall(i, 0, len(p), outB[i] == p[i])

field codec.secsIICodec.headDecoder(self, b) (r)
  requires len(b) == 4
  ensures r == ube4(row(b), off(b))

def st4(r, i) = inAt(r, i) * 16777216 + inAt(r, i + 1) * 65536 + inAt(r, i + 2) * 256 + inAt(r, i + 3)
def codecOk(c) = len(c.headBuf) == 4 && base(c.headBuf) > 0 && base(c.bodyBuf) >= 0 && base(c.headBuf) != base(c.bodyBuf) && c.headDecoder != nil && c.rw != nil
def was(c) = old(inpos[c.rw])
func codec.SecsIIProtocol.NewCodec(s, rw) (cc, err)
  ensures err == nil && is(cc, "*codec.secsIICodec") && fresh(as(cc, "*codec.secsIICodec"))
  ensures rw != nil ==> codecOk(as(cc, "*codec.secsIICodec"))
  ensures as(cc, "*codec.secsIICodec").rw == rw

func codec.secsIICodec.Receive(c) (msg, err)
  requires codecOk(c)
  modifies c.bodyBuf, elems(c.headBuf), backing(c.bodyBuf), inpos
  ensures codecOk(c)
  ensures frame: err == nil ==> inpos[c.rw] == was(c) + 4 + st4(c.rw, was(c)) && st4(c.rw, was(c)) >= 10
  ensures short: inpos[c.rw] >= was(c) + 4 && st4(c.rw, was(c)) < 10 ==> err != nil && inpos[c.rw] == was(c) + 4
  ensures never_more: inpos[c.rw] >= was(c) && (inpos[c.rw] <= was(c) + 4 || inpos[c.rw] <= was(c) + 4 + st4(c.rw, was(c)))
  ensures bytes: err == nil ==> len(c.bodyBuf) == 4 + st4(c.rw, was(c)) && forall(i, off(c.bodyBuf), off(c.bodyBuf) + len(c.bodyBuf), row(c.bodyBuf)[i] == inAt(c.rw, was(c) + i - off(c.bodyBuf)), row(c.bodyBuf)[i])
  ensures wellformed: err == nil ==> frameOk(c.bodyBuf)
  ensures accepted: st4(c.rw, was(c)) >= 10 && inpos[c.rw] == was(c) + 4 + st4(c.rw, was(c)) && frameOk(c.bodyBuf) ==> err == nil
  ensures header: err == nil && c.bodyBuf[9] == 0 ==> is(msg, "*ast.DataMessage") && asD(msg).stream == c.bodyBuf[6] % 128 && asD(msg).function == c.bodyBuf[7] && asD(msg).waitBit == c.bodyBuf[6] / 128 && \
    asD(msg).sessionID == c.bodyBuf[4] * 256 + c.bodyBuf[5] && forall(i, 0, 4, asD(msg).systemBytes[i] == c.bodyBuf[10 + i])
  ensures text: err == nil && c.bodyBuf[9] == 0 ==> ite(len(c.bodyBuf) == 14, is(asD(msg).dataItem, "ast.emptyItemNode"), matches(row(c.bodyBuf), off(c.bodyBuf) + 14, off(c.bodyBuf) + len(c.bodyBuf), 0, asD(msg).dataItem))
  ensures control: err == nil && c.bodyBuf[9] != 0 ==> is(msg, "*ast.ControlMessage") && forall(i, 0, 10, asC(msg)[i] == c.bodyBuf[4 + i])

func codec.secsIICodec.Send(c, msg) (err)
  requires c.rw != nil
  modifies writes, outConn, outLen, outB, outErr
  ensures kind: !is(msg, "[]byte") ==> err != nil && writes == old(writes)
  ensures sent: is(msg, "[]byte") ==> writes == old(writes) + 1 && outConn == c.rw && outLen == len(as(msg, "[]byte")) && forall(i, 0, outLen, outB[i] == as(msg, "[]byte")[i])
  ensures reported: is(msg, "[]byte") ==> err == outErr

check C09: codec.SecsIIProtocol.NewCodec, codec.secsIICodec.Receive, codec.secsIICodec.Send

# Length-prefixed codec (C10): codec/fixlen.go
specfun ord2(Any, Int, Int) Int
specfun ord4(Any, Int, Int, Int, Int) Int
specfun ord8(Any, Int, Int, Int, Int, Int, Int, Int, Int) Int
def o2(o, R, a) = ord2(o, R[a], R[a + 1])
def o4(o, R, a) = ord4(o, R[a], R[a + 1], R[a + 2], R[a + 3])
def o8(o, R, a) = ord8(o, R[a], R[a + 1], R[a + 2], R[a + 3], R[a + 4], R[a + 5], R[a + 6], R[a + 7])
iface binary.ByteOrder.Uint16(self, b) (r)
  panics when len(b) < 2
  ensures r == o2(self, row(b), off(b))
iface binary.ByteOrder.Uint32(self, b) (r)
  panics when len(b) < 4
  ensures r == o4(self, row(b), off(b))
iface binary.ByteOrder.Uint64(self, b) (r)
  panics when len(b) < 8
  ensures r == o8(self, row(b), off(b))
iface binary.ByteOrder.PutUint16(self, b, v)
  panics when len(b) < 2
  modifies elems(b)
  ensures o2(self, row(b), off(b)) == v
  ensures forall(i, off(b) + 2, off(b) + len(b), row(b)[i] == old(row(b)[i]), row(b)[i])
iface binary.ByteOrder.PutUint32(self, b, v)
  panics when len(b) < 4
  modifies elems(b)
  ensures o4(self, row(b), off(b)) == v
  ensures forall(i, off(b) + 4, off(b) + len(b), row(b)[i] == old(row(b)[i]), row(b)[i])
iface binary.ByteOrder.PutUint64(self, b, v)
  panics when len(b) < 8
  modifies elems(b)
  ensures o8(self, row(b), off(b)) == v
  ensures forall(i, off(b) + 8, off(b) + len(b), row(b)[i] == old(row(b)[i]), row(b)[i])

# the byte order a protocol was made with
specfun orderOf(*codec.FixLenProtocol) Any
immutable codec.FixLenProtocol
def sizeCap(n) = ite(n == 1, 255, ite(n == 2, 65535, ite(n == 4, 4294967295, 9223372036854775807)))
invariant codec.FixLenProtocol(x): (x.n == 1 || x.n == 2 || x.n == 4 || x.n == 8) && x.maxRecv <= sizeCap(x.n) && x.maxSend <= sizeCap(x.n) && x.headDecoder != nil && x.headEncoder != nil
# what a header announces
def hdrAt(q, R, a) = ite(q.n == 1, R[a], ite(q.n == 2, o2(orderOf(q), R, a), ite(q.n == 4, o4(orderOf(q), R, a), sgn(8, o8(orderOf(q), R, a)))))
field codec.FixLenProtocol.headDecoder(self, b) (r)
  where orderOf: byteOrder
  requires len(b) == self.n
  ensures r == hdrAt(self, row(b), off(b))
field codec.FixLenProtocol.headEncoder(self, b, size)
  where orderOf: byteOrder
  requires base(b) > 0 && len(b) >= self.n && 0 <= size && size <= sizeCap(self.n)
  modifies elems(b)
  ensures hdrAt(self, row(b), off(b)) == size
  ensures forall(i, off(b) + self.n, off(b) + len(b), row(b)[i] == old(row(b)[i]), row(b)[i])

func codec.FixLen(base, n, byteOrder, maxRecv, maxSend) (r)
  requires byteOrder != nil
  panics when n != 1 && n != 2 && n != 4 && n != 8
  ensures r.n == n && r.maxRecv == min(maxRecv, sizeCap(n)) && r.maxSend == min(maxSend, sizeCap(n)) && r.base == base && (n != 1 ==> orderOf(r) == byteOrder)

# the buffers of a codec: how many bytes a bytes.Buffer holds and which; what was handed to a bytes.Reader last
ghost bufLen (Array Int Int)
ghost bufB (Array Int (Array Int Int))
ghost rdLen int
ghost rdB Bytes
func bytes.Buffer.Reset(b)
  trusted
  modifies bufLen
  ensures bufLen == store(old(bufLen), b, 0)
func bytes.Buffer.Write(b, p) (n, err)
  trusted
  modifies bufLen, bufB
  ensures err == nil && n == len(p) && bufLen == store(old(bufLen), b, old(bufLen[b]) + len(p)) && bufB == store(old(bufB), b, bufB[b])
  ensures forall(i, 0, old(bufLen[b]), bufB[b][i] == old(bufB[b][i]), bufB[b][i]) && forall(i, 0, len(p), bufB[b][old(bufLen[b]) + i] == p[i])
func bytes.Buffer.Bytes(b) (r)
  trusted
  ensures fresh(r) && len(r) == bufLen[b] && off(r) == 0 && forall(i, 0, len(r), row(r)[i] == bufB[b][i], row(r)[i])
func bytes.Reader.Reset(r, b)
  trusted
  modifies rdLen, rdB
  ensures rdLen == len(b) && forall(i, 0, len(b), rdB[i] == b[i])
# a wrapped codec writes to the buffer it was given: it appends
except C11
iface link.Codec.Send(self, msg) (err)
  modifies bufLen, bufB
  ensures all(b, "*bytes.Buffer", bufLen[b] >= old(bufLen[b]))
iface link.Codec.Receive(self) (msg, err)
endonly

def fixOk(c) = c.FixLenProtocol != nil && len(c.headBuf) == c.FixLenProtocol.n && base(c.headBuf) > 0 && base(c.bodyBuf) >= 0 && base(c.headBuf) != base(c.bodyBuf) && c.rw != nil && c.base != nil
func codec.fixlenCodec.Send(c, msg) (err)
  requires fixOk(c) && c.maxSend <= 1099511627776
  modifies bufLen, bufB, writes, outConn, outLen, outB, outErr
  ensures limit: writes != old(writes) ==> writes == old(writes) + 1 && outConn == c.rw && outLen >= c.n && outLen - c.n <= c.maxSend && outLen - c.n <= sizeCap(c.n)
  ensures header: writes != old(writes) ==> hdrAt(c.FixLenProtocol, outB, 0) == outLen - c.n
  ensures reported: err == nil ==> writes == old(writes) + 1 && outErr == nil

def fixPos(c) = old(inpos[c.rw])
func codec.fixlenCodec.Receive(c) (msg, err)
  requires fixOk(c) && c.maxRecv <= 1099511627776
  modifies c.bodyBuf, elems(c.headBuf), backing(c.bodyBuf), inpos, rdLen, rdB
  ensures fixOk(c)
  ensures announced: inpos[c.rw] >= fixPos(c) + c.n ==> forall(i, 0, c.n, c.headBuf[i] == inAt(c.rw, fixPos(c) + i))
  ensures refused: inpos[c.rw] >= fixPos(c) + c.n && (hdrAt(c.FixLenProtocol, row(c.headBuf), off(c.headBuf)) > c.maxRecv || hdrAt(c.FixLenProtocol, row(c.headBuf), off(c.headBuf)) < 0) ==> err != nil && inpos[c.rw] == fixPos(c) + c.n
  ensures exact: err == nil ==> inpos[c.rw] == fixPos(c) + c.n + hdrAt(c.FixLenProtocol, row(c.headBuf), off(c.headBuf))
  ensures never_more: inpos[c.rw] <= fixPos(c) + c.n || inpos[c.rw] <= fixPos(c) + c.n + max(0, min(c.maxRecv, hdrAt(c.FixLenProtocol, row(c.headBuf), off(c.headBuf))))
  ensures limit: err == nil ==> 0 <= hdrAt(c.FixLenProtocol, row(c.headBuf), off(c.headBuf)) && hdrAt(c.FixLenProtocol, row(c.headBuf), off(c.headBuf)) <= c.maxRecv
  ensures handed: err == nil ==> rdLen == hdrAt(c.FixLenProtocol, row(c.headBuf), off(c.headBuf)) && forall(i, 0, rdLen, rdB[i] == inAt(c.rw, fixPos(c) + c.n + i))

iface link.Protocol.NewCodec(self, rw) (cc, err)
  ensures err == nil ==> cc != nil
func codec.FixLenProtocol.NewCodec(p, rw) (cc, err)
  requires rw != nil && p.base != nil
  ensures err == nil ==> is(cc, "*codec.fixlenCodec") && as(cc, "*codec.fixlenCodec").FixLenProtocol == p && as(cc, "*codec.fixlenCodec").rw == rw
  ensures err == nil ==> fixOk(as(cc, "*codec.fixlenCodec"))

check C10: codec.FixLen, codec.fixlenCodec.Send, codec.fixlenCodec.Receive, codec.FixLenProtocol.NewCodec
