# Decoding (C04): lib-secs2-hsms-go/pkg/parser/hsms/parser.go
# R is the byte array, a an absolute position in it, e the end of the input, d the number of enclosing lists.

def fcAt(R, a) = R[a] / 4
def llAt(R, a) = R[a] % 4
def plen(R, a) = ite(llAt(R, a) == 1, R[a + 1], ite(llAt(R, a) == 2, R[a + 1] * 256 + R[a + 2], R[a + 1] * 65536 + R[a + 2] * 256 + R[a + 3]))
def dat(R, a) = a + 1 + llAt(R, a)
def isIntFc(c) = c == 24 || c == 25 || c == 26 || c == 28
def isUintFc(c) = c == 40 || c == 41 || c == 42 || c == 44
def isFltFc(c) = c == 32 || c == 36
def leafFc(c) = c == 8 || c == 9 || c == 16 || isIntFc(c) || isUintFc(c) || isFltFc(c)
def fcWidth(c) = ite(c == 26 || c == 42, 2, ite(c == 28 || c == 36 || c == 44, 4, ite(c == 24 || c == 32 || c == 40, 8, 1)))
def ube2(R, a) = R[a] * 256 + R[a + 1]
def ube4(R, a) = R[a] * 16777216 + R[a + 1] * 65536 + R[a + 2] * 256 + R[a + 3]
def ube8(R, a) = ube4(R, a) * 4294967296 + ube4(R, a + 4)
def ube(w, R, a) = ite(w == 1, R[a], ite(w == 2, ube2(R, a), ite(w == 4, ube4(R, a), ube8(R, a))))
def sgn(w, v) = ite(v > maxInt(w), v - maxUint(w) - 1, v)
def fltAt(w, R, a) = ite(w == 4, raw("f32frombits", "F64", ube4(R, a)), raw("f64frombits", "F64", ube8(R, a)))
# fltV(w, R, s, i): the i-th of the floating point values starting at s
specfun fltV(Int, Bytes, Int, Int) float64
axiom[C04,C05] flt_v(w Int, R Bytes, s Int, i Int) trig fltV(w, R, s, i) : fltV(w, R, s, i) == fltAt(w, R, s + w * i)
def fltsOk(w, R, s, n) = forall(i, 0, n / w, finiteFlt(w, fltV(w, R, s, i)), fltV(w, R, s, i))
def wholeN(w, n) = (w == 2 ==> n % 2 == 0) && (w == 4 ==> n % 4 == 0) && (w == 8 ==> n % 8 == 0)
def leafOk(R, a, e) = leafFc(fcAt(R, a)) && wholeN(fcWidth(fcAt(R, a)), plen(R, a)) && dat(R, a) + plen(R, a) <= e && \
   (fcAt(R, a) == 16 ==> forall(j, dat(R, a), dat(R, a) + plen(R, a), R[j] < 128)) && \
   (fcAt(R, a) == 36 ==> fltsOk(4, R, dat(R, a), plen(R, a))) && (fcAt(R, a) == 32 ==> fltsOk(8, R, dat(R, a), plen(R, a)))

# endOf(R, a, e, d): where the item starting at a ends, -1 if no well-formed item starts there
# lend(R, a, e, d, k): where the k-th of a sequence of items starting at a begins, -1 if there are not so many
specfun endOf(Bytes, Int, Int, Int) Int
specfun lend(Bytes, Int, Int, Int, Int) Int
def hasHead(R, a, e) = 0 <= a && a < e && llAt(R, a) != 0 && dat(R, a) <= e && plen(R, a) >= 0
def listOk(R, a, e, d) = fcAt(R, a) == 0 && d < 4096 && lend(R, dat(R, a), e, d + 1, plen(R, a)) >= 0
axiom[C04,C05] dec_end(R Bytes, a Int, e Int, d Int) trig endOf(R, a, e, d) : endOf(R, a, e, d) == ite(!hasHead(R, a, e), -1, ite(leafOk(R, a, e), dat(R, a) + plen(R, a), ite(listOk(R, a, e, d), lend(R, dat(R, a), e, d + 1, plen(R, a)), -1)))
axiom[C04,C05] dec_l0(R Bytes, a Int, e Int, d Int) trig lend(R, a, e, d, 0) : lend(R, a, e, d, 0) == ite(a <= e, a, -1)
axiom[C04,C05] dec_lk(R Bytes, a Int, e Int, d Int, k Int) trig lend(R, a, e, d, k + 1) : k >= 0 ==> lend(R, a, e, d, k + 1) == ite(lend(R, a, e, d, k) < 0, -1, endOf(R, lend(R, a, e, d, k), e, d))
# consequences of the definitions by induction on the input and on k: an item takes at least two bytes, and ends within the input
axiom[C04,C05] dec_lk2(R Bytes, a Int, e Int, d Int, k Int) mtrig lend(R, a, e, d, k), endOf(R, lend(R, a, e, d, k), e, d) : k >= 0 ==> lend(R, a, e, d, k + 1) == ite(lend(R, a, e, d, k) < 0, -1, endOf(R, lend(R, a, e, d, k), e, d))
specfun decB(Int) bool
specfun decBR(Int) Bytes
specfun decBa(Int) Int
specfun decBe(Int) Int
# decB(d): below d enclosing lists, items take at least two bytes and end within the input (definition, and its two uses)
def decGood(R, a, e, d) = endOf(R, a, e, d) >= 0 ==> a + 2 <= endOf(R, a, e, d) && endOf(R, a, e, d) <= e
axiom[C04,C05] dec_b_in(d Int) trig decB(d) : decB(d) || !decGood(decBR(d), decBa(d), decBe(d), d)
axiom[C04,C05] dec_b_out(R Bytes, a Int, e Int, d Int) mtrig decB(d), endOf(R, a, e, d) : decB(d) ==> decGood(R, a, e, d)
theorem[C04,C05] dec_blend(R Bytes, a Int, e Int, d Int, k Int) induct k trig lend(R, a, e, d, k) : decB(d) && k >= 0 && lend(R, a, e, d, k) >= 0 ==> a + 2 * k <= lend(R, a, e, d, k) && lend(R, a, e, d, k) <= e
specfun decK(Int) int
axiom[C04,C05] dec_k(d Int) trig decB(d) : decK(4096 - d) == 4096 - d
theorem[C04,C05] dec_bdeep(m Int, d Int) induct m mtrig decB(d), decK(m) : d + m >= 4096 ==> decB(d)
theorem[C04,C05] dec_ball(d Int) trig decB(d) : decB(d)
theorem[C04,C05] dec_bound(R Bytes, a Int, e Int, d Int, k Int) trig lend(R, a, e, d, k) : k >= 0 && lend(R, a, e, d, k) >= 0 ==> a + 2 * k <= lend(R, a, e, d, k) && lend(R, a, e, d, k) <= e
theorem[C04,C05] dec_mono(R Bytes, a Int, e Int, d Int, k Int, n Int) induct n mtrig lend(R, a, e, d, k), lend(R, a, e, d, n) : 0 <= k && k <= n && lend(R, a, e, d, n) >= 0 ==> lend(R, a, e, d, k) >= 0

# matches(R, a, e, d, x): x is the item that the bytes at a encode
specfun matches(Bytes, Int, Int, Int, Any) Bool
def matchLeaf(R, a, x) = ite(isIntFc(fcAt(R, a)), is(x, "*ast.IntNode") && as(x, "*ast.IntNode").byteSize == fcWidth(fcAt(R, a)) && len(as(x, "*ast.IntNode").values) == plen(R, a) / fcWidth(fcAt(R, a)) && \
     forall(i, 0, len(as(x, "*ast.IntNode").values), as(x, "*ast.IntNode").values[i] == sgn(fcWidth(fcAt(R, a)), ube(fcWidth(fcAt(R, a)), R, dat(R, a) + fcWidth(fcAt(R, a)) * i))), \
   ite(isUintFc(fcAt(R, a)), is(x, "*ast.UintNode") && as(x, "*ast.UintNode").byteSize == fcWidth(fcAt(R, a)) && len(as(x, "*ast.UintNode").values) == plen(R, a) / fcWidth(fcAt(R, a)) && \
     forall(i, 0, len(as(x, "*ast.UintNode").values), as(x, "*ast.UintNode").values[i] == ube(fcWidth(fcAt(R, a)), R, dat(R, a) + fcWidth(fcAt(R, a)) * i)), \
   ite(isFltFc(fcAt(R, a)), is(x, "*ast.FloatNode") && as(x, "*ast.FloatNode").byteSize == fcWidth(fcAt(R, a)) && len(as(x, "*ast.FloatNode").values) == plen(R, a) / fcWidth(fcAt(R, a)) && \
     forall(i, 0, len(as(x, "*ast.FloatNode").values), as(x, "*ast.FloatNode").values[i] == fltV(fcWidth(fcAt(R, a)), R, dat(R, a), i)), \
   ite(fcAt(R, a) == 8, is(x, "*ast.BinaryNode") && len(as(x, "*ast.BinaryNode").values) == plen(R, a) && forall(i, 0, plen(R, a), as(x, "*ast.BinaryNode").values[i] == R[dat(R, a) + i]), \
   ite(fcAt(R, a) == 9, is(x, "*ast.BooleanNode") && len(as(x, "*ast.BooleanNode").values) == plen(R, a) && forall(i, 0, plen(R, a), as(x, "*ast.BooleanNode").values[i] <==> R[dat(R, a) + i] != 0), \
   is(x, "*ast.ASCIINode") && as(x, "*ast.ASCIINode").isValue && len(as(x, "*ast.ASCIINode").value) == plen(R, a) && forall(i, 0, plen(R, a), as(x, "*ast.ASCIINode").value[i] == R[dat(R, a) + i]))))))
def matchList(R, a, e, d, x) = is(x, "*ast.ListNode") && len(as(x, "*ast.ListNode").values) == plen(R, a) && \
   forall(i, 0, plen(R, a), matches(R, lend(R, dat(R, a), e, d + 1, i), e, d + 1, as(x, "*ast.ListNode").values[i]))
axiom[C04,C05] dec_match(R Bytes, a Int, e Int, d Int, x Any) trig matches(R, a, e, d, x) : matches(R, a, e, d, x) <==> hasHead(R, a, e) && ite(fcAt(R, a) == 0, matchList(R, a, e, d, x), leafFc(fcAt(R, a)) && matchLeaf(R, a, x))

# no variables in any element, none in the list (by induction on k)
axiom[C04] sumv_none(l *ast.ListNode, k Int) trig sumVars(l, k) : 0 <= k && k <= len(l.values) && forall(i, 0, len(l.values), nvars(l.values[i]) == 0 && !is(l.values[i], "ast.emptyItemNode")) ==> sumVars(l, k) == 0

def noMapVars(x) = (is(x, "*ast.BinaryNode") ==> len(as(x, "*ast.BinaryNode").variables) == 0) && (is(x, "*ast.BooleanNode") ==> len(as(x, "*ast.BooleanNode").variables) == 0) && (is(x, "*ast.ListNode") ==> len(as(x, "*ast.ListNode").variables) == 0)
def absPos(p) = off(p.input) + p.pos
def absEnd(p) = off(p.input) + len(p.input)
def parsing(p) = 0 <= p.pos && p.pos <= cap(p.input) && 0 <= p.depth && p.depth <= 4096
def here(p) = endOf(row(p.input), absPos(p), absEnd(p), p.depth)

func phsms.parser.parseMessageText(p) (x, ok)
  requires parsing(p)
  split p.input[p.pos] % 4: 0, 1, 2, 3
  modifies p.pos, p.depth
  panics only when malformed: p.msgLength != 10 && here(p) < 0
  ensures x != nil
  ensures empty: p.msgLength == 10 ==> ok && is(x, "ast.emptyItemNode") && p.pos == old(p.pos) && p.depth == old(p.depth)
  ensures accepted: p.msgLength != 10 && ok && p.pos <= len(p.input) ==> old(here(p)) == absPos(p) && p.depth == old(p.depth) && matches(row(p.input), old(absPos(p)), absEnd(p), p.depth, x)
  ensures complete: p.msgLength != 10 && old(here(p)) >= 0 ==> ok && p.pos <= len(p.input)
  ensures forward: p.pos >= old(p.pos) && p.pos <= cap(p.input)
  ensures depth: ok ==> p.depth == old(p.depth)
  ensures novars: ok ==> noMapVars(x) && nvars(x) == 0
  ensures[C04,C05] whole: p.msgLength != 10 && ok ==> complete(x)
  loop[C04,C05] 1 invariant forall(i, 0, iter, complete(mk("[]interface{}", 0)[i]))
  ensures nonempty: p.msgLength != 10 && ok ==> !is(x, "ast.emptyItemNode")
  loop 1 invariant p.depth == old(p.depth) + 1 && p.pos >= old(p.pos) && p.pos <= cap(p.input) && len(mk("[]interface{}", 0)) == plen(row(p.input), old(absPos(p)))
  loop 1 invariant p.pos <= len(p.input) ==> lend(row(p.input), dat(row(p.input), old(absPos(p))), absEnd(p), p.depth, iter) == absPos(p)
  loop 1 invariant lend(row(p.input), dat(row(p.input), old(absPos(p))), absEnd(p), p.depth, iter) >= 0 ==> p.pos <= len(p.input)
  loop 1 invariant forall(i, 0, iter, isItem(mk("[]interface{}", 0)[i]) && nvars(mk("[]interface{}", 0)[i]) == 0 && !is(mk("[]interface{}", 0)[i], "ast.emptyItemNode"))
  loop 1 invariant p.pos <= len(p.input) ==> forall(i, 0, iter, matches(row(p.input), lend(row(p.input), dat(row(p.input), old(absPos(p))), absEnd(p), p.depth, i), absEnd(p), p.depth, mk("[]interface{}", 0)[i]))
  loop 2 invariant forall(i, 0, iter, is(mk("[]interface{}", 1)[i], "uint8") && as(mk("[]interface{}", 1)[i], "uint8") == row(p.input)[absPos(p) + i] && 0 <= row(p.input)[absPos(p) + i] && row(p.input)[absPos(p) + i] <= 255)
  loop 3 invariant forall(i, 0, iter, is(mk("[]interface{}", 2)[i], "bool") && (as(mk("[]interface{}", 2)[i], "bool") <==> row(p.input)[absPos(p) + i] != 0))

def decAt(p, i) = off(p.input) + old(p.pos) + i

func phsms.parser.parseInt(p, byteSize, length) (x, ok)
  requires parsing(p) && legalWidth(byteSize) && 0 <= length && length < 16777216
  split byteSize: 1, 2, 4, 8
  modifies p.pos
  panics only when p.pos + length > len(p.input)
  ensures ok <==> length % byteSize == 0
  ensures !ok ==> p.pos == old(p.pos)
  ensures ok ==> p.pos == old(p.pos) + length && p.pos <= cap(p.input)
  ensures x != nil
  ensures ok ==> is(x, "*ast.IntNode") && as(x, "*ast.IntNode").byteSize == byteSize && len(as(x, "*ast.IntNode").values) == length / byteSize && len(as(x, "*ast.IntNode").variables) == 0 && nvars(x) == 0
  ensures ok ==> forall(i, 0, length / byteSize, as(x, "*ast.IntNode").values[i] == sgn(byteSize, ube(byteSize, row(p.input), decAt(p, byteSize * i))))
  loop 0 invariant p.pos + byteSize * iter <= cap(p.input)
  loop 0 invariant forall(i, 0, iter, okInt(byteSize, mk("[]interface{}")[i]))
  loop 0 invariant forall(i, 0, iter, isInt(mk("[]interface{}")[i]) && intVal(mk("[]interface{}")[i]) == sgn(byteSize, ube(byteSize, row(p.input), decAt(p, byteSize * i))))

func phsms.parser.parseUint(p, byteSize, length) (x, ok)
  requires parsing(p) && legalWidth(byteSize) && 0 <= length && length < 16777216
  split byteSize: 1, 2, 4, 8
  modifies p.pos
  panics only when p.pos + length > len(p.input)
  ensures ok <==> length % byteSize == 0
  ensures !ok ==> p.pos == old(p.pos)
  ensures ok ==> p.pos == old(p.pos) + length && p.pos <= cap(p.input)
  ensures x != nil
  ensures ok ==> is(x, "*ast.UintNode") && as(x, "*ast.UintNode").byteSize == byteSize && len(as(x, "*ast.UintNode").values) == length / byteSize && len(as(x, "*ast.UintNode").variables) == 0 && nvars(x) == 0
  ensures ok ==> forall(i, 0, length / byteSize, as(x, "*ast.UintNode").values[i] == ube(byteSize, row(p.input), decAt(p, byteSize * i)))
  loop 0 invariant p.pos + byteSize * iter <= cap(p.input)
  loop 0 invariant forall(i, 0, iter, okUint(byteSize, mk("[]interface{}")[i]))
  loop 0 invariant forall(i, 0, iter, isInt(mk("[]interface{}")[i]) && intVal(mk("[]interface{}")[i]) == ube(byteSize, row(p.input), decAt(p, byteSize * i)))

func phsms.parser.parseFloat(p, byteSize, length) (x, ok)
  requires parsing(p) && (byteSize == 4 || byteSize == 8) && 0 <= length && length < 16777216
  split byteSize: 4, 8
  modifies p.pos
  panics only when p.pos + length > len(p.input) || !fltsOk(byteSize, row(p.input), absPos(p), length)
  ensures ok <==> length % byteSize == 0
  ensures !ok ==> p.pos == old(p.pos)
  ensures ok ==> p.pos == old(p.pos) + length && p.pos <= cap(p.input)
  ensures x != nil
  ensures ok ==> is(x, "*ast.FloatNode") && as(x, "*ast.FloatNode").byteSize == byteSize && len(as(x, "*ast.FloatNode").values) == length / byteSize && len(as(x, "*ast.FloatNode").variables) == 0 && nvars(x) == 0
  ensures ok ==> forall(i, 0, length / byteSize, as(x, "*ast.FloatNode").values[i] == fltV(byteSize, row(p.input), old(absPos(p)), i), fltV(byteSize, row(p.input), old(absPos(p)), i))
  ensures ok ==> fltsOk(byteSize, row(p.input), old(absPos(p)), length)
  loop 0 invariant p.pos + byteSize * iter <= cap(p.input)
  loop 0 invariant forall(i, 0, iter, isFlt(mk("[]interface{}")[i]) && fltVal(mk("[]interface{}")[i]) == fltV(byteSize, row(p.input), absPos(p), i))
  loop 0 invariant forall(i, 0, iter, fltVal(mk("[]interface{}")[i]) == fltV(byteSize, row(p.input), absPos(p), i), fltV(byteSize, row(p.input), absPos(p), i))

check C04: phsms.parser.parseMessageText, phsms.parser.parseInt, phsms.parser.parseUint, phsms.parser.parseFloat

def lenField(s) = ube4(row(s), off(s))
def textOk(s) = len(s) == 14 || endOf(row(s), off(s) + 14, off(s) + len(s), 0) == off(s) + len(s)
def dataFrame(s) = s[8] == 0 && s[9] == 0 && textOk(s) && !(s[6] >= 128 && s[7] % 2 == 0)
def ctlFrame(s) = s[8] == 0 && (1 <= s[9] && s[9] <= 7 || s[9] == 9)
# a string is accepted exactly when it is one complete, well-formed frame
def frameOk(s) = len(s) >= 14 && lenField(s) == len(s) - 4 && (dataFrame(s) || ctlFrame(s))
def asD(m) = as(m, "*ast.DataMessage")
func phsms.Parse(input) (msg, ok)
  ensures accepts: frameOk(input) <==> ok
  ensures header: ok && input[9] == 0 ==> is(msg, "*ast.DataMessage") && asD(msg).name == "" && asD(msg).direction == "H<->E" && asD(msg).stream == input[6] % 128 && asD(msg).function == input[7] && \
    asD(msg).waitBit == input[6] / 128 && asD(msg).sessionID == input[4] * 256 + input[5] && forall(i, 0, 4, asD(msg).systemBytes[i] == input[10 + i])
  ensures text: ok && input[9] == 0 ==> ite(len(input) == 14, is(asD(msg).dataItem, "ast.emptyItemNode"), matches(row(input), off(input) + 14, off(input) + len(input), 0, asD(msg).dataItem))
  ensures control: ok && input[9] != 0 ==> isC(msg) && forall(i, 0, 10, asC(msg)[i] == input[4 + i])
  ensures[C04,C05] whole: ok && input[9] == 0 ==> nvars(asD(msg).dataItem) == 0 && (is(asD(msg).dataItem, "ast.emptyItemNode") || complete(asD(msg).dataItem))

check C04: phsms.Parse

only C04,C05
func phsms.lemmaDecode()
  proves dec_blend, dec_bdeep, dec_ball, dec_bound, dec_mono
endonly
check C04: phsms.lemmaDecode
