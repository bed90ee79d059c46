# Round trip (C05): what the encoding of C01 and the decoding of C04 have to do with each other, by induction on
# items. The induction step for each kind of item is an obligation of its ToBytes (for lists over the loop that
# encodes the elements, whose own encodings are the induction hypotheses).
only C05
# dep: how deep lists nest in an item
specfun dep(Any) int
axiom[C05] dep_at_least(x Any) trig dep(x) : dep(x) >= 0 && (is(x, "*ast.ListNode") ==> dep(x) >= 1)
axiom[C05] dep_el(l *ast.ListNode, i Int) trig dep(l.values[i]) : 0 <= i && i < len(l.values) ==> dep(l.values[i]) + 1 <= dep(l)
# the length of a slice is never negative (a fact of the language)
axiom[C05] len_int(x *ast.IntNode) trig len(x.values) : len(x.values) >= 0
axiom[C05] len_uint(x *ast.UintNode) trig len(x.values) : len(x.values) >= 0
axiom[C05] len_float(x *ast.FloatNode) trig len(x.values) : len(x.values) >= 0
axiom[C05] len_binary(x *ast.BinaryNode) trig len(x.values) : len(x.values) >= 0
axiom[C05] len_boolean(x *ast.BooleanNode) trig len(x.values) : len(x.values) >= 0
axiom[C05] len_list(x *ast.ListNode) trig len(x.values) : len(x.values) >= 0
# hold(R, p, y): the bytes of R at p are the encoding of y
specfun hold(Bytes, Int, Any) bool
specfun holdAt(Bytes, Int, Any) int
axiom[C05] hold_in(R Bytes, p Int, y Any) trig hold(R, p, y) : hold(R, p, y) || 0 <= holdAt(R, p, y) && holdAt(R, p, y) < encLen(y) && R[p + holdAt(R, p, y)] != encAt(y, holdAt(R, p, y))
axiom[C05] hold_at(R Bytes, p Int, y Any, q Int) mtrig hold(R, p, y), R[q] : hold(R, p, y) && p <= q && q < p + encLen(y) ==> R[q] == encAt(y, q - p)
# same(x, y): same kind, width, length and values at every depth (a four-byte float as the nearest such number)
specfun same(Any, Any) bool
def sameInts(x, y, T) = len(as(x, T).values) == len(as(y, T).values) && forall(i, 0, len(as(y, T).values), as(x, T).values[i] == as(y, T).values[i])
def xI(x) = as(x, "*ast.IntNode")
def xU(x) = as(x, "*ast.UintNode")
def xF(x) = as(x, "*ast.FloatNode")
def xB(x) = as(x, "*ast.BinaryNode")
def xO(x) = as(x, "*ast.BooleanNode")
def xA(x) = as(x, "*ast.ASCIINode")
def xL(x) = as(x, "*ast.ListNode")
def f4as(v) = raw("f32frombits", "F64", f4bits(v))
axiom[C05] same_int(x Any, y Any) trig same(x, y) : is(y, "*ast.IntNode") ==> same(x, y) == (is(x, "*ast.IntNode") && xI(x).byteSize == xI(y).byteSize && len(xI(x).values) == len(xI(y).values) && forall(i, 0, len(xI(y).values), xI(x).values[i] == xI(y).values[i]))
axiom[C05] same_uint(x Any, y Any) trig same(x, y) : is(y, "*ast.UintNode") ==> same(x, y) == (is(x, "*ast.UintNode") && xU(x).byteSize == xU(y).byteSize && len(xU(x).values) == len(xU(y).values) && forall(i, 0, len(xU(y).values), xU(x).values[i] == xU(y).values[i]))
axiom[C05] same_float(x Any, y Any) trig same(x, y) : is(y, "*ast.FloatNode") ==> same(x, y) == (is(x, "*ast.FloatNode") && xF(x).byteSize == xF(y).byteSize && len(xF(x).values) == len(xF(y).values) && forall(i, 0, len(xF(y).values), xF(x).values[i] == ite(xF(y).byteSize == 4, f4as(xF(y).values[i]), xF(y).values[i])))
axiom[C05] same_binary(x Any, y Any) trig same(x, y) : is(y, "*ast.BinaryNode") ==> same(x, y) == (is(x, "*ast.BinaryNode") && len(xB(x).values) == len(xB(y).values) && forall(i, 0, len(xB(y).values), xB(x).values[i] == xB(y).values[i]))
axiom[C05] same_boolean(x Any, y Any) trig same(x, y) : is(y, "*ast.BooleanNode") ==> same(x, y) == (is(x, "*ast.BooleanNode") && len(xO(x).values) == len(xO(y).values) && forall(i, 0, len(xO(y).values), xO(x).values[i] == xO(y).values[i]))
axiom[C05] same_ascii(x Any, y Any) trig same(x, y) : is(y, "*ast.ASCIINode") ==> same(x, y) == (is(x, "*ast.ASCIINode") && xA(x).isValue && len(xA(x).value) == len(xA(y).value) && forall(i, 0, len(xA(y).value), xA(x).value[i] == xA(y).value[i]))
axiom[C05] same_list(x Any, y Any) trig same(x, y) : is(y, "*ast.ListNode") ==> same(x, y) == (is(x, "*ast.ListNode") && len(xL(x).values) == len(xL(y).values) && forall(i, 0, len(xL(y).values), same(xL(x).values[i], xL(y).values[i])))
# true of IEEE-754: the bit patterns of numbers that are neither infinite nor NaN are read back as these numbers,
# rounding to four bytes stays in range, and reading four bytes gives a number that needs no further rounding
axiom[C05] f8_back(v float64) trig f8bits(v) : finiteFlt(8, v) ==> raw("f64frombits", "F64", f8bits(v)) == v && 0 <= f8bits(v) && f8bits(v) <= 18446744073709551615
axiom[C05] f4_back(v float64) trig f4bits(v) : finiteFlt(4, v) ==> finiteFlt(4, f4as(v)) && f4bits(f4as(v)) == f4bits(v) && 0 <= f4bits(v) && f4bits(v) <= 4294967295

# rt(y): the encoding of y, anywhere, decodes to its end and to nothing but y
specfun rt(Any) bool
specfun rtR(Any) Bytes
specfun rtP(Any) int
specfun rtE(Any) int
specfun rtD(Any) int
specfun rtX(Any) Any
def rtPre(R, p, e, d, y) = hold(R, p, y) && 0 <= p && p + encLen(y) <= e && 0 <= d && d + dep(y) <= 4096
axiom[C05] rt_in(y Any) trig rt(y) : rt(y) || rtPre(rtR(y), rtP(y), rtE(y), rtD(y), y) && !(endOf(rtR(y), rtP(y), rtE(y), rtD(y)) == rtP(y) + encLen(y) && (matches(rtR(y), rtP(y), rtE(y), rtD(y), rtX(y)) ==> same(rtX(y), y)))
axiom[C05] rt_end(y Any, R Bytes, p Int, e Int, d Int) mtrig rt(y), endOf(R, p, e, d) : rt(y) && rtPre(R, p, e, d, y) ==> endOf(R, p, e, d) == p + encLen(y)
axiom[C05] rt_match(y Any, R Bytes, p Int, e Int, d Int, x Any) mtrig rt(y), matches(R, p, e, d, x) : rt(y) && rtPre(R, p, e, d, y) && matches(R, p, e, d, x) ==> same(x, y)

# the elements of a list take room one after another
theorem[C05] sum_mono(l *ast.ListNode, k Int, n Int) induct n mtrig sumLen(l, k), sumLen(l, n) : 0 <= k && k <= n && n <= len(l.values) ==> sumLen(l, k) <= sumLen(l, n)
theorem[C05] sum_el(l *ast.ListNode, k Int) mtrig sumLen(l, k), l.values[k] : 0 <= k && k < len(l.values) ==> sumLen(l, k + 1) == sumLen(l, k) + encLen(l.values[k]) && sumLen(l, k + 1) <= sumLen(l, len(l.values))
theorem[C05] sum_pos(l *ast.ListNode, k Int) trig sumLen(l, k) : 0 <= k && k <= len(l.values) ==> sumLen(l, k) >= 0 && sumLen(l, k) <= sumLen(l, len(l.values))
# the base-256 digits of a number and what they add up to
specfun dig2(Bytes, Int, Int) bool
specfun dig4(Bytes, Int, Int) bool
specfun dig8(Bytes, Int, Int) bool
axiom[C05] dig2_def(R Bytes, a Int, u Int) trig dig2(R, a, u) : dig2(R, a, u) == (R[a] == (u / 256) % 256 && R[a + 1] == u % 256)
axiom[C05] dig4_def(R Bytes, a Int, u Int) trig dig4(R, a, u) : dig4(R, a, u) == (R[a] == (u / 16777216) % 256 && R[a + 1] == (u / 65536) % 256 && R[a + 2] == (u / 256) % 256 && R[a + 3] == u % 256)
axiom[C05] dig8_def(R Bytes, a Int, u Int) trig dig8(R, a, u) : dig8(R, a, u) == (R[a] == (u / 72057594037927936) % 256 && R[a + 1] == (u / 281474976710656) % 256 && R[a + 2] == (u / 1099511627776) % 256 && R[a + 3] == (u / 4294967296) % 256 && \
  R[a + 4] == (u / 16777216) % 256 && R[a + 5] == (u / 65536) % 256 && R[a + 6] == (u / 256) % 256 && R[a + 7] == u % 256)
theorem[C05] dig2_val(R Bytes, a Int, u Int) trig dig2(R, a, u) : dig2(R, a, u) ==> ube2(R, a) == u % 65536
theorem[C05] dig8_lo(R Bytes, a Int, u Int) trig dig8(R, a, u) : dig8(R, a, u) ==> dig4(R, a + 4, u)
specfun half8(Int) int
axiom[C05] half8_def(u Int) trig half8(u) : half8(u) == u / 4294967296
theorem[C05] half8_1(u Int) trig half8(u) : half8(u) / 256 == u / 1099511627776
theorem[C05] half8_2(u Int) trig half8(u) : half8(u) / 65536 == u / 281474976710656
theorem[C05] half8_3(u Int) trig half8(u) : half8(u) / 16777216 == u / 72057594037927936
theorem[C05] dig8_hi(R Bytes, a Int, u Int) trig dig8(R, a, u) : dig8(R, a, u) ==> dig4(R, a, half8(u))
theorem[C05] div_chain2(R Bytes, a Int, u Int) trig dig4(R, a, u) : u / 65536 == (u / 256) / 256
theorem[C05] div_chain3(R Bytes, a Int, u Int) trig dig4(R, a, u) : u / 16777216 == (u / 65536) / 256
theorem[C05] dig4_val(R Bytes, a Int, u Int) trig dig4(R, a, u) : dig4(R, a, u) ==> ube4(R, a) == u % 4294967296
theorem[C05] dig8_val(R Bytes, a Int, u Int) trig dig8(R, a, u) : dig8(R, a, u) && 0 <= u && u <= 18446744073709551615 ==> ube8(R, a) == u
# es(y): whatever is the same as y has the same encoding
specfun es(Any) bool
specfun esX(Any) Any
specfun esJ(Any) int
def esPre(x, y) = same(x, y) && complete(x) && complete(y)
axiom[C05] es_in(y Any) trig es(y) : es(y) || esPre(esX(y), y) && !(encLen(esX(y)) == encLen(y) && (0 <= esJ(y) && esJ(y) < encLen(y) ==> encAt(esX(y), esJ(y)) == encAt(y, esJ(y))))
axiom[C05] es_len(y Any, x Any) mtrig es(y), same(x, y) : es(y) && esPre(x, y) ==> encLen(x) == encLen(y)
axiom[C05] es_at(y Any, x Any, j Int) mtrig es(y), same(x, y), encAt(y, j) : es(y) && esPre(x, y) && 0 <= j && j < encLen(y) ==> encAt(x, j) == encAt(y, j)
axiom[C05] es_at2(y Any, x Any, j Int) mtrig es(y), same(x, y), encAt(x, j) : es(y) && esPre(x, y) && 0 <= j && j < encLen(y) ==> encAt(x, j) == encAt(y, j)
# hd(R, p, fc, n): the header of an item with format code fc and n payload bytes
def hd(R, p, fc, n) = fcAt(R, p) == fc && llAt(R, p) == lenBytes(n) && plen(R, p) == n
theorem[C05] hd_int(R Bytes, p Int, y *ast.IntNode) trig hold(R, p, y) : hold(R, p, y) && complete(y) ==> hd(R, p, intCode(y.byteSize), wl(y.byteSize, len(y.values)))
theorem[C05] hd_uint(R Bytes, p Int, y *ast.UintNode) trig hold(R, p, y) : hold(R, p, y) && complete(y) ==> hd(R, p, uintCode(y.byteSize), wl(y.byteSize, len(y.values)))
theorem[C05] hd_float(R Bytes, p Int, y *ast.FloatNode) trig hold(R, p, y) : hold(R, p, y) && complete(y) ==> hd(R, p, fltCode(y.byteSize), fw(y, len(y.values)))
theorem[C05] hd_binary(R Bytes, p Int, y *ast.BinaryNode) trig hold(R, p, y) : hold(R, p, y) && complete(y) ==> hd(R, p, 8, len(y.values))
theorem[C05] hd_boolean(R Bytes, p Int, y *ast.BooleanNode) trig hold(R, p, y) : hold(R, p, y) && complete(y) ==> hd(R, p, 9, len(y.values))
theorem[C05] hd_ascii(R Bytes, p Int, y *ast.ASCIINode) trig hold(R, p, y) : hold(R, p, y) && complete(y) ==> hd(R, p, 16, len(y.value))
theorem[C05] hd_list(R Bytes, p Int, y *ast.ListNode) trig hold(R, p, y) : hold(R, p, y) && complete(y) ==> hd(R, p, 0, len(y.values))
theorem[C05] int1_at(R Bytes, p Int, y *ast.IntNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 1 && 0 <= i && i < len(y.values) ==> R[p + hdrLen(len(y.values)) + i] == (y.values[i] % 18446744073709551616) % 256
theorem[C05] int1_val(R Bytes, p Int, y *ast.IntNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 1 && 0 <= i && i < len(y.values) ==> sgn(1, ube(1, R, p + hdrLen(len(y.values)) + i)) == y.values[i]
theorem[C05] uint1_at(R Bytes, p Int, y *ast.UintNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 1 && 0 <= i && i < len(y.values) ==> R[p + hdrLen(len(y.values)) + i] == (y.values[i]) % 256
theorem[C05] uint1_val(R Bytes, p Int, y *ast.UintNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 1 && 0 <= i && i < len(y.values) ==> ube(1, R, p + hdrLen(len(y.values)) + i) == y.values[i]
theorem[C05] int2_at(R Bytes, p Int, y *ast.IntNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 2 && 0 <= i && i < len(y.values) ==> dig2(R, p + hdrLen(2 * len(y.values)) + 2 * i, y.values[i] % 18446744073709551616)
theorem[C05] int2_val(R Bytes, p Int, y *ast.IntNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 2 && 0 <= i && i < len(y.values) ==> sgn(2, ube(2, R, p + hdrLen(2 * len(y.values)) + 2 * i)) == y.values[i]
theorem[C05] uint2_at(R Bytes, p Int, y *ast.UintNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 2 && 0 <= i && i < len(y.values) ==> dig2(R, p + hdrLen(2 * len(y.values)) + 2 * i, y.values[i])
theorem[C05] uint2_val(R Bytes, p Int, y *ast.UintNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 2 && 0 <= i && i < len(y.values) ==> ube(2, R, p + hdrLen(2 * len(y.values)) + 2 * i) == y.values[i]
theorem[C05] int4_at(R Bytes, p Int, y *ast.IntNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 4 && 0 <= i && i < len(y.values) ==> dig4(R, p + hdrLen(4 * len(y.values)) + 4 * i, y.values[i] % 18446744073709551616)
theorem[C05] int4_val(R Bytes, p Int, y *ast.IntNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 4 && 0 <= i && i < len(y.values) ==> sgn(4, ube(4, R, p + hdrLen(4 * len(y.values)) + 4 * i)) == y.values[i]
theorem[C05] uint4_at(R Bytes, p Int, y *ast.UintNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 4 && 0 <= i && i < len(y.values) ==> dig4(R, p + hdrLen(4 * len(y.values)) + 4 * i, y.values[i])
theorem[C05] uint4_val(R Bytes, p Int, y *ast.UintNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 4 && 0 <= i && i < len(y.values) ==> ube(4, R, p + hdrLen(4 * len(y.values)) + 4 * i) == y.values[i]
theorem[C05] float4_at(R Bytes, p Int, y *ast.FloatNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 4 && 0 <= i && i < len(y.values) ==> dig4(R, p + hdrLen(4 * len(y.values)) + 4 * i, f4bits(y.values[i]))
theorem[C05] int8_at(R Bytes, p Int, y *ast.IntNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 8 && 0 <= i && i < len(y.values) ==> dig8(R, p + hdrLen(8 * len(y.values)) + 8 * i, y.values[i] % 18446744073709551616)
theorem[C05] int8_val(R Bytes, p Int, y *ast.IntNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 8 && 0 <= i && i < len(y.values) ==> sgn(8, ube(8, R, p + hdrLen(8 * len(y.values)) + 8 * i)) == y.values[i]
theorem[C05] uint8_at(R Bytes, p Int, y *ast.UintNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 8 && 0 <= i && i < len(y.values) ==> dig8(R, p + hdrLen(8 * len(y.values)) + 8 * i, y.values[i])
theorem[C05] uint8_val(R Bytes, p Int, y *ast.UintNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 8 && 0 <= i && i < len(y.values) ==> ube(8, R, p + hdrLen(8 * len(y.values)) + 8 * i) == y.values[i]
theorem[C05] float8_at(R Bytes, p Int, y *ast.FloatNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && y.byteSize == 8 && 0 <= i && i < len(y.values) ==> dig8(R, p + hdrLen(8 * len(y.values)) + 8 * i, f8bits(y.values[i]))
theorem[C05] float4_v(R Bytes, p Int, y *ast.FloatNode, i Int, s Int) mtrig hold(R, p, y), fltV(4, R, s, i) : hold(R, p, y) && complete(y) && y.byteSize == 4 && 0 <= i && i < len(y.values) && s == p + hdrLen(4 * len(y.values)) ==> fltV(4, R, s, i) == f4as(y.values[i]) && finiteFlt(4, fltV(4, R, s, i))
theorem[C05] float8_v(R Bytes, p Int, y *ast.FloatNode, i Int, s Int) mtrig hold(R, p, y), fltV(8, R, s, i) : hold(R, p, y) && complete(y) && y.byteSize == 8 && 0 <= i && i < len(y.values) && s == p + hdrLen(8 * len(y.values)) ==> fltV(8, R, s, i) == y.values[i] && finiteFlt(8, fltV(8, R, s, i))
theorem[C05] lf_int8(R Bytes, p Int, e Int, d Int, x Any) trig matches(R, p, e, d, x) : matches(R, p, e, d, x) && fcAt(R, p) == 24 ==> is(x, "*ast.IntNode") && xI(x).byteSize == 8 && len(xI(x).values) == plen(R, p) / 8 && forall(i, 0, len(xI(x).values), xI(x).values[i] == sgn(8, ube8(R, dat(R, p) + 8 * i)))
theorem[C05] lf_uint8(R Bytes, p Int, e Int, d Int, x Any) trig matches(R, p, e, d, x) : matches(R, p, e, d, x) && fcAt(R, p) == 40 ==> is(x, "*ast.UintNode") && xU(x).byteSize == 8 && len(xU(x).values) == plen(R, p) / 8 && forall(i, 0, len(xU(x).values), xU(x).values[i] == ube8(R, dat(R, p) + 8 * i))
theorem[C05] rt_int1_end(R Bytes, p Int, e Int, d Int, y *ast.IntNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 1 ==> endOf(R, p, e, d) == p + encLen(y)
theorem[C05] rt_int1_match(R Bytes, p Int, e Int, d Int, y *ast.IntNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 1 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_int1(y *ast.IntNode) trig rt(y) : complete(y) && y.byteSize == 1 ==> rt(y)
theorem[C05] es_int1(y *ast.IntNode) trig es(y) : complete(y) && y.byteSize == 1 ==> es(y)
theorem[C05] rt_int2_end(R Bytes, p Int, e Int, d Int, y *ast.IntNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 2 ==> endOf(R, p, e, d) == p + encLen(y)
theorem[C05] rt_int2_match(R Bytes, p Int, e Int, d Int, y *ast.IntNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 2 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_int2(y *ast.IntNode) trig rt(y) : complete(y) && y.byteSize == 2 ==> rt(y)
theorem[C05] es_int2(y *ast.IntNode) trig es(y) : complete(y) && y.byteSize == 2 ==> es(y)
theorem[C05] rt_int4_end(R Bytes, p Int, e Int, d Int, y *ast.IntNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 ==> endOf(R, p, e, d) == p + encLen(y)
helper[C05] int4_shape(R Bytes, p Int, e Int, d Int, y *ast.IntNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 && matches(R, p, e, d, x) ==> is(x, "*ast.IntNode") && xI(x).byteSize == 4 && len(xI(x).values) == len(y.values)
helper[C05] int4_el(R Bytes, p Int, e Int, d Int, y *ast.IntNode, x Any, i Int) mtrig hold(R, p, y), matches(R, p, e, d, x), y.values[i] : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 && matches(R, p, e, d, x) && 0 <= i && i < len(y.values) ==> xI(x).values[i] == y.values[i]
theorem[C05] rt_int4_match(R Bytes, p Int, e Int, d Int, y *ast.IntNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_int4(y *ast.IntNode) trig rt(y) : complete(y) && y.byteSize == 4 ==> rt(y)
theorem[C05] es_int4(y *ast.IntNode) trig es(y) : complete(y) && y.byteSize == 4 ==> es(y)
theorem[C05] rt_int8_end(R Bytes, p Int, e Int, d Int, y *ast.IntNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 ==> endOf(R, p, e, d) == p + encLen(y)
helper[C05] int8_shape(R Bytes, p Int, e Int, d Int, y *ast.IntNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 && matches(R, p, e, d, x) ==> is(x, "*ast.IntNode") && xI(x).byteSize == 8 && len(xI(x).values) == len(y.values)
helper[C05] int8_el(R Bytes, p Int, e Int, d Int, y *ast.IntNode, x Any, i Int) mtrig hold(R, p, y), matches(R, p, e, d, x), y.values[i] : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 && matches(R, p, e, d, x) && 0 <= i && i < len(y.values) ==> xI(x).values[i] == y.values[i]
theorem[C05] rt_int8_match(R Bytes, p Int, e Int, d Int, y *ast.IntNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_int8(y *ast.IntNode) trig rt(y) : complete(y) && y.byteSize == 8 ==> rt(y)
theorem[C05] es_int8(y *ast.IntNode) trig es(y) : complete(y) && y.byteSize == 8 ==> es(y)
theorem[C05] rt_uint1_end(R Bytes, p Int, e Int, d Int, y *ast.UintNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 1 ==> endOf(R, p, e, d) == p + encLen(y)
theorem[C05] rt_uint1_match(R Bytes, p Int, e Int, d Int, y *ast.UintNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 1 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_uint1(y *ast.UintNode) trig rt(y) : complete(y) && y.byteSize == 1 ==> rt(y)
theorem[C05] es_uint1(y *ast.UintNode) trig es(y) : complete(y) && y.byteSize == 1 ==> es(y)
theorem[C05] rt_uint2_end(R Bytes, p Int, e Int, d Int, y *ast.UintNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 2 ==> endOf(R, p, e, d) == p + encLen(y)
theorem[C05] rt_uint2_match(R Bytes, p Int, e Int, d Int, y *ast.UintNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 2 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_uint2(y *ast.UintNode) trig rt(y) : complete(y) && y.byteSize == 2 ==> rt(y)
theorem[C05] es_uint2(y *ast.UintNode) trig es(y) : complete(y) && y.byteSize == 2 ==> es(y)
theorem[C05] rt_uint4_end(R Bytes, p Int, e Int, d Int, y *ast.UintNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 ==> endOf(R, p, e, d) == p + encLen(y)
helper[C05] uint4_shape(R Bytes, p Int, e Int, d Int, y *ast.UintNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 && matches(R, p, e, d, x) ==> is(x, "*ast.UintNode") && xU(x).byteSize == 4 && len(xU(x).values) == len(y.values)
helper[C05] uint4_el(R Bytes, p Int, e Int, d Int, y *ast.UintNode, x Any, i Int) mtrig hold(R, p, y), matches(R, p, e, d, x), y.values[i] : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 && matches(R, p, e, d, x) && 0 <= i && i < len(y.values) ==> xU(x).values[i] == y.values[i]
theorem[C05] rt_uint4_match(R Bytes, p Int, e Int, d Int, y *ast.UintNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_uint4(y *ast.UintNode) trig rt(y) : complete(y) && y.byteSize == 4 ==> rt(y)
theorem[C05] es_uint4(y *ast.UintNode) trig es(y) : complete(y) && y.byteSize == 4 ==> es(y)
theorem[C05] rt_uint8_end(R Bytes, p Int, e Int, d Int, y *ast.UintNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 ==> endOf(R, p, e, d) == p + encLen(y)
helper[C05] uint8_shape(R Bytes, p Int, e Int, d Int, y *ast.UintNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 && matches(R, p, e, d, x) ==> is(x, "*ast.UintNode") && xU(x).byteSize == 8 && len(xU(x).values) == len(y.values)
helper[C05] uint8_el(R Bytes, p Int, e Int, d Int, y *ast.UintNode, x Any, i Int) mtrig hold(R, p, y), matches(R, p, e, d, x), y.values[i] : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 && matches(R, p, e, d, x) && 0 <= i && i < len(y.values) ==> xU(x).values[i] == y.values[i]
theorem[C05] rt_uint8_match(R Bytes, p Int, e Int, d Int, y *ast.UintNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_uint8(y *ast.UintNode) trig rt(y) : complete(y) && y.byteSize == 8 ==> rt(y)
theorem[C05] es_uint8(y *ast.UintNode) trig es(y) : complete(y) && y.byteSize == 8 ==> es(y)
theorem[C05] rt_float4_end(R Bytes, p Int, e Int, d Int, y *ast.FloatNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 ==> endOf(R, p, e, d) == p + encLen(y)
theorem[C05] rt_float4_match(R Bytes, p Int, e Int, d Int, y *ast.FloatNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 4 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_float4(y *ast.FloatNode) trig rt(y) : complete(y) && y.byteSize == 4 ==> rt(y)
theorem[C05] es_float4(y *ast.FloatNode) trig es(y) : complete(y) && y.byteSize == 4 ==> es(y)
theorem[C05] rt_float8_end(R Bytes, p Int, e Int, d Int, y *ast.FloatNode) mtrig hold(R, p, y), endOf(R, p, e, d) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 ==> endOf(R, p, e, d) == p + encLen(y)
theorem[C05] rt_float8_match(R Bytes, p Int, e Int, d Int, y *ast.FloatNode, x Any) mtrig hold(R, p, y), matches(R, p, e, d, x) : rtPre(R, p, e, d, y) && complete(y) && y.byteSize == 8 && matches(R, p, e, d, x) ==> same(x, y)
theorem[C05] rt_float8(y *ast.FloatNode) trig rt(y) : complete(y) && y.byteSize == 8 ==> rt(y)
theorem[C05] es_float8(y *ast.FloatNode) trig es(y) : complete(y) && y.byteSize == 8 ==> es(y)
theorem[C05] rt_binary(y *ast.BinaryNode) trig rt(y) : complete(y) ==> rt(y)
theorem[C05] es_binary(y *ast.BinaryNode) trig es(y) : complete(y) ==> es(y)
theorem[C05] rt_boolean(y *ast.BooleanNode) trig rt(y) : complete(y) ==> rt(y)
theorem[C05] es_boolean(y *ast.BooleanNode) trig es(y) : complete(y) ==> es(y)
theorem[C05] rt_ascii(y *ast.ASCIINode) trig rt(y) : complete(y) ==> rt(y)
theorem[C05] es_ascii(y *ast.ASCIINode) trig es(y) : complete(y) ==> es(y)
# lists: if every element comes back, so does the list
specfun elRt(*ast.ListNode) bool
axiom[C05] el_in(y *ast.ListNode) trig elRt(y) : elRt(y) == forall(i, 0, len(y.values), rt(y.values[i]) && es(y.values[i]), y.values[i])
theorem[C05] list_el(R Bytes, p Int, y *ast.ListNode, i Int) mtrig hold(R, p, y), y.values[i] : hold(R, p, y) && complete(y) && 0 <= i && i < len(y.values) ==> hold(R, p + hdrLen(len(y.values)) + sumLen(y, i), y.values[i])
theorem[C05] list_end(R Bytes, p Int, e Int, y *ast.ListNode, k Int, a Int, c Int) induct k mtrig hold(R, p, y), lend(R, a, e, c, k) : a == p + hdrLen(len(y.values)) && rtPre(R, p, e, c - 1, y) && complete(y) && elRt(y) && 0 <= k && k <= len(y.values) ==> lend(R, a, e, c, k) == a + sumLen(y, k)
theorem[C05] rt_list(y *ast.ListNode) trig rt(y) : complete(y) && elRt(y) ==> rt(y)
theorem[C05] es_sum(y *ast.ListNode, x *ast.ListNode, k Int) induct k mtrig same(x, y), sumLen(y, k) : esPre(x, y) && elRt(y) && 0 <= k && k <= len(y.values) ==> sumLen(x, k) == sumLen(y, k)
theorem[C05] es_at_k(y *ast.ListNode, x *ast.ListNode, j Int, k Int) induct k mtrig same(x, y), sumLen(y, k), encAt(x, j) : esPre(x, y) && elRt(y) && 0 <= k && k <= len(y.values) && 0 <= j && j < hdrLen(len(y.values)) + sumLen(y, k) ==> encAt(x, j) == encAt(y, j)
theorem[C05] es_list(y *ast.ListNode) trig es(y) : complete(y) && elRt(y) ==> es(y)
# only items have an encoding
axiom[C05] complete_kind(y Any) trig complete(y) : complete(y) ==> is(y, "*ast.IntNode") && y == box(as(y, "*ast.IntNode")) || is(y, "*ast.UintNode") && y == box(as(y, "*ast.UintNode")) || is(y, "*ast.FloatNode") && y == box(as(y, "*ast.FloatNode")) || is(y, "*ast.BinaryNode") && y == box(as(y, "*ast.BinaryNode")) || is(y, "*ast.BooleanNode") && y == box(as(y, "*ast.BooleanNode")) || is(y, "*ast.ASCIINode") && y == box(as(y, "*ast.ASCIINode")) || is(y, "*ast.ListNode") && y == box(as(y, "*ast.ListNode"))
specfun depK(Int) int
specfun depJ(Int) int
axiom[C05] dep_k(n Int) trig depK(n) : depK(n) == n && depJ(n - 1) == n - 1
axiom[C05] dep_j(y Any) trig dep(y) : depK(dep(y)) == dep(y) && depJ(dep(y)) == dep(y)
theorem[C05] back_n(n Int, y Any) induct n mtrig rt(y), depJ(n) : complete(y) && depK(n) == n && dep(y) <= n ==> rt(y) && es(y)
theorem[C05] back(y Any) trig rt(y), es(y) : complete(y) ==> rt(y) && es(y)
endonly

only C05
func phsms.lemmaNumbers()
  proves sum_mono, sum_el, sum_pos, dig2_val, dig8_lo, half8_1, half8_2, half8_3, dig8_hi, div_chain2, div_chain3, dig4_val, dig8_val
func phsms.lemmaBytes()
  proves hd_int, hd_uint, hd_float, hd_binary, hd_boolean, hd_ascii, hd_list, int1_at, int1_val, uint1_at, uint1_val, int2_at, int2_val, uint2_at, uint2_val, int4_at, int4_val, uint4_at, uint4_val, float4_at, int8_at, int8_val, uint8_at, uint8_val, float8_at
func phsms.lemmaLeavesA()
  proves float4_v, float8_v, lf_int8, lf_uint8, rt_int1_end, rt_int1_match, rt_int1, es_int1, rt_int2_end, rt_int2_match, rt_int2, es_int2, rt_int4_end, int4_shape, int4_el, rt_int4_match, rt_int4, es_int4, rt_int8_end, int8_shape, int8_el, rt_int8_match, rt_int8, es_int8, rt_uint1_end, rt_uint1_match, rt_uint1, es_uint1, rt_uint2_end
func phsms.lemmaLeavesB()
  proves rt_uint2_match, rt_uint2, es_uint2, rt_uint4_end, uint4_shape, uint4_el, rt_uint4_match, rt_uint4, es_uint4, rt_uint8_end, uint8_shape, uint8_el, rt_uint8_match, rt_uint8, es_uint8, rt_float4_end, rt_float4_match, rt_float4, es_float4, rt_float8_end, rt_float8_match, rt_float8, es_float8, rt_binary, es_binary, rt_boolean, es_boolean, rt_ascii, es_ascii
func phsms.lemmaLists()
  proves list_el, list_end, rt_list, es_sum, es_at_k, es_list, back_n, back
# Round trip of messages: two client programs (clients/C05) over the real ToBytes and Parse
def fits(m) = sendable(m) && (is(m.dataItem, "ast.emptyItemNode") || complete(m.dataItem)) && encLen(m.dataItem) + 10 < 4294967296 && dep(m.dataItem) <= 4096
func phsms.clientData(m) (b, d, ok, c)
  requires m != nil && fits(m)
  ensures decodes: ok && d != nil
  ensures header: d.stream == m.stream && d.function == m.function && d.waitBit == m.waitBit && d.sessionID == m.sessionID && forall(i, 0, 4, d.systemBytes[i] == m.systemBytes[i])
  ensures item: ite(is(m.dataItem, "ast.emptyItemNode"), is(d.dataItem, "ast.emptyItemNode"), same(d.dataItem, m.dataItem))
  ensures again: len(c) == len(b) && forall(i, 0, len(b), c[i] == b[i])
func phsms.clientControl(m) (b, d, ok, c)
  requires m != nil && ctype(m.header) != "undefined"
  ensures decodes: ok && d != nil
  ensures header: forall(i, 0, 10, d.header[i] == m.header[i])
  ensures again: len(c) == 14 && len(b) == 14 && forall(i, 0, 14, c[i] == b[i])
endonly
check C05: phsms.client*, phsms.lemma*, ast.DataMessage.ToBytes
include C05: C01, C02, C03, C04, C06
