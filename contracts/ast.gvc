# Contracts for lib-secs2-hsms-go/pkg/ast

immutable ast.IntNode
immutable ast.UintNode
immutable ast.FloatNode
immutable ast.BinaryNode
immutable ast.BooleanNode
immutable ast.ASCIINode
immutable ast.ListNode
immutable ast.emptyItemNode
immutable ast.DataMessage
immutable ast.ControlMessage

sealed ast.ItemNode: *ast.IntNode, *ast.UintNode, *ast.FloatNode, *ast.BinaryNode, *ast.BooleanNode, *ast.ASCIINode, *ast.ListNode, ast.emptyItemNode

def typeWidth(t) = ite(t == "i2" || t == "u2", 2, ite(t == "i4" || t == "u4" || t == "f4", 4, ite(t == "i8" || t == "u8" || t == "f8", 8, 1)))

def formatCode(t) = ite(t == "list", 0, ite(t == "binary", 8, ite(t == "boolean", 9, ite(t == "ascii", 16,
  ite(t == "i8", 24, ite(t == "i1", 25, ite(t == "i2", 26, ite(t == "i4", 28, ite(t == "f8", 32, ite(t == "f4", 36,
  ite(t == "u8", 40, ite(t == "u1", 41, ite(t == "u2", 42, 44)))))))))))))

def knownType(t) = t == "list" || t == "binary" || t == "boolean" || t == "ascii" || t == "i8" || t == "i1" || t == "i2" || t == "i4" || t == "f8" || t == "f4" || t == "u8" || t == "u1" || t == "u2" || t == "u4"

def lenBytes(n) = ite(n < 256, 1, ite(n < 65536, 2, 3))
# i-th byte of the minimal item header for format code fc and payload length n
def headerByte(fc, n, i) = ite(i == 0, fc * 4 + lenBytes(n),
  ite(lenBytes(n) == 1, n,
  ite(lenBytes(n) == 2, ite(i == 1, n / 256, n % 256),
  ite(i == 1, n / 65536, ite(i == 2, (n / 256) % 256, n % 256)))))

func ast.getDataByteLength(typ, size) (r)
  requires size >= 0 && size <= 1152921504606846975
  split typ: "list", "binary", "boolean", "ascii", "i8", "i1", "i2", "i4", "f8", "f4", "u8", "u1", "u2", "u4", else
  ensures knownType(typ) ==> r == size * typeWidth(typ)
  ensures !knownType(typ) ==> r == 0

func ast.getHeaderBytes(typ, size) (r, err)
  requires knownType(typ)
  requires size >= 0 && size <= 1152921504606846975
  split typ: "list", "binary", "boolean", "ascii", "i8", "i1", "i2", "i4", "f8", "f4", "u8", "u1", "u2", "u4"
  ensures err == nil <==> size * typeWidth(typ) <= 16777215
  ensures err != nil ==> len(r) == 0
  ensures err == nil ==> len(r) == 1 + lenBytes(size * typeWidth(typ))
  ensures err == nil ==> forall(i, 0, len(r), r[i] == headerByte(formatCode(typ), size * typeWidth(typ), i))
  ensures fresh(r)

def MAXB() = 16777215
def pow256(i) = ite(i == 0, 1, ite(i == 1, 256, ite(i == 2, 65536, ite(i == 3, 16777216, ite(i == 4, 4294967296, ite(i == 5, 1099511627776, ite(i == 6, 281474976710656, 72057594037927936)))))))
def ubyteOf(v, i) = (v / pow256(i)) % 256
def byteOf(v, i) = ((v % 18446744073709551616) / pow256(i)) % 256
def legalWidth(w) = w == 1 || w == 2 || w == 4 || w == 8
def minInt(w) = ite(w == 1, -128, ite(w == 2, -32768, ite(w == 4, -2147483648, -9223372036854775808)))
def maxInt(w) = ite(w == 1, 127, ite(w == 2, 32767, ite(w == 4, 2147483647, 9223372036854775807)))
def maxUint(w) = ite(w == 1, 255, ite(w == 2, 65535, ite(w == 4, 4294967295, 18446744073709551615)))
def intSym(w) = ite(w == 1, "i1", ite(w == 2, "i2", ite(w == 4, "i4", "i8")))
def uintSym(w) = ite(w == 1, "u1", ite(w == 2, "u2", ite(w == 4, "u4", "u8")))
def intCode(w) = ite(w == 1, 25, ite(w == 2, 26, ite(w == 4, 28, 24)))
def uintCode(w) = ite(w == 1, 41, ite(w == 2, 42, ite(w == 4, 44, 40)))

def validName(name) = raw("re.match", "Bool", raw("re.compile", "Int", "^[A-Za-z_]\\w*(\\[\\d+\\])*$"), name)
def ellipsis(name) = raw("re.match", "Bool", raw("re.compile", "Int", "^\\.{3}(\\[\\d+\\])?$"), name)

# facts about these two patterns (true of the regular expressions; regexp itself is external)
axiom[C02,C03,C04,C08] name_empty() : !validName("") && !ellipsis("")
axiom[C02,C03,C04,C08] name_disjoint(s Str) trig ellipsis(s) : !(validName(s) && ellipsis(s))

func ast.isValidVarName(name) (r)
  ensures r == validName(name)
func ast.isEllipsis(name) (r)
  ensures r == ellipsis(name)

invariant ast.IntNode(x): legalWidth(x.byteSize) && x.byteSize * len(x.values) <= MAXB() && x.symbol == intSym(x.byteSize) && x.variables != nil
invariant ast.IntNode(x): forall(i, 0, len(x.values), minInt(x.byteSize) <= x.values[i] && x.values[i] <= maxInt(x.byteSize))
invariant ast.IntNode(x): allk(k, x.variables, 0 <= x.variables[k] && x.variables[k] < len(x.values) && x.values[x.variables[k]] == 0 && validName(k))

# abstract encoding of an item
specfun encLen(Any) Int
specfun encAt(Any, Int) Int
specfun complete(Any) Bool

def byte2(v, j) = ite(j % 2 == 0, byteOf(v[j / 2], 1), byteOf(v[j / 2], 0))
def byte4(v, j) = ite(j % 4 == 0, byteOf(v[j / 4], 3), ite(j % 4 == 1, byteOf(v[j / 4], 2), ite(j % 4 == 2, byteOf(v[j / 4], 1), byteOf(v[j / 4], 0))))
def byte8(v, j) = ite(j % 8 == 0, byteOf(v[j / 8], 7), ite(j % 8 == 1, byteOf(v[j / 8], 6), ite(j % 8 == 2, byteOf(v[j / 8], 5), ite(j % 8 == 3, byteOf(v[j / 8], 4),
   ite(j % 8 == 4, byteOf(v[j / 8], 3), ite(j % 8 == 5, byteOf(v[j / 8], 2), ite(j % 8 == 6, byteOf(v[j / 8], 1), byteOf(v[j / 8], 0))))))))
# byte j of the payload: the values v in big-endian at width w
def numByte(w, v, j) = ite(w == 1, byteOf(v[j], 0), ite(w == 2, byte2(v, j), ite(w == 4, byte4(v, j), byte8(v, j))))

def ubyte2(v, j) = ite(j % 2 == 0, ubyteOf(v[j / 2], 1), ubyteOf(v[j / 2], 0))
def ubyte4(v, j) = ite(j % 4 == 0, ubyteOf(v[j / 4], 3), ite(j % 4 == 1, ubyteOf(v[j / 4], 2), ite(j % 4 == 2, ubyteOf(v[j / 4], 1), ubyteOf(v[j / 4], 0))))
def ubyte8(v, j) = ite(j % 8 == 0, ubyteOf(v[j / 8], 7), ite(j % 8 == 1, ubyteOf(v[j / 8], 6), ite(j % 8 == 2, ubyteOf(v[j / 8], 5), ite(j % 8 == 3, ubyteOf(v[j / 8], 4),
   ite(j % 8 == 4, ubyteOf(v[j / 8], 3), ite(j % 8 == 5, ubyteOf(v[j / 8], 2), ite(j % 8 == 6, ubyteOf(v[j / 8], 1), ubyteOf(v[j / 8], 0))))))))
def unumByte(w, v, j) = ite(w == 1, ubyteOf(v[j], 0), ite(w == 2, ubyte2(v, j), ite(w == 4, ubyte4(v, j), ubyte8(v, j))))


# w * n for a legal width w, kept linear
def wl(w, n) = ite(w == 1, n, ite(w == 2, 2 * n, ite(w == 4, 4 * n, 8 * n)))
def hdrLen(n) = 1 + lenBytes(n)
def unumEnc(fc, w, v, i) = ite(i < hdrLen(wl(w, len(v))), headerByte(fc, wl(w, len(v)), i), unumByte(w, v, i - hdrLen(wl(w, len(v)))))
def numEnc(fc, w, v, i) = ite(i < hdrLen(wl(w, len(v))), headerByte(fc, wl(w, len(v)), i), numByte(w, v, i - hdrLen(wl(w, len(v)))))


def encode(c, n) = ite(c, hdrLen(n) + n, 0)

# --- type invariants -------------------------------------------------------------
invariant ast.UintNode(x): legalWidth(x.byteSize) && x.byteSize * len(x.values) <= MAXB() && x.symbol == uintSym(x.byteSize) && x.variables != nil
invariant ast.UintNode(x): forall(i, 0, len(x.values), 0 <= x.values[i] && x.values[i] <= maxUint(x.byteSize))
invariant ast.UintNode(x): allk(k, x.variables, 0 <= x.variables[k] && x.variables[k] < len(x.values) && x.values[x.variables[k]] == 0 && validName(k))

def fltSym(w) = ite(w == 4, "f4", "f8")
def fltCode(w) = ite(w == 4, 36, 32)
def maxFlt(w) = ite(w == 4, flt("0x1.fffffep127"), flt("0x1.fffffffffffffp1023"))
def finiteFlt(w, v) = !raw("f.isinf", "Bool", v, 0) && !raw("f.isnan", "Bool", v) && raw("f.le", "Bool", raw("f.neg", "F64", maxFlt(w)), v) && raw("f.le", "Bool", v, maxFlt(w))
# true of IEEE-754: zero is finite and in range of both widths (float operations are otherwise uninterpreted)
axiom flt_zero() : finiteFlt(4, flt("0")) && finiteFlt(8, flt("0"))
invariant ast.FloatNode(x): (x.byteSize == 4 || x.byteSize == 8) && x.byteSize * len(x.values) <= MAXB() && x.symbol == fltSym(x.byteSize) && x.variables != nil
invariant ast.FloatNode(x): forall(i, 0, len(x.values), finiteFlt(x.byteSize, x.values[i]))
invariant ast.FloatNode(x): allk(k, x.variables, 0 <= x.variables[k] && x.variables[k] < len(x.values) && x.values[x.variables[k]] == flt("0") && validName(k))

invariant ast.BinaryNode(x): len(x.values) <= MAXB() && x.symbol == "binary" && x.variables != nil
invariant ast.BinaryNode(x): forall(i, 0, len(x.values), 0 <= x.values[i] && x.values[i] <= 255)
invariant ast.BinaryNode(x): allk(k, x.variables, 0 <= x.variables[k] && x.variables[k] < len(x.values) && x.values[x.variables[k]] == 0 && validName(k))

invariant ast.BooleanNode(x): len(x.values) <= MAXB() && x.symbol == "boolean" && x.variables != nil
invariant ast.BooleanNode(x): allk(k, x.variables, 0 <= x.variables[k] && x.variables[k] < len(x.values) && !x.values[x.variables[k]] && validName(k))

invariant ast.ASCIINode(x): len(x.value) <= MAXB() && (x.isValue ==> x.symbol == "ascii") && (!x.isValue ==> len(x.value) == 0 && validName(x.variable.name))
invariant ast.ASCIINode(x): x.isValue ==> forall(i, 0, len(x.value), x.value[i] < 128)
invariant ast.ASCIINode(x): !x.isValue ==> x.variable.minLength >= 0 && x.variable.maxLength >= -1 && (x.variable.maxLength != -1 ==> x.variable.minLength <= x.variable.maxLength)

invariant ast.ListNode(x): len(x.values) <= MAXB() && x.symbol == "list" && x.variables != nil
invariant ast.ListNode(x): forall(i, 0, len(x.values), x.values[i] != nil)
invariant ast.ListNode(x): allk(k, x.variables, 0 <= x.variables[k] && x.variables[k] < len(x.values) && is(x.values[x.variables[k]], "ast.emptyItemNode") && (validName(k) || ellipsis(k)))
invariant ast.ListNode(x): allk(k, x.variables, allk(j, x.variables, x.variables[j] == x.variables[k] ==> j == k))

# --- SEMI E5 encoding --------------------------------------------------------------
axiom enc_int(x *ast.IntNode) trig complete(x), encLen(x) : complete(x) == (len(x.variables) == 0) && encLen(x) == encode(complete(x), wl(x.byteSize, len(x.values)))
axiom enc_int_at(x *ast.IntNode, i Int) trig encAt(x, i) : complete(x) && 0 <= i && i < encLen(x) ==> encAt(x, i) == numEnc(intCode(x.byteSize), x.byteSize, x.values, i)

axiom enc_uint(x *ast.UintNode) trig complete(x), encLen(x) : complete(x) == (len(x.variables) == 0) && encLen(x) == encode(complete(x), wl(x.byteSize, len(x.values)))
axiom enc_uint_at(x *ast.UintNode, i Int) trig encAt(x, i) : complete(x) && 0 <= i && i < encLen(x) ==> encAt(x, i) == unumEnc(uintCode(x.byteSize), x.byteSize, x.values, i)

# IEEE-754 bit patterns
def f4bits(v) = raw("f32bits", "Int", raw("f32round", "F64", v))
def f8bits(v) = raw("f64bits", "Int", v)
def fbyte(b, i) = (b / pow256(i)) % 256
def fbyte4(v, j) = ite(j % 4 == 0, fbyte(f4bits(v[j / 4]), 3), ite(j % 4 == 1, fbyte(f4bits(v[j / 4]), 2), ite(j % 4 == 2, fbyte(f4bits(v[j / 4]), 1), fbyte(f4bits(v[j / 4]), 0))))
def fbyte8(v, j) = ite(j % 8 == 0, fbyte(f8bits(v[j / 8]), 7), ite(j % 8 == 1, fbyte(f8bits(v[j / 8]), 6), ite(j % 8 == 2, fbyte(f8bits(v[j / 8]), 5), ite(j % 8 == 3, fbyte(f8bits(v[j / 8]), 4),
   ite(j % 8 == 4, fbyte(f8bits(v[j / 8]), 3), ite(j % 8 == 5, fbyte(f8bits(v[j / 8]), 2), ite(j % 8 == 6, fbyte(f8bits(v[j / 8]), 1), fbyte(f8bits(v[j / 8]), 0))))))))
def fw(x, n) = ite(x.byteSize == 4, 4 * n, 8 * n)
def fltEnc(w, v, i) = ite(i < hdrLen(w * len(v)), headerByte(fltCode(w), w * len(v), i), ite(w == 4, fbyte4(v, i - hdrLen(w * len(v))), fbyte8(v, i - hdrLen(w * len(v)))))
axiom enc_float(x *ast.FloatNode) trig complete(x), encLen(x) : complete(x) == (len(x.variables) == 0) && encLen(x) == encode(complete(x), fw(x, len(x.values)))
axiom enc_float_at(x *ast.FloatNode, i Int) trig encAt(x, i) : complete(x) && 0 <= i && i < encLen(x) ==> encAt(x, i) == ite(x.byteSize == 4, fltEnc(4, x.values, i), fltEnc(8, x.values, i))

def binEnc(v, i) = ite(i < hdrLen(len(v)), headerByte(8, len(v), i), v[i - hdrLen(len(v))] % 256)
axiom enc_binary(x *ast.BinaryNode) trig complete(x), encLen(x) : complete(x) == (len(x.variables) == 0) && encLen(x) == encode(complete(x), len(x.values))
axiom enc_binary_at(x *ast.BinaryNode, i Int) trig encAt(x, i) : complete(x) && 0 <= i && i < encLen(x) ==> encAt(x, i) == binEnc(x.values, i)

def boolEnc(v, i) = ite(i < hdrLen(len(v)), headerByte(9, len(v), i), ite(v[i - hdrLen(len(v))], 1, 0))
axiom enc_boolean(x *ast.BooleanNode) trig complete(x), encLen(x) : complete(x) == (len(x.variables) == 0) && encLen(x) == encode(complete(x), len(x.values))
axiom enc_boolean_at(x *ast.BooleanNode, i Int) trig encAt(x, i) : complete(x) && 0 <= i && i < encLen(x) ==> encAt(x, i) == boolEnc(x.values, i)

def asciiEnc(v, i) = ite(i < hdrLen(len(v)), headerByte(16, len(v), i), v[i - hdrLen(len(v))])
axiom enc_ascii(x *ast.ASCIINode) trig complete(x), encLen(x) : complete(x) == x.isValue && encLen(x) == encode(complete(x), len(x.value))
axiom enc_ascii_at(x *ast.ASCIINode, i Int) trig encAt(x, i) : complete(x) && 0 <= i && i < encLen(x) ==> encAt(x, i) == asciiEnc(x.value, i)

axiom enc_empty(x ast.emptyItemNode) trig complete(x), encLen(x) : !complete(x) && encLen(x) == 0

# sumLen(l, k): bytes taken by the first k elements of list l
specfun sumLen(*ast.ListNode, Int) Int
axiom sum_zero(l *ast.ListNode) trig sumLen(l, 0) : sumLen(l, 0) == 0
axiom sum_step(l *ast.ListNode, k Int) trig sumLen(l, k + 1) : 0 <= k && k < len(l.values) ==> sumLen(l, k + 1) == sumLen(l, k) + encLen(l.values[k])
axiom enc_list(x *ast.ListNode) trig complete(x), encLen(x) : complete(x) == (len(x.variables) == 0 && forall(i, 0, len(x.values), complete(x.values[i]))) && \
   encLen(x) == ite(complete(x), hdrLen(len(x.values)) + sumLen(x, len(x.values)), 0)
axiom enc_list_hdr(x *ast.ListNode, i Int) trig encAt(x, i) : complete(x) && 0 <= i && i < hdrLen(len(x.values)) ==> encAt(x, i) == headerByte(0, len(x.values), i)
axiom enc_list_el(x *ast.ListNode, k Int, i Int) mtrig encAt(x, i), sumLen(x, k) : complete(x) && 0 <= k && k < len(x.values) && \
   hdrLen(len(x.values)) + sumLen(x, k) <= i && i < hdrLen(len(x.values)) + sumLen(x, k) + encLen(x.values[k]) ==> encAt(x, i) == encAt(x.values[k], i - hdrLen(len(x.values)) - sumLen(x, k))
axiom enc_nonneg(x Any) trig encLen(x) : encLen(x) >= 0 && (encLen(x) > 0 ==> complete(x)) && (complete(x) ==> encLen(x) > 0)
axiom enc_byte(x Any, i Int) trig encAt(x, i) : 0 <= encAt(x, i) && encAt(x, i) <= 255

iface ast.ItemNode.ToBytes(self) (r)
  ensures len(r) == encLen(self)
  ensures forall(i, 0, len(r), r[i] == encAt(self, i))
  ensures fresh(r)

func ast.IntNode.ToBytes(node) (r)
  split node.byteSize: 1, 2, 4, 8
  loop 0 invariant len(acc("[]byte")) == hdrLen(wl(node.byteSize, len(node.values))) + wl(node.byteSize, iter)
  loop 0 invariant forall(i, 0, len(acc("[]byte")), acc("[]byte")[i] == encAt(node, i))

func ast.UintNode.ToBytes(node) (r)
  split node.byteSize: 1, 2, 4, 8
  loop 0 invariant len(acc("[]byte")) == hdrLen(wl(node.byteSize, len(node.values))) + wl(node.byteSize, iter)
  loop 0 invariant forall(i, 0, len(acc("[]byte")), acc("[]byte")[i] == encAt(node, i))

func ast.FloatNode.ToBytes(node) (r)
  split node.byteSize: 4, 8
  loop 0 invariant len(acc("[]byte")) == hdrLen(fw(node, len(node.values))) + fw(node, iter)
  loop 0 invariant forall(i, 0, len(acc("[]byte")), acc("[]byte")[i] == encAt(node, i))
  loop 1 invariant len(acc("[]byte")) == hdrLen(fw(node, len(node.values))) + fw(node, iter)
  loop 1 invariant forall(i, 0, len(acc("[]byte")), acc("[]byte")[i] == encAt(node, i))

func ast.BinaryNode.ToBytes(node) (r)
  loop 0 invariant len(acc("[]byte")) == hdrLen(len(node.values)) + iter
  loop 0 invariant forall(i, 0, len(acc("[]byte")), acc("[]byte")[i] == encAt(node, i))

func ast.BooleanNode.ToBytes(node) (r)
  loop 0 invariant len(acc("[]byte")) == hdrLen(len(node.values)) + iter
  loop 0 invariant forall(i, 0, len(acc("[]byte")), acc("[]byte")[i] == encAt(node, i))

func ast.ASCIINode.ToBytes(node) (r)
  loop 0 invariant len(acc("[]byte")) == hdrLen(len(node.value)) + rangepos()
  loop 0 invariant forall(i, 0, len(acc("[]byte")), acc("[]byte")[i] == encAt(node, i))

func ast.ListNode.ToBytes(node) (r)
  loop 0 invariant len(acc("[]byte")) == hdrLen(len(node.values)) + sumLen(node, iter)
  loop 0 invariant forall(i, 0, iter, complete(node.values[i]))
  loop 0 invariant complete(node) ==> forall(i, 0, len(acc("[]byte")), acc("[]byte")[i] == encAt(node, i))

# --- constructors --------------------------------------------------------------------
def isInt(v) = is(v, "int") || is(v, "int8") || is(v, "int16") || is(v, "int32") || is(v, "int64") || is(v, "uint") || is(v, "uint8") || is(v, "uint16") || is(v, "uint32") || is(v, "uint64")
def intVal(v) = ite(is(v, "int"), as(v, "int"), ite(is(v, "int8"), as(v, "int8"), ite(is(v, "int16"), as(v, "int16"), ite(is(v, "int32"), as(v, "int32"), ite(is(v, "int64"), as(v, "int64"),
   ite(is(v, "uint"), as(v, "uint"), ite(is(v, "uint8"), as(v, "uint8"), ite(is(v, "uint16"), as(v, "uint16"), ite(is(v, "uint32"), as(v, "uint32"), as(v, "uint64"))))))))))
def isVar(v) = is(v, "string")
def varName(v) = as(v, "string")
# no two arguments are the same variable
def distinctVars(a) = forall(i, 0, len(a), isVar(a[i]) ==> forall(j, 0, i, a[j] != a[i]))
# the variables recorded in map m are exactly the string arguments among the first n
def varsOf(m, a, n) = forall(i, 0, n, isVar(a[i]) ==> has(m, varName(a[i])) && m[varName(a[i])] == i) && allk(k, m, 0 <= m[k] && m[k] < n && a[m[k]] == box(k))

# at position i of the argument list: an acceptable value, or a valid variable name
def okInt(w, v) = (isInt(v) && minInt(w) <= intVal(v) && intVal(v) <= maxInt(w)) || (isVar(v) && validName(varName(v)))
def okUint(w, v) = (isInt(v) && 0 <= intVal(v) && intVal(v) <= maxUint(w)) || (isVar(v) && validName(varName(v)))

def noVar(a, n) = forall(i, 0, n, !isVar(a[i]))
func ast.NewIntNode(byteSize, values) (r)
  split byteSize: 1, 2, 4, 8, else
  panics when width: !legalWidth(byteSize)
  panics when size: byteSize * len(values) > MAXB()
  panics when value: !forall(i, 0, len(values), okInt(byteSize, values[i]))
  panics when duplicate: !distinctVars(values)
  ensures is(r, "*ast.IntNode") && as(r, "*ast.IntNode").byteSize == byteSize && len(as(r, "*ast.IntNode").values) == len(values)
  ensures forall(i, 0, len(values), isInt(values[i]) ==> as(r, "*ast.IntNode").values[i] == intVal(values[i]))
  ensures varsOf(as(r, "*ast.IntNode").variables, values, len(values))
  ensures plain: noVar(values, len(values)) ==> len(as(r, "*ast.IntNode").variables) == 0 && nvars(r) == 0
  loop 0 invariant noVar(values, iter) ==> len(mk("map[string]int")) == 0
  loop 0 invariant len(acc("[]int64")) == iter
  loop 0 invariant forall(i, 0, iter, isInt(values[i]) || isVar(values[i]))
  loop 0 invariant forall(i, 0, iter, (isInt(values[i]) ==> acc("[]int64")[i] == intVal(values[i])) && (isVar(values[i]) ==> acc("[]int64")[i] == 0))
  loop 0 invariant varsOf(mk("map[string]int"), values, iter)
  loop 0 invariant forall(i, 0, iter, isVar(values[i]) ==> forall(j, 0, i, values[j] != values[i]))

func ast.IntNode.checkRep(node)
  inline
  loop 0 invariant forall(i, 0, iter, minInt(node.byteSize) <= node.values[i] && node.values[i] <= maxInt(node.byteSize))
  loop 1 invariant allk(k, node.variables, has(rangekeys(), k) ==> 0 <= node.variables[k] && node.variables[k] < len(node.values) && node.values[node.variables[k]] == 0 && validName(k))
  loop 1 invariant allk(q, mk("map[int]bool"), some(k, "string", has(rangekeys(), k) && has(node.variables, k) && node.variables[k] == q))

func ast.NewUintNode(byteSize, values) (r)
  split byteSize: 1, 2, 4, 8, else
  panics when width: !legalWidth(byteSize)
  panics when size: byteSize * len(values) > MAXB()
  panics when value: !forall(i, 0, len(values), okUint(byteSize, values[i]))
  panics when duplicate: !distinctVars(values)
  ensures is(r, "*ast.UintNode") && as(r, "*ast.UintNode").byteSize == byteSize && len(as(r, "*ast.UintNode").values) == len(values)
  ensures forall(i, 0, len(values), isInt(values[i]) ==> as(r, "*ast.UintNode").values[i] == intVal(values[i]))
  ensures varsOf(as(r, "*ast.UintNode").variables, values, len(values))
  ensures plain: noVar(values, len(values)) ==> len(as(r, "*ast.UintNode").variables) == 0 && nvars(r) == 0
  loop 0 invariant noVar(values, iter) ==> len(mk("map[string]int")) == 0
  loop 0 invariant len(acc("[]uint64")) == iter
  loop 0 invariant forall(i, 0, iter, isInt(values[i]) || isVar(values[i]))
  loop 0 invariant forall(i, 0, iter, (isInt(values[i]) ==> 0 <= intVal(values[i]) && acc("[]uint64")[i] == intVal(values[i])) && (isVar(values[i]) ==> acc("[]uint64")[i] == 0))
  loop 0 invariant varsOf(mk("map[string]int"), values, iter)
  loop 0 invariant forall(i, 0, iter, isVar(values[i]) ==> forall(j, 0, i, values[j] != values[i]))

func ast.UintNode.checkRep(node)
  inline
  loop 0 invariant forall(i, 0, iter, 0 <= node.values[i] && node.values[i] <= maxUint(node.byteSize))
  loop 1 invariant allk(k, node.variables, has(rangekeys(), k) ==> 0 <= node.variables[k] && node.variables[k] < len(node.values) && node.values[node.variables[k]] == 0 && validName(k))
  loop 1 invariant allk(q, mk("map[int]bool"), some(k, "string", has(rangekeys(), k) && has(node.variables, k) && node.variables[k] == q))

# floats: every argument becomes the float64 it converts to, and must be finite at the width
def isFlt(v) = isInt(v) || is(v, "float32") || is(v, "float64")
def fltVal(v) = ite(is(v, "float64"), as(v, "float64"), ite(is(v, "float32"), as(v, "float32"), raw("i2f", "F64", intVal(v))))
def okFlt(w, v) = (isFlt(v) && finiteFlt(w, fltVal(v))) || (isVar(v) && validName(varName(v)))

func ast.NewFloatNode(byteSize, values) (r)
  split byteSize: 4, 8, else
  panics when width: byteSize != 4 && byteSize != 8
  panics when size: byteSize * len(values) > MAXB()
  panics when value: !forall(i, 0, len(values), okFlt(byteSize, values[i]))
  panics when duplicate: !distinctVars(values)
  ensures is(r, "*ast.FloatNode") && as(r, "*ast.FloatNode").byteSize == byteSize && len(as(r, "*ast.FloatNode").values) == len(values)
  ensures forall(i, 0, len(values), isFlt(values[i]) ==> as(r, "*ast.FloatNode").values[i] == fltVal(values[i]))
  ensures varsOf(as(r, "*ast.FloatNode").variables, values, len(values))
  ensures plain: noVar(values, len(values)) ==> len(as(r, "*ast.FloatNode").variables) == 0 && nvars(r) == 0
  loop 0 invariant noVar(values, iter) ==> len(mk("map[string]int")) == 0
  loop 0 invariant len(acc("[]float64")) == iter
  loop 0 invariant forall(i, 0, iter, isFlt(values[i]) || isVar(values[i]))
  loop 0 invariant forall(i, 0, iter, (isFlt(values[i]) ==> acc("[]float64")[i] == fltVal(values[i])) && (isVar(values[i]) ==> acc("[]float64")[i] == flt("0")))
  loop 0 invariant varsOf(mk("map[string]int"), values, iter)
  loop 0 invariant forall(i, 0, iter, isVar(values[i]) ==> forall(j, 0, i, values[j] != values[i]))

func ast.FloatNode.checkRep(node)
  inline
  loop 0 invariant forall(i, 0, iter, finiteFlt(node.byteSize, node.values[i]))
  loop 1 invariant allk(k, node.variables, has(rangekeys(), k) ==> 0 <= node.variables[k] && node.variables[k] < len(node.values) && node.values[node.variables[k]] == flt("0") && validName(k))
  loop 1 invariant allk(q, mk("map[int]bool"), some(k, "string", has(rangekeys(), k) && has(node.variables, k) && node.variables[k] == q))

# binary: integers 0..255, "0b..." literals, variables
def isBinLit(v) = isVar(v) && raw("s.hasprefix", "Bool", varName(v), "0b")
def litOk(v) = raw("parseint.ok", "Bool", varName(v), 0, 0)
def litVal(v) = raw("parseint", "Int", varName(v), 0, 0)
def isBinInt(v) = is(v, "int") || is(v, "uint8") || is(v, "int8")
def isBinVar(v) = isVar(v) && !isBinLit(v)
def binVal(v) = ite(isBinInt(v), intVal(v), litVal(v))
def okBin(v) = (isBinInt(v) && 0 <= intVal(v) && intVal(v) <= 255) || (isBinLit(v) && litOk(v) && 0 <= litVal(v) && litVal(v) <= 255) || (isBinVar(v) && validName(varName(v)))
def distinctBinVars(a) = forall(i, 0, len(a), isBinVar(a[i]) ==> forall(j, 0, i, a[j] != a[i]))
def binVarsOf(m, a, n) = forall(i, 0, n, isBinVar(a[i]) ==> has(m, varName(a[i])) && m[varName(a[i])] == i) && allk(k, m, 0 <= m[k] && m[k] < n && a[m[k]] == box(k) && !raw("s.hasprefix", "Bool", k, "0b"))

def noBinVar(a, n) = forall(i, 0, n, !isBinVar(a[i]))
func ast.NewBinaryNode(values) (r)
  panics when size: len(values) > MAXB()
  panics when value: !forall(i, 0, len(values), okBin(values[i]))
  panics when duplicate: !distinctBinVars(values)
  ensures is(r, "*ast.BinaryNode") && len(as(r, "*ast.BinaryNode").values) == len(values)
  ensures forall(i, 0, len(values), !isBinVar(values[i]) ==> as(r, "*ast.BinaryNode").values[i] == binVal(values[i]))
  ensures binVarsOf(as(r, "*ast.BinaryNode").variables, values, len(values))
  ensures plain: noBinVar(values, len(values)) ==> len(as(r, "*ast.BinaryNode").variables) == 0 && nvars(r) == 0
  loop 0 invariant noBinVar(values, iter) ==> len(mk("map[string]int")) == 0
  loop 0 invariant len(acc("[]int")) == iter
  loop 0 invariant forall(i, 0, iter, isBinInt(values[i]) || isBinVar(values[i]) || (isBinLit(values[i]) && litOk(values[i])))
  loop 0 invariant forall(i, 0, iter, (!isBinVar(values[i]) ==> acc("[]int")[i] == binVal(values[i])) && (isBinVar(values[i]) ==> acc("[]int")[i] == 0))
  loop 0 invariant binVarsOf(mk("map[string]int"), values, iter)
  loop 0 invariant forall(i, 0, iter, isBinVar(values[i]) ==> forall(j, 0, i, values[j] != values[i]))

func ast.BinaryNode.checkRep(node)
  inline
  loop 0 invariant forall(i, 0, iter, 0 <= node.values[i] && node.values[i] <= 255)
  loop 1 invariant allk(k, node.variables, has(rangekeys(), k) ==> 0 <= node.variables[k] && node.variables[k] < len(node.values) && node.values[node.variables[k]] == 0 && validName(k))
  loop 1 invariant allk(q, mk("map[int]bool"), some(k, "string", has(rangekeys(), k) && has(node.variables, k) && node.variables[k] == q))

def okBool(v) = is(v, "bool") || (isVar(v) && validName(varName(v)))
func ast.NewBooleanNode(values) (r)
  panics when size: len(values) > MAXB()
  panics when value: !forall(i, 0, len(values), okBool(values[i]))
  panics when duplicate: !distinctVars(values)
  ensures is(r, "*ast.BooleanNode") && len(as(r, "*ast.BooleanNode").values) == len(values)
  ensures forall(i, 0, len(values), is(values[i], "bool") ==> as(r, "*ast.BooleanNode").values[i] == as(values[i], "bool"))
  ensures varsOf(as(r, "*ast.BooleanNode").variables, values, len(values))
  ensures plain: noVar(values, len(values)) ==> len(as(r, "*ast.BooleanNode").variables) == 0 && nvars(r) == 0
  loop 0 invariant noVar(values, iter) ==> len(mk("map[string]int")) == 0
  loop 0 invariant len(acc("[]bool")) == iter
  loop 0 invariant forall(i, 0, iter, is(values[i], "bool") || isVar(values[i]))
  loop 0 invariant forall(i, 0, iter, (is(values[i], "bool") ==> acc("[]bool")[i] == as(values[i], "bool")) && (isVar(values[i]) ==> !acc("[]bool")[i]))
  loop 0 invariant varsOf(mk("map[string]int"), values, iter)
  loop 0 invariant forall(i, 0, iter, isVar(values[i]) ==> forall(j, 0, i, values[j] != values[i]))

func ast.BooleanNode.checkRep(node)
  inline
  loop 0 invariant allk(k, node.variables, has(rangekeys(), k) ==> 0 <= node.variables[k] && node.variables[k] < len(node.values) && !node.values[node.variables[k]] && validName(k))
  loop 0 invariant allk(q, mk("map[int]bool"), some(k, "string", has(rangekeys(), k) && has(node.variables, k) && node.variables[k] == q))

func ast.NewASCIINode(str) (r)
  panics when size: len(str) > MAXB()
  panics when nonascii: !forall(i, 0, len(str), str[i] < 128)
  ensures plain: nvars(r) == 0
  ensures is(r, "*ast.ASCIINode") && as(r, "*ast.ASCIINode").isValue && as(r, "*ast.ASCIINode").value == str

func ast.ASCIINode.checkRep(node)
  inline
  loop 0 invariant forall(i, 0, rangepos(), node.value[i] < 128)

func ast.NewASCIINodeVariable(name, minLength, maxLength) (r)
  panics when name: !validName(name)
  panics when bounds: minLength < 0 || maxLength < -1 || (maxLength != -1 && minLength > maxLength)
  ensures is(r, "*ast.ASCIINode") && !as(r, "*ast.ASCIINode").isValue && as(r, "*ast.ASCIINode").variable.name == name
  ensures as(r, "*ast.ASCIINode").variable.minLength == minLength && as(r, "*ast.ASCIINode").variable.maxLength == maxLength

# --- variables ---------------------------------------------------------------------------
# nvars(x)/varAt(x,i): the names Variables() lists, in order
specfun nvars(Any) Int
specfun varAt(Any, Int) Str
def keyAt(m, i) = raw("keyAt", "Str", m, i)
axiom[C02,C03,C04,C08,C15,C16] var_int(x *ast.IntNode) trig nvars(x) : nvars(x) == len(x.variables)
axiom[C02,C03,C04,C08,C15,C16] var_int_at(x *ast.IntNode, i Int) trig varAt(x, i) : varAt(x, i) == keyAt(x.variables, i)
axiom[C02,C03,C04,C08,C15,C16] var_uint(x *ast.UintNode) trig nvars(x) : nvars(x) == len(x.variables)
axiom[C02,C03,C04,C08,C15,C16] var_uint_at(x *ast.UintNode, i Int) trig varAt(x, i) : varAt(x, i) == keyAt(x.variables, i)
axiom[C02,C03,C04,C08,C15,C16] var_float(x *ast.FloatNode) trig nvars(x) : nvars(x) == len(x.variables)
axiom[C02,C03,C04,C08,C15,C16] var_float_at(x *ast.FloatNode, i Int) trig varAt(x, i) : varAt(x, i) == keyAt(x.variables, i)
axiom[C02,C03,C04,C08,C15,C16] var_binary(x *ast.BinaryNode) trig nvars(x) : nvars(x) == len(x.variables)
axiom[C02,C03,C04,C08,C15,C16] var_binary_at(x *ast.BinaryNode, i Int) trig varAt(x, i) : varAt(x, i) == keyAt(x.variables, i)
axiom[C02,C03,C04,C08,C15,C16] var_boolean(x *ast.BooleanNode) trig nvars(x) : nvars(x) == len(x.variables)
axiom[C02,C03,C04,C08,C15,C16] var_boolean_at(x *ast.BooleanNode, i Int) trig varAt(x, i) : varAt(x, i) == keyAt(x.variables, i)
axiom[C02,C03,C04,C08,C15,C16] var_ascii(x *ast.ASCIINode) trig nvars(x) : nvars(x) == ite(x.isValue, 0, 1)
axiom[C02,C03,C04,C08,C15,C16] var_ascii_at(x *ast.ASCIINode) trig varAt(x, 0) : !x.isValue ==> varAt(x, 0) == x.variable.name
axiom[C02,C03,C04,C08,C15,C16] var_empty(x ast.emptyItemNode) trig nvars(x) : nvars(x) == 0
# name of the variable at position k of a list ("" if that element is a value)
specfun posName(*ast.ListNode, Int) Str
axiom[C02,C03,C04,C08] pos_name(x *ast.ListNode, k Str) trig has(x.variables, k) : has(x.variables, k) ==> posName(x, x.variables[k]) == k
axiom[C02,C03,C04,C08] pos_none(x *ast.ListNode, p Int) trig posName(x, p) : posName(x, p) == "" || (has(x.variables, posName(x, p)) && x.variables[posName(x, p)] == p)
def elVars(x, k) = ite(is(x.values[k], "ast.emptyItemNode"), 1, nvars(x.values[k]))
specfun sumVars(*ast.ListNode, Int) Int
axiom[C02,C03,C04,C08] sumv_zero(l *ast.ListNode) trig sumVars(l, 0) : sumVars(l, 0) == 0
# by induction on k
axiom[C02,C15,C16] sumv_none(l *ast.ListNode, k Int) trig sumVars(l, k) : forall(i, 0, k, elVars(l, i) == 0, l.values[i]) && 0 <= k && k <= len(l.values) ==> sumVars(l, k) == 0
axiom[C02,C03,C04,C08] sumv_step(l *ast.ListNode, k Int) trig sumVars(l, k + 1) : 0 <= k && k < len(l.values) ==> sumVars(l, k + 1) == sumVars(l, k) + elVars(l, k)
axiom[C02,C03,C04,C08,C15,C16] var_list(x *ast.ListNode) trig nvars(x) : nvars(x) == sumVars(x, len(x.values))
axiom[C02,C03,C04,C08,C15,C16] var_list_at(x *ast.ListNode, k Int, i Int) mtrig varAt(x, i), sumVars(x, k) : 0 <= k && k < len(x.values) && sumVars(x, k) <= i && i < sumVars(x, k) + elVars(x, k) ==> \
   varAt(x, i) == ite(is(x.values[k], "ast.emptyItemNode"), posName(x, k), varAt(x.values[k], i - sumVars(x, k)))

func ast.getVariableNames(m) (r)
  trusted
  ensures len(r) == len(m)
  ensures forall(i, 0, len(r), r[i] == keyAt(m, i))
  ensures fresh(r)

iface ast.ItemNode.Variables(self) (r)
  ensures len(r) == nvars(self)
  ensures forall(i, 0, len(r), r[i] == varAt(self, i))
  ensures fresh(r)

func ast.ListNode.Variables(node) (r)
  loop 0 invariant len(acc("[]string")) == sumVars(node, iter)
  loop 0 invariant forall(i, 0, len(acc("[]string")), acc("[]string")[i] == varAt(node, i))
  loop 0 invariant forall(m, 0, len(acc("[]string")), acc("[]string")[m] == varAt(node, m) && exists(k, 0, iter, sumVars(node, k) <= m && m < sumVars(node, k) + elVars(node, k)), varAt(node, m))
  ensures forall(m, 0, len(r), r[m] == varAt(node, m) && exists(k, 0, len(node.values), sumVars(node, k) <= m && m < sumVars(node, k) + elVars(node, k)), varAt(node, m))

func ast.ListNode.variablesSwapKeyValue(node) (r)
  ensures forall(i, 0, len(node.values), has(r, i) <==> posName(node, i) != "")
  ensures forall(i, 0, len(node.values), has(r, i) ==> r[i] == posName(node, i))
  ensures fresh(r)
  loop 0 invariant allk(q, mk("map[int]string"), has(rangekeys(), mk("map[int]string")[q]) && has(node.variables, mk("map[int]string")[q]) && node.variables[mk("map[int]string")[q]] == q)
  loop 0 invariant allk(k, node.variables, has(rangekeys(), k) ==> has(mk("map[int]string"), node.variables[k]) && mk("map[int]string")[node.variables[k]] == k)

def isItem(v) = is(v, "*ast.IntNode") || is(v, "*ast.UintNode") || is(v, "*ast.FloatNode") || is(v, "*ast.BinaryNode") || is(v, "*ast.BooleanNode") || is(v, "*ast.ASCIINode") || is(v, "*ast.ListNode") || is(v, "ast.emptyItemNode")
def okList(v, i) = isItem(v) || (isVar(v) && (validName(varName(v)) || (i > 0 && ellipsis(varName(v)))))
func ast.NewListNode(values) (r)
  panics when size: len(values) > MAXB()
  panics when value: !forall(i, 0, len(values), okList(values[i], i))
  panics when duplicate: !distinctVars(values)
  panics when ellipses: !forall(i, 0, len(values), isVar(values[i]) && ellipsis(varName(values[i])) ==> forall(j, 0, i, !(isVar(values[j]) && ellipsis(varName(values[j])))))
  panics only when nested: !forall(i, 0, len(values), isVar(values[i]) || nvars(values[i]) == 0 && !is(values[i], "ast.emptyItemNode"))
  ensures plain: forall(i, 0, len(values), isItem(values[i]) && !is(values[i], "ast.emptyItemNode") && nvars(values[i]) == 0) ==> nvars(r) == 0
  ensures is(r, "*ast.ListNode") && len(as(r, "*ast.ListNode").values) == len(values)
  ensures forall(i, 0, len(values), isItem(values[i]) ==> as(r, "*ast.ListNode").values[i] == values[i])
  ensures varsOf(as(r, "*ast.ListNode").variables, values, len(values))
  ensures distinct: forall(i, 0, nvars(r), forall(j, 0, i, varAt(r, i) != varAt(r, j)))
  loop 0 invariant len(acc("[]ast.ItemNode")) == iter
  loop 0 invariant forall(i, 0, iter, isItem(values[i]) || isVar(values[i]))
  loop 0 invariant forall(i, 0, iter, (isItem(values[i]) ==> acc("[]ast.ItemNode")[i] == values[i]) && (isVar(values[i]) ==> is(acc("[]ast.ItemNode")[i], "ast.emptyItemNode")))
  loop 0 invariant varsOf(mk("map[string]int"), values, iter)
  loop 0 invariant forall(i, 0, iter, isVar(values[i]) ==> forall(j, 0, i, values[j] != values[i]))

func ast.ListNode.checkRep(node)
  inline
  loop 0 invariant allk(k, node.variables, has(rangekeys(), k) ==> 0 <= node.variables[k] && node.variables[k] < len(node.values) && is(node.values[node.variables[k]], "ast.emptyItemNode") && (validName(k) || ellipsis(k) && node.variables[k] > 0))
  loop 0 invariant allk(q, mk("map[int]bool"), some(k, "string", has(rangekeys(), k) && has(node.variables, k) && node.variables[k] == q))
  loop 0 invariant allk(k, node.variables, has(rangekeys(), k) ==> has(mk("map[int]bool"), node.variables[k]))
  loop 0 invariant allk(k, node.variables, has(rangekeys(), k) ==> allk(j, node.variables, has(rangekeys(), j) && node.variables[j] == node.variables[k] ==> j == k))
  loop 0 invariant acc("bool") <==> some(k, "string", has(rangekeys(), k) && has(node.variables, k) && ellipsis(k))
  loop 0 invariant allk(k, node.variables, has(rangekeys(), k) && ellipsis(k) ==> allk(j, node.variables, has(rangekeys(), j) && ellipsis(j) ==> j == k))
  loop 1 invariant forall(i, 0, iter, has(mk("map[string]bool"), varAt(node, i)))
  loop 1 invariant forall(i, 0, iter, forall(j, 0, i, varAt(node, i) != varAt(node, j)))
  loop 1 invariant allk(q, mk("map[string]bool"), exists(i, 0, iter, varAt(node, i) == q))

nonnil *ast.IntNode, *ast.UintNode, *ast.FloatNode, *ast.BinaryNode, *ast.BooleanNode, *ast.ASCIINode, *ast.ListNode, *ast.DataMessage, *ast.ControlMessage

check C01: ast.ItemNode.ToBytes

check C02: ast.ItemNode.Variables, ast.ListNode.variablesSwapKeyValue, ast.NewIntNode, ast.NewUintNode, ast.NewFloatNode, ast.NewBinaryNode, ast.NewBooleanNode, ast.NewASCIINode, ast.NewASCIINodeVariable, ast.NewListNode
