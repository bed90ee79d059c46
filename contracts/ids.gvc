# GEM identifiers (C27): gem/id_utils.go. A number and a text have one key each, whatever item carries them.
def numKey(n) = "N:" + raw("itoa", "Str", n)
def textKey(s) = "S:" + s
axiom[GEM] itoa_inj(n Int) trig raw("itoa", "Str", n) : raw("atoi!", "Int", raw("itoa", "Str", n)) == n && len(raw("itoa", "Str", n)) >= 1
axiom[C27] cat_tail(a Str, b Str) trig a + b : raw("stail", "Str", a + b, len(a)) == b
def uintId(x) = is(x, "*ast.UintNode") && len(as(x, "*ast.UintNode").values) > 0
def intId(x) = is(x, "*ast.IntNode") && len(as(x, "*ast.IntNode").values) > 0 && as(x, "*ast.IntNode").values[0] >= 0
def textId(x) = is(x, "*ast.ASCIINode") && as(x, "*ast.ASCIINode").symbol == "ascii"
# an identifier item and its key
specfun idOk(Any) bool
specfun idKey(Any) string
axiom[GEM] id_ok(x Any) trig idOk(x) : idOk(x) == (uintId(x) || intId(x) || textId(x))
axiom[GEM] id_text(x *ast.ASCIINode) trig idKey(x) : idKey(x) == textKey(x.value)
axiom[GEM] id_uint(x *ast.UintNode) trig idKey(x) : len(x.values) > 0 ==> idKey(x) == numKey(x.values[0])
axiom[GEM] id_int(x *ast.IntNode) trig idKey(x) : len(x.values) > 0 ==> idKey(x) == numKey(x.values[0])
# what the application is given for it
def rawKey(v) = ite(is(v, "uint64"), numKey(as(v, "uint64")), textKey(as(v, "string")))
def isRaw(v, k) = is(v, "uint64") && k == numKey(as(v, "uint64")) || is(v, "string") && k == textKey(as(v, "string"))
def plain(x) = isItem(x) && !is(x, "ast.emptyItemNode") && nvars(x) == 0
def idIs(i, k) = i.key == k && isRaw(i.raw, k) && idOk(i.node) && idKey(i.node) == k && plain(i.node)
# every registered identifier carries an item and the value of its key
def idWell(i) = idIs(i, i.key)
# different numbers, different texts, and a number and a text never share a key
def sameText(a, b) = len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i])
def isNumber(v) = isInt(v) && intVal(v) >= 0
def ascii(s) = forall(i, 0, len(s), s[i] < 128)
def keyOf(v) = ite(is(v, "string"), textKey(as(v, "string")), numKey(intVal(v)))
func gem.newIDInfo(value) (r, err)
  panics only when is(value, "string") && len(as(value, "string")) > MAXB()
  ensures accepted: (err == nil) == (isNumber(value) || is(value, "string") && ascii(as(value, "string")))
  ensures key: err == nil ==> idIs(r, keyOf(value))
  loop 0 invariant forall(i, 0, iter, as(value, "string")[i] < 128)
func gem.newIDInfoFromNode(node) (r, err)
  requires node == nil || nvars(node) == 0
  ensures accepted: (err == nil) == idOk(node)
  ensures key: err == nil ==> idIs(r, idKey(node))
  ensures nonascii: err == nil && is(r.raw, "string") ==> ascii(as(r.raw, "string")) && len(as(r.raw, "string")) <= MAXB()
func gem.keyForRawID(id) (k, err)
  lemma numbers: all(a, "uint64", all(b, "uint64", numKey(a) == numKey(b) ==> a == b))
  lemma texts: all(a, "string", all(b, "string", textKey(a) == textKey(b) ==> sameText(a, b)))
  lemma kinds: all(a, "uint64", all(b, "string", numKey(a)[0] != textKey(b)[0]))
  ensures (err == nil) == (is(id, "uint64") || is(id, "string")) && (err == nil ==> k == rawKey(id))
check C27: gem.newIDInfo, gem.newIDInfoFromNode, gem.keyForRawID, gem.parseIDRequestList, gem.NewStatusVariable, gem.NewEquipmentConstant, gem.newProcessProgram, gem.parseEquipmentConstantUpdateList
