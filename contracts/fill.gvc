# Filling variables (C08), reading and printing (C07)

# nameOf(x, p): the variable at position p of a leaf item, "" if there is a value
specfun nameOf(Any, Int) Str
axiom[C08] nm_int(x *ast.IntNode, k Str) trig has(x.variables, k) : has(x.variables, k) ==> nameOf(x, x.variables[k]) == k
axiom[C08] nm_int_none(x *ast.IntNode, p Int) trig nameOf(x, p) : nameOf(x, p) == "" || (has(x.variables, nameOf(x, p)) && x.variables[nameOf(x, p)] == p)
invariant ast.IntNode(x): allk(k, x.variables, allk(j, x.variables, x.variables[j] == x.variables[k] ==> j == k))
axiom[C08] nm_uint(x *ast.UintNode, k Str) trig has(x.variables, k) : has(x.variables, k) ==> nameOf(x, x.variables[k]) == k
axiom[C08] nm_uint_none(x *ast.UintNode, p Int) trig nameOf(x, p) : nameOf(x, p) == "" || (has(x.variables, nameOf(x, p)) && x.variables[nameOf(x, p)] == p)
invariant ast.UintNode(x): allk(k, x.variables, allk(j, x.variables, x.variables[j] == x.variables[k] ==> j == k))
axiom[C08] nm_float(x *ast.FloatNode, k Str) trig has(x.variables, k) : has(x.variables, k) ==> nameOf(x, x.variables[k]) == k
axiom[C08] nm_float_none(x *ast.FloatNode, p Int) trig nameOf(x, p) : nameOf(x, p) == "" || (has(x.variables, nameOf(x, p)) && x.variables[nameOf(x, p)] == p)
invariant ast.FloatNode(x): allk(k, x.variables, allk(j, x.variables, x.variables[j] == x.variables[k] ==> j == k))
axiom[C08] nm_binary(x *ast.BinaryNode, k Str) trig has(x.variables, k) : has(x.variables, k) ==> nameOf(x, x.variables[k]) == k
axiom[C08] nm_binary_none(x *ast.BinaryNode, p Int) trig nameOf(x, p) : nameOf(x, p) == "" || (has(x.variables, nameOf(x, p)) && x.variables[nameOf(x, p)] == p)
invariant ast.BinaryNode(x): allk(k, x.variables, allk(j, x.variables, x.variables[j] == x.variables[k] ==> j == k))
axiom[C08] nm_boolean(x *ast.BooleanNode, k Str) trig has(x.variables, k) : has(x.variables, k) ==> nameOf(x, x.variables[k]) == k
axiom[C08] nm_boolean_none(x *ast.BooleanNode, p Int) trig nameOf(x, p) : nameOf(x, p) == "" || (has(x.variables, nameOf(x, p)) && x.variables[nameOf(x, p)] == p)
invariant ast.BooleanNode(x): allk(k, x.variables, allk(j, x.variables, x.variables[j] == x.variables[k] ==> j == k))

# fills(x, d, m, r): r is x with the variables named in d replaced by their values in m
specfun fills(Any, Names, Vals, Any) Bool
def given(n, values) = n != "" && has(values, n)

func ast.IntNode.FillVariables(node, values) (r)
  panics only when bad: !forall(p, 0, len(node.values), given(nameOf(node, p), values) ==> okInt(node.byteSize, values[nameOf(node, p)]) && isInt(values[nameOf(node, p)]))
  ensures is(r, "*ast.IntNode") && len(as(r, "*ast.IntNode").values) == len(node.values) && as(r, "*ast.IntNode").byteSize == node.byteSize
  ensures value: forall(p, 0, len(node.values), nameOf(node, p) == "" ==> as(r, "*ast.IntNode").values[p] == node.values[p] && nameOf(r, p) == "")
  ensures kept: forall(p, 0, len(node.values), nameOf(node, p) != "" && !has(values, nameOf(node, p)) ==> nameOf(r, p) == nameOf(node, p))
  ensures filled: forall(p, 0, len(node.values), given(nameOf(node, p), values) && isInt(values[nameOf(node, p)]) ==> as(r, "*ast.IntNode").values[p] == intVal(values[nameOf(node, p)]) && nameOf(r, p) == "")
  ensures renamed: forall(p, 0, len(node.values), given(nameOf(node, p), values) && !(isInt(values[nameOf(node, p)])) ==> isVar(values[nameOf(node, p)]) && nameOf(r, p) == varName(values[nameOf(node, p)]))
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(p, 0, iter, acc("[]interface{}")[p] == box(node.values[p]))
  loop 1 invariant len(acc("[]interface{}")) == len(node.values)
  loop 1 invariant forall(p, 0, len(node.values), acc("[]interface{}")[p] == ite(nameOf(node, p) != "" && has(rangekeys(), nameOf(node, p)), ite(has(values, nameOf(node, p)), values[nameOf(node, p)], box(nameOf(node, p))), box(node.values[p])))
  loop 1 invariant acc("bool") <==> some(k, "string", has(rangekeys(), k) && has(node.variables, k) && has(values, k))

func ast.UintNode.FillVariables(node, values) (r)
  panics only when bad: !forall(p, 0, len(node.values), given(nameOf(node, p), values) ==> okUint(node.byteSize, values[nameOf(node, p)]) && isInt(values[nameOf(node, p)]))
  ensures is(r, "*ast.UintNode") && len(as(r, "*ast.UintNode").values) == len(node.values) && as(r, "*ast.UintNode").byteSize == node.byteSize
  ensures value: forall(p, 0, len(node.values), nameOf(node, p) == "" ==> as(r, "*ast.UintNode").values[p] == node.values[p] && nameOf(r, p) == "")
  ensures kept: forall(p, 0, len(node.values), nameOf(node, p) != "" && !has(values, nameOf(node, p)) ==> nameOf(r, p) == nameOf(node, p))
  ensures filled: forall(p, 0, len(node.values), given(nameOf(node, p), values) && isInt(values[nameOf(node, p)]) ==> as(r, "*ast.UintNode").values[p] == intVal(values[nameOf(node, p)]) && nameOf(r, p) == "")
  ensures renamed: forall(p, 0, len(node.values), given(nameOf(node, p), values) && !(isInt(values[nameOf(node, p)])) ==> isVar(values[nameOf(node, p)]) && nameOf(r, p) == varName(values[nameOf(node, p)]))
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(p, 0, iter, acc("[]interface{}")[p] == box(node.values[p]))
  loop 1 invariant len(acc("[]interface{}")) == len(node.values)
  loop 1 invariant forall(p, 0, len(node.values), acc("[]interface{}")[p] == ite(nameOf(node, p) != "" && has(rangekeys(), nameOf(node, p)), ite(has(values, nameOf(node, p)), values[nameOf(node, p)], box(nameOf(node, p))), box(node.values[p])))
  loop 1 invariant acc("bool") <==> some(k, "string", has(rangekeys(), k) && has(node.variables, k) && has(values, k))

func ast.FloatNode.FillVariables(node, values) (r)
  panics only when bad: !forall(p, 0, len(node.values), given(nameOf(node, p), values) ==> okFlt(node.byteSize, values[nameOf(node, p)]) && isFlt(values[nameOf(node, p)]))
  ensures is(r, "*ast.FloatNode") && len(as(r, "*ast.FloatNode").values) == len(node.values) && as(r, "*ast.FloatNode").byteSize == node.byteSize
  ensures value: forall(p, 0, len(node.values), nameOf(node, p) == "" ==> as(r, "*ast.FloatNode").values[p] == node.values[p] && nameOf(r, p) == "")
  ensures kept: forall(p, 0, len(node.values), nameOf(node, p) != "" && !has(values, nameOf(node, p)) ==> nameOf(r, p) == nameOf(node, p))
  ensures filled: forall(p, 0, len(node.values), given(nameOf(node, p), values) && isFlt(values[nameOf(node, p)]) ==> as(r, "*ast.FloatNode").values[p] == fltVal(values[nameOf(node, p)]) && nameOf(r, p) == "")
  ensures renamed: forall(p, 0, len(node.values), given(nameOf(node, p), values) && !(isFlt(values[nameOf(node, p)])) ==> isVar(values[nameOf(node, p)]) && nameOf(r, p) == varName(values[nameOf(node, p)]))
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(p, 0, iter, acc("[]interface{}")[p] == box(node.values[p]))
  loop 1 invariant len(acc("[]interface{}")) == len(node.values)
  loop 1 invariant forall(p, 0, len(node.values), acc("[]interface{}")[p] == ite(nameOf(node, p) != "" && has(rangekeys(), nameOf(node, p)), ite(has(values, nameOf(node, p)), values[nameOf(node, p)], box(nameOf(node, p))), box(node.values[p])))
  loop 1 invariant acc("bool") <==> some(k, "string", has(rangekeys(), k) && has(node.variables, k) && has(values, k))

func ast.BinaryNode.FillVariables(node, values) (r)
  panics only when bad: !forall(p, 0, len(node.values), given(nameOf(node, p), values) ==> okBin(values[nameOf(node, p)]) && !isBinVar(values[nameOf(node, p)]))
  ensures is(r, "*ast.BinaryNode") && len(as(r, "*ast.BinaryNode").values) == len(node.values)
  ensures value: forall(p, 0, len(node.values), nameOf(node, p) == "" ==> as(r, "*ast.BinaryNode").values[p] == node.values[p] && nameOf(r, p) == "")
  ensures kept: forall(p, 0, len(node.values), nameOf(node, p) != "" && !has(values, nameOf(node, p)) ==> nameOf(r, p) == nameOf(node, p))
  ensures filled: forall(p, 0, len(node.values), given(nameOf(node, p), values) && !isBinVar(values[nameOf(node, p)]) ==> as(r, "*ast.BinaryNode").values[p] == binVal(values[nameOf(node, p)]) && nameOf(r, p) == "")
  ensures renamed: forall(p, 0, len(node.values), given(nameOf(node, p), values) && !(!isBinVar(values[nameOf(node, p)])) ==> isVar(values[nameOf(node, p)]) && nameOf(r, p) == varName(values[nameOf(node, p)]))
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(p, 0, iter, acc("[]interface{}")[p] == box(node.values[p]))
  loop 1 invariant len(acc("[]interface{}")) == len(node.values)
  loop 1 invariant forall(p, 0, len(node.values), acc("[]interface{}")[p] == ite(nameOf(node, p) != "" && has(rangekeys(), nameOf(node, p)), ite(has(values, nameOf(node, p)), values[nameOf(node, p)], box(nameOf(node, p))), box(node.values[p])))
  loop 1 invariant acc("bool") <==> some(k, "string", has(rangekeys(), k) && has(node.variables, k) && has(values, k))

func ast.BooleanNode.FillVariables(node, values) (r)
  panics only when bad: !forall(p, 0, len(node.values), given(nameOf(node, p), values) ==> okBool(values[nameOf(node, p)]) && is(values[nameOf(node, p)], "bool"))
  ensures is(r, "*ast.BooleanNode") && len(as(r, "*ast.BooleanNode").values) == len(node.values)
  ensures value: forall(p, 0, len(node.values), nameOf(node, p) == "" ==> as(r, "*ast.BooleanNode").values[p] == node.values[p] && nameOf(r, p) == "")
  ensures kept: forall(p, 0, len(node.values), nameOf(node, p) != "" && !has(values, nameOf(node, p)) ==> nameOf(r, p) == nameOf(node, p))
  ensures filled: forall(p, 0, len(node.values), given(nameOf(node, p), values) && is(values[nameOf(node, p)], "bool") ==> as(r, "*ast.BooleanNode").values[p] == as(values[nameOf(node, p)], "bool") && nameOf(r, p) == "")
  ensures renamed: forall(p, 0, len(node.values), given(nameOf(node, p), values) && !(is(values[nameOf(node, p)], "bool")) ==> isVar(values[nameOf(node, p)]) && nameOf(r, p) == varName(values[nameOf(node, p)]))
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(p, 0, iter, acc("[]interface{}")[p] == box(node.values[p]))
  loop 1 invariant len(acc("[]interface{}")) == len(node.values)
  loop 1 invariant forall(p, 0, len(node.values), acc("[]interface{}")[p] == ite(nameOf(node, p) != "" && has(rangekeys(), nameOf(node, p)), ite(has(values, nameOf(node, p)), values[nameOf(node, p)], box(nameOf(node, p))), box(node.values[p])))
  loop 1 invariant acc("bool") <==> some(k, "string", has(rangekeys(), k) && has(node.variables, k) && has(values, k))

axiom[C08] fills_int(x *ast.IntNode, d Names, m Vals, r Any) trig fills(x, d, m, r) : is(r, "*ast.IntNode") && len(as(r, "*ast.IntNode").values) == len(x.values) && as(r, "*ast.IntNode").byteSize == x.byteSize && \
   forall(p, 0, len(x.values), (nameOf(x, p) == "" ==> as(r, "*ast.IntNode").values[p] == x.values[p] && nameOf(r, p) == "") && (nameOf(x, p) != "" && !has(d, nameOf(x, p)) ==> nameOf(r, p) == nameOf(x, p)) && \
     (nameOf(x, p) != "" && has(d, nameOf(x, p)) && isInt(m[nameOf(x, p)]) ==> as(r, "*ast.IntNode").values[p] == intVal(m[nameOf(x, p)]) && nameOf(r, p) == "") && (nameOf(x, p) != "" && has(d, nameOf(x, p)) && !(isInt(m[nameOf(x, p)])) ==> isVar(m[nameOf(x, p)]) && nameOf(r, p) == varName(m[nameOf(x, p)]))) ==> fills(x, d, m, r)

axiom[C08] fills_uint(x *ast.UintNode, d Names, m Vals, r Any) trig fills(x, d, m, r) : is(r, "*ast.UintNode") && len(as(r, "*ast.UintNode").values) == len(x.values) && as(r, "*ast.UintNode").byteSize == x.byteSize && \
   forall(p, 0, len(x.values), (nameOf(x, p) == "" ==> as(r, "*ast.UintNode").values[p] == x.values[p] && nameOf(r, p) == "") && (nameOf(x, p) != "" && !has(d, nameOf(x, p)) ==> nameOf(r, p) == nameOf(x, p)) && \
     (nameOf(x, p) != "" && has(d, nameOf(x, p)) && isInt(m[nameOf(x, p)]) ==> as(r, "*ast.UintNode").values[p] == intVal(m[nameOf(x, p)]) && nameOf(r, p) == "") && (nameOf(x, p) != "" && has(d, nameOf(x, p)) && !(isInt(m[nameOf(x, p)])) ==> isVar(m[nameOf(x, p)]) && nameOf(r, p) == varName(m[nameOf(x, p)]))) ==> fills(x, d, m, r)

axiom[C08] fills_float(x *ast.FloatNode, d Names, m Vals, r Any) trig fills(x, d, m, r) : is(r, "*ast.FloatNode") && len(as(r, "*ast.FloatNode").values) == len(x.values) && as(r, "*ast.FloatNode").byteSize == x.byteSize && \
   forall(p, 0, len(x.values), (nameOf(x, p) == "" ==> as(r, "*ast.FloatNode").values[p] == x.values[p] && nameOf(r, p) == "") && (nameOf(x, p) != "" && !has(d, nameOf(x, p)) ==> nameOf(r, p) == nameOf(x, p)) && \
     (nameOf(x, p) != "" && has(d, nameOf(x, p)) && isFlt(m[nameOf(x, p)]) ==> as(r, "*ast.FloatNode").values[p] == fltVal(m[nameOf(x, p)]) && nameOf(r, p) == "") && (nameOf(x, p) != "" && has(d, nameOf(x, p)) && !(isFlt(m[nameOf(x, p)])) ==> isVar(m[nameOf(x, p)]) && nameOf(r, p) == varName(m[nameOf(x, p)]))) ==> fills(x, d, m, r)

axiom[C08] fills_binary(x *ast.BinaryNode, d Names, m Vals, r Any) trig fills(x, d, m, r) : is(r, "*ast.BinaryNode") && len(as(r, "*ast.BinaryNode").values) == len(x.values) && \
   forall(p, 0, len(x.values), (nameOf(x, p) == "" ==> as(r, "*ast.BinaryNode").values[p] == x.values[p] && nameOf(r, p) == "") && (nameOf(x, p) != "" && !has(d, nameOf(x, p)) ==> nameOf(r, p) == nameOf(x, p)) && \
     (nameOf(x, p) != "" && has(d, nameOf(x, p)) && !isBinVar(m[nameOf(x, p)]) ==> as(r, "*ast.BinaryNode").values[p] == binVal(m[nameOf(x, p)]) && nameOf(r, p) == "") && (nameOf(x, p) != "" && has(d, nameOf(x, p)) && !(!isBinVar(m[nameOf(x, p)])) ==> isVar(m[nameOf(x, p)]) && nameOf(r, p) == varName(m[nameOf(x, p)]))) ==> fills(x, d, m, r)

axiom[C08] fills_boolean(x *ast.BooleanNode, d Names, m Vals, r Any) trig fills(x, d, m, r) : is(r, "*ast.BooleanNode") && len(as(r, "*ast.BooleanNode").values) == len(x.values) && \
   forall(p, 0, len(x.values), (nameOf(x, p) == "" ==> as(r, "*ast.BooleanNode").values[p] == x.values[p] && nameOf(r, p) == "") && (nameOf(x, p) != "" && !has(d, nameOf(x, p)) ==> nameOf(r, p) == nameOf(x, p)) && \
     (nameOf(x, p) != "" && has(d, nameOf(x, p)) && is(m[nameOf(x, p)], "bool") ==> as(r, "*ast.BooleanNode").values[p] == as(m[nameOf(x, p)], "bool") && nameOf(r, p) == "") && (nameOf(x, p) != "" && has(d, nameOf(x, p)) && !(is(m[nameOf(x, p)], "bool")) ==> isVar(m[nameOf(x, p)]) && nameOf(r, p) == varName(m[nameOf(x, p)]))) ==> fills(x, d, m, r)

axiom[C08] name_lit(s Str) trig validName(s) : validName(s) ==> !raw("s.hasprefix", "Bool", s, "0b")
def fitsText(node, s) = len(s) >= node.variable.minLength && (node.variable.maxLength == -1 || len(s) <= node.variable.maxLength) && len(s) <= MAXB() && forall(i, 0, len(s), s[i] < 128)
axiom[C08] fills_ascii(x *ast.ASCIINode, d Names, m Vals, r Any) trig fills(x, d, m, r) : (x.isValue || !has(d, x.variable.name) ==> r == box(x)) &&    (!x.isValue && has(d, x.variable.name) ==> is(r, "*ast.ASCIINode") && as(r, "*ast.ASCIINode").isValue && m[x.variable.name] == box(as(r, "*ast.ASCIINode").value)) ==> fills(x, d, m, r)
axiom[C08] fills_empty(x ast.emptyItemNode, d Names, m Vals, r Any) trig fills(x, d, m, r) : is(r, "ast.emptyItemNode") ==> fills(x, d, m, r)
# a list element that is a variable takes the item or the name given for it; every other element is filled itself
def elemFills(x, d, m, r, p) = ite(posName(x, p) == "", fills(x.values[p], d, m, r.values[p]) && posName(r, p) == "",    ite(has(d, posName(x, p)), ite(isVar(m[posName(x, p)]), posName(r, p) == varName(m[posName(x, p)]), r.values[p] == m[posName(x, p)] && posName(r, p) == ""), posName(r, p) == posName(x, p)))
axiom[C08] fills_list(x *ast.ListNode, d Names, m Vals, r Any) trig fills(x, d, m, r) : is(r, "*ast.ListNode") && len(as(r, "*ast.ListNode").values) == len(x.values) &&    forall(p, 0, len(x.values), elemFills(x, d, m, as(r, "*ast.ListNode"), p)) ==> fills(x, d, m, r)

specfun agree(Names, Vals, Names, Vals) Bool
axiom[C08] agree_intro(d Names, m Vals, e Names, n Vals) trig agree(d, m, e, n) : all(k, "string", (has(d, k) <==> has(e, k)) && (has(d, k) ==> m[k] == n[k])) ==> agree(d, m, e, n)
# fills looks only at the names in d (by induction over its rules)
axiom[C08] fills_agree(x Any, d Names, m Vals, e Names, n Vals, r Any) mtrig fills(x, d, m, r), agree(d, m, e, n) : agree(d, m, e, n) && fills(x, d, m, r) ==> fills(x, e, n, r)
def noRepeat(values) = allk(k, values, !ellipsis(k))
iface ast.ItemNode.FillVariables(self, values) (r)
  panics may
  ensures r != nil
  ensures noRepeat(values) ==> fills(self, mapdom(values), mapval(values), r)

func ast.ASCIINode.FillVariables(node, values) (r)
  panics when bad: !node.isValue && has(values, node.variable.name) && !(is(values[node.variable.name], "string") && fitsText(node, varName(values[node.variable.name])))
  ensures node.isValue || !has(values, node.variable.name) ==> r == box(node)
  ensures !node.isValue && has(values, node.variable.name) ==> is(r, "*ast.ASCIINode") && as(r, "*ast.ASCIINode").isValue && as(r, "*ast.ASCIINode").value == varName(values[node.variable.name])

func ast.ListNode.splitValues(node, values) (e, o)
  ensures fresh(e) && fresh(o) && e != nil && o != nil
  ensures all(k, "string", has(e, k) <==> has(values, k) && ellipsis(k)) && all(k, "string", has(o, k) <==> has(values, k) && !ellipsis(k))
  ensures allk(k, e, e[k] == values[k]) && allk(k, o, o[k] == values[k])
  ensures noRepeat(values) ==> agree(mapdom(o), mapval(o), mapdom(values), mapval(values))
  loop 0 invariant all(k, "string", has(mk("map[string]interface{}", 0), k) <==> has(rangekeys(), k) && has(values, k) && ellipsis(k))
  loop 0 invariant all(k, "string", has(mk("map[string]interface{}", 1), k) <==> has(rangekeys(), k) && has(values, k) && !ellipsis(k))
  loop 0 invariant allk(k, mk("map[string]interface{}", 0), mk("map[string]interface{}", 0)[k] == values[k]) && allk(k, mk("map[string]interface{}", 1), mk("map[string]interface{}", 1)[k] == values[k])

func ast.ListNode.ellipsisAnalysis(node, values) (f, g)
  panics may
  ensures !some(k, "string", has(values, k)) ==> f == 0
  loop 0 invariant !some(k, "string", has(values, k)) ==> acc("int", 0) == 0
  loop 1 invariant !some(k, "string", has(values, k)) ==> acc("int", 0) == 0

func ast.ListNode.fillEllipsis(node, values, state) (r)
  panics may
  requires base(state.currentIndices) >= 0
  modifies state.currentDimension, state.currentIndices, state.ellipsisCount, backing(state.currentIndices)
  ensures is(r, "*ast.ListNode")
  ensures base(state.currentIndices) == old(base(state.currentIndices)) || fresh(state.currentIndices)
  loop 0 invariant base(state.currentIndices) == old(base(state.currentIndices)) || fresh(state.currentIndices)
  loop 1 invariant base(state.currentIndices) == old(base(state.currentIndices)) || fresh(state.currentIndices)
  loop 2 invariant base(state.currentIndices) == old(base(state.currentIndices)) || fresh(state.currentIndices)

def elemOf(x, d, m, v, p) = ite(posName(x, p) == "", isItem(v) && (!is(x.values[p], "ast.emptyItemNode") ==> fills(x.values[p], d, m, v)), true)
func ast.ListNode.FillVariables(node, values) (r)
  panics may
  ensures is(r, "*ast.ListNode")
  ensures noRepeat(values) ==> len(as(r, "*ast.ListNode").values) == len(node.values)
  ensures elems: noRepeat(values) ==> forall(p, 0, len(node.values), elemFills(node, mapdom(values), mapval(values), as(r, "*ast.ListNode"), p))
  loop 0 invariant noRepeat(values) ==> len(acc("[]interface{}")) == iter
  loop 0 invariant noRepeat(values) ==> forall(p, 0, iter, isItem(acc("[]interface{}")[p]) && fills(node.values[p], mapdom(values), mapval(values), acc("[]interface{}")[p]))
  loop 1 invariant noRepeat(values) ==> len(acc("[]interface{}")) == len(node.values)
  loop 1 invariant noRepeat(values) ==> forall(p, 0, len(node.values), ite(posName(node, p) != "" && has(rangekeys(), posName(node, p)), acc("[]interface{}")[p] == ite(has(values, posName(node, p)), values[posName(node, p)], box(posName(node, p))), \
    isItem(acc("[]interface{}")[p]) && fills(node.values[p], mapdom(values), mapval(values), acc("[]interface{}")[p])))

check C08: ast.ItemNode.FillVariables, ast.ListNode.splitValues, ast.ListNode.ellipsisAnalysis, ast.ListNode.fillEllipsis

func ast.DataMessage.FillVariables(node, values) (r)
  panics may
  ensures sameBut(r, node) && r.waitBit == node.waitBit && r.sessionID == node.sessionID && forall(i, 0, 4, r.systemBytes[i] == node.systemBytes[i])
  ensures noRepeat(values) ==> fills(node.dataItem, mapdom(values), mapval(values), r.dataItem)
check C08: ast.DataMessage.FillVariables
