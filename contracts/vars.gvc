# GEM variables (C22, C23, C24): gem/status_variables.go, data_variables.go, equipment_constants.go, status_equipment_handlers.go
# steps counts the times a current value was asked for; xxYield[x][v] is the last step at which x gave v,
# xxFail[x] the last step at which x gave none
ghost steps int
ghost svYield (Array Int (Array Any Int))
ghost svFail (Array Int Int)
ghost provCalls int
ghost provAsked int
ghost provVal Any
ghost provFailed bool
def emptyList(v) = is(v, "*ast.ListNode") && listLen(v) == 0 && nvars(v) == 0
def shortText(s) = ascii(s) && len(s) <= MAXB()
def itemOrNil(v) = v == nil || plain(v)
assume values and identifiers given by the application are items without variables (and not the empty item); names and units are ASCII

functype gem.StatusValueProvider(fn) (v, err)
  sets provCalls := provCalls + 1
  sets provAsked := fn
  modifies provVal, provFailed
  ensures provVal == v && provFailed == (err != nil) && (err == nil ==> itemOrNil(v))
monitor gem.StatusVariable.mu (self): value, provider
  invariant itemOrNil(self.value)
end
functype gem.StatusVariableOption(fn, sv)
  modifies sv.value, sv.provider, sv.Name, sv.Unit
func gem.NewStatusVariable(id, name, unit, opts) (sv, err)
  requires forall(i, 0, len(opts), opts[i] != nil)
  panics only when is(id, "string") && len(as(id, "string")) > MAXB()
  ensures (err == nil) == (isNumber(id) || is(id, "string") && ascii(as(id, "string")))
  ensures err == nil ==> sv != nil && fresh(sv) && idIs(sv.info, keyOf(id))
func gem.StatusVariable.SetValue(sv, node)
  requires sv != nil && itemOrNil(node)
  modifies sv.value, sv.provider
  ensures sv.value == node && sv.provider == acq(sv.provider)
func gem.StatusVariable.SetValueProvider(sv, p)
  requires sv != nil
  modifies sv.value, sv.provider
  ensures sv.value == acq(sv.value) && sv.provider == p
func gem.StatusVariable.Value(sv) (v, err)
  requires sv != nil && idWell(sv.info)
  modifies sv.value, sv.provider, provCalls, provAsked, provVal, provFailed
  sets steps := steps + 1
  records svYield := ite(err == nil && v != nil, store(svYield, sv, store(svYield[sv], v, steps)), svYield)
  records svFail := ite(err == nil && v != nil, svFail, store(svFail, sv, steps))
  ensures provider: acq(sv.provider) != nil ==> provCalls == old(provCalls) + 1 && provAsked == acq(sv.provider) && v == provVal && (err != nil) == provFailed
  ensures stored: acq(sv.provider) == nil ==> (err == nil) == (acq(sv.value) != nil) && v == acq(sv.value)
  ensures item: err == nil ==> itemOrNil(v)

monitor gem.GemHandler.statusMu (self): statusVars, statusOrder
  invariant keyed: allk(k, self.statusVars, self.statusVars[k] != nil && idIs(self.statusVars[k].info, k))
  invariant named: allk(k, self.statusVars, shortText(self.statusVars[k].Name) && shortText(self.statusVars[k].Unit))
  invariant order: forall(i, 0, len(self.statusOrder), has(self.statusVars, self.statusOrder[i])) && base(self.statusOrder) >= 0
  invariant map: self.statusVars != nil
end
func gem.GemHandler.RegisterStatusVariable(g, v) (err)
  requires g != nil
  requires v != nil ==> idWell(v.info) && shortText(v.Name) && shortText(v.Unit)
  modifies *
  ensures refused: v == nil || g.deviceType != 1 ==> err != nil
  ensures twice: v != nil && g.deviceType == 1 ==> (err != nil) == acq(has(g.statusVars, v.info.key))
  ensures added: err == nil ==> rel("gem.GemHandler.statusMu", g.statusVars[v.info.key]) == v &&     rel("gem.GemHandler.statusMu", len(g.statusOrder)) == acq(len(g.statusOrder)) + 1 && rel("gem.GemHandler.statusMu", g.statusOrder[len(g.statusOrder) - 1]) == v.info.key
  ensures kept: err == nil ==> forall(i, 0, acq(len(g.statusOrder)), rel("gem.GemHandler.statusMu", g.statusOrder[i]) == acq(g.statusOrder[i]))

def svNow(sv, v, t) = svYield[sv][v] > t || emptyList(v) && svFail[sv] > t
def reqOk(rs) = forall(i, 0, len(rs), rs[i].ok ==> idWell(rs[i].info))
func gem.GemHandler.resolveStatusValues(g, requests) (r)
  requires g != nil && g.logger != nil && reqOk(requests)
  modifies anydeep("gem.GemHandler.statusVars"), anydeep("gem.GemHandler.statusOrder"), anyof("gem.StatusVariable.value"), anyof("gem.StatusVariable.provider"), provCalls, provAsked, provVal, provFailed, steps, svYield, svFail
  ensures all: len(requests) == 0 ==> len(r) == len(acq(g.statusOrder)) && forall(i, 0, len(r), svNow(acq(g.statusVars[g.statusOrder[i]]), r[i], old(steps)))
  ensures each: len(requests) > 0 ==> len(r) == len(requests) && forall(i, 0, len(r), \
    ite(requests[i].ok && acq(has(g.statusVars, requests[i].info.key)), svNow(acq(g.statusVars[requests[i].info.key]), r[i], old(steps)), emptyList(r[i])))
  ensures items: forall(i, 0, len(r), plain(r[i]))
  loop 0 invariant steps >= old(steps) && len(acc("[]ast.ItemNode")) == iter
  loop 0 invariant forall(i, 0, iter, svNow(g.statusVars[g.statusOrder[i]], acc("[]ast.ItemNode")[i], old(steps)) && plain(acc("[]ast.ItemNode")[i]))
  loop 1 invariant steps >= old(steps) && len(acc("[]ast.ItemNode")) == iter
  loop 1 invariant forall(i, 0, iter, plain(acc("[]ast.ItemNode")[i]) && \
    ite(requests[i].ok && has(g.statusVars, requests[i].info.key), svNow(g.statusVars[requests[i].info.key], acc("[]ast.ItemNode")[i], old(steps)), emptyList(acc("[]ast.ItemNode")[i])))
def listIs(d, vs) = is(d, "*ast.ListNode") && listLen(d) == len(vs) && forall(i, 0, len(vs), listAt(d, i) == vs[i])
func gem.GemHandler.buildS1F4(g, values) (m)
  requires forall(i, 0, len(values), plain(values[i]))
  panics only when len(values) > MAXB()
  ensures answer(m, 1, 4) && listIs(m.dataItem, values)
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(i, 0, iter, acc("[]interface{}")[i] == values[i])
func gem.GemHandler.buildS1F12(g, values) (m)
  requires forall(i, 0, len(values), plain(values[i]))
  panics only when len(values) > MAXB()
  ensures answer(m, 1, 12) && listIs(m.dataItem, values)
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(i, 0, iter, acc("[]interface{}")[i] == values[i])

def isText(d) = is(d, "*ast.ASCIINode")
def textOf(d) = as(d, "*ast.ASCIINode").value
def textIs(d, s) = isText(d) && textOf(d) == s
# a name-list entry: identifier item, name, unit
def infoIs(v, k, name, unit) = is(v, "*ast.ListNode") && listLen(v) == 3 && idOk(listAt(v, 0)) && idKey(listAt(v, 0)) == k && textIs(listAt(v, 1), name) && textIs(listAt(v, 2), unit)
def noInfo(v) = is(v, "*ast.ListNode") && listLen(v) == 3 && emptyList(listAt(v, 0)) && textIs(listAt(v, 1), "") && textIs(listAt(v, 2), "")
def svInfo(sv, v) = infoIs(v, sv.info.key, sv.Name, sv.Unit)
func gem.GemHandler.resolveStatusInfo(g, requests) (r)
  requires g != nil && reqOk(requests)
  modifies anydeep("gem.GemHandler.statusVars"), anydeep("gem.GemHandler.statusOrder")
  ensures all: len(requests) == 0 ==> len(r) == len(acq(g.statusOrder)) && forall(i, 0, len(r), svInfo(acq(g.statusVars[g.statusOrder[i]]), r[i]))
  ensures each: len(requests) > 0 ==> len(r) == len(requests) && forall(i, 0, len(r), \
    ite(!requests[i].ok, noInfo(r[i]), ite(acq(has(g.statusVars, requests[i].info.key)), svInfo(acq(g.statusVars[requests[i].info.key]), r[i]), infoIs(r[i], requests[i].info.key, "", ""))))
  ensures items: forall(i, 0, len(r), plain(r[i]))
  loop 0 invariant len(acc("[]ast.ItemNode")) == iter
  loop 0 invariant forall(i, 0, iter, svInfo(g.statusVars[g.statusOrder[i]], acc("[]ast.ItemNode")[i]) && plain(acc("[]ast.ItemNode")[i]))
  loop 1 invariant len(acc("[]ast.ItemNode")) == iter
  loop 1 invariant forall(i, 0, iter, plain(acc("[]ast.ItemNode")[i]) && \
    ite(!requests[i].ok, noInfo(acc("[]ast.ItemNode")[i]), ite(has(g.statusVars, requests[i].info.key), svInfo(g.statusVars[requests[i].info.key], acc("[]ast.ItemNode")[i]), infoIs(acc("[]ast.ItemNode")[i], requests[i].info.key, "", ""))))

# the elements of a list without variables have none (sums of counts)
axiom[GEM] plain_el(x *ast.ListNode, i Int) mtrig nvars(x), x.values[i] : 0 <= i && i < len(x.values) && nvars(x) == 0 ==> plain(x.values[i])
def isList(d) = is(d, "*ast.ListNode")
# messages come from the wire: an item without variables
def wire(msg) = msg == nil || nvars(msg.dataItem) == 0
assume messages given to the handlers were parsed from the wire: their items carry no variables
func gem.parseIDRequestList(msg) (r, err)
  requires wire(msg)
  ensures list: (err == nil) == (msg != nil && isList(msg.dataItem))
  ensures from: err == nil ==> len(r) == listLen(msg.dataItem) && forall(i, 0, len(r), r[i].ok == idOk(listAt(msg.dataItem, i)) && (r[i].ok ==> idIs(r[i].info, idKey(listAt(msg.dataItem, i)))))
  ensures each: err == nil ==> len(r) == listLen(msg.dataItem) && forall(i, 0, len(r), r[i].ok == idOk(listAt(msg.dataItem, i)) && (r[i].ok ==> idIs(r[i].info, idKey(listAt(msg.dataItem, i)))), listAt(msg.dataItem, i))
  loop 0 invariant len(acc("[]gem.idRequest")) == iter && 0 <= iter && iter <= listLen(msg.dataItem)
  loop 0 invariant forall(i, 0, iter, acc("[]gem.idRequest")[i].ok == idOk(listAt(msg.dataItem, i)) && (acc("[]gem.idRequest")[i].ok ==> idIs(acc("[]gem.idRequest")[i].info, idKey(listAt(msg.dataItem, i)))))
def asksAll(msg) = isList(msg.dataItem) && listLen(msg.dataItem) == 0
def asks(msg) = isList(msg.dataItem) && listLen(msg.dataItem) > 0
def asked(msg, i) = listAt(msg.dataItem, i)
func gem.GemHandler.onS1F3(g, msg) (r, err)
  requires g != nil && g.logger != nil && msg != nil && wire(msg)
  modifies *
  panics only when asksAll(msg) && len(acq(g.statusOrder)) > MAXB()
  ensures answered: err == nil && answer(r, 1, 4) && isList(r.dataItem)
  ensures malformed: !isList(msg.dataItem) ==> listLen(r.dataItem) == 0
  ensures all: asksAll(msg) ==> listLen(r.dataItem) == len(acq(g.statusOrder)) && forall(i, 0, listLen(r.dataItem), svNow(acq(g.statusVars[g.statusOrder[i]]), listAt(r.dataItem, i), old(steps)))
  ensures each: asks(msg) ==> listLen(r.dataItem) == listLen(msg.dataItem) && forall(i, 0, listLen(r.dataItem), \
    ite(idOk(asked(msg, i)) && acq(has(g.statusVars, idKey(asked(msg, i)))), svNow(acq(g.statusVars[idKey(asked(msg, i))]), listAt(r.dataItem, i), old(steps)), emptyList(listAt(r.dataItem, i))))
func gem.GemHandler.onS1F11(g, msg) (r, err)
  requires g != nil && g.logger != nil && msg != nil && wire(msg)
  modifies *
  panics only when asksAll(msg) && len(acq(g.statusOrder)) > MAXB()
  ensures answered: err == nil && answer(r, 1, 12) && isList(r.dataItem)
  ensures malformed: !isList(msg.dataItem) ==> listLen(r.dataItem) == 0
  ensures all: asksAll(msg) ==> listLen(r.dataItem) == len(acq(g.statusOrder)) && forall(i, 0, listLen(r.dataItem), svInfo(acq(g.statusVars[g.statusOrder[i]]), listAt(r.dataItem, i)))
  ensures each: asks(msg) ==> listLen(r.dataItem) == listLen(msg.dataItem) && forall(i, 0, listLen(r.dataItem), \
    ite(!idOk(asked(msg, i)), noInfo(listAt(r.dataItem, i)), ite(acq(has(g.statusVars, idKey(asked(msg, i)))), svInfo(acq(g.statusVars[idKey(asked(msg, i))]), listAt(r.dataItem, i)), infoIs(listAt(r.dataItem, i), idKey(asked(msg, i)), "", ""))))
check C23: gem.NewStatusVariable, gem.StatusVariable.*, gem.GemHandler.RegisterStatusVariable, gem.GemHandler.resolveStatusValues, gem.GemHandler.resolveStatusInfo, gem.GemHandler.buildS1F4, gem.GemHandler.buildS1F12, gem.parseIDRequestList, gem.GemHandler.onS1F3, gem.GemHandler.onS1F11

# equipment constants (C24)
ghost ecYield (Array Int (Array Any Int))
ghost ecFail (Array Int Int)
# ecStores counts the values stored, ecHeld[c] is the value last stored in c; ecValid[c][v], ecGiven[c][v]: the
# last step at which the validator accepted v, the updater took v; ecRefusals: validators and updaters refusing
ghost ecStores int
ghost ecHeld (Array Int Any)
ghost ecValid (Array Int (Array Any Int))
ghost ecGiven (Array Int (Array Any Int))
ghost ecRefusals int
ghost userAsked int
ghost userGot Any
ghost userNo bool
functype gem.EquipmentConstantValueProvider(fn) (v, err)
  sets provCalls := provCalls + 1
  sets provAsked := fn
  modifies provVal, provFailed
  ensures provVal == v && provFailed == (err != nil) && (err == nil ==> itemOrNil(v))
functype gem.EquipmentConstantValueUpdater(fn, v) (err)
  sets userAsked := fn
  sets userGot := v
  modifies userNo
  ensures userNo == (err != nil)
functype gem.EquipmentConstantValueValidator(fn, v) (err)
  sets userAsked := fn
  sets userGot := v
  modifies userNo
  ensures userNo == (err != nil)
functype gem.EquipmentConstantOption(fn, ec)
  modifies ec.value, ec.provider, ec.updater, ec.validator, ec.Name, ec.Unit, ec.MinValue, ec.MaxValue, ec.DefaultValue
monitor gem.EquipmentConstant.mu (self): value, provider, updater, validator
  invariant itemOrNil(self.value)
end
assume constants are registered as their constructor made them, with a default value
def ecWell(c) = c != nil && idWell(c.info) && shortText(c.Name) && shortText(c.Unit) && itemOrNil(c.MinValue) && itemOrNil(c.MaxValue) && itemOrNil(c.DefaultValue)
func gem.NewEquipmentConstant(id, name, value, opts) (c, err)
  requires forall(i, 0, len(opts), opts[i] != nil) && itemOrNil(value)
  panics only when is(id, "string") && len(as(id, "string")) > MAXB()
  ensures (err == nil) == (value != nil && (isNumber(id) || is(id, "string") && ascii(as(id, "string"))))
  ensures err == nil ==> c != nil && fresh(c) && idIs(c.info, keyOf(id))
func gem.EquipmentConstant.Value(ec) (v, err)
  requires ecWell(ec)
  modifies ec.value, ec.provider, ec.updater, ec.validator, provCalls, provAsked, provVal, provFailed
  sets steps := steps + 1
  records ecYield := ite(err == nil && v != nil, store(ecYield, ec, store(ecYield[ec], v, steps)), ecYield)
  records ecFail := ite(err == nil && v != nil, ecFail, store(ecFail, ec, steps))
  ensures provider: acq(ec.provider) != nil ==> provCalls == old(provCalls) + 1 && provAsked == acq(ec.provider) && v == provVal && (err != nil) == provFailed
  ensures stored: acq(ec.provider) == nil ==> err == nil && v == ite(acq(ec.value) != nil, acq(ec.value), ec.DefaultValue)
  ensures item: err == nil ==> itemOrNil(v)
def ecRest(ec) = ec.provider == acq(ec.provider) && ec.updater == acq(ec.updater) && ec.validator == acq(ec.validator)
func gem.EquipmentConstant.validateValue(ec, v) (err)
  requires ecWell(ec)
  modifies ec.value, ec.provider, ec.updater, ec.validator, userAsked, userGot, userNo
  sets steps := steps + 1
  records ecValid := ite(err == nil, store(ecValid, ec, store(ecValid[ec], v, steps)), ecValid)
  records ecRefusals := ite(err == nil, ecRefusals, ecRefusals + 1)
  ensures none: v == nil ==> err != nil
  ensures asked: v != nil && acq(ec.validator) != nil ==> userAsked == acq(ec.validator) && userGot == v && (err != nil) == userNo
  ensures free: v != nil && acq(ec.validator) == nil ==> err == nil
  ensures kept: v != nil ==> ec.value == acq(ec.value) && ecRest(ec)
func gem.EquipmentConstant.forwardValue(ec, v) (err)
  requires ecWell(ec)
  modifies ec.value, ec.provider, ec.updater, ec.validator, userAsked, userGot, userNo
  sets steps := steps + 1
  records ecGiven := ite(err == nil, store(ecGiven, ec, store(ecGiven[ec], v, steps)), ecGiven)
  records ecRefusals := ite(err == nil, ecRefusals, ecRefusals + 1)
  ensures asked: acq(ec.updater) != nil ==> userAsked == acq(ec.updater) && userGot == v && (err != nil) == userNo
  ensures free: acq(ec.updater) == nil ==> err == nil
  ensures kept: ec.value == acq(ec.value) && ecRest(ec)
func gem.EquipmentConstant.storeValue(ec, v)
  requires ecWell(ec) && itemOrNil(v)
  modifies ec.value, ec.provider, ec.updater, ec.validator
  sets ecStores := ecStores + 1
  records ecHeld := store(ecHeld, ec, v)
  ensures holds: ec.value == ite(acq(ec.provider) == nil, v, acq(ec.value))
  ensures rest: ecRest(ec)
func gem.EquipmentConstant.ApplyValue(ec, v) (err)
  requires ecWell(ec) && itemOrNil(v)
  modifies ec.value, ec.provider, ec.updater, ec.validator, userAsked, userGot, userNo, steps, ecValid, ecGiven, ecRefusals, ecStores, ecHeld
  ensures applied: err == nil ==> ecStores == old(ecStores) + 1 && ecHeld[ec] == v && ecValid[ec][v] > old(steps) && ecGiven[ec][v] > old(steps)
  ensures refused: err != nil ==> ecStores == old(ecStores)

monitor gem.GemHandler.ecMu (self): equipmentConstants, ecOrder
  invariant keyed: allk(k, self.equipmentConstants, ecWell(self.equipmentConstants[k]) && self.equipmentConstants[k].info.key == k)
  invariant order: forall(i, 0, len(self.ecOrder), has(self.equipmentConstants, self.ecOrder[i])) && base(self.ecOrder) >= 0
  invariant map: self.equipmentConstants != nil
end
func gem.GemHandler.RegisterEquipmentConstant(g, c) (err)
  requires g != nil && (c != nil ==> ecWell(c))
  modifies *
  ensures refused: c == nil || g.deviceType != 1 ==> err != nil
  ensures twice: c != nil && g.deviceType == 1 ==> (err != nil) == acq(has(g.equipmentConstants, c.info.key))
  ensures added: err == nil ==> rel("gem.GemHandler.ecMu", g.equipmentConstants[c.info.key]) == c && \
    rel("gem.GemHandler.ecMu", len(g.ecOrder)) == acq(len(g.ecOrder)) + 1 && rel("gem.GemHandler.ecMu", g.ecOrder[len(g.ecOrder) - 1]) == c.info.key
  ensures kept: err == nil ==> forall(i, 0, acq(len(g.ecOrder)), rel("gem.GemHandler.ecMu", g.ecOrder[i]) == acq(g.ecOrder[i]))

def ecNow(c, v, t) = ecYield[c][v] > t || emptyList(v) && ecFail[c] > t
func gem.GemHandler.resolveEquipmentConstantValues(g, requests) (r)
  requires g != nil && g.logger != nil && reqOk(requests)
  modifies anydeep("gem.GemHandler.equipmentConstants"), anydeep("gem.GemHandler.ecOrder"), anyof("gem.EquipmentConstant.value"), anyof("gem.EquipmentConstant.provider"), anyof("gem.EquipmentConstant.updater"), anyof("gem.EquipmentConstant.validator"), provCalls, provAsked, provVal, provFailed, steps, ecYield, ecFail
  ensures all: len(requests) == 0 ==> len(r) == len(acq(g.ecOrder)) && forall(i, 0, len(r), ecNow(acq(g.equipmentConstants[g.ecOrder[i]]), r[i], old(steps)))
  ensures each: len(requests) > 0 ==> len(r) == len(requests) && forall(i, 0, len(r), \
    ite(requests[i].ok && acq(has(g.equipmentConstants, requests[i].info.key)), ecNow(acq(g.equipmentConstants[requests[i].info.key]), r[i], old(steps)), emptyList(r[i])))
  ensures items: forall(i, 0, len(r), plain(r[i]))
  loop 0 invariant steps >= old(steps) && len(acc("[]ast.ItemNode")) == iter
  loop 0 invariant forall(i, 0, iter, ecNow(g.equipmentConstants[g.ecOrder[i]], acc("[]ast.ItemNode")[i], old(steps)) && plain(acc("[]ast.ItemNode")[i]))
  loop 1 invariant steps >= old(steps) && len(acc("[]ast.ItemNode")) == iter
  loop 1 invariant forall(i, 0, iter, plain(acc("[]ast.ItemNode")[i]) && \
    ite(requests[i].ok && has(g.equipmentConstants, requests[i].info.key), ecNow(g.equipmentConstants[requests[i].info.key], acc("[]ast.ItemNode")[i], old(steps)), emptyList(acc("[]ast.ItemNode")[i])))
def orEmpty(v, w) = ite(w == nil, emptyList(v), v == w)
def ecInfo(c, v) = isList(v) && listLen(v) == 6 && idOk(listAt(v, 0)) && idKey(listAt(v, 0)) == c.info.key && textIs(listAt(v, 1), c.Name) && \
  orEmpty(listAt(v, 2), c.MinValue) && orEmpty(listAt(v, 3), c.MaxValue) && orEmpty(listAt(v, 4), c.DefaultValue) && textIs(listAt(v, 5), c.Unit)
def ecBlank(v) = isList(v) && listLen(v) == 6 && textIs(listAt(v, 1), "") && emptyList(listAt(v, 2)) && emptyList(listAt(v, 3)) && emptyList(listAt(v, 4)) && textIs(listAt(v, 5), "")
def ecUnknown(k, v) = ecBlank(v) && idOk(listAt(v, 0)) && idKey(listAt(v, 0)) == k
def ecNone(v) = ecBlank(v) && emptyList(listAt(v, 0))
func gem.GemHandler.resolveEquipmentConstantInfo(g, requests) (r)
  requires g != nil && reqOk(requests)
  modifies anydeep("gem.GemHandler.equipmentConstants"), anydeep("gem.GemHandler.ecOrder")
  ensures all: len(requests) == 0 ==> len(r) == len(acq(g.ecOrder)) && forall(i, 0, len(r), ecInfo(acq(g.equipmentConstants[g.ecOrder[i]]), r[i]))
  ensures each: len(requests) > 0 ==> len(r) == len(requests) && forall(i, 0, len(r), \
    ite(!requests[i].ok, ecNone(r[i]), ite(acq(has(g.equipmentConstants, requests[i].info.key)), ecInfo(acq(g.equipmentConstants[requests[i].info.key]), r[i]), ecUnknown(requests[i].info.key, r[i]))))
  ensures items: forall(i, 0, len(r), plain(r[i]))
  loop 0 invariant len(acc("[]ast.ItemNode")) == iter
  loop 0 invariant forall(i, 0, iter, ecInfo(g.equipmentConstants[g.ecOrder[i]], acc("[]ast.ItemNode")[i]) && plain(acc("[]ast.ItemNode")[i]))
  loop 1 invariant len(acc("[]ast.ItemNode")) == iter
  loop 1 invariant forall(i, 0, iter, plain(acc("[]ast.ItemNode")[i]) && \
    ite(!requests[i].ok, ecNone(acc("[]ast.ItemNode")[i]), ite(has(g.equipmentConstants, requests[i].info.key), ecInfo(g.equipmentConstants[requests[i].info.key], acc("[]ast.ItemNode")[i]), ecUnknown(requests[i].info.key, acc("[]ast.ItemNode")[i]))))
func gem.GemHandler.buildS2F14(g, values) (m)
  requires forall(i, 0, len(values), plain(values[i]))
  panics only when len(values) > MAXB()
  ensures answer(m, 2, 14) && listIs(m.dataItem, values)
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(i, 0, iter, acc("[]interface{}")[i] == values[i])
func gem.GemHandler.buildS2F30(g, values) (m)
  requires forall(i, 0, len(values), plain(values[i]))
  panics only when len(values) > MAXB()
  ensures answer(m, 2, 30) && listIs(m.dataItem, values)
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(i, 0, iter, acc("[]interface{}")[i] == values[i])
func gem.GemHandler.onS2F13(g, msg) (r, err)
  requires g != nil && g.logger != nil && msg != nil && wire(msg)
  modifies *
  panics only when asksAll(msg) && len(acq(g.ecOrder)) > MAXB()
  ensures answered: err == nil && answer(r, 2, 14) && isList(r.dataItem)
  ensures malformed: !isList(msg.dataItem) ==> listLen(r.dataItem) == 0
  ensures all: asksAll(msg) ==> listLen(r.dataItem) == len(acq(g.ecOrder)) && forall(i, 0, listLen(r.dataItem), ecNow(acq(g.equipmentConstants[g.ecOrder[i]]), listAt(r.dataItem, i), old(steps)))
  ensures each: asks(msg) ==> listLen(r.dataItem) == listLen(msg.dataItem) && forall(i, 0, listLen(r.dataItem), \
    ite(idOk(asked(msg, i)) && acq(has(g.equipmentConstants, idKey(asked(msg, i)))), ecNow(acq(g.equipmentConstants[idKey(asked(msg, i))]), listAt(r.dataItem, i), old(steps)), emptyList(listAt(r.dataItem, i))))
func gem.GemHandler.onS2F29(g, msg) (r, err)
  requires g != nil && g.logger != nil && msg != nil && wire(msg)
  modifies *
  panics only when asksAll(msg) && len(acq(g.ecOrder)) > MAXB()
  ensures answered: err == nil && answer(r, 2, 30) && isList(r.dataItem)
  ensures malformed: !isList(msg.dataItem) ==> listLen(r.dataItem) == 0
  ensures all: asksAll(msg) ==> listLen(r.dataItem) == len(acq(g.ecOrder)) && forall(i, 0, listLen(r.dataItem), ecInfo(acq(g.equipmentConstants[g.ecOrder[i]]), listAt(r.dataItem, i)))
  ensures each: asks(msg) ==> listLen(r.dataItem) == listLen(msg.dataItem) && forall(i, 0, listLen(r.dataItem), \
    ite(!idOk(asked(msg, i)), ecNone(listAt(r.dataItem, i)), ite(acq(has(g.equipmentConstants, idKey(asked(msg, i)))), ecInfo(acq(g.equipmentConstants[idKey(asked(msg, i))]), listAt(r.dataItem, i)), ecUnknown(idKey(asked(msg, i)), listAt(r.dataItem, i)))))

# new values: an entry is a list of an identifier and a value (and possibly more)
def isUpdate(x) = isList(x) && listLen(x) >= 2 && idOk(listAt(x, 0))
def updKey(x) = idKey(listAt(x, 0))
def updVal(x) = listAt(x, 1)
def updIs(u, x) = u.ok == isUpdate(x) && (u.ok ==> idIs(u.id, updKey(x)) && u.value == updVal(x) && plain(u.value))
func gem.parseEquipmentConstantUpdateList(msg) (r, err)
  requires wire(msg)
  ensures list: (err == nil) == (msg != nil && isList(msg.dataItem))
  ensures from: err == nil ==> len(r) == listLen(msg.dataItem) && forall(i, 0, len(r), updIs(r[i], asked(msg, i)))
  ensures each: err == nil ==> forall(i, 0, len(r), updIs(r[i], asked(msg, i)), asked(msg, i))
  loop 0 invariant len(acc("[]gem.equipmentConstantUpdate")) == iter && 0 <= iter && iter <= listLen(msg.dataItem)
  loop 0 invariant forall(i, 0, iter, updIs(acc("[]gem.equipmentConstantUpdate")[i], asked(msg, i)))
# i is the last update of its constant
def lastOf(us, i) = forall(j, i + 1, len(us), us[j].id.key != us[i].id.key)
func gem.GemHandler.applyEquipmentConstantUpdates(g, us) (code)
  requires g != nil && g.logger != nil && forall(i, 0, len(us), us[i].ok ==> plain(us[i].value))
  modifies anydeep("gem.GemHandler.equipmentConstants"), anydeep("gem.GemHandler.ecOrder"), anyof("gem.EquipmentConstant.value"), anyof("gem.EquipmentConstant.provider"), anyof("gem.EquipmentConstant.updater"), anyof("gem.EquipmentConstant.validator"), userAsked, userGot, userNo, steps, ecValid, ecGiven, ecRefusals, ecStores, ecHeld
  ensures exist: code == 0 ==> forall(i, 0, len(us), us[i].ok && acq(has(g.equipmentConstants, us[i].id.key)))
  ensures agreed: code == 0 ==> forall(i, 0, len(us), ecValid[acq(g.equipmentConstants[us[i].id.key])][us[i].value] > old(steps) && ecGiven[acq(g.equipmentConstants[us[i].id.key])][us[i].value] > old(steps))
  ensures held: code == 0 ==> forall(i, 0, len(us), lastOf(us, i) ==> ecHeld[acq(g.equipmentConstants[us[i].id.key])] == us[i].value)
  ensures refused: code != 0 ==> ecStores == old(ecStores)
  ensures reason: code != 0 ==> ecRefusals > old(ecRefusals) || !forall(i, 0, len(us), us[i].ok && acq(has(g.equipmentConstants, us[i].id.key)))
  ensures small: 0 <= code && code <= 255
  loop 0 invariant forall(i, 0, iter, us[i].ok && has(g.equipmentConstants, us[i].id.key))
  loop 1 invariant ecRefusals == old(ecRefusals)
  loop 2 invariant ecRefusals == old(ecRefusals)
  loop 1 invariant steps >= old(steps) && forall(i, 0, iter, ecValid[g.equipmentConstants[us[i].id.key]][us[i].value] > old(steps))
  loop 2 invariant steps >= old(steps) && forall(i, 0, iter, ecGiven[g.equipmentConstants[us[i].id.key]][us[i].value] > old(steps))
  loop 3 invariant forall(i, 0, iter, forall(j, i + 1, iter, us[j].id.key != us[i].id.key) ==> ecHeld[g.equipmentConstants[us[i].id.key]] == us[i].value)
func gem.GemHandler.buildS2F16(g, k) (m)
  requires 0 <= k && k <= 255
  ensures answer(m, 2, 16) && codeIs(m.dataItem, k)
def updLast(msg, i) = forall(j, i + 1, listLen(msg.dataItem), updKey(asked(msg, j)) != updKey(asked(msg, i)))
func gem.GemHandler.onS2F15(g, msg) (r, err)
  requires g != nil && g.logger != nil && msg != nil && wire(msg)
  modifies *
  ensures answered: err == nil && answer(r, 2, 16) && (exists(k, 0, 256, codeIs(r.dataItem, k)))
  ensures exist: codeIs(r.dataItem, 0) ==> isList(msg.dataItem) && forall(i, 0, listLen(msg.dataItem), isUpdate(asked(msg, i)) && acq(has(g.equipmentConstants, updKey(asked(msg, i)))))
  ensures held: codeIs(r.dataItem, 0) ==> forall(i, 0, listLen(msg.dataItem), updLast(msg, i) ==> ecHeld[acq(g.equipmentConstants[updKey(asked(msg, i))])] == updVal(asked(msg, i)))
  ensures refused: !codeIs(r.dataItem, 0) ==> ecStores == old(ecStores)
  ensures reason: !codeIs(r.dataItem, 0) && isList(msg.dataItem) ==> ecRefusals > old(ecRefusals) || !forall(i, 0, listLen(msg.dataItem), isUpdate(asked(msg, i)) && acq(has(g.equipmentConstants, updKey(asked(msg, i)))))
check C24: gem.NewEquipmentConstant, gem.EquipmentConstant.*, gem.GemHandler.RegisterEquipmentConstant, gem.GemHandler.resolveEquipmentConstant*, gem.GemHandler.buildS2F14, gem.GemHandler.buildS2F30, gem.GemHandler.buildS2F16, gem.parseIDRequestList, gem.parseEquipmentConstantUpdateList, gem.GemHandler.applyEquipmentConstantUpdates, gem.GemHandler.onS2F13, gem.GemHandler.onS2F15, gem.GemHandler.onS2F29
