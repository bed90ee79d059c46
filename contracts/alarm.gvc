# GEM alarms (C20): gem/alarm.go, alarm_handlers.go
monitor gem.GemHandler.alarmMu (self): alarms
  complete C20
  invariant keyed: allk(k, self.alarms, self.alarms[k].ID == k && shortText(self.alarms[k].Text))
end
assume alarm texts are ASCII and fit one item
def alKnown(g, k) = acqof("gem.GemHandler.alarmMu", has(g.alarms, k))
# the table is what it was, except that alarm k is now (t, en, set)
def alKept(g, k) = rel("gem.GemHandler.alarmMu", has(g.alarms, k)) == acqof("gem.GemHandler.alarmMu", has(g.alarms, k)) && (acqof("gem.GemHandler.alarmMu", has(g.alarms, k)) ==> rel("gem.GemHandler.alarmMu", g.alarms[k]) == acqof("gem.GemHandler.alarmMu", g.alarms[k]))
def alOthers(g, id) = all(k, "int", k != id ==> alKept(g, k))
def alSame(g) = acquired("gem.GemHandler.alarmMu") ==> all(k, "int", alKept(g, k))
def alNow(g, k) = rel("gem.GemHandler.alarmMu", g.alarms[k])
def alWas(g, k) = acqof("gem.GemHandler.alarmMu", g.alarms[k])
func gem.GemHandler.RegisterAlarm(g, alarm)
  requires g != nil && shortText(alarm.Text)
  modifies anydeep("gem.GemHandler.alarms")
  ensures stored: rel("gem.GemHandler.alarmMu", has(g.alarms, alarm.ID)) && alNow(g, alarm.ID).ID == alarm.ID && alNow(g, alarm.ID).Text == alarm.Text && alNow(g, alarm.ID).Set == alarm.Set && alNow(g, alarm.ID).Enabled
  ensures others: alOthers(g, alarm.ID)
def alSwitch(g, id, on) = alNow(g, id).ID == id && alNow(g, id).Text == alWas(g, id).Text && alNow(g, id).Set == alWas(g, id).Set && alNow(g, id).Enabled == on
func gem.GemHandler.EnableAlarm(g, id) (err)
  requires g != nil
  modifies anydeep("gem.GemHandler.alarms")
  ensures refused: (err == nil) == alKnown(g, id)
  ensures done: err == nil ==> alSwitch(g, id, true) && alOthers(g, id)
  ensures kept: err != nil ==> alSame(g)
func gem.GemHandler.DisableAlarm(g, id) (err)
  requires g != nil
  modifies anydeep("gem.GemHandler.alarms")
  ensures refused: (err == nil) == alKnown(g, id)
  ensures done: err == nil ==> alSwitch(g, id, false) && alOthers(g, id)
  ensures kept: err != nil ==> alSame(g)
func gem.GemHandler.lookupAlarm(g, id) (a, ok)
  requires g != nil
  modifies anydeep("gem.GemHandler.alarms")
  ensures ok == alKnown(g, id) && (ok ==> a == alWas(g, id))

# identifiers: an item of one unsigned or signed integer
def alU(x) = is(x, "*ast.UintNode") && len(as(x, "*ast.UintNode").values) == 1 && as(x, "*ast.UintNode").values[0] <= 9223372036854775807
def alI(x) = is(x, "*ast.IntNode") && len(as(x, "*ast.IntNode").values) == 1
def alOk(x) = alU(x) || alI(x)
def alVal(x) = ite(is(x, "*ast.UintNode"), as(x, "*ast.UintNode").values[0], as(x, "*ast.IntNode").values[0])
def alIs(x, k) = alOk(x) && alVal(x) == k
func gem.alarmIDNode(id) (x)
  ensures alIs(x, id) && plain(x)
# one entry of a report or a list
def alEntry(x, a, code) = isList(x) && listLen(x) == 3 && binIs(listAt(x, 0), code) && alIs(listAt(x, 1), a.ID) && textIs(listAt(x, 2), a.Text)
def alCode(a) = ite(a.Set, 128, 0) + ite(a.Enabled, 64, 0)
func gem.GemHandler.buildS5F1(g, alarm, set) (m)
  requires g != nil && shortText(alarm.Text)
  ensures m != nil && m.stream == 5 && m.function == 1 && alEntry(m.dataItem, alarm, ite(set, 128, 0))
def sentMsg() = as(gsendMsg, "*ast.DataMessage")
func gem.GemHandler.RaiseAlarm(g, id, set) (err)
  requires gOk(g) && transOk(g.protocol) && machine(g.protocol.connectionState)
  modifies *
  ensures refused: acquired("gem.GemHandler.alarmMu") && !alKnown(g, id) ==> err != nil && alSame(g)
  ensures host: g.deviceType != 1 ==> err != nil && !acquired("gem.GemHandler.alarmMu")
  ensures away: !acquired("gem.GemHandler.alarmMu") ==> err != nil && gsends == old(gsends)
  ensures set: acquired("gem.GemHandler.alarmMu") && alKnown(g, id) ==> alOthers(g, id) && alNow(g, id).ID == id && alNow(g, id).Text == alWas(g, id).Text && alNow(g, id).Enabled == alWas(g, id).Enabled && alNow(g, id).Set == set
  ensures silent: acquired("gem.GemHandler.alarmMu") && !(alKnown(g, id) && alWas(g, id).Enabled) ==> gsends == old(gsends)
  ensures report: acquired("gem.GemHandler.alarmMu") && alKnown(g, id) && alWas(g, id).Enabled ==> gsends == old(gsends) + 1 && sentMsg().stream == 5 && sentMsg().function == 1 && alEntry(sentMsg().dataItem, alNow(g, id), ite(set, 128, 0))
func gem.GemHandler.ClearAlarm(g, id) (err)
  requires gOk(g) && transOk(g.protocol) && machine(g.protocol.connectionState)
  modifies *
  ensures set: acquired("gem.GemHandler.alarmMu") && alKnown(g, id) ==> alOthers(g, id) && !alNow(g, id).Set && alNow(g, id).Enabled == alWas(g, id).Enabled && alNow(g, id).Text == alWas(g, id).Text
  ensures silent: acquired("gem.GemHandler.alarmMu") && !(alKnown(g, id) && alWas(g, id).Enabled) ==> gsends == old(gsends)
  ensures away: !acquired("gem.GemHandler.alarmMu") ==> err != nil && gsends == old(gsends)
  ensures report: acquired("gem.GemHandler.alarmMu") && alKnown(g, id) && alWas(g, id).Enabled ==> gsends == old(gsends) + 1 && sentMsg().stream == 5 && sentMsg().function == 1 && alEntry(sentMsg().dataItem, alNow(g, id), 0)

# queries
func gem.GemHandler.getAlarmList(g) (r)
  requires g != nil
  modifies anydeep("gem.GemHandler.alarms")
  ensures known: forall(i, 0, len(r), alListed(r[i], alWas(g, r[i].ID)) && alKnown(g, r[i].ID))
  ensures all: all(k, "int", alKnown(g, k) ==> !forall(i, 0, len(r), r[i].ID != k))
  ensures once: forall(i, 0, len(r), forall(j, 0, len(r), i != j ==> r[i].ID != r[j].ID))
  loop 0 invariant base(acc("[]gem.AlarmInfo")) > 0 && fresh(acc("[]gem.AlarmInfo"))
  loop 0 invariant forall(i, 0, len(acc("[]gem.AlarmInfo")), has(rangekeys(), acc("[]gem.AlarmInfo")[i].ID) && has(g.alarms, acc("[]gem.AlarmInfo")[i].ID) && alListed(acc("[]gem.AlarmInfo")[i], g.alarms[acc("[]gem.AlarmInfo")[i].ID]))
  loop 0 invariant all(k, "int", has(rangekeys(), k) ==> !forall(i, 0, len(acc("[]gem.AlarmInfo")), acc("[]gem.AlarmInfo")[i].ID != k))
  loop 0 invariant forall(i, 0, len(acc("[]gem.AlarmInfo")), forall(j, 0, len(acc("[]gem.AlarmInfo")), i != j ==> acc("[]gem.AlarmInfo")[i].ID != acc("[]gem.AlarmInfo")[j].ID))
def alListed(i, a) = i.ID == a.ID && i.Text == a.Text && i.Set == a.Set && i.Enabled == a.Enabled && shortText(i.Text)
func gem.GemHandler.getEnabledAlarmList(g) (r)
  requires g != nil
  modifies anydeep("gem.GemHandler.alarms")
  ensures known: forall(i, 0, len(r), r[i].Enabled && alListed(r[i], alWas(g, r[i].ID)) && alKnown(g, r[i].ID))
  ensures all: all(k, "int", alKnown(g, k) && alWas(g, k).Enabled ==> !forall(i, 0, len(r), r[i].ID != k))
  ensures once: forall(i, 0, len(r), forall(j, 0, len(r), i != j ==> r[i].ID != r[j].ID))
  loop 0 invariant base(acc("[]gem.AlarmInfo")) > 0 && fresh(acc("[]gem.AlarmInfo")) && base(acc("[]gem.AlarmInfo")) != base(res("gem.GemHandler.getAlarmList"))
  loop 0 invariant row(res("gem.GemHandler.getAlarmList")) == entry(row(res("gem.GemHandler.getAlarmList")))
  loop 0 invariant forall(i, 0, len(acc("[]gem.AlarmInfo")), acc("[]gem.AlarmInfo")[i].Enabled && alListed(acc("[]gem.AlarmInfo")[i], alWas(g, acc("[]gem.AlarmInfo")[i].ID)) && alKnown(g, acc("[]gem.AlarmInfo")[i].ID))
  loop 0 invariant forall(j, iter, len(res("gem.GemHandler.getAlarmList")), forall(i, 0, len(acc("[]gem.AlarmInfo")), acc("[]gem.AlarmInfo")[i].ID != res("gem.GemHandler.getAlarmList")[j].ID))
  loop 0 invariant forall(j, 0, iter, res("gem.GemHandler.getAlarmList")[j].Enabled ==> !forall(i, 0, len(acc("[]gem.AlarmInfo")), acc("[]gem.AlarmInfo")[i].ID != res("gem.GemHandler.getAlarmList")[j].ID))
  loop 0 invariant forall(i, 0, len(acc("[]gem.AlarmInfo")), forall(j, 0, len(acc("[]gem.AlarmInfo")), i != j ==> acc("[]gem.AlarmInfo")[i].ID != acc("[]gem.AlarmInfo")[j].ID))
def alList(d, as) = isList(d) && listLen(d) == len(as) && forall(i, 0, len(as), alEntry(listAt(d, i), as[i], alCode(as[i])))
func gem.GemHandler.buildS5F6(g, alarms) (m)
  requires forall(i, 0, len(alarms), shortText(alarms[i].Text))
  panics only when len(alarms) > MAXB()
  ensures answer(m, 5, 6) && alList(m.dataItem, alarms)
  loop 0 invariant forall(i, 0, iter, is(mk("[]interface{}")[i], "*ast.ListNode") && plain(mk("[]interface{}")[i]) && alEntry(mk("[]interface{}")[i], alarms[i], alCode(alarms[i])))
func gem.GemHandler.buildS5F8(g, alarms) (m)
  requires forall(i, 0, len(alarms), shortText(alarms[i].Text))
  panics only when len(alarms) > MAXB()
  ensures answer(m, 5, 8) && alList(m.dataItem, alarms)
  loop 0 invariant forall(i, 0, iter, is(mk("[]interface{}")[i], "*ast.ListNode") && plain(mk("[]interface{}")[i]) && alEntry(mk("[]interface{}")[i], alarms[i], alCode(alarms[i])))
# the first byte of a binary item, or of the first item of a list; -1: there is none
specfun firstBin(Any) int
axiom[GEM] first_bin(x *ast.BinaryNode) trig firstBin(x) : firstBin(x) == ite(len(x.values) > 0, x.values[0], -1)
axiom[GEM] first_list(x *ast.ListNode) trig firstBin(x) : firstBin(x) == ite(len(x.values) > 0, firstBin(x.values[0]), -1)
axiom[GEM] first_other(x Any) trig firstBin(x) : !is(x, "*ast.BinaryNode") && !is(x, "*ast.ListNode") ==> firstBin(x) == -1
func gem.readSingleBinaryValue(x) (v, err)
  requires x == nil || plain(x)
  ensures (err == nil) == (firstBin(x) >= 0) && (err == nil ==> v == firstBin(x))
  ensures v == firstBin(x)
# S5F3: ALED and the list of identifiers
def alReq(msg) = msg != nil && inList(msg.dataItem, 0) && inList(msg.dataItem, 1) && firstBin(listAt(msg.dataItem, 0)) >= 0 && isList(listAt(msg.dataItem, 1))
def alId(msg, i) = listAt(listAt(msg.dataItem, 1), i)
def alIds(msg) = listLen(listAt(msg.dataItem, 1))
def alGood(msg) = alReq(msg) && forall(i, 0, alIds(msg), alOk(alId(msg, i)))
def alAllKnown(g, msg) = forall(i, 0, alIds(msg), acqof("gem.GemHandler.alarmMu", has(g.alarms, alVal(alId(msg, i)))))
def alOn(msg) = firstBin(listAt(msg.dataItem, 0)) == 128
func gem.GemHandler.buildS5F4(g, k) (m)
  requires 0 <= k && k <= 255
  ensures answer(m, 5, 4) && codeIs(m.dataItem, k)
func gem.GemHandler.onS5F3(g, msg) (r, err)
  requires g != nil && msg != nil && wire(msg)
  modifies *
  ensures answered: err == nil && answer(r, 5, 4)
  ensures malformed: !alGood(msg) ==> codeIs(r.dataItem, 1) && alSame(g)
  ensures unknown: alGood(msg) && !alAllKnown(g, msg) ==> codeIs(r.dataItem, 1) && alSame(g)
  ensures accepted: alGood(msg) && alAllKnown(g, msg) ==> codeIs(r.dataItem, 0)
  ensures switched: alGood(msg) && alAllKnown(g, msg) ==> forall(i, 0, alIds(msg), alSwitch(g, alVal(alId(msg, i)), alOn(msg)))
  ensures others: alGood(msg) && alAllKnown(g, msg) ==> all(k, "int", forall(i, 0, alIds(msg), alVal(alId(msg, i)) != k) ==> alKept(g, k))
  loop 0 invariant len(acc("[]int")) == iter && 0 <= iter && iter <= alIds(msg) && base(acc("[]int")) > 0 && fresh(acc("[]int"))
  loop 0 invariant forall(i, 0, iter, alOk(alId(msg, i)) && acc("[]int")[i] == alVal(alId(msg, i)))
  loop 0 invariant forall(i, 0, iter, alOk(alId(msg, i)) && acc("[]int")[i] == alVal(alId(msg, i)), alId(msg, i))
  loop 1 invariant forall(i, 0, iter, has(g.alarms, acc("[]int")[i]))
  loop 2 invariant all(k, "int", has(g.alarms, k) == acqof("gem.GemHandler.alarmMu", has(g.alarms, k)) && g.alarms[k].ID == acqof("gem.GemHandler.alarmMu", g.alarms[k].ID) && g.alarms[k].Text == acqof("gem.GemHandler.alarmMu", g.alarms[k].Text) && g.alarms[k].Set == acqof("gem.GemHandler.alarmMu", g.alarms[k].Set))
  loop 2 invariant all(k, "int", g.alarms[k].Enabled == acqof("gem.GemHandler.alarmMu", g.alarms[k].Enabled) || !forall(i, 0, iter, acc("[]int")[i] != k))
  loop 2 invariant forall(i, 0, iter, g.alarms[acc("[]int")[i]].Enabled == alOn(msg))
# S5F5: every alarm, once; S5F7: every enabled one
def alShown(x, a) = alEntry(x, a, alCode(a))
def alEach(g, d) = forall(i, 0, listLen(d), alKnown(g, alVal(listAt(listAt(d, i), 1))) && alShown(listAt(d, i), alWas(g, alVal(listAt(listAt(d, i), 1)))))
def alOnce(d) = forall(i, 0, listLen(d), forall(j, 0, listLen(d), i != j ==> alVal(listAt(listAt(d, i), 1)) != alVal(listAt(listAt(d, j), 1))))
func gem.GemHandler.onS5F5(g, msg) (r, err)
  requires g != nil
  panics may
  modifies *
  ensures answered: err == nil && answer(r, 5, 6) && isList(r.dataItem)
  ensures each: alEach(g, r.dataItem) && alOnce(r.dataItem)
  ensures all: all(k, "int", alKnown(g, k) ==> !forall(i, 0, listLen(r.dataItem), !alShown(listAt(r.dataItem, i), alWas(g, k))))
func gem.GemHandler.onS5F7(g, msg) (r, err)
  requires g != nil
  panics may
  modifies *
  ensures answered: err == nil && answer(r, 5, 8) && isList(r.dataItem)
  ensures each: alEach(g, r.dataItem) && alOnce(r.dataItem)
  ensures enabled: forall(i, 0, listLen(r.dataItem), alWas(g, alVal(listAt(listAt(r.dataItem, i), 1))).Enabled)
  ensures all: all(k, "int", alKnown(g, k) && alWas(g, k).Enabled ==> !forall(i, 0, listLen(r.dataItem), !alShown(listAt(r.dataItem, i), alWas(g, k))))
check C20: gem.readSingleBinaryValue, gem.GemHandler.buildS5F4, gem.GemHandler.onS5F3, gem.GemHandler.onS5F5, gem.GemHandler.onS5F7
check C20: gem.GemHandler.getEnabledAlarmList, gem.GemHandler.buildS5F6, gem.GemHandler.buildS5F8
check C20: gem.GemHandler.RegisterAlarm, gem.GemHandler.EnableAlarm, gem.GemHandler.DisableAlarm, gem.GemHandler.lookupAlarm, gem.alarmIDNode, gem.GemHandler.buildS5F1, gem.GemHandler.RaiseAlarm, gem.GemHandler.ClearAlarm, gem.GemHandler.getAlarmList
