# GEM remote commands (C25): gem/remote_command.go, S2F41 in gem/handler.go
ghost rcCalls int
ghost rcFn int
ghost rcCmdId Any
ghost rcCmd string
ghost rcParams []gem.RemoteCommandParameter
ghost rcCode int
ghost rcFailed bool
ghost rcAcks []gem.RemoteCommandParameterAck
functype gem.RemoteCommandHandler(fn, req) (res, err)
  sets rcCalls := rcCalls + 1
  sets rcFn := fn
  sets rcCmdId := req.CommandID
  sets rcCmd := req.Command
  sets rcParams := req.Parameters
  modifies rcCode, rcFailed, rcAcks
  ensures rcCode == res.HCACK && rcFailed == (err != nil) && rcAcks == res.ParameterAcks && len(res.ParameterAcks) <= MAXB() && forall(i, 0, len(res.ParameterAcks), is(res.ParameterAcks[i].Name, "string") ==> len(as(res.ParameterAcks[i].Name, "string")) <= MAXB())
assume the application's command handler returns at most 2^24 - 1 parameter acknowledges with names that fit one item, and keeps its hands off the request afterwards
monitor gem.GemHandler.remoteMu (self): remoteCommandHandler
end
func gem.GemHandler.getRemoteCommandHandler(g) (h)
  requires g != nil
  modifies anydeep("gem.GemHandler.remoteCommandHandler")
  ensures h == acq(g.remoteCommandHandler)
# codes as they go out
def hcack(k) = ite(k > 6, 1, k)
def cpack(k) = ite(k < 1 || k > 63, 1, k)
def rcName(v) = isNumber(v) || is(v, "string") && ascii(as(v, "string"))
def rcAckIs(x, a) = isList(x) && listLen(x) == 2 && idOk(listAt(x, 0)) && idKey(listAt(x, 0)) == keyOf(a.Name) && binIs(listAt(x, 1), cpack(a.Ack))
def rcBody(d) = isList(d) && listLen(d) == 2 && isList(listAt(d, 1))
func gem.GemHandler.buildS2F42(g, res) (m, err)
  requires g != nil && len(res.ParameterAcks) <= MAXB() && forall(i, 0, len(res.ParameterAcks), is(res.ParameterAcks[i].Name, "string") ==> len(as(res.ParameterAcks[i].Name, "string")) <= MAXB())
  ensures named: (err == nil) == forall(i, 0, len(res.ParameterAcks), rcName(res.ParameterAcks[i].Name))
  ensures code: err == nil ==> answer(m, 2, 42) && rcBody(m.dataItem) && binIs(listAt(m.dataItem, 0), hcack(res.HCACK)) && listLen(listAt(m.dataItem, 1)) == len(res.ParameterAcks)
  ensures acks: err == nil ==> forall(i, 0, len(res.ParameterAcks), rcAckIs(listAt(listAt(m.dataItem, 1), i), res.ParameterAcks[i]))
  loop 0 invariant len(acc("[]interface{}")) == iter && base(acc("[]interface{}")) > 0 && fresh(acc("[]interface{}"))
  loop 0 invariant forall(i, 0, iter, rcName(res.ParameterAcks[i].Name) && is(acc("[]interface{}")[i], "*ast.ListNode") && plain(acc("[]interface{}")[i]) && rcAckIs(acc("[]interface{}")[i], res.ParameterAcks[i]))
# S2F41: the command and its well-formed parameters
def rcList(msg) = inList(msg.dataItem, 1) && isList(listAt(msg.dataItem, 1))
def rcOk(msg) = msg != nil && inList(msg.dataItem, 0) && idOk(listAt(msg.dataItem, 0))
specfun rcWell(Any) bool
axiom[C25] rc_well(x Any) trig rcWell(x) : rcWell(x) == (isList(x) && listLen(x) > 0 && idOk(listAt(x, 0)))
# how many of a list's first k items are well-formed parameters
specfun rcUpTo(*ast.ListNode,int) int
axiom[C25] rc_none(x *ast.ListNode) trig rcUpTo(x, 0) : rcUpTo(x, 0) == 0
axiom[C25] rc_next(x *ast.ListNode, k int) mtrig rcUpTo(x, k), x.values[k] : 0 <= k && k < len(x.values) ==> rcUpTo(x, k + 1) == rcUpTo(x, k) + ite(rcWell(x.values[k]), 1, 0)
def rcParam(p, x) = isRaw(p.Identifier, idKey(listAt(x, 0))) && (is(p.Identifier, "string") ==> p.Name == as(p.Identifier, "string")) && ite(listLen(x) > 1, p.Value == listAt(x, 1), is(p.Value, "ast.emptyItemNode"))
def rcArg(msg) = as(listAt(msg.dataItem, 1), "*ast.ListNode")
func gem.parseRemoteCommand(msg) (req, err)
  requires wire(msg)
  ensures accepted: (err == nil) == rcOk(msg)
  ensures command: err == nil ==> isRaw(req.CommandID, idKey(listAt(msg.dataItem, 0))) && (is(req.CommandID, "string") ==> req.Command == as(req.CommandID, "string"))
  ensures none: err == nil && !rcList(msg) ==> len(req.Parameters) == 0
  ensures count: err == nil && rcList(msg) ==> len(req.Parameters) == rcUpTo(rcArg(msg), len(rcArg(msg).values))
  ensures params: err == nil && rcList(msg) ==> forall(i, 0, len(rcArg(msg).values), rcWell(rcArg(msg).values[i]) ==> 0 <= rcUpTo(rcArg(msg), i) && rcUpTo(rcArg(msg), i) < len(req.Parameters) && rcParam(req.Parameters[rcUpTo(rcArg(msg), i)], rcArg(msg).values[i]))
  loop 0 invariant base(acc("gem.RemoteCommandRequest").Parameters) > 0 && fresh(acc("gem.RemoteCommandRequest").Parameters) && 0 <= iter && iter <= len(rcArg(msg).values)
  loop 0 invariant len(acc("gem.RemoteCommandRequest").Parameters) == rcUpTo(rcArg(msg), iter)
  loop 0 invariant forall(i, 0, iter, rcWell(rcArg(msg).values[i]) ==> 0 <= rcUpTo(rcArg(msg), i) && rcUpTo(rcArg(msg), i) < len(acc("gem.RemoteCommandRequest").Parameters) && rcParam(acc("gem.RemoteCommandRequest").Parameters[rcUpTo(rcArg(msg), i)], rcArg(msg).values[i]))
def rcNames() = forall(i, 0, len(rcAcks), rcName(rcAcks[i].Name))
func gem.GemHandler.onS2F41(g, msg) (r, err)
  requires gOk(g) && (msg == nil || wire(msg))
  modifies *
  ensures answered: err == nil && answer(r, 2, 42) && rcBody(r.dataItem) && exists(k, 0, 256, binIs(listAt(r.dataItem, 0), k))
  ensures malformed: !rcOk(msg) ==> !binIs(listAt(r.dataItem, 0), 0) && rcCalls == old(rcCalls)
  ensures nobody: rcOk(msg) && rcCalls == old(rcCalls) ==> acqof("gem.GemHandler.remoteMu", g.remoteCommandHandler) == nil && binIs(listAt(r.dataItem, 0), 1)
  ensures called: rcOk(msg) && acqof("gem.GemHandler.remoteMu", g.remoteCommandHandler) != nil ==> rcCalls == old(rcCalls) + 1 && rcFn == acqof("gem.GemHandler.remoteMu", g.remoteCommandHandler)
  ensures command: rcOk(msg) && rcCalls != old(rcCalls) ==> isRaw(rcCmdId, idKey(listAt(msg.dataItem, 0))) && (is(rcCmdId, "string") ==> rcCmd == as(rcCmdId, "string"))
  ensures params: rcOk(msg) && rcCalls != old(rcCalls) ==> len(rcParams) == ite(rcList(msg), rcUpTo(rcArg(msg), len(rcArg(msg).values)), 0)
  ensures each: rcOk(msg) && rcCalls != old(rcCalls) && rcList(msg) ==> forall(i, 0, len(rcArg(msg).values), rcWell(rcArg(msg).values[i]) ==> 0 <= rcUpTo(rcArg(msg), i) && rcUpTo(rcArg(msg), i) < len(rcParams) && rcParam(rcParams[rcUpTo(rcArg(msg), i)], rcArg(msg).values[i]))
  ensures code: rcCalls != old(rcCalls) && rcNames() ==> binIs(listAt(r.dataItem, 0), ite(rcFailed && rcCode == 0, 2, hcack(rcCode))) && listLen(listAt(r.dataItem, 1)) == len(rcAcks)
  ensures unnamed: rcCalls != old(rcCalls) && !rcNames() ==> binIs(listAt(r.dataItem, 0), 1)
  ensures acks: rcCalls != old(rcCalls) && rcNames() ==> forall(i, 0, len(rcAcks), rcAckIs(listAt(listAt(r.dataItem, 1), i), rcAcks[i]))
check C25: gem.parseRemoteCommand, gem.GemHandler.buildS2F42, gem.GemHandler.onS2F41, gem.GemHandler.getRemoteCommandHandler
