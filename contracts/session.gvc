# Sessions (C11): session.go
only C11
sendsopen
# closeFlag goes from 0 to 1 once and stays; other goroutines may set it at any time, so what this
# goroutine knows of it is that it was 1
func atomic.LoadInt32(addr) (r)
  trusted
  modifies *addr
  ensures r == *addr && (r == 0 || r == 1) && (old(*addr) == 1 ==> r == 1)
ghost wins int
func atomic.CompareAndSwapInt32(addr, was, now) (ok)
  trusted
  requires one_way: was == 0 && now == 1
  modifies *addr, wins
  ensures *addr == 1 && (old(*addr) == 1 ==> !ok) && wins == old(wins) + ite(ok, 1, 0)
func atomic.StoreInt32(addr, v)
  trusted
  requires one_way: 1 == 0
  modifies *addr
func atomic.SwapInt32(addr, v) (r)
  trusted
  requires one_way: 1 == 0
  modifies *addr
func atomic.AddInt32(addr, v) (r)
  trusted
  requires one_way: 1 == 0
  modifies *addr
func atomic.AddUint64(addr, v) (r)
  trusted
# never touched but by those
guarded link.Session.atomically (self): closeFlag

# what a session did to its codec
ghost csends int
ghost csendTo Any
ghost csendMsg Any
ghost csendErr bool
ghost ccloses int
ghost ccloseOf Any
ghost ccloseErr Any
ghost crecvs int
iface link.Codec.Send(self, msg) (err)
  modifies csendErr
  sets csends := csends + 1
  sets csendTo := self
  sets csendMsg := msg
  ensures csendErr == (err != nil)
iface link.Codec.Receive(self) (msg, err)
  sets crecvs := crecvs + 1
iface link.Codec.Close(self) (err)
  modifies ccloseErr
  ensures ccloseErr == box(err)
  sets ccloses := ccloses + 1
  sets ccloseOf := self
iface link.ClearSendChan.ClearSendChan(self, c)


def sessOk(s) = s.closeChan != nil && s.codec != nil && (closed(s.closeChan) ==> s.closeFlag == 1) && (s.sendChan != nil ==> s.sendChan != s.closeChan && (closed(s.sendChan) ==> s.closeFlag == 1))
func link.newSession(manager, codec, sendChanSize) (r)
  modifies goroutines
  ensures r != nil && fresh(r) && r.codec == codec && r.manager == manager && r.closeFlag == 0 && r.closeChan != nil && !closed(r.closeChan)
  ensures (r.sendChan == nil) == (sendChanSize <= 0) && (r.sendChan != nil ==> !closed(r.sendChan) && r.sendChan != r.closeChan)
  ensures r.firstCloseCallback == nil
func link.newSessionWithId(manager, codec, sendChanSize, id) (r)
  modifies goroutines
  ensures r != nil && fresh(r) && r.codec == codec && r.manager == manager && r.id == id && r.closeFlag == 0 && r.closeChan != nil && !closed(r.closeChan)
  ensures (r.sendChan == nil) == (sendChanSize <= 0) && (r.sendChan != nil ==> !closed(r.sendChan) && r.sendChan != r.closeChan)
  ensures r.firstCloseCallback == nil
func link.Session.IsClosed(session) (r)
  modifies session.closeFlag
  ensures (r ==> session.closeFlag == 1) && (old(session.closeFlag) == 1 ==> r && session.closeFlag == 1)
# one close takes effect: the one that moved the flag
func link.Session.Close(session) (err)
  requires sessOk(session)
  modifies session.closeFlag, wins, channel(session.closeChan), channel(session.sendChan), ccloses, ccloseOf, ccloseErr, goroutines
  ensures stays: session.closeFlag == 1
  ensures once: wins == old(wins) || wins == old(wins) + 1 && old(session.closeFlag) != 1
  ensures lost: wins == old(wins) ==> err == link.SessionClosedError && ccloses == old(ccloses) && goroutines == old(goroutines)
  ensures won: wins != old(wins) ==> closed(session.closeChan) && ccloses == old(ccloses) + 1 && ccloseOf == session.codec && goroutines == old(goroutines) + 1 && ccloseErr == box(err)
  ensures ends_sender: wins != old(wins) && session.sendChan != nil ==> closed(session.sendChan)
  ensures consistent: sessOk(session)
func link.Session.Receive(session) (msg, err)
  requires sessOk(session)
  modifies session.closeFlag, wins, channel(session.closeChan), channel(session.sendChan), ccloses, ccloseOf, ccloseErr, goroutines, crecvs
  ensures crecvs == old(crecvs) + 1
  ensures fails_closed: err != nil ==> session.closeFlag == 1
  ensures consistent: sessOk(session)
func link.Session.Send(session, msg) (err)
  requires sessOk(session)
  modifies session.closeFlag, wins, channel(session.closeChan), channel(session.sendChan), ccloses, ccloseOf, ccloseErr, goroutines, csends, csendTo, csendMsg, csendErr
  ensures refused: old(session.closeFlag) == 1 ==> err != nil && csends == old(csends)
  ensures given: err == nil && session.sendChan == nil ==> csends == old(csends) + 1 && csendTo == session.codec && csendMsg == msg
  ensures queued: err == nil && session.sendChan != nil ==> sent(session.sendChan) == old(sent(session.sendChan)) + 1
  ensures at_most_once: csends == old(csends) || csends == old(csends) + 1
  ensures fails_closed: err != nil ==> session.closeFlag == 1
  ensures consistent: sessOk(session)
func link.Session.sendLoop(session)
  requires sessOk(session)
  modifies session.closeFlag, wins, channel(session.closeChan), channel(session.sendChan), ccloses, ccloseOf, ccloseErr, goroutines, csends, csendTo, csendMsg, csendErr
  loop 0 invariant sessOk(session)
  ensures closes: session.closeFlag == 1
check C11: link.newSession, link.newSessionWithId, link.Session.IsClosed, link.Session.Close, link.Session.Receive, link.Session.Send, link.Session.sendLoop

# ---- close callbacks: the list from firstCloseCallback along Next
specfun nodeAt(Bytes, Int, Int) Int
specfun ll(Bytes, Int) Int
axiom at_0(H Bytes, a Int, k Int) trig nodeAt(H, a, k) : k == 0 ==> nodeAt(H, a, k) == a
axiom at_step(H Bytes, a Int, j Int, k Int) mtrig nodeAt(H, a, j), nodeAt(H, a, k) : 0 <= j && k == j + 1 ==> nodeAt(H, a, k) == H[nodeAt(H, a, j)]
# ll: the number of nodes before the end
axiom ll_def(H Bytes, a Int, k Int) mtrig nodeAt(H, a, k), ll(H, a) : 0 <= k && nodeAt(H, a, k) == 0 && forall(j, 0, k, nodeAt(H, a, j) != 0) ==> ll(H, a) == k
axiom at_next(H Bytes, a Int, k Int) trig nodeAt(H, a, k + 1) : 0 <= k ==> nodeAt(H, a, k + 1) == H[nodeAt(H, a, k)]
# a list that ends has no node twice; a change behind, a node unlinked, the tail of a list
def ends(H, a) = ll(H, a) >= 0 && nodeAt(H, a, ll(H, a)) == 0 && forall(i, 0, ll(H, a), nodeAt(H, a, i) != 0)
theorem at_frame(H Bytes, x Int, v Int, a Int, k Int) induct k trig nodeAt(store(H, x, v), a, k) : 0 <= k && forall(j, 0, k, nodeAt(H, a, j) != x) ==> nodeAt(store(H, x, v), a, k) == nodeAt(H, a, k)
helper at_shift(H Bytes, a Int, j Int, n Int) induct n trig nodeAt(H, nodeAt(H, a, j), n) : 0 <= j && 0 <= n ==> nodeAt(H, nodeAt(H, a, j), n) == nodeAt(H, a, j + n)
helper at_far(H Bytes, a Int, j Int, k Int) mtrig nodeAt(H, a, j), nodeAt(H, a, k), ll(H, a) : 0 <= j && j < k && k < ll(H, a) && ends(H, a) ==> \
  nodeAt(H, nodeAt(H, a, k), ll(H, a) - k) == 0 && nodeAt(H, nodeAt(H, a, j), ll(H, a) - k) != 0
theorem at_distinct(H Bytes, a Int, j Int, k Int) mtrig nodeAt(H, a, j), nodeAt(H, a, k), ll(H, a) : 0 <= j && j < k && k < ll(H, a) && ends(H, a) ==> nodeAt(H, a, j) != nodeAt(H, a, k)
theorem at_unlink(H Bytes, x Int, v Int, a Int, j Int, k Int) induct k mtrig nodeAt(store(H, x, v), a, k), nodeAt(H, a, j), ll(H, a) : \
  ends(H, a) && 0 < j && j <= k && k < ll(H, a) && x == nodeAt(H, a, j - 1) && v == H[nodeAt(H, a, j)] ==> nodeAt(store(H, x, v), a, k) == nodeAt(H, a, k + 1)
helper at_rest(H Bytes, a Int, k Int) induct k trig nodeAt(H, H[a], k) : 0 <= k ==> nodeAt(H, H[a], k) == nodeAt(H, a, k + 1)
theorem at_tail(H Bytes, a Int, b Int, k Int) mtrig nodeAt(H, b, k), nodeAt(H, a, 0) : 0 <= k && b == H[a] ==> nodeAt(H, b, k) == nodeAt(H, a, k + 1)
theorem ll_frame(H Bytes, x Int, v Int, a Int) trig ll(store(H, x, v), a) : ends(H, a) && forall(i, 0, ll(H, a), nodeAt(H, a, i) != x) ==> nodeAt(store(H, x, v), a, ll(H, a)) == 0 && ends(store(H, x, v), a) && ll(store(H, x, v), a) == ll(H, a)
helper at_before(H Bytes, x Int, v Int, a Int, j Int, k Int) mtrig nodeAt(store(H, x, v), a, k), nodeAt(H, a, j) : \
  ends(H, a) && 0 <= k && k <= j && j < ll(H, a) && x == nodeAt(H, a, j) ==> nodeAt(store(H, x, v), a, k) == nodeAt(H, a, k)
helper at_put(H Bytes, x Int, v Int, a Int, j Int) mtrig nodeAt(store(H, x, v), a, j + 1), nodeAt(H, a, j) : \
  ends(H, a) && 0 <= j && j < ll(H, a) && x == nodeAt(H, a, j) ==> nodeAt(store(H, x, v), a, j) == x && nodeAt(store(H, x, v), a, j + 1) == v
helper at_live(H Bytes, x Int, v Int, a Int, j Int, k Int) mtrig nodeAt(store(H, x, v), a, k), nodeAt(H, a, j), ll(H, a) : \
  ends(H, a) && 0 < j && j < ll(H, a) && 0 <= k && k < ll(H, a) - 1 && x == nodeAt(H, a, j - 1) && v == H[nodeAt(H, a, j)] ==> nodeAt(H, a, j - 1) == x && nodeAt(store(H, x, v), a, k) != 0
theorem ll_append(H Bytes, x Int, v Int, a Int) trig ll(store(H, x, v), a) : ends(H, a) && ll(H, a) > 0 && x == nodeAt(H, a, ll(H, a) - 1) && v != 0 && v != x && H[v] == 0 ==> \
  nodeAt(store(H, x, v), a, ll(H, a) - 1) == x && nodeAt(store(H, x, v), a, ll(H, a)) == v && nodeAt(store(H, x, v), a, ll(H, a) + 1) == 0 && ends(store(H, x, v), a) && ll(store(H, x, v), a) == ll(H, a) + 1 && \
  forall(i, 0, ll(H, a), nodeAt(store(H, x, v), a, i) == nodeAt(H, a, i), nodeAt(store(H, x, v), a, i))
theorem ll_one(H Bytes, a Int) trig ll(H, a) : a != 0 && H[a] == 0 ==> nodeAt(H, a, 0) == a && nodeAt(H, a, 1) == 0 && ends(H, a) && ll(H, a) == 1
theorem ll_nil(H Bytes, a Int) trig ll(H, a) : a == 0 ==> nodeAt(H, a, 0) == a && ends(H, a) && ll(H, a) == 0
theorem ll_unlink(H Bytes, x Int, v Int, a Int, j Int) mtrig ll(store(H, x, v), a), nodeAt(H, a, j) : ends(H, a) && 0 < j && j < ll(H, a) && x == nodeAt(H, a, j - 1) && v == H[nodeAt(H, a, j)] ==> \
  nodeAt(store(H, x, v), a, ll(H, a) - 1) == 0 && ends(store(H, x, v), a) && ll(store(H, x, v), a) == ll(H, a) - 1
theorem ll_tail(H Bytes, a Int, b Int) mtrig ll(H, b), ll(H, a) : ends(H, a) && a != 0 && b == H[a] ==> nodeAt(H, a, 0) == a && nodeAt(H, b, ll(H, a) - 1) == 0 && ends(H, b) && ll(H, b) == ll(H, a) - 1
func link.lemmaLinks()
  proves at_frame, at_shift, at_far, at_distinct, at_unlink, at_rest, at_tail, ll_tail, ll_frame, ll_one, ll_nil, at_before, at_put, at_live, ll_append, ll_unlink
check C11: link.lemmaLinks
def nx() = fieldmap("link.closeCallback.Next")
def cn(s) = ll(nx(), s.firstCloseCallback)
def ca(s, i) = nodeAt(nx(), s.firstCloseCallback, i)
def nfunc(a) = fieldmap("link.closeCallback.Func")[a]
monitor link.Session.closeMutex (self): firstCloseCallback, lastCloseCallback
  invariant chain: ends(nx(), self.firstCloseCallback) && cn(self) >= 0 && (self.firstCloseCallback == nil) == (cn(self) == 0)
  invariant nodes: forall(j, 0, cn(self), live(ca(self, j)))
  invariant callable: forall(j, 0, cn(self), nfunc(ca(self, j)) != nil)
  invariant last: cn(self) > 0 ==> self.lastCloseCallback == ca(self, cn(self) - 1)
end
assume the callbacks of distinct sessions are distinct list nodes (each is made by AddCloseCallback and linked once)
func link.Session.AddCloseCallback(session, handler, key, callback)
  requires callback != nil
  modifies session.closeFlag, session.firstCloseCallback, session.lastCloseCallback, anyof("link.closeCallback.Next")
  ensures added: session.closeFlag == 1 || cn(session) == acq(cn(session)) + 1 && nfunc(ca(session, cn(session) - 1)) == callback
  ensures behind: session.closeFlag == 1 || forall(i, 0, acq(cn(session)), ca(session, i) == acq(ca(session, i)))
def hit(a, h, k) = fieldmap("link.closeCallback.Handler")[a] == h && fieldmap("link.closeCallback.Key")[a] == k
func link.Session.RemoveCloseCallback(session, handler, key)
  ghost j int
  modifies session.closeFlag, session.firstCloseCallback, session.lastCloseCallback, anyof("link.closeCallback.Next")
  panics may
  loop 0 invariant iter <= cn(session) && acc("*link.closeCallback", 1) == ca(session, iter) && (iter == 0 ==> acc("*link.closeCallback", 0) == nil) && (iter > 0 ==> acc("*link.closeCallback", 0) == ca(session, iter - 1))
  loop 0 invariant forall(i, 0, iter, !hit(ca(session, i), handler, key))
  ensures removed: session.closeFlag == 1 || !acq(0 <= j && j < cn(session) && hit(ca(session, j), handler, key) && forall(i, 0, j, !hit(ca(session, i), handler, key))) || \
    cn(session) == acq(cn(session)) - 1 && forall(i, 0, cn(session), ca(session, i) == acq(ca(session, ite(i < j, i, i + 1))))
  ensures kept: session.closeFlag == 1 || acq(some(i, "int", 0 <= i && i < cn(session) && hit(ca(session, i), handler, key))) || cn(session) == acq(cn(session)) && forall(i, 0, cn(session), ca(session, i) == acq(ca(session, i)))
ghost ran int
ghost ranAt Bytes
field link.closeCallback.Func(self)
  noframe
  sets ranAt := store(ranAt, ran, self)
  sets ran := ran + 1
ghost invocs int
ghost invocOf int
func link.Session.invokeCloseCallbacks(session)
  sets invocs := invocs + 1
  sets invocOf := session
  modifies ran, ranAt, session.firstCloseCallback, session.lastCloseCallback
  loop 0 invariant ran == old(ran) + iter && iter <= cn(session) && acc("*link.closeCallback") == ca(session, iter) && forall(i, 0, iter, ranAt[old(ran) + i] == ca(session, i))
  ensures all: ran == old(ran) + acq(cn(session))
  ensures in_order: forall(i, 0, acq(cn(session)), ranAt[old(ran) + i] == acq(ca(session, i)))
func link.Manager.delSession(manager, session)
  trusted
# what a close that took effect starts
func link.Session.Close$1()
  requires *session != nil
  modifies ran, ranAt, (*session).firstCloseCallback, (*session).lastCloseCallback, invocs, invocOf
  ensures callbacks: invocs == old(invocs) + 1 && invocOf == *session
check C11: link.Session.Close$1, link.Session.AddCloseCallback, link.Session.RemoveCloseCallback, link.Session.invokeCloseCallbacks
endonly
