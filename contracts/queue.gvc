# Message queue (C28): utils/queue.go. container/list is ghost state: list l holds the values
# lrow[l][i] for llo[l] <= i < lhi[l]; the front is at the high end, the back at the low end.
ghost lrow (Array Int (Array Int Any))
ghost llo (Array Int Int)
ghost lhi (Array Int Int)
# what this goroutine did to lists: values put in at the front, values taken from the back
ghost puts int
ghost putList int
ghost putVal Any
ghost takes int
ghost takeList int
ghost takeVal Any
# the clock, and when a list was last seen empty by this goroutine while it held the lock
ghost clock int
ghost emptyAt int
ghost emptyList int
specfun eList(Int) Int
specfun eIdx(Int) Int
specfun tmv(time.Time) Int

func list.New() (l)
  trusted
  modifies llo, lhi
  ensures l != nil && fresh(l) && llo[l] == lhi[l]
func list.List.PushFront(l, v) (e)
  trusted
  requires locked: holding("utils.Deque.RWMutex")
  modifies lrow, lhi, puts, putList, putVal
  ensures lrow == store(old(lrow), l, store(old(lrow)[l], old(lhi)[l], v))
  ensures lhi == store(old(lhi), l, old(lhi)[l] + 1)
  ensures puts == old(puts) + 1 && putList == l && putVal == v
func list.List.PushBack(l, v) (e)
  trusted
  requires fifo: 1 == 0
  modifies lrow, llo
func list.List.Back(l) (e)
  trusted
  requires locked: holding("utils.Deque.RWMutex")
  modifies emptyAt, emptyList
  ensures (e == nil) == (llo[l] == lhi[l])
  ensures e != nil ==> eList(e) == l && eIdx(e) == llo[l] && emptyAt == old(emptyAt) && emptyList == old(emptyList)
  ensures e == nil ==> emptyList == l && emptyAt == clock
func list.List.Len(l) (n)
  trusted
  requires locked: holding("utils.Deque.RWMutex")
  modifies emptyAt, emptyList
  ensures n == lhi[l] - llo[l] && n >= 0
  ensures n != 0 ==> emptyAt == old(emptyAt) && emptyList == old(emptyList)
  ensures n == 0 ==> emptyList == l && emptyAt == clock
func list.List.Remove(l, e) (v)
  trusted
  requires locked: holding("utils.Deque.RWMutex")
  requires oldest: e != nil && eList(e) == l && eIdx(e) == llo[l] && llo[l] != lhi[l]
  modifies llo, takes, takeList, takeVal
  ensures llo == store(old(llo), l, old(llo)[l] + 1)
  ensures takes == old(takes) + 1 && takeList == l && takeVal == v
  ensures v == lrow[l][old(llo)[l]]
func time.Now() (t)
  trusted
  modifies clock
  ensures clock >= old(clock) && tmv(t) == clock
func time.Time.Add(t, d) (r)
  trusted
  ensures tmv(r) == tmv(t) + d
func time.Time.Sub(t, u) (d)
  trusted
  ensures d == tmv(t) - tmv(u)
func time.Until(t) (d)
  trusted
  modifies clock
  ensures clock >= old(clock) && d == tmv(t) - clock
func time.Since(t) (d)
  trusted
  modifies clock
  ensures clock >= old(clock) && d == clock - tmv(t)
func time.Time.After(t, u) (r)
  trusted
  ensures r == (tmv(t) > tmv(u))
func time.Time.Before(t, u) (r)
  trusted
  ensures r == (tmv(t) < tmv(u))

# what may be in a list: values that belong to its key (-1: anything)
ghost lkey (Array Int Int)
specfun goodFor(Any, Int) bool
axiom good_any(v Any) trig goodFor(v, -1) : goodFor(v, -1)
def keyed(l) = forall(i, llo[l], lhi[l], goodFor(lrow[l][i], lkey[l]), lrow[l][i])
monitor utils.Deque.RWMutex (self): ghost llo, ghost lhi, ghost lrow
invariant llo[self.container] <= lhi[self.container]
invariant belongs: keyed(self.container)

func utils.NewDeque() (q)
  modifies llo, lhi
  records lkey := store(lkey, q.container, -1)
  ensures q != nil && q.container != nil && fresh(q) && fresh(q.container) && llo[q.container] == lhi[q.container] && q.notEmptyNotify != nil
func utils.Deque.Put(s, item)
  requires s.container != nil
  requires belongs: goodFor(item, lkey[s.container])
  modifies llo, lhi, lrow, puts, putList, putVal, takes, emptyAt, emptyList, clock, chans()
  ensures once: puts == old(puts) + 1 && putList == s.container && putVal == item && takes == old(takes)
func utils.Deque.Get(s, timeout) (item, err)
  requires s.container != nil && 0 <= timeout && timeout <= 9000000000
  modifies llo, lhi, lrow, takes, takeList, takeVal, puts, emptyAt, emptyList, clock, chans()
  ensures once: err == nil ==> takes == old(takes) + 1 && takeList == s.container && takeVal == item
  ensures none: err != nil ==> takes == old(takes)
  ensures kept: puts == old(puts)
  ensures belongs: err == nil ==> goodFor(item, lkey[s.container])
  ensures patient: err != nil ==> emptyList == s.container && emptyAt >= old(clock) + timeout * 1000000000
check C28: utils.NewDeque, utils.Deque.Put, utils.Deque.Get
