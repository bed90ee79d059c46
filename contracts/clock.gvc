# Equipment time (C30): gem/clock.go, gem/clock_handlers.go
# time.Time values are compared through tmv (nanoseconds); time.Parse and Format carry assumed contracts
specfun calOk(string) bool
specfun calTime(string) Int
def LAYOUT() = "20060102150405"
def isDigit(c) = 48 <= c && c <= 57
def digits(s, n) = forall(i, 0, n, isDigit(s[i]))
# calOk: fourteen characters that are a calendar date and time of day; calTime: that time
func time.Parse(layout, s) (t, err)
  trusted
  ensures layout == LAYOUT() ==> (err == nil) == calOk(s) && (err == nil ==> tmv(t) == calTime(s))

def okTime(s) = (len(s) == 14 || len(s) == 16) && digits(s, len(s)) && calOk(s[0:14])
def timeIn(s) = calTime(s[0:14]) + ite(len(s) == 16, 10000000 * (10 * (s[14] - 48) + s[15] - 48), 0)
func gem.ParseSEMITime(s) (t, err)
  ensures valid: (err == nil) == okTime(s)
  ensures exact: err == nil ==> tmv(t) == timeIn(s)
  loop 0 invariant digits(s, iter)

# what the application's clock functions were asked and said
ghost syncs int
ghost syncFn int
ghost syncTime int
ghost syncCode int
ghost provs int
ghost provFn int
ghost provTime Any
ghost gotTime Any
functype gem.ClockSyncHandler(fn, t) (code, err)
  sets syncs := syncs + 1
  sets syncFn := fn
  sets syncTime := tmv(t)
  modifies syncCode
  ensures syncCode == ite(err == nil, code, 1)
functype gem.TimeProvider(fn) (t)
  sets provs := provs + 1
  sets provFn := fn
  modifies provTime
  ensures provTime == box(t)
assume the application's clock functions do not change the clock manager

monitor gem.ClockManager.mu (self): timeProvider, clockSyncHandler
end
func gem.NewClockManager() (c)
  ensures c != nil && fresh(c) && c.clockSyncHandler == nil && c.timeProvider != nil
func gem.ClockManager.SetTimeProvider(c, p)
  requires c != nil
  modifies c.timeProvider, c.clockSyncHandler
  ensures c.timeProvider == p && c.clockSyncHandler == acq(c.clockSyncHandler)
func gem.ClockManager.SetClockSyncHandler(c, h)
  requires c != nil
  modifies c.timeProvider, c.clockSyncHandler
  ensures c.clockSyncHandler == h && c.timeProvider == acq(c.timeProvider)
func gem.ClockManager.GetTime(c) (t)
  requires c != nil
  modifies c.timeProvider, c.clockSyncHandler, provs, provFn, provTime, clock
  records gotTime := box(t)
  ensures provider: acq(c.timeProvider) != nil ==> provs == old(provs) + 1 && provFn == acq(c.timeProvider) && provTime == box(t)
  ensures system: acq(c.timeProvider) == nil ==> tmv(t) == clock && clock >= old(clock)
def fmt16(s, t) = s == raw("time.format", "Str", t, LAYOUT()) + "00"
func gem.ClockManager.GetFormattedTime(c) (s)
  requires c != nil
  modifies c.timeProvider, c.clockSyncHandler, provs, provFn, provTime, clock, gotTime
  ensures form: is(gotTime, "time.Time") && fmt16(s, as(gotTime, "time.Time"))
  ensures provider: acq(c.timeProvider) != nil ==> provs == old(provs) + 1 && provFn == acq(c.timeProvider) && provTime == gotTime
func gem.ClockManager.HandleTimeSet(c, t) (code)
  requires c != nil
  modifies c.timeProvider, c.clockSyncHandler, syncs, syncFn, syncTime, syncCode
  ensures none: acq(c.clockSyncHandler) == nil ==> code == 1 && syncs == old(syncs)
  ensures asked: acq(c.clockSyncHandler) != nil ==> syncs == old(syncs) + 1 && syncFn == acq(c.clockSyncHandler) && syncTime == tmv(t) && code == syncCode

# what time.Format writes for this layout: digits (and a sign for years before 0), a few dozen characters
axiom[C30] fmt_ascii(t time.Time, i Int) mtrig raw("time.format", "Str", t, LAYOUT())[i] : raw("time.format", "Str", t, LAYOUT())[i] < 128
axiom[C30] fmt_len(t time.Time) trig raw("time.format", "Str", t, LAYOUT()) : len(raw("time.format", "Str", t, LAYOUT())) <= 64
func gem.GemHandler.buildS2F32(g, k) (m)
  requires g != nil
  ensures answer(m, 2, 32) && codeIs(m.dataItem, k)
func gem.GemHandler.onS2F17(g, msg) (r, err)
  requires g != nil && g.clockManager != nil
  modifies *
  ensures err == nil && answer(r, 2, 18) && isText(r.dataItem) && fmt16(textOf(r.dataItem), as(gotTime, "time.Time"))
  ensures time: acq(g.clockManager.timeProvider) != nil ==> provs == old(provs) + 1 && provFn == acq(g.clockManager.timeProvider) && provTime == gotTime
func gem.GemHandler.onS2F31(g, msg) (r, err)
  requires g != nil && g.clockManager != nil && msg != nil
  modifies *
  ensures answered: err == nil && answer(r, 2, 32)
  ensures invalid: !(isText(msg.dataItem) && okTime(textOf(msg.dataItem))) ==> codeIs(r.dataItem, 1) && syncs == old(syncs)
  ensures exact: isText(msg.dataItem) && okTime(textOf(msg.dataItem)) && acq(g.clockManager.clockSyncHandler) != nil ==> \
    syncs == old(syncs) + 1 && syncFn == acq(g.clockManager.clockSyncHandler) && syncTime == timeIn(textOf(msg.dataItem)) && codeIs(r.dataItem, syncCode)
  ensures refused: isText(msg.dataItem) && okTime(textOf(msg.dataItem)) && acq(g.clockManager.clockSyncHandler) == nil ==> codeIs(r.dataItem, 1) && syncs == old(syncs)
check C30: gem.ParseSEMITime, gem.NewClockManager, gem.ClockManager.*, gem.GemHandler.buildS2F32, gem.GemHandler.onS2F17, gem.GemHandler.onS2F31
