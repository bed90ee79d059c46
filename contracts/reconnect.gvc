# Reconnect delays (C17). Floats appear here only as whole numbers scaled by powers of two;
# fv(v) is the mathematical value of such a float (of +Inf: the value that overflowed), which
# IEEE 754 keeps exactly below 2^53 and compares correctly with any such number.
specfun p2(Int) Int
specfun p2f(Int) float64
specfun fv(float64) Int
specfun whole(float64) bool
def small(n) = 0 <= n && n <= 9007199254740992
axiom[C17] p2_zero() : p2(0) == 1
axiom[C17] p2_pos(k int) trig p2(k) : k >= 0 ==> p2(k) >= 1
axiom[C17] p2_step(j int, k int) mtrig p2(j), p2(k) : j >= 0 && k == j + 1 ==> p2(k) == 2 * p2(j)
axiom[C17] whole_int(n int) trig raw("i2f", "F64", n) : small(n) ==> whole(raw("i2f", "F64", n)) && fv(raw("i2f", "F64", n)) == n
axiom[C17] whole_p2(k int) trig p2f(k) : k >= 0 ==> whole(p2f(k)) && fv(p2f(k)) == p2(k)
axiom[C17] scale(n int, k int) trig raw("f.mul", "F64", raw("i2f", "F64", n), p2f(k)) : 1 <= n && small(n) && k >= 0 ==> \
  whole(raw("f.mul", "F64", raw("i2f", "F64", n), p2f(k))) && fv(raw("f.mul", "F64", raw("i2f", "F64", n), p2f(k))) == n * p2(k)
axiom[C17] scale_r(n int, k int) trig raw("f.mul", "F64", p2f(k), raw("i2f", "F64", n)) : 1 <= n && small(n) && k >= 0 ==> \
  whole(raw("f.mul", "F64", p2f(k), raw("i2f", "F64", n))) && fv(raw("f.mul", "F64", p2f(k), raw("i2f", "F64", n))) == n * p2(k)
axiom[C17] whole_lt(a float64, b float64) trig raw("f.lt", "Bool", a, b) : whole(a) && whole(b) && (small(fv(a)) || small(fv(b))) ==> (raw("f.lt", "Bool", a, b) <==> fv(a) < fv(b))
axiom[C17] whole_le(a float64, b float64) trig raw("f.le", "Bool", a, b) : whole(a) && whole(b) && (small(fv(a)) || small(fv(b))) ==> (raw("f.le", "Bool", a, b) <==> fv(a) <= fv(b))
axiom[C17] whole_f2i(a float64) trig raw("f2i.int64", "Int", a) : whole(a) && small(fv(a)) ==> raw("f2i.int64", "Int", a) == fv(a)
axiom[C17] whole_f2int(a float64) trig raw("f2i.int", "Int", a) : whole(a) && small(fv(a)) ==> raw("f2i.int", "Int", a) == fv(a)
func math.Pow(x, y) (r)
  trusted
  ensures all(k, "int", k >= 0 && x == flt("2") && y == raw("i2f", "F64", k) ==> r == p2f(k), raw("i2f", "F64", k))
func math.Exp2(y) (r)
  trusted
  ensures all(k, "int", k >= 0 && y == raw("i2f", "F64", k) ==> r == p2f(k), raw("i2f", "F64", k))
func math.Ldexp(x, e) (r)
  trusted
  ensures e >= 0 ==> r == raw("f.mul", "F64", x, p2f(e))
func math.Min(x, y) (r)
  trusted
  ensures whole(x) && whole(y) && (small(fv(x)) || small(fv(y))) ==> r == ite(raw("f.le", "Bool", x, y), x, y)

def protoOk(p) = p.connections != nil && p.timeouts != nil && p.enabled != nil && p.connected != nil && p.systemCounter != nil && p.connectThreadRunning != nil && p.logger != nil && \
  p.connectionState != nil && p.hsmsConnection != nil && p.disconnectFlg != nil && p.handlers != nil && p.systemQueues != nil

# the delay before the retry after k failures in a row, in nanoseconds
def sane(t) = 1 <= t.reconnectBackoffBase && t.reconnectBackoffBase <= t.reconnectBackoffMax && t.reconnectBackoffMax <= 9223372036
def delayOf(t, k) = 1000000000 * min(t.reconnectBackoffBase * p2(k - 1), t.reconnectBackoffMax)

func hsms.HsmsProtocol.calculateBackoffDelay(p) (d)
  requires p.timeouts != nil && sane(p.timeouts)
  requires 1 <= p.reconnectAttempts && p.reconnectAttempts <= 4611686018427387904
  ensures exact: d == delayOf(p.timeouts, p.reconnectAttempts)
  lemma bounds: p.timeouts.reconnectBackoffBase * 1000000000 <= d && d <= p.timeouts.reconnectBackoffMax * 1000000000
  lemma initial: p.reconnectAttempts == 1 ==> d == p.timeouts.reconnectBackoffBase * 1000000000
  lemma grows: p.reconnectAttempts >= 2 ==> d >= delayOf(p.timeouts, p.reconnectAttempts - 1)

# The retry loop. fails counts the failed attempts since the last success (or since the retry
# counter was last given up); pending: a failed attempt has not been followed by a new one yet.
ghost fails int
ghost pending bool
ghost slept int
func time.Sleep(d)
  trusted
  modifies slept
  ensures slept == d
func hsms.HsmsProtocol.activeConnect(p) (err)
  trusted
  requires delayed: pending && sane(p.timeouts) ==> slept == delayOf(p.timeouts, fails)
  modifies fails, pending, slept
  ensures err != nil ==> fails == old(fails) + 1 && pending && fails <= 4611686018427387904
  ensures err == nil ==> fails == 0 && !pending
func hsms.HsmsProtocol.passiveConnect(p) (err)
  trusted
func hsms.HsmsProtocol.startConnectThread(p)
  volatile
  requires protoOk(p) && sane(p.timeouts) && 0 <= p.reconnectAttempts && p.reconnectAttempts == fails && !pending && fails <= 4611686018427387904
  modifies p.reconnectAttempts, fails, pending, slept, load(p.connectThreadRunning)
  loop 0 invariant p.reconnectAttempts == fails && 0 <= fails && fails <= 4611686018427387904
  loop 0 invariant pending ==> p.active && slept == delayOf(p.timeouts, fails)
check C17: hsms.HsmsProtocol.calculateBackoffDelay, hsms.HsmsProtocol.startConnectThread
