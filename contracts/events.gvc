# GEM collection events, reports and links (C21, C22): gem/collection_events.go, collection_event_handlers.go
immutable gem.ReportDefinition
def rdWell(r, k) = r != nil && idIs(r.info, k) && len(r.vidKeys) <= MAXB()
# the place of text k in a list of texts (n elements from place lo of row r), -1: it is not there
specfun posOf(Strs, Int, Int, Str) int
axiom[GEM] pos_of(r Strs, lo Int, n Int, k Str) trig posOf(r, lo, n, k) : 0 <= posOf(r, lo, n, k) && posOf(r, lo, n, k) < n && r[lo + posOf(r, lo, n, k)] == k || posOf(r, lo, n, k) == -1 && forall(i, lo, lo + n, r[i] != k)
def at(s, k) = posOf(row(s), off(s), len(s), k)
def distinct(s) = forall(p, off(s), off(s) + len(s), at(s, row(s)[p]) == p - off(s), row(s)[p])
def lkWell(l) = l != nil && live(l) && live(base(l.reports)) && base(l.reports) > 0 && len(l.reports) > 0 && distinct(l.reports)
def lkApart(g) = all(c, "string", all(d, "string", c != d && has(g.eventLinks, c) && has(g.eventLinks, d) ==> g.eventLinks[c] != g.eventLinks[d] && base(g.eventLinks[c].reports) != base(g.eventLinks[d].reports)))
def lkDefined(g) = allk(c, g.eventLinks, all(k, "string", at(g.eventLinks[c].reports, k) >= 0 ==> has(g.reports, k)))
monitor gem.GemHandler.reportMu (self): reports, eventLinks
  also gem.collectionEventLink: reports, enabled
  complete C21
  invariant maps: self.reports != nil && self.eventLinks != nil
  invariant defs: allk(k, self.reports, rdWell(self.reports[k], k))
  invariant links: allk(c, self.eventLinks, lkWell(self.eventLinks[c]))
  invariant apart: lkApart(self)
  invariant exist: lkDefined(self)
end
def tablesOk(g) = g.reports != nil && g.eventLinks != nil && allk(k, g.reports, rdWell(g.reports[k], k)) && allk(c, g.eventLinks, lkWell(g.eventLinks[c])) && lkApart(g) && lkDefined(g)

func gem.newReportDefinition(id, vids) (r, err)
  requires (is(id, "string") ==> len(as(id, "string")) <= MAXB()) && len(vids) <= MAXB()
  ensures (err == nil) == (isNumber(id) || is(id, "string") && ascii(as(id, "string")))
  ensures err == nil ==> r != nil && idIs(r.info, keyOf(id)) && len(r.vidKeys) == len(vids) && forall(i, 0, len(vids), r.vidKeys[i] == vids[i].key)
  loop 0 invariant len(acc("[]string")) == iter && fresh(acc("[]string")) && base(acc("[]string")) > 0
  loop 0 invariant forall(i, 0, iter, acc("[]string")[i] == vids[i].key)
func gem.newCollectionEventLink(reports) (l)
  ensures l != nil && fresh(l) && l.enabled && base(l.reports) > 0 && fresh(l.reports) && len(l.reports) == len(reports) && forall(i, 0, len(reports), l.reports[i] == reports[i])
  ensures forall(p, off(l.reports), off(l.reports) + len(reports), elem(l.reports, p) == elem(reports, off(reports) + p - off(l.reports)), elem(l.reports, p))
func gem.collectionEventLink.removeReport(link, key)
  locked gem.GemHandler.reportMu(_)
  requires base(link.reports) > 0 && distinct(link.reports)
  modifies link.reports, elems(link.reports)
  ensures storage: base(link.reports) == old(base(link.reports)) && distinct(link.reports)
  ensures rest: all(k, "string", (at(link.reports, k) >= 0) == (old(at(link.reports, k)) >= 0 && k != key), at(link.reports, k))
  ensures rest2: all(k, "string", (at(link.reports, k) >= 0) == (old(at(link.reports, k)) >= 0 && k != key), old(at(link.reports, k)))
  ensures order: all(j, "string", all(k, "string", at(link.reports, j) >= 0 && at(link.reports, k) >= 0 ==> (at(link.reports, j) < at(link.reports, k)) == old(at(link.reports, j) < at(link.reports, k)), at(link.reports, k)), at(link.reports, j))
  loop 0 invariant forall(p, 0, iter, link.reports[p] != key)
# what removing a report leaves of link c: every other report, in the order in which they were
def lkSame(g, c) = has(g.eventLinks, c) ==> old(has(g.eventLinks, c)) && g.eventLinks[c] == old(g.eventLinks[c])
def lkLeft(g, c, key) = old(has(g.eventLinks, c)) ==> all(k, "string", (has(g.eventLinks, c) && at(g.eventLinks[c].reports, k) >= 0) == (old(at(g.eventLinks[c].reports, k)) >= 0 && k != key))
def lkOrder(g, c) = has(g.eventLinks, c) ==> all(j, "string", all(k, "string", at(g.eventLinks[c].reports, j) >= 0 && at(g.eventLinks[c].reports, k) >= 0 ==> (at(g.eventLinks[c].reports, j) < at(g.eventLinks[c].reports, k)) == old(at(g.eventLinks[c].reports, j) < at(g.eventLinks[c].reports, k))))
def lkAsWas(g, c) = has(g.eventLinks, c) == old(has(g.eventLinks, c)) && (has(g.eventLinks, c) ==> g.eventLinks[c] == old(g.eventLinks[c]) && g.eventLinks[c].reports == old(g.eventLinks[c].reports) && row(g.eventLinks[c].reports) == old(row(g.eventLinks[c].reports)))
func gem.GemHandler.removeReportUnlocked(g, reportKey)
  locked gem.GemHandler.reportMu(g)
  requires tablesOk(g)
  modifies entries(g.reports), entries(g.eventLinks), anyof("gem.collectionEventLink.reports"), allelems("string")
  ensures deleted: all(k, "string", has(g.reports, k) == (old(has(g.reports, k)) && k != reportKey) && (k != reportKey ==> g.reports[k] == old(g.reports[k])))
  ensures tables: tablesOk(g)
  ensures same: all(c, "string", lkSame(g, c))
  ensures left: all(c, "string", lkLeft(g, c, reportKey))
  ensures order: all(c, "string", lkOrder(g, c))
  loop 0 invariant allk(c, g.eventLinks, lkWell(g.eventLinks[c]))
  loop 0 invariant lkApart(g)
  loop 0 invariant all(c, "string", !has(rangekeys(), c) ==> lkAsWas(g, c))
  loop 0 invariant all(c, "string", has(rangekeys(), c) ==> lkSame(g, c))
  loop 0 invariant all(c, "string", has(rangekeys(), c) ==> lkLeft(g, c, reportKey))
  loop 0 invariant all(c, "string", has(rangekeys(), c) ==> lkOrder(g, c))
# variables a report may name: the last step at which one was found (vidYes), how often one was found missing (vidMisses)
ghost vidYes (Array Str Int)
ghost vidMisses int
monitor gem.DataVariable.mu (self): value, provider
  invariant itemOrNil(self.value)
end
def dvWell(v) = v != nil && idWell(v.info)
monitor gem.GemHandler.dataVarMu (self): dataVars, dataVarOrder
  invariant keyed: allk(k, self.dataVars, self.dataVars[k] != nil && idIs(self.dataVars[k].info, k))
  invariant order: base(self.dataVarOrder) >= 0
  invariant map: self.dataVars != nil
end
monitor gem.GemHandler.collectionMu (self): collectionEvents, collectionOrder
  invariant keyed: allk(k, self.collectionEvents, self.collectionEvents[k] != nil && idIs(self.collectionEvents[k].info, k))
  invariant order: base(self.collectionOrder) >= 0
  invariant map: self.collectionEvents != nil
end
def svHas(g, k) = acqof("gem.GemHandler.statusMu", has(g.statusVars, k))
def dvHas(g, k) = acqof("gem.GemHandler.dataVarMu", has(g.dataVars, k))
func gem.GemHandler.vidExists(g, key) (r)
  requires g != nil
  modifies anydeep("gem.GemHandler.statusVars"), anydeep("gem.GemHandler.statusOrder"), anydeep("gem.GemHandler.dataVars"), anydeep("gem.GemHandler.dataVarOrder")
  sets steps := steps + 1
  records vidYes := ite(r, store(vidYes, key, steps), vidYes)
  records vidMisses := ite(r, vidMisses, vidMisses + 1)
  ensures found: r == (svHas(g, key) || acquired("gem.GemHandler.dataVarMu") && dvHas(g, key))
  ensures looked: !svHas(g, key) ==> acquired("gem.GemHandler.dataVarMu")

# the tables when the lock was taken, and when it was let go
def rtWas(g, k) = acqof("gem.GemHandler.reportMu", has(g.reports, k))
def rtNow(g, k) = rel("gem.GemHandler.reportMu", has(g.reports, k))
def rdWas(g, k) = acqof("gem.GemHandler.reportMu", g.reports[k])
def rdNow(g, k) = rel("gem.GemHandler.reportMu", g.reports[k])
def ltWas(g, c) = acqof("gem.GemHandler.reportMu", has(g.eventLinks, c))
def ltNow(g, c) = rel("gem.GemHandler.reportMu", has(g.eventLinks, c))
def lnWas(g, c) = acqof("gem.GemHandler.reportMu", len(g.eventLinks[c].reports))
def lnNow(g, c) = rel("gem.GemHandler.reportMu", len(g.eventLinks[c].reports))
def leWas(g, c, i) = acqof("gem.GemHandler.reportMu", g.eventLinks[c].reports[i])
def leNow(g, c, i) = rel("gem.GemHandler.reportMu", g.eventLinks[c].reports[i])
def laWas(g, c, k) = acqof("gem.GemHandler.reportMu", at(g.eventLinks[c].reports, k))
def laNow(g, c, k) = rel("gem.GemHandler.reportMu", at(g.eventLinks[c].reports, k))
def loWas(g, c) = acqof("gem.GemHandler.reportMu", g.eventLinks[c].enabled)
def loNow(g, c) = rel("gem.GemHandler.reportMu", g.eventLinks[c].enabled)
# report k, link c: as they were
def rtKept(g, k) = rtNow(g, k) == rtWas(g, k) && (rtWas(g, k) ==> rdNow(g, k) == rdWas(g, k))
def lkKept(g, c) = ltNow(g, c) == ltWas(g, c) && (ltWas(g, c) ==> lnNow(g, c) == lnWas(g, c) && loNow(g, c) == loWas(g, c) && forall(i, 0, lnWas(g, c), leNow(g, c, i) == leWas(g, c, i)))
def rtAll(g) = acquired("gem.GemHandler.reportMu") ==> all(k, "string", rtKept(g, k))
def lkAll(g) = acquired("gem.GemHandler.reportMu") ==> all(c, "string", lkKept(g, c))

# what the table operations were last asked to do, and their answers
ghost rdCalls int
ghost rdDone []gem.reportDefinitionMessage
ghost rdCode int
ghost elCalls int
ghost elDone []gem.eventReportLinkMessage
ghost elCode int
ghost enCalls int
ghost enOn bool
ghost enIds []gem.idInfo
ghost enCode int
# enabling: events without a link are unknown
func gem.GemHandler.setCollectionEventState(g, enable, ceids) (code)
  requires g != nil
  modifies anydeep("gem.GemHandler.reports"), anydeep("gem.GemHandler.eventLinks"), anydeep("gem.collectionEventLink.reports"), anyof("gem.collectionEventLink.enabled")
  sets enCalls := enCalls + 1
  sets enOn := enable
  sets enIds := ceids
  records enCode := code
  ensures code == 0 || code == 1
  ensures reports: rtAll(g)
  ensures unknown: (code == 0) == forall(i, 0, len(ceids), ltWas(g, ceids[i].key))
  ensures refused: code != 0 ==> lkAll(g)
  ensures links: all(c, "string", ltNow(g, c) == ltWas(g, c) && (ltWas(g, c) ==> lnNow(g, c) == lnWas(g, c) && forall(i, 0, lnWas(g, c), leNow(g, c, i) == leWas(g, c, i))))
  ensures every: len(ceids) == 0 ==> all(c, "string", ltWas(g, c) ==> loNow(g, c) == enable)
  ensures named: code == 0 ==> forall(i, 0, len(ceids), loNow(g, ceids[i].key) == enable)
  ensures others: code == 0 && len(ceids) > 0 ==> all(c, "string", ltWas(g, c) && forall(i, 0, len(ceids), ceids[i].key != c) ==> loNow(g, c) == loWas(g, c))
  loop 0 invariant allk(c, g.eventLinks, has(rangekeys(), c) ==> g.eventLinks[c].enabled == enable)
  loop 1 invariant forall(i, 0, iter, has(g.eventLinks, ceids[i].key))
  loop 2 invariant forall(i, 0, iter, g.eventLinks[ceids[i].key].enabled == enable)
  loop 2 invariant allk(c, g.eventLinks, forall(i, 0, iter, ceids[i].key != c) ==> g.eventLinks[c].enabled == loWas(g, c))
check C21: gem.GemHandler.vidExists, gem.GemHandler.setCollectionEventState
# defining reports
def vidsFound(vs, t) = forall(j, off(vs), off(vs) + len(vs), vidYes[elem(vs, j).key] > t)
def idSent(i) = idIs(i, i.key) && (is(i.raw, "string") ==> ascii(as(i.raw, "string")) && len(as(i.raw, "string")) <= MAXB())
def rdIs(d, r) = d != nil && idIs(d.info, r.id.key) && len(d.vidKeys) == len(r.vids) && forall(j, 0, len(r.vids), d.vidKeys[j] == r.vids[j].key)
def rdFree(g, rs, i) = forall(j, 0, i, rs[j].id.key != rs[i].id.key) && (len(rs[i].vids) > 0 ==> !rtWas(g, rs[i].id.key))
def rdNot(rs, n, k) = forall(i, 0, n, rs[i].id.key == k ==> len(rs[i].vids) > 0)
func gem.GemHandler.handleReportDefinitions(g, reports) (code)
  requires g != nil && forall(i, 0, len(reports), idSent(reports[i].id) && len(reports[i].vids) <= MAXB())
  modifies anydeep("gem.GemHandler.reports"), anydeep("gem.GemHandler.eventLinks"), anydeep("gem.collectionEventLink.reports"), anyof("gem.collectionEventLink.enabled"), anydeep("gem.GemHandler.statusVars"), anydeep("gem.GemHandler.statusOrder"), anydeep("gem.GemHandler.dataVars"), anydeep("gem.GemHandler.dataVarOrder"), steps, vidYes, vidMisses
  sets rdCalls := rdCalls + 1
  sets rdDone := reports
  records rdCode := code
  ensures codes: code == 0 || code == 3 || code == 4
  ensures clash: (code != 3) == forall(i, 0, len(reports), rdFree(g, reports, i))
  ensures exist: code == 0 ==> forall(i, 0, len(reports), vidsFound(reports[i].vids, old(steps)))
  ensures missing: (code == 4) == (vidMisses > old(vidMisses)) && vidMisses >= old(vidMisses)
  ensures refused: code != 0 ==> rtAll(g) && lkAll(g)
  ensures cleared: len(reports) == 0 ==> all(k, "string", !rtNow(g, k)) && all(c, "string", !ltNow(g, c))
  ensures defined: code == 0 ==> forall(i, 0, len(reports), ite(len(reports[i].vids) > 0, rtNow(g, reports[i].id.key) && rdIs(rdNow(g, reports[i].id.key), reports[i]), !rtNow(g, reports[i].id.key)))
  ensures others: code == 0 && len(reports) > 0 ==> all(k, "string", forall(i, 0, len(reports), reports[i].id.key != k) ==> rtKept(g, k))
  ensures links: code == 0 && len(reports) > 0 ==> all(c, "string", ltNow(g, c) ==> ltWas(g, c) && loNow(g, c) == loWas(g, c))
  ensures left: code == 0 && len(reports) > 0 ==> all(c, "string", ltWas(g, c) ==> all(k, "string", (ltNow(g, c) && laNow(g, c, k) >= 0) == (laWas(g, c, k) >= 0 && rdNot(reports, len(reports), k))))
  ensures order: code == 0 && len(reports) > 0 ==> all(c, "string", ltNow(g, c) ==> all(j, "string", all(k, "string", laNow(g, c, j) >= 0 && laNow(g, c, k) >= 0 ==> (laNow(g, c, j) < laNow(g, c, k)) == (laWas(g, c, j) < laWas(g, c, k)))))
  loop 0 invariant all(k, "string", has(mk("map[string]bool"), k) == !forall(i, 0, iter, reports[i].id.key != k))
  loop 0 invariant allk(k, mk("map[string]bool"), mk("map[string]bool")[k])
  loop 0 invariant forall(i, 0, iter, rdFree(g, reports, i))
  loop 1 invariant steps >= old(steps) && vidMisses == old(vidMisses)
  loop 1 invariant forall(i, 0, iter, vidsFound(reports[i].vids, old(steps)))
  loop 1 invariant allk(c, g.eventLinks, row(g.eventLinks[c].reports) == acqof("gem.GemHandler.reportMu", row(g.eventLinks[c].reports)))
  loop 2 invariant steps >= old(steps) && vidMisses == old(vidMisses)
  loop 2 invariant forall(i, 0, iterof(1), vidsFound(reports[i].vids, old(steps)))
  loop 2 invariant forall(j, 0, iter, vidYes[reports[iterof(1)].vids[j].key] > old(steps))
  loop 2 invariant allk(c, g.eventLinks, row(g.eventLinks[c].reports) == acqof("gem.GemHandler.reportMu", row(g.eventLinks[c].reports)))
  loop 3 invariant tablesOk(g)
  loop 3 invariant forall(i, 0, iter, ite(len(reports[i].vids) > 0, has(g.reports, reports[i].id.key) && rdIs(g.reports[reports[i].id.key], reports[i]), !has(g.reports, reports[i].id.key)))
  loop 3 invariant all(k, "string", forall(i, 0, iter, reports[i].id.key != k) ==> has(g.reports, k) == rtWas(g, k) && (rtWas(g, k) ==> g.reports[k] == rdWas(g, k)))
  loop 3 invariant allk(c, g.eventLinks, ltWas(g, c) && g.eventLinks[c].enabled == loWas(g, c))
  loop 3 invariant all(c, "string", ltWas(g, c) ==> all(k, "string", (has(g.eventLinks, c) && at(g.eventLinks[c].reports, k) >= 0) == (laWas(g, c, k) >= 0 && rdNot(reports, iter, k))))
  loop 3 invariant allk(c, g.eventLinks, all(j, "string", all(k, "string", at(g.eventLinks[c].reports, j) >= 0 && at(g.eventLinks[c].reports, k) >= 0 ==> (at(g.eventLinks[c].reports, j) < at(g.eventLinks[c].reports, k)) == (laWas(g, c, j) < laWas(g, c, k)))))
check C21: gem.GemHandler.handleReportDefinitions
check C21: gem.newReportDefinition, gem.newCollectionEventLink, gem.collectionEventLink.removeReport, gem.GemHandler.removeReportUnlocked
# linking reports to events
def evHas(g, c) = acqof("gem.GemHandler.collectionMu", has(g.collectionEvents, c))
def rptFree(g, c, k) = rtWas(g, k) && !(ltWas(g, c) && laWas(g, c, k) >= 0)
def rptsFree(g, c, vs, n) = forall(p, off(vs), off(vs) + n, rptFree(g, c, elem(vs, p).key) && forall(q, off(vs), p, elem(vs, q).key != elem(vs, p).key))
def rptsKnown(g, vs) = forall(p, off(vs), off(vs) + len(vs), rtWas(g, elem(vs, p).key))
def rptsNew(g, c, vs) = forall(p, off(vs), off(vs) + len(vs), !(ltWas(g, c) && laWas(g, c, elem(vs, p).key) >= 0) && forall(q, off(vs), p, elem(vs, q).key != elem(vs, p).key))
def ceFirst(ls, i) = forall(j, 0, i, ls[j].ceid.key != ls[i].ceid.key)
def lkFree(g, ls, i) = evHas(g, ls[i].ceid.key) && ceFirst(ls, i) && rptsFree(g, ls[i].ceid.key, ls[i].rptids, len(ls[i].rptids))
def lnOld(g, c) = ite(ltWas(g, c), lnWas(g, c), 0)
def lkGrown(g, c, vs) = ltNow(g, c) && loNow(g, c) == (!ltWas(g, c) || loWas(g, c)) && lnNow(g, c) == lnOld(g, c) + len(vs)
def lkGrown2(g, c, vs) = sameRun(lrNow(g, c), lbNow(g, c), lrWas(g, c), lbWas(g, c), lnOld(g, c))
def lkGrown3(g, c, vs) = keysAt(lrNow(g, c), lbNow(g, c), lnNow(g, c), row(vs), off(vs), len(vs))
def lkAdded(g, c, vs) = has(g.eventLinks, c) && g.eventLinks[c].enabled == (!ltWas(g, c) || loWas(g, c)) && len(g.eventLinks[c].reports) == lnOld(g, c) + len(vs)
# n texts from place lo of row r are those from place k of row q; the last n of the m texts from place lo of row r are the keys of the ids from place k of row q
specfun sameRun(Strs, Int, Strs, Int, Int) bool
specfun runOdd(Strs, Int, Strs, Int, Int) int
axiom[GEM] same_run(r Strs, lo Int, q Strs, k Int, n Int) trig sameRun(r, lo, q, k, n) : sameRun(r, lo, q, k, n) || lo <= runOdd(r, lo, q, k, n) && runOdd(r, lo, q, k, n) < lo + n && r[runOdd(r, lo, q, k, n)] != q[k + runOdd(r, lo, q, k, n) - lo]
axiom[GEM] same_run_at(r Strs, lo Int, q Strs, k Int, n Int, p Int) mtrig sameRun(r, lo, q, k, n), r[p] : sameRun(r, lo, q, k, n) && lo <= p && p < lo + n ==> r[p] == q[k + p - lo]
specfun keysAt(Strs, Int, Int, Ids, Int, Int) bool
specfun keyOdd(Strs, Int, Int, Ids, Int, Int) int
def koAt(r, lo, m, q, k, n) = lo + m - n + keyOdd(r, lo, m, q, k, n)
axiom[GEM] keys_at(r Strs, lo Int, m Int, q Ids, k Int, n Int) trig keysAt(r, lo, m, q, k, n) : keysAt(r, lo, m, q, k, n) || 0 <= keyOdd(r, lo, m, q, k, n) && keyOdd(r, lo, m, q, k, n) < n && r[koAt(r, lo, m, q, k, n)] != q[k + keyOdd(r, lo, m, q, k, n)].key
axiom[GEM] keys_at_at(r Strs, lo Int, m Int, q Ids, k Int, n Int, p Int) mtrig keysAt(r, lo, m, q, k, n), r[p] : keysAt(r, lo, m, q, k, n) && lo + m - n <= p && p < lo + m ==> r[p] == q[k + p - lo - m + n].key
def lrWas(g, c) = acqof("gem.GemHandler.reportMu", row(g.eventLinks[c].reports))
def lrNow(g, c) = rel("gem.GemHandler.reportMu", row(g.eventLinks[c].reports))
def lbWas(g, c) = acqof("gem.GemHandler.reportMu", off(g.eventLinks[c].reports))
def lbNow(g, c) = rel("gem.GemHandler.reportMu", off(g.eventLinks[c].reports))
def lkAdded2(g, c, vs) = sameRun(row(g.eventLinks[c].reports), off(g.eventLinks[c].reports), lrWas(g, c), lbWas(g, c), lnOld(g, c))
def lkAdded3(g, c, vs) = keysAt(row(g.eventLinks[c].reports), off(g.eventLinks[c].reports), len(g.eventLinks[c].reports), row(vs), off(vs), len(vs))
def lkStill(g, c) = has(g.eventLinks, c) == ltWas(g, c) && (ltWas(g, c) ==> g.eventLinks[c] == acqof("gem.GemHandler.reportMu", g.eventLinks[c]) && g.eventLinks[c].enabled == loWas(g, c) && g.eventLinks[c].reports == acqof("gem.GemHandler.reportMu", g.eventLinks[c].reports) && row(g.eventLinks[c].reports) == acqof("gem.GemHandler.reportMu", row(g.eventLinks[c].reports)))
func gem.GemHandler.handleEventReportLinks(g, links) (code)
  requires g != nil && forall(i, 0, len(links), idSent(links[i].ceid))
  modifies anydeep("gem.GemHandler.reports"), anydeep("gem.GemHandler.eventLinks"), anydeep("gem.collectionEventLink.reports"), anyof("gem.collectionEventLink.enabled"), anydeep("gem.GemHandler.collectionEvents"), anydeep("gem.GemHandler.collectionOrder")
  sets elCalls := elCalls + 1
  sets elDone := links
  records elCode := code
  ensures codes: code == 0 || code == 3 || code == 4 || code == 5
  ensures accepted: code == 0 ==> forall(i, 0, len(links), lkFree(g, links, i))
  ensures event: code == 4 ==> !forall(i, 0, len(links), evHas(g, links[i].ceid.key))
  ensures report: code == 5 ==> !forall(i, 0, len(links), rptsKnown(g, links[i].rptids))
  ensures linked: code == 3 ==> !forall(i, 0, len(links), ceFirst(links, i) && rptsNew(g, links[i].ceid.key, links[i].rptids))
  ensures reports: rtAll(g)
  ensures refused: code != 0 ==> lkAll(g)
  ensures unnamed: code == 0 ==> forall(i, 0, len(links), len(links[i].rptids) == 0 ==> !ltNow(g, links[i].ceid.key))
  ensures named: code == 0 ==> forall(i, 0, len(links), len(links[i].rptids) > 0 ==> lkGrown(g, links[i].ceid.key, links[i].rptids))
  ensures kept: code == 0 ==> forall(i, 0, len(links), len(links[i].rptids) > 0 ==> lkGrown2(g, links[i].ceid.key, links[i].rptids))
  ensures added: code == 0 ==> forall(i, 0, len(links), len(links[i].rptids) > 0 ==> lkGrown3(g, links[i].ceid.key, links[i].rptids))
  ensures others: code == 0 ==> all(c, "string", forall(i, 0, len(links), links[i].ceid.key != c) ==> lkKept(g, c))
  loop 0 invariant all(k, "string", has(mk("map[string]bool"), k) == !forall(i, 0, iter, links[i].ceid.key != k))
  loop 0 invariant allk(k, mk("map[string]bool"), mk("map[string]bool")[k])
  loop 0 invariant forall(i, 0, iter, lkFree(g, links, i))
  loop 0 invariant allk(c, g.eventLinks, row(g.eventLinks[c].reports) == acqof("gem.GemHandler.reportMu", row(g.eventLinks[c].reports)))
  loop 1 invariant all(k, "string", has(mk("map[string]bool"), k) == !forall(i, 0, iterof(0) + 1, links[i].ceid.key != k))
  loop 1 invariant allk(k, mk("map[string]bool"), mk("map[string]bool")[k]) && mk("map[string]bool", 1) != mk("map[string]bool")
  loop 1 invariant all(k, "string", has(mk("map[string]bool", 1), k) == !forall(p, off(links[iterof(0)].rptids), off(links[iterof(0)].rptids) + iter, elem(links[iterof(0)].rptids, p).key != k))
  loop 1 invariant allk(k, mk("map[string]bool", 1), mk("map[string]bool", 1)[k])
  loop 1 invariant evHas(g, links[iterof(0)].ceid.key) && ceFirst(links, iterof(0)) && rptsFree(g, links[iterof(0)].ceid.key, links[iterof(0)].rptids, iter)
  loop 1 invariant allk(c, g.eventLinks, row(g.eventLinks[c].reports) == acqof("gem.GemHandler.reportMu", row(g.eventLinks[c].reports)))
  loop 2 invariant all(k, "string", has(mk("map[string]bool"), k) == !forall(i, 0, iterof(0) + 1, links[i].ceid.key != k))
  loop 2 invariant allk(k, mk("map[string]bool"), mk("map[string]bool")[k]) && mk("map[string]bool", 1) != mk("map[string]bool")
  loop 2 invariant forall(i, 0, iter, g.eventLinks[links[iterof(0)].ceid.key].reports[i] != links[iterof(0)].rptids[iterof(1)].key)
  loop 3 invariant tablesOk(g)
  loop 3 invariant all(k, "string", has(g.reports, k) == rtWas(g, k) && g.reports[k] == rdWas(g, k))
  loop 3 invariant forall(i, 0, iter, len(links[i].rptids) == 0 ==> !has(g.eventLinks, links[i].ceid.key))
  loop 3 invariant forall(i, 0, iter, len(links[i].rptids) > 0 ==> lkAdded(g, links[i].ceid.key, links[i].rptids))
  loop 3 invariant forall(i, 0, iter, len(links[i].rptids) > 0 ==> lkAdded2(g, links[i].ceid.key, links[i].rptids))
  loop 3 invariant iter > 0 && len(links[iter - 1].rptids) > 0 && !ltWas(g, links[iter - 1].ceid.key) ==> lkAdded3(g, links[iter - 1].ceid.key, links[iter - 1].rptids)
  loop 3 invariant iter > 0 && len(links[iter - 1].rptids) > 0 && ltWas(g, links[iter - 1].ceid.key) ==> lkAdded3(g, links[iter - 1].ceid.key, links[iter - 1].rptids)
  loop 3 invariant forall(i, 0, iter, len(links[i].rptids) > 0 ==> lkAdded3(g, links[i].ceid.key, links[i].rptids))
  loop 3 invariant all(c, "string", forall(i, 0, iter, links[i].ceid.key != c) ==> lkStill(g, c))
  loop 4 invariant len(acc("[]string")) == iter && fresh(acc("[]string")) && base(acc("[]string")) > 0
  loop 4 invariant keysAt(row(acc("[]string")), off(acc("[]string")), iter, row(links[iterof(3)].rptids), off(links[iterof(3)].rptids), iter)
  loop 4 invariant allk(c, g.eventLinks, base(g.eventLinks[c].reports) != base(acc("[]string")) && row(g.eventLinks[c].reports) == entry(row(g.eventLinks[c].reports)))
check C21: gem.GemHandler.handleEventReportLinks

# the requests: entries of an identifier and a list of identifiers
specfun idsOk(Any) bool
axiom[C21] ids_ok(x Any) trig idsOk(x) : idsOk(x) == (isList(x) && forall(i, 0, listLen(x), idOk(listAt(x, i))))
specfun entOk(Any) bool
axiom[C21] ent_ok(x Any) trig entOk(x) : entOk(x) == (isList(x) && listLen(x) >= 2 && idOk(listAt(x, 0)) && idsOk(listAt(x, 1)))
def rowsOf(d) = as(ite(isList(listAt(d, 0)), d, listAt(d, 1)), "*ast.ListNode")
def rowsOk(d) = isList(d) && (listLen(d) == 0 || (isList(listAt(d, 0)) || listLen(d) >= 2 && isList(listAt(d, 1))) && forall(i, 0, len(rowsOf(d).values), entOk(rowsOf(d).values[i])))
def rowsIn(d) = ite(listLen(d) == 0, 0, len(rowsOf(d).values))
# the n ids from place lo of row r are those of the first n items of list x
specfun idsRun(Ids, Int, Int, Any) bool
specfun idOdd(Ids, Int, Int, Any) int
def xAt(x, i) = as(x, "*ast.ListNode").values[i]
axiom[C21] ids_run(r Ids, lo Int, n Int, x Any) trig idsRun(r, lo, n, x) : idsRun(r, lo, n, x) || 0 <= idOdd(r, lo, n, x) && idOdd(r, lo, n, x) < n && !idIs(r[lo + idOdd(r, lo, n, x)], idKey(xAt(x, idOdd(r, lo, n, x))))
axiom[C21] ids_run_at(r Ids, lo Int, n Int, x Any, p Int) mtrig idsRun(r, lo, n, x), r[p] : idsRun(r, lo, n, x) && lo <= p && p < lo + n ==> idIs(r[p], idKey(xAt(x, p - lo)))
def idsAre(vs, x) = len(vs) == listLen(x) && idsRun(row(vs), off(vs), len(vs), x)
def entIs(id, vs, x) = idIs(id, idKey(listAt(x, 0))) && idSent(id) && idsAre(vs, listAt(x, 1))
def vidsAt(msg, i) = as(listAt(rowsOf(msg.dataItem).values[i], 1), "*ast.ListNode").values
func gem.parseReportDefinitionList(msg) (r, err)
  requires wire(msg)
  ensures accepted: (err == nil) == (msg != nil && rowsOk(msg.dataItem))
  ensures count: err == nil ==> len(r) == rowsIn(msg.dataItem)
  ensures each: err == nil ==> forall(i, 0, len(r), entIs(r[i].id, r[i].vids, rowsOf(msg.dataItem).values[i]))
  loop 0 invariant forall(i, 0, iter, live(base(acc("[]gem.reportDefinitionMessage")[i].vids)))
  loop 0 invariant len(acc("[]gem.reportDefinitionMessage")) == iter && 0 <= iter && iter <= len(rowsOf(msg.dataItem).values)
  loop 0 invariant forall(i, 0, iter, entOk(rowsOf(msg.dataItem).values[i]) && entIs(acc("[]gem.reportDefinitionMessage")[i].id, acc("[]gem.reportDefinitionMessage")[i].vids, rowsOf(msg.dataItem).values[i]))
  loop 1 invariant len(acc("[]gem.idInfo")) == iter && base(acc("[]gem.idInfo")) > 0 && fresh(acc("[]gem.idInfo")) && 0 <= iter && iter <= len(vidsAt(msg, iterof(0)))
  loop 1 invariant idsRun(row(acc("[]gem.idInfo")), off(acc("[]gem.idInfo")), iter, listAt(rowsOf(msg.dataItem).values[iterof(0)], 1))
  loop 1 invariant forall(i, 0, iterof(0), base(acc("[]gem.reportDefinitionMessage")[i].vids) != base(acc("[]gem.idInfo")) && row(acc("[]gem.reportDefinitionMessage")[i].vids) == entry(row(acc("[]gem.reportDefinitionMessage")[i].vids)))
  loop 1 invariant forall(j, 0, iter, idOk(vidsAt(msg, iterof(0))[j]))
func gem.parseEventReportLinkList(msg) (r, err)
  requires wire(msg)
  ensures accepted: (err == nil) == (msg != nil && rowsOk(msg.dataItem))
  ensures count: err == nil ==> len(r) == rowsIn(msg.dataItem)
  ensures each: err == nil ==> forall(i, 0, len(r), entIs(r[i].ceid, r[i].rptids, rowsOf(msg.dataItem).values[i]))
  loop 0 invariant forall(i, 0, iter, live(base(acc("[]gem.eventReportLinkMessage")[i].rptids)))
  loop 0 invariant len(acc("[]gem.eventReportLinkMessage")) == iter && 0 <= iter && iter <= len(rowsOf(msg.dataItem).values)
  loop 0 invariant forall(i, 0, iter, entOk(rowsOf(msg.dataItem).values[i]) && entIs(acc("[]gem.eventReportLinkMessage")[i].ceid, acc("[]gem.eventReportLinkMessage")[i].rptids, rowsOf(msg.dataItem).values[i]))
  loop 1 invariant len(acc("[]gem.idInfo")) == iter && base(acc("[]gem.idInfo")) > 0 && fresh(acc("[]gem.idInfo")) && 0 <= iter && iter <= len(vidsAt(msg, iterof(0)))
  loop 1 invariant idsRun(row(acc("[]gem.idInfo")), off(acc("[]gem.idInfo")), iter, listAt(rowsOf(msg.dataItem).values[iterof(0)], 1))
  loop 1 invariant forall(i, 0, iterof(0), base(acc("[]gem.eventReportLinkMessage")[i].rptids) != base(acc("[]gem.idInfo")) && row(acc("[]gem.eventReportLinkMessage")[i].rptids) == entry(row(acc("[]gem.eventReportLinkMessage")[i].rptids)))
  loop 1 invariant forall(j, 0, iter, idOk(vidsAt(msg, iterof(0))[j]))
# the enable code: a binary or boolean item with a value, whose first value counts
def edOk(x) = is(x, "*ast.BinaryNode") && len(as(x, "*ast.BinaryNode").values) > 0 || is(x, "*ast.BooleanNode") && len(as(x, "*ast.BooleanNode").values) > 0
def edOn(x) = ite(is(x, "*ast.BinaryNode"), as(x, "*ast.BinaryNode").values[0] != 0, as(x, "*ast.BooleanNode").values[0])
def enOk(d) = isList(d) && listLen(d) >= 2 && edOk(listAt(d, 0)) && isList(listAt(d, 1)) && idsOk(listAt(d, 1))
def ceidsOf(msg) = as(listAt(msg.dataItem, 1), "*ast.ListNode").values
func gem.parseEventEnableMessage(msg) (r, err)
  requires wire(msg)
  ensures accepted: (err == nil) == (msg != nil && enOk(msg.dataItem))
  ensures code: err == nil ==> r.enable == edOn(listAt(msg.dataItem, 0))
  ensures ids: err == nil ==> idsAre(r.ceids, listAt(msg.dataItem, 1))
  loop 0 invariant len(acc("gem.eventEnableMessage").ceids) == iter && 0 <= iter && iter <= len(ceidsOf(msg))
  loop 0 invariant base(acc("gem.eventEnableMessage").ceids) == 0 && cap(acc("gem.eventEnableMessage").ceids) == 0 || base(acc("gem.eventEnableMessage").ceids) > 0 && fresh(acc("gem.eventEnableMessage").ceids)
  loop 0 invariant idsRun(row(acc("gem.eventEnableMessage").ceids), off(acc("gem.eventEnableMessage").ceids), iter, listAt(msg.dataItem, 1)) && forall(j, 0, iter, idOk(ceidsOf(msg)[j]))
  loop 0 invariant acc("gem.eventEnableMessage").enable == edOn(listAt(msg.dataItem, 0))
check C21: gem.parseReportDefinitionList, gem.parseEventReportLinkList, gem.parseEventEnableMessage
# the answers
func gem.GemHandler.buildS2F34(g, k) (m)
  requires 0 <= k && k <= 255
  ensures answer(m, 2, 34) && codeIs(m.dataItem, k)
func gem.GemHandler.buildS2F36(g, k) (m)
  requires 0 <= k && k <= 255
  ensures answer(m, 2, 36) && codeIs(m.dataItem, k)
func gem.GemHandler.buildS2F38(g, k) (m)
  requires 0 <= k && k <= 255
  ensures answer(m, 2, 38) && codeIs(m.dataItem, k)
def rowsSent(msg) = msg != nil && rowsOk(msg.dataItem)
func gem.GemHandler.onS2F33(g, msg) (r, err)
  requires gOk(g) && wire(msg)
  modifies *
  ensures answered: err == nil && answer(r, 2, 34)
  ensures malformed: !rowsSent(msg) ==> codeIs(r.dataItem, 2) && rdCalls == old(rdCalls) && rtAll(g) && lkAll(g)
  ensures done: rowsSent(msg) ==> rdCalls == old(rdCalls) + 1 && codeIs(r.dataItem, rdCode)
  ensures request: rowsSent(msg) ==> len(rdDone) == rowsIn(msg.dataItem) && forall(i, 0, len(rdDone), entIs(rdDone[i].id, rdDone[i].vids, rowsOf(msg.dataItem).values[i]))
func gem.GemHandler.onS2F35(g, msg) (r, err)
  requires gOk(g) && wire(msg)
  modifies *
  ensures answered: err == nil && answer(r, 2, 36)
  ensures malformed: !rowsSent(msg) ==> codeIs(r.dataItem, 2) && elCalls == old(elCalls) && rtAll(g) && lkAll(g)
  ensures done: rowsSent(msg) ==> elCalls == old(elCalls) + 1 && codeIs(r.dataItem, elCode)
  ensures request: rowsSent(msg) ==> len(elDone) == rowsIn(msg.dataItem) && forall(i, 0, len(elDone), entIs(elDone[i].ceid, elDone[i].rptids, rowsOf(msg.dataItem).values[i]))
func gem.GemHandler.onS2F37(g, msg) (r, err)
  requires gOk(g) && wire(msg)
  modifies *
  ensures answered: err == nil && answer(r, 2, 38)
  ensures malformed: !(msg != nil && enOk(msg.dataItem)) ==> codeIs(r.dataItem, 1) && enCalls == old(enCalls) && rtAll(g) && lkAll(g)
  ensures done: msg != nil && enOk(msg.dataItem) ==> enCalls == old(enCalls) + 1 && codeIs(r.dataItem, enCode)
  ensures request: msg != nil && enOk(msg.dataItem) ==> enOn == edOn(listAt(msg.dataItem, 0)) && idsAre(enIds, listAt(msg.dataItem, 1))
check C21: gem.GemHandler.buildS2F34, gem.GemHandler.buildS2F36, gem.GemHandler.buildS2F38, gem.GemHandler.onS2F33, gem.GemHandler.onS2F35, gem.GemHandler.onS2F37
# what the application registers
func gem.NewCollectionEvent(id, name) (ev, err)
  panics only when is(id, "string") && len(as(id, "string")) > MAXB()
  ensures (err == nil) == (isNumber(id) || is(id, "string") && ascii(as(id, "string")))
  ensures err == nil ==> ev != nil && fresh(ev) && idIs(ev.info, keyOf(id))
func gem.GemHandler.RegisterCollectionEvent(g, ev) (err)
  requires g != nil && (ev != nil ==> idWell(ev.info))
  modifies *
  ensures refused: ev == nil || g.deviceType != 1 ==> err != nil
  ensures twice: ev != nil && g.deviceType == 1 ==> (err != nil) == acq(has(g.collectionEvents, ev.info.key))
  ensures added: err == nil ==> rel("gem.GemHandler.collectionMu", g.collectionEvents[ev.info.key]) == ev && rel("gem.GemHandler.collectionMu", has(g.collectionEvents, ev.info.key))
  ensures others: err == nil ==> all(k, "string", k != ev.info.key ==> rel("gem.GemHandler.collectionMu", has(g.collectionEvents, k)) == acq(has(g.collectionEvents, k)))
func gem.NewDataVariable(id, name, opts) (v, err)
  requires forall(i, 0, len(opts), opts[i] != nil)
  panics only when is(id, "string") && len(as(id, "string")) > MAXB()
  ensures (err == nil) == (isNumber(id) || is(id, "string") && ascii(as(id, "string")))
  ensures err == nil ==> v != nil && fresh(v) && idIs(v.info, keyOf(id))
functype gem.DataVariableOption(fn, v)
  modifies v.value, v.provider, v.Name
func gem.GemHandler.RegisterDataVariable(g, v) (err)
  requires g != nil && (v != nil ==> idWell(v.info))
  modifies *
  ensures refused: v == nil || g.deviceType != 1 ==> err != nil
  ensures twice: v != nil && g.deviceType == 1 ==> (err != nil) == acq(has(g.dataVars, v.info.key))
  ensures added: err == nil ==> rel("gem.GemHandler.dataVarMu", g.dataVars[v.info.key]) == v && rel("gem.GemHandler.dataVarMu", has(g.dataVars, v.info.key))
  ensures others: err == nil ==> all(k, "string", k != v.info.key ==> rel("gem.GemHandler.dataVarMu", has(g.dataVars, k)) == acq(has(g.dataVars, k)))
check C21: gem.NewCollectionEvent, gem.GemHandler.RegisterCollectionEvent, gem.NewDataVariable, gem.GemHandler.RegisterDataVariable

# current values (C22): reads counts the readings by identifier, vidVal[k][v] is the last reading at which v was the current value of variable k, vidGone[k] the
# last at which there was no variable k
ghost dvYield (Array Int (Array Any Int))
ghost dvFail (Array Int Int)
ghost reads int
ghost vidVal (Array Str (Array Any Int))
ghost vidGone (Array Str Int)
functype gem.DataValueProvider(fn) (v, err)
  sets provCalls := provCalls + 1
  sets provAsked := fn
  modifies provVal, provFailed
  ensures provVal == v && provFailed == (err != nil) && (err == nil ==> itemOrNil(v))
func gem.DataVariable.SetValue(dv, node)
  requires dv != nil && itemOrNil(node)
  modifies dv.value, dv.provider
  ensures dv.value == node && dv.provider == acq(dv.provider)
func gem.DataVariable.SetValueProvider(dv, p)
  requires dv != nil
  modifies dv.value, dv.provider
  ensures dv.value == acq(dv.value) && dv.provider == p
func gem.DataVariable.Value(dv) (v, err)
  requires dv != nil && idWell(dv.info)
  modifies dv.value, dv.provider, provCalls, provAsked, provVal, provFailed
  sets steps := steps + 1
  records dvYield := ite(err == nil && v != nil, store(dvYield, dv, store(dvYield[dv], v, steps)), dvYield)
  records dvFail := ite(err == nil && v != nil, dvFail, store(dvFail, dv, steps))
  ensures provider: acq(dv.provider) != nil ==> provCalls == old(provCalls) + 1 && provAsked == acq(dv.provider) && v == provVal && (err != nil) == provFailed
  ensures stored: acq(dv.provider) == nil ==> (err == nil) == (acq(dv.value) != nil) && v == acq(dv.value)
  ensures item: err == nil ==> itemOrNil(v)
def dvNow(dv, v, t) = dvYield[dv][v] > t || emptyList(v) && dvFail[dv] > t
def vidNow(k, v, t) = vidVal[k][v] > t || emptyList(v) && vidGone[k] > t
func gem.GemHandler.resolveVIDValue(g, key) (v)
  requires g != nil && g.logger != nil
  modifies anydeep("gem.GemHandler.statusVars"), anydeep("gem.GemHandler.statusOrder"), anydeep("gem.GemHandler.dataVars"), anydeep("gem.GemHandler.dataVarOrder"), anyof("gem.StatusVariable.value"), anyof("gem.StatusVariable.provider"), anyof("gem.DataVariable.value"), anyof("gem.DataVariable.provider"), provCalls, provAsked, provVal, provFailed, steps, svYield, svFail, dvYield, dvFail
  sets reads := reads + 1
  records vidVal := ite(v != nil, store(vidVal, key, store(vidVal[key], v, reads)), vidVal)
  records vidGone := ite(v != nil, vidGone, store(vidGone, key, reads))
  ensures status: svHas(g, key) ==> v != nil && svNow(acqof("gem.GemHandler.statusMu", g.statusVars[key]), v, old(steps))
  ensures data: !svHas(g, key) && acquired("gem.GemHandler.dataVarMu") && dvHas(g, key) ==> v != nil && dvNow(acqof("gem.GemHandler.dataVarMu", g.dataVars[key]), v, old(steps))
  ensures none: !svHas(g, key) ==> acquired("gem.GemHandler.dataVarMu") && (!dvHas(g, key) ==> v == nil)
  ensures item: itemOrNil(v)
check C22: gem.DataVariable.*, gem.GemHandler.resolveVIDValue
# readings only get newer
def vidGrow() = all(k, "string", all(v, "Any", vidVal[k][v] == old(vidVal[k][v]) || vidVal[k][v] > old(reads), vidVal[k][v])) && all(k, "string", vidGone[k] == old(vidGone[k]) || vidGone[k] > old(reads), vidGone[k])
func gem.GemHandler.collectReportValues(g, report) (vs)
  requires g != nil && g.logger != nil && report != nil
  modifies anydeep("gem.GemHandler.statusVars"), anydeep("gem.GemHandler.statusOrder"), anydeep("gem.GemHandler.dataVars"), anydeep("gem.GemHandler.dataVarOrder"), anyof("gem.StatusVariable.value"), anyof("gem.StatusVariable.provider"), anyof("gem.DataVariable.value"), anyof("gem.DataVariable.provider"), provCalls, provAsked, provVal, provFailed, svYield, svFail, dvYield, dvFail, steps, reads, vidVal, vidGone
  ensures count: reads >= old(reads) && len(vs) == len(report.vidKeys) && base(vs) > 0
  ensures each: forall(i, 0, len(vs), vidNow(report.vidKeys[i], vs[i], old(reads)) && plain(vs[i]))
  ensures grow: vidGrow()
  loop 0 invariant reads >= old(reads) && len(acc("[]interface{}")) == iter && base(acc("[]interface{}")) > 0 && fresh(acc("[]interface{}"))
  loop 0 invariant forall(i, 0, iter, vidNow(report.vidKeys[i], acc("[]interface{}")[i], old(reads)) && plain(acc("[]interface{}")[i]))
  loop 0 invariant vidGrow()
check C22: gem.GemHandler.collectReportValues
# a report: its identifier and the current values of its variables
def valsOf(x) = as(listAt(x, 1), "*ast.ListNode").values
def rptIs(x, d, t) = isList(x) && plain(x) && listLen(x) == 2 && idOk(listAt(x, 0)) && idKey(listAt(x, 0)) == d.info.key && isList(listAt(x, 1)) && len(valsOf(x)) == len(d.vidKeys) && forall(p, off(valsOf(x)), off(valsOf(x)) + len(valsOf(x)), vidNow(d.vidKeys[p - off(valsOf(x))], elem(valsOf(x), p), t))
# what is sent about event c: a report for each linked one, if it is known, linked and enabled
def evSent(g, c) = ltWas(g, c) && loWas(g, c)
def evRpts(g, c, vs, t) = len(vs) == lnWas(g, c) && forall(i, 0, len(vs), rptIs(vs[i], rdWas(g, leWas(g, c, i)), t))
func gem.GemHandler.buildCollectionEventPayload(g, key) (vs, id, ce, err)
  requires g != nil && g.logger != nil
  modifies anydeep("gem.GemHandler.collectionEvents"), anydeep("gem.GemHandler.collectionOrder"), anydeep("gem.GemHandler.reports"), anydeep("gem.GemHandler.eventLinks"), anydeep("gem.collectionEventLink.reports"), anyof("gem.collectionEventLink.enabled"), anydeep("gem.GemHandler.statusVars"), anydeep("gem.GemHandler.statusOrder"), anydeep("gem.GemHandler.dataVars"), anydeep("gem.GemHandler.dataVarOrder"), anyof("gem.StatusVariable.value"), anyof("gem.StatusVariable.provider"), anyof("gem.DataVariable.value"), anyof("gem.DataVariable.provider"), provCalls, provAsked, provVal, provFailed, svYield, svFail, dvYield, dvFail, steps, reads, vidVal, vidGone
  ensures unknown: (err == nil) == evHas(g, key)
  ensures known: err == nil ==> acquired("gem.GemHandler.reportMu") && (vs != nil) == evSent(g, key)
  ensures ids: err == nil && vs != nil ==> 0 <= id && id <= 255 && plain(ce) && idOk(ce) && idKey(ce) == key
  ensures reports: err == nil && vs != nil ==> evRpts(g, key, vs, old(reads))
  ensures items: err == nil && vs != nil ==> forall(i, 0, len(vs), plain(vs[i]))
  loop 0 invariant base(acc("[]*gem.ReportDefinition")) > 0 && fresh(acc("[]*gem.ReportDefinition")) && len(acc("[]*gem.ReportDefinition")) == iter
  loop 0 invariant forall(i, 0, iter, acc("[]*gem.ReportDefinition")[i] == rdWas(g, leWas(g, key, i)) && rdWell(acc("[]*gem.ReportDefinition")[i], leWas(g, key, i)))
  loop 1 invariant base(acc("[]ast.ItemNode")) > 0 && fresh(acc("[]ast.ItemNode")) && len(acc("[]ast.ItemNode")) == iter && reads >= old(reads) && 0 <= iter && iter <= lnWas(g, key)
  loop 1 invariant forall(i, 0, iter, plain(acc("[]ast.ItemNode")[i]) && rptIs(acc("[]ast.ItemNode")[i], rdWas(g, leWas(g, key, i)), old(reads)))
check C22: gem.GemHandler.buildCollectionEventPayload
check C21: gem.GemHandler.buildCollectionEventPayload
# the messages: an identifier of the report, the event, the reports
def evBody(d, id, ce, vs) = isList(d) && listLen(d) == 3 && is(listAt(d, 0), "*ast.UintNode") && len(as(listAt(d, 0), "*ast.UintNode").values) == 1 && as(listAt(d, 0), "*ast.UintNode").values[0] == id && listAt(d, 1) == ce && isList(listAt(d, 2)) && listLen(listAt(d, 2)) == len(vs) && forall(i, 0, len(vs), listAt(listAt(d, 2), i) == vs[i])
func gem.GemHandler.buildS6F11(g, dataID, ceNode, reports) (m)
  requires 0 <= dataID && dataID <= 255 && plain(ceNode) && forall(i, 0, len(reports), plain(reports[i]))
  panics only when len(reports) > MAXB()
  ensures m != nil && m.stream == 6 && m.function == 11
  ensures body: evBody(m.dataItem, dataID, ceNode, reports)
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(i, 0, iter, acc("[]interface{}")[i] == reports[i])
func gem.GemHandler.buildS6F16(g, dataID, ceNode, reports) (m)
  requires 0 <= dataID && dataID <= 255 && (ceNode == nil || plain(ceNode)) && forall(i, 0, len(reports), plain(reports[i]))
  panics only when len(reports) > MAXB()
  ensures answer(m, 6, 16)
  ensures body: ceNode != nil ==> evBody(m.dataItem, dataID, ceNode, reports)
  ensures noevent: ceNode == nil ==> isList(m.dataItem) && listLen(m.dataItem) == 3 && emptyList(listAt(m.dataItem, 1)) && isList(listAt(m.dataItem, 2)) && listLen(listAt(m.dataItem, 2)) == len(reports)
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(i, 0, iter, acc("[]interface{}")[i] == reports[i])
# a request names its event directly or as the first element of a list
def reqItem(d) = ite(isList(d), listAt(d, 0), d)
def erOk(msg) = msg != nil && (!isList(msg.dataItem) || listLen(msg.dataItem) > 0) && idOk(reqItem(msg.dataItem))
func gem.parseEventReportRequest(msg) (r, err)
  requires wire(msg)
  ensures accepted: (err == nil) == erOk(msg)
  ensures key: err == nil ==> idIs(r, idKey(reqItem(msg.dataItem)))
def noReports(d) = isList(d) && listLen(d) == 3 && isList(listAt(d, 2)) && listLen(listAt(d, 2)) == 0
def erKey(msg) = idKey(reqItem(msg.dataItem))
func gem.GemHandler.onS6F15(g, msg) (r, err)
  requires gOk(g) && wire(msg)
  modifies *
  panics may
  ensures answered: err == nil && answer(r, 6, 16)
  ensures malformed: !erOk(msg) ==> noReports(r.dataItem)
  ensures unknown: erOk(msg) && !evHas(g, erKey(msg)) ==> noReports(r.dataItem)
  ensures off: erOk(msg) && evHas(g, erKey(msg)) && !evSent(g, erKey(msg)) ==> noReports(r.dataItem)
  ensures event: erOk(msg) && evHas(g, erKey(msg)) ==> isList(r.dataItem) && listLen(r.dataItem) == 3 && idOk(listAt(r.dataItem, 1)) && idKey(listAt(r.dataItem, 1)) == erKey(msg)
  ensures reports: erOk(msg) && evHas(g, erKey(msg)) && evSent(g, erKey(msg)) ==> rptsIn(g, erKey(msg), listAt(r.dataItem, 2), old(reads))
def rptsIn(g, c, x, t) = isList(x) && listLen(x) == lnWas(g, c) && forall(i, 0, lnWas(g, c), rptIs(listAt(x, i), rdWas(g, leWas(g, c, i)), t))
check C22: gem.GemHandler.buildS6F11, gem.GemHandler.buildS6F16, gem.parseEventReportRequest, gem.GemHandler.onS6F15
# evSeq lists the events whose report goroutines were started, evN counts them
ghost evN int
ghost evSeq (Array Int Str)
func gem.GemHandler.sendCollectionEvent(g, key)
  requires gOk(g) && transOk(g.protocol) && machine(g.protocol.connectionState)
  modifies *
  panics may
  spawn evSeq := store(evSeq, evN, key)
  spawn evN := evN + 1
  ensures unknown: !evHas(g, key) ==> gsends == old(gsends)
  ensures off: evHas(g, key) && !evSent(g, key) ==> gsends == old(gsends)
  ensures sent: evHas(g, key) && evSent(g, key) ==> gsends == old(gsends) + 1 && sentMsg() != nil && sentMsg().stream == 6 && sentMsg().function == 11
  ensures content: evHas(g, key) && evSent(g, key) ==> isList(sentMsg().dataItem) && listLen(sentMsg().dataItem) == 3 && idOk(listAt(sentMsg().dataItem, 0)) && idOk(listAt(sentMsg().dataItem, 1)) && idKey(listAt(sentMsg().dataItem, 1)) == key && rptsIn(g, key, listAt(sentMsg().dataItem, 2), old(reads))
func gem.GemHandler.TriggerCollectionEvent(g, ids) (err)
  requires gOk(g) && transOk(g.protocol) && machine(g.protocol.connectionState)
  modifies *
  panics only when !forall(i, 0, len(ids), is(ids[i], "string") ==> len(as(ids[i], "string")) <= MAXB())
  ensures refused: err != nil ==> goroutines == old(goroutines) && evN == old(evN)
  ensures equipment: err == nil ==> g.deviceType == 1
  ensures communicating: err == nil ==> cmWas(g.state) == 4
  ensures valid: err == nil ==> len(ids) > 0 && forall(i, 0, len(ids), isNumber(ids[i]) || is(ids[i], "string"))
  ensures accepted: g.deviceType == 1 && cmWas(g.state) == 4 && len(ids) > 0 && forall(i, 0, len(ids), isNumber(ids[i]) || is(ids[i], "string") && ascii(as(ids[i], "string"))) ==> err == nil
  ensures each: err == nil ==> goroutines == old(goroutines) + len(ids) && evN == old(evN) + len(ids) && forall(i, 0, len(ids), evSeq[old(evN) + i] == keyOf(ids[i]))
  loop 0 invariant len(acc("[]string")) == iter && base(acc("[]string")) > 0 && fresh(acc("[]string")) && forall(i, 0, iter, acc("[]string")[i] == keyOf(ids[i]) && (isNumber(ids[i]) || is(ids[i], "string")))
  loop 1 invariant goroutines == old(goroutines) + iter && evN == old(evN) + iter && forall(i, 0, iter, evSeq[old(evN) + i] == keyOf(ids[i]))
check C22: gem.GemHandler.sendCollectionEvent, gem.GemHandler.TriggerCollectionEvent
