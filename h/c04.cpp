// C04: write receipts and deadlines, against the wire and the receiver.
#include "wire.hpp"
namespace vf {
const char *driverRule() { return "one case = two endpoints, 1-4 flows whose messages have start/finish deadlines, parents, retransmission off, changes and manual abandons over a faulty path with outages, closes and rejections; each receipt, each fragment sent and each delivery is judged; non-trivial when messages ended abandoned and delivered; distinct by the hash of every packet sent and its fate"; }
uint64_t driverCases(bool t) { return t ? 200000 : 7000; }
void driverInit() {}
void driverDone() {}

namespace {
struct Span { uintmax_t from = 0, to = 0; }; // to 0: end not seen yet
struct F {
	Tx *t;
	std::map<uint32_t, Span> span;                 // message -> sequence numbers
	std::map<uintmax_t, uint32_t> startAt;         // first sequence number -> message
	std::set<uintmax_t> arrived;                   // fragments whose data reached the receiver
	std::map<uintmax_t, int> sends;                // data transmissions per fragment
	std::set<uint32_t> noRtx;                      // retransmission turned off
	std::map<uintmax_t, int> sendsWhenOff;
	bool down = false;                             // session closed, rejected or shut down on purpose
	std::vector<int> parent;
	std::shared_ptr<WriteReceiptChain> chain;
};
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	int endKind = int(rng.u(10));
	w.dflt = randomPath(rng, int(rng.range(0, 2)));
	for(int i = 0; i < 2; i++) {
		Node *nd = w.addNode(fmt("node%d", i), {fmt("10.0.0.%d:%d", i + 1, 1000 + i)});
		nd->platform->writableDelay = rng.logreal(0.000001, 0.002);
		nd->platform->pace = rng.logreal(0.000001, 0.001);
		nd->rtmfp->setDefaultSessionRetransmitLimit(endKind == 1 || endKind == 2 ? 60 : 100000);
		nd->rtmfp->setDefaultSessionIdleLimit(1e6);
	}
	w.path(0, 1); w.path(1, 0);
	App app(w);
	app.checkOrder = false;
	for(auto &nd : w.nodes) app.listen(nd.get());
	WireMon mon(w, app);
	std::map<Tx *, F> fs;
	std::map<WriteReceipt *, std::pair<Tx *, uint32_t>> byReceipt;
	uint64_t nDel = 0, nAb = 0, nAbDelivered = 0, msgs = 0, checked = 0;
	uint64_t why[7] = {0};
	bool stopping = false;

	auto msgOf = [&] (F &f, uintmax_t seq, uint32_t &idx) { // message a data fragment belongs to
		auto it = f.startAt.upper_bound(seq);
		if(it == f.startAt.begin()) return false;
		--it; idx = it->second;
		Span &s = f.span[idx];
		return s.to == 0 || seq <= s.to;
	};
	auto anyStarted = [&] (F &f, uint32_t idx) { return f.span.count(idx) > 0; };
	auto consistent = [&] (Tx *t, Msg *m, const char *when) {
		if(!m->r) return;
		checked++;
		bool fin = m->finished > 0;
		CHECK(m->r->isFinished() == fin, "receipt-state", "flow %u message %u isFinished %d but callback ran %d times (%s)", t->id, m->idx, m->r->isFinished(), m->finished, when);
		CHECK(m->r->isAbandoned() == (fin && m->finAbandoned), "receipt-state", "flow %u message %u isAbandoned %d but callback said %d/%d (%s)", t->id, m->idx, m->r->isAbandoned(), m->finished, m->finAbandoned, when);
		CHECK(m->r->isDelivered() == (fin && !m->finAbandoned), "receipt-state", "flow %u message %u isDelivered %d but callback said %d/%d (%s)", t->id, m->idx, m->r->isDelivered(), m->finished, m->finAbandoned, when);
		if(!m->r->isAbandoned()) CHECK(m->r->isStarted() == anyStarted(fs[t], m->idx), "receipt-started", "flow %u message %u isStarted %d but on the wire: %d (%s)", t->id, m->idx, m->r->isStarted(), anyStarted(fs[t], m->idx), when);
	};
	double pCloseFin = rng.chance(0.3) ? rng.real(0.02, 0.5) : 0; uint64_t closedInFin = 0;
	auto closeNow = [&] (Tx *t, Msg *m) { // close the flow from inside the callback of its last message
		if(pCloseFin == 0 || stopping || t->closedByApp || !t->bound() || t->exceptions || m != t->msgs.back().get() || !w.rng.chance(pCloseFin)) return;
		t->close(); closedInFin++;
	};
	app.onFin = [&] (Tx *t, Msg *m, bool abandoned) {
		F &f = fs[t];
		Time now = t->src->platform->getCurrentTime();
		CHECK(m->r->isFinished() && m->r->isAbandoned() == abandoned && m->r->isDelivered() == !abandoned, "receipt-state", "flow %u message %u in its callback(%d): finished %d abandoned %d delivered %d", t->id, m->idx, abandoned, m->r->isFinished(), m->r->isAbandoned(), m->r->isDelivered());
		if(!abandoned) {
			nDel++;
			auto it = f.span.find(m->idx);
			if(it == f.span.end() || !it->second.to) { ctx.fail("delivered-never-sent", "flow %u message %u finished as delivered but was not completely sent", t->id, m->idx); return; }
			closeNow(t, m);
			for(uintmax_t s = it->second.from; s <= it->second.to; s++) if(!f.arrived.count(s)) { ctx.fail("delivered-not-arrived", "flow %u message %u (%ju..%ju) finished as delivered but fragment %ju never reached the receiver", t->id, m->idx, it->second.from, it->second.to, s); return; }
			return;
		}
		nAb++;
		bool started = f.span.count(m->idx);
		int k = -1;
		if(m->appAbandoned) k = 0;
		else if(now > m->r->finishBy) k = 1;
		else if(!started && now > m->r->startBy) k = 2;
		else if(m->parent >= 0 && t->msgs[m->parent]->finished && t->msgs[m->parent]->finAbandoned) k = 3;
		else if(f.down || stopping || t->exceptions) k = 5;
		else if(f.noRtx.count(m->idx)) {
			FlowW *fw = mon.flowOf(t);
			Span s = started ? f.span[m->idx] : Span();
			if(fw && started) for(auto &x : f.sends) if(x.first >= s.from && (!s.to || x.first <= s.to) && !fw->acked.has(x.first)) { k = 4; break; }
		}
		if(k < 0) ctx.fail("abandoned-without-reason", "flow %u message %u abandoned at %.4Lf: startBy %.4Lf finishBy %.4Lf started %d parent %d retransmit %d", t->id, m->idx, (long double)now, (long double)m->r->startBy, (long double)m->r->finishBy, started, m->parent, m->r->retransmit);
		else { why[k]++; closeNow(t, m); }
	};
	mon.onSend = [&] (Sess &s, int dir, const Pkt &p, const Wire &, std::vector<PChunk> &pc) {
		for(auto &x : pc) if(x.ok && (x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA) && !(x.ud.flags & USERDATA_FLAG_ABN)) {
			FlowW &fw = s.d[dir].flows[x.ud.flow];
			Tx *t = fw.tx;
			if(!t && x.ud.hasMeta && x.ud.meta.size() >= 5) { uint32_t id; memcpy(&id, &x.ud.meta[1], 4); auto it = app.tx.find(id); if(it != app.tx.end()) t = fw.tx = it->second.get(); }
			if(!t) continue;
			F &f = fs[t]; f.t = t;
			uint8_t fra = x.ud.flags & USERDATA_FLAG_FRA_MASK;
			uint32_t idx = 0;
			bool isStart = fra == USERDATA_FRA_WHOLE || fra == USERDATA_FRA_BEGIN, firstOfMsg = false;
			if(isStart) {
				if(x.ud.data.size() < 12) { ctx.fail("unknown-data", "flow %u sends a message start of %zu bytes nobody wrote", t->id, x.ud.data.size()); continue; }
				memcpy(&idx, &x.ud.data[4], 4);
				if(idx >= t->msgs.size()) { ctx.fail("unknown-data", "flow %u sends message %u, not written", t->id, idx); continue; }
				firstOfMsg = !f.span.count(idx);
				f.span[idx].from = x.ud.seq; f.startAt[x.ud.seq] = idx;
			} else if(!msgOf(f, x.ud.seq, idx)) { ctx.fail("partial-data-sent", "flow %u sends data of fragment %ju, whose message's beginning was never sent", t->id, x.ud.seq); continue; }
			if(fra == USERDATA_FRA_WHOLE || fra == USERDATA_FRA_END) f.span[idx].to = x.ud.seq;
			Msg *m = t->msgs[idx].get();
			Time now = t->src->platform->getCurrentTime();
			int n = ++f.sends[x.ud.seq];
			checked++;
			CHECK(!(m->finished && m->finAbandoned), "sent-after-abandoned", "flow %u sends data of fragment %ju of message %u after it was abandoned at %.4Lf", t->id, x.ud.seq, idx, m->finishedAt);
			CHECK(!m->finished || m->finAbandoned, "sent-after-delivered", "flow %u sends fragment %ju of message %u after it finished as delivered", t->id, x.ud.seq, idx);
			CHECK(now <= m->r->finishBy, "sent-after-deadline", "flow %u sends fragment %ju of message %u at %.4Lf, deadline %.4Lf", t->id, x.ud.seq, idx, (long double)now, (long double)m->r->finishBy);
			if(firstOfMsg) CHECK(now <= m->r->startBy, "started-after-deadline", "flow %u starts message %u at %.4Lf, start deadline %.4Lf", t->id, idx, (long double)now, (long double)m->r->startBy);
			if(f.noRtx.count(idx) && n > 1) CHECK(false, "retransmitted", "flow %u fragment %ju of message %u sent again though retransmission is off", t->id, x.ud.seq, idx);
			if(m->parent >= 0) { Msg *pm = t->msgs[m->parent].get(); CHECK(!(pm->finished && pm->finAbandoned), "sent-after-parent-abandoned", "flow %u sends fragment %ju of message %u after its parent %d was abandoned", t->id, x.ud.seq, idx, m->parent); }
		}
	};
	mon.onRxData = [&] (Sess &, int, FlowW &fw, const WUserData &ud, bool, const Ranges &) {
		if(fw.tx && !(ud.flags & USERDATA_FLAG_ABN)) fs[fw.tx].arrived.insert(ud.seq);
	};
	app.onMsg = [&] (Rx *rx, const Rx::Got &g) {
		mon.sync();
		msgs++;
		uint32_t fl = 0, idx = 0;
		if(g.data.size() >= 12) { memcpy(&fl, &g.data[0], 4); memcpy(&idx, &g.data[4], 4); }
		if(fl != rx->id || idx >= rx->tx->msgs.size() || rx->tx->msgs[idx]->data != g.data) { ctx.fail("altered-message", "flow %u seq %ju: %zu bytes in %zu fragments are not a message written on it", rx->id, g.seq, g.data.size(), g.frags); return; }
		Msg *m = rx->tx->msgs[idx].get();
		CHECK(!m->delivered, "delivered-twice", "flow %u message %u", rx->id, idx);
		m->delivered = true; m->deliveredAt = w.now;
		if(m->finished && m->finAbandoned) nAbDelivered++;
		F &f = fs[rx->tx];
		for(uintmax_t s = g.seq; s < g.seq + g.frags; s++) if(!f.arrived.count(s)) { ctx.fail("delivered-in-part", "flow %u message %u delivered as %ju+%zu but fragment %ju had not arrived", rx->id, idx, g.seq, g.frags, s); break; }
		if(rx->order == RO_SEQUENCE) for(uint32_t i = 0; i < idx; i++) {
			Msg *o = rx->tx->msgs[i].get();
			if(o->plain && !o->delivered) { ctx.fail("reliable-skipped", "flow %u message %u delivered in original order before reliable message %u", rx->id, idx, i); break; }
		}
	};
	app.onAccepted = [&] (Rx *rx) {
		if(rng.chance(0.3)) { rx->order = RO_NETWORK; rx->f->setReceiveOrder(RO_NETWORK); }
		if(rng.chance(0.2)) rx->f->setBufferCapacity(rng.range(2000, 30000));
	};
	std::vector<Tx *> flows;
	int nf = int(rng.range(1, 3)), style = int(rng.u(7));
	double T = rng.logreal(0.5, 15);
	size_t budget = 200000;
	double pDead = rng.chance(0.2) ? 0 : rng.real(0.1, 0.9), pNoRtx = rng.chance(0.5) ? 0 : rng.real(0.05, 0.8), pParent = rng.chance(0.5) ? 0 : rng.real(0.05, 0.8), pAb = rng.chance(0.5) ? 0 : rng.real(0.02, 0.4);
	double scale = rng.logreal(0.02, 3);
	bool chains = rng.chance(0.3);
	for(int i = 0; i < nf; i++) w.after(rng.real(0, 0.3), [&] {
		Tx *t = app.open(w.nodes[0].get(), w.nodes[1].get(), Priority(w.rng.u(NUM_PRIORITIES)));
		if(!t) return;
		flows.push_back(t);
		F &f = fs[t]; f.t = t; f.chain = share_ref(new WriteReceiptChain(), false);
		if(w.rng.chance(0.2)) t->f->setBufferCapacity(w.rng.range(1000, 200000));
		int n = int(w.rng.range(2, 50));
		double at = 0;
		for(int k = 0; k < n; k++) {
			if(!w.rng.chance(0.5)) at = w.rng.real(0, T);
			w.after(at, [&, t] {
				if(t->closedByApp || !t->f->isOpen()) return;
				F &f = fs[t];
				size_t len = std::min(12 + pickLen(w.rng, style), budget);
				if(len < 12) return;
				budget -= len;
				Duration sw = INFINITY, fw = INFINITY;
				if(w.rng.chance(pDead)) { int q = int(w.rng.u(3)); if(q != 1) sw = w.rng.chance(0.1) ? 0 : w.rng.logreal(0.001, 1) * scale; if(q != 0) fw = w.rng.chance(0.1) ? 0 : w.rng.logreal(0.01, 1) * scale * 2; }
				Msg *m = t->write(len, sw, fw);
				if(!m) return;
				if(!t->bound() && t->src->rtmfp) m->plain = m->plain;
				byReceipt[m->r.get()] = {t, m->idx};
				if(w.rng.chance(pNoRtx)) { m->r->retransmit = false; m->plain = false; f.noRtx.insert(m->idx); m->noRetransmit = true; }
				if(chains) {
					f.chain->append(m->r);
					if(m->r->parent) { auto it = byReceipt.find(m->r->parent.get()); if(it != byReceipt.end() && it->second.first == t) m->parent = int(it->second.second); m->plain = m->plain && t->msgs[m->parent]->plain; }
					if(w.rng.chance(0.1)) {
						// every message still chained may get an earlier deadline
						Time d = t->src->platform->getCurrentTime() + w.rng.logreal(0.01, 1) * scale;
						for(auto &o : t->msgs) if(!o->finished) o->plain = false;
						if(w.rng.chance(0.5)) f.chain->expire(d); else f.chain->expire(INFINITY, d);
					}
				} else if(m->idx > 0 && w.rng.chance(pParent)) {
					m->parent = int(w.rng.chance(0.7) ? m->idx - 1 : w.rng.u(m->idx));
					Msg *pm = t->msgs[m->parent].get();
					m->r->parent = pm->r;
					m->plain = m->plain && pm->plain;
					for(int p = m->parent; p >= 0; p = t->msgs[p]->parent) m->plain = m->plain && t->msgs[p]->plain;
				}
				auto tree = [t] (Msg *m) { // what depends on it is not reliable either
					m->plain = false;
					for(bool more = true; more; ) { more = false; for(auto &o : t->msgs) if(o->plain && o->parent >= 0 && !t->msgs[o->parent]->plain) { o->plain = false; more = true; } }
				};
				if(w.rng.chance(pAb)) {
					w.after(w.rng.logreal(0.0001, 2), [&, t, m, tree] {
						if(m->finished) { m->r->abandon(); consistent(t, m, "abandon after finish"); return; }
						tree(m); m->appAbandoned = true; m->appAbandonedAt = w.now;
						m->r->abandon();
						CHECK(m->finished == 1 && m->finAbandoned, "abandon-not-finished", "flow %u message %u abandon() but callback ran %d times", t->id, m->idx, m->finished);
					});
				}
				if(w.rng.chance(0.05)) w.after(w.rng.logreal(0.001, 1), [&, t, m, tree] { // deadline set or moved later
					if(m->finished) return;
					tree(m);
					if(w.rng.chance(0.5)) m->r->setFinishWithin(w.rng.real(0, 2) * scale); else m->r->setStartWithin(w.rng.real(0, 1) * scale);
				});
				if(w.rng.chance(0.03)) w.after(w.rng.logreal(0.001, 1), [&, t, m, tree] { // retransmission turned off later: what was sent is not sent again
					if(m->finished || f.noRtx.count(m->idx)) return;
					tree(m);
					m->r->retransmit = false; m->noRetransmit = true;
					mon.sync();
					F &f = fs[t];
					auto it = f.span.find(m->idx);
					bool clean = true; // only judge if nothing was sent twice already
					if(it != f.span.end()) for(auto &x : f.sends) if(x.first >= it->second.from && (!it->second.to || x.first <= it->second.to) && x.second > 1) clean = false;
					if(clean) f.noRtx.insert(m->idx); else f.noRtx.insert(m->idx);
				});
			});
		}
	});
	// disturbances
	int outages = int(rng.u(3));
	for(int i = 0; i < outages; i++) { double a = rng.real(0, T), d = rng.logreal(0.05, 4); int q = int(rng.range(1, 3)); w.after(a, [&w, q] { if(q & 1) w.path(0, 1).down = true; if(q & 2) w.path(1, 0).down = true; }); w.after(a + d, [&w] { w.path(0, 1).down = w.path(1, 0).down = false; }); }
	if(rng.chance(0.2)) { double a = rng.real(0, T), d = rng.logreal(0.05, 3); w.after(a, [&] { for(auto &kv : app.rx) if(!kv.second->completes) kv.second->f->setReceiveOrder(RO_HOLD); }); w.after(a + d, [&] { for(auto &kv : app.rx) if(!kv.second->completes) kv.second->f->setReceiveOrder(kv.second->order); }); }
	Tx *victim = nullptr; (void)victim;
	if(endKind == 0) w.after(rng.real(0.2, T), [&] { // receiver closes one
		if(app.rx.empty()) return;
		auto it = app.rx.begin(); std::advance(it, w.rng.u(app.rx.size()));
		if(it->second->completes) return;
		it->second->closedByApp = true; it->second->f->close(w.rng.u(50)); fs[it->second->tx].down = true;
	});
	else if(endKind == 1) w.after(rng.real(0.2, T), [&] { for(auto &kv : fs) kv.second.down = true; stopping = true; w.nodes[w.rng.u(2)]->rtmfp->shutdown(w.rng.chance(0.5)); });
	else if(endKind == 2) w.after(rng.real(0.2, T), [&] { for(auto &kv : fs) kv.second.down = true; stopping = true; if(flows.size() && !flows[0]->closedByApp && flows[0]->f->isOpen()) flows[0]->f->closeSession(); });
	else if(endKind == 3) w.after(rng.real(0.2, T), [&] { if(flows.size()) { Tx *t = flows[w.rng.u(flows.size())]; if(t->bound()) t->close(); } });
	// states agree with callbacks at arbitrary moments
	for(int i = 0; i < 12; i++) w.after(rng.real(0, T + 3), [&] { for(auto &kv : app.tx) for(auto &m : kv.second->msgs) consistent(kv.second.get(), m.get(), "probe"); });
	w.run(w.now + T + 0.5);
	w.after(rng.real(0, 3), [&w] { for(auto &kv : w.paths) { kv.second.down = false; kv.second.loss = 0; kv.second.corrupt = 0; kv.second.ecnMark = 0; if(kv.second.rate) kv.second.rate = std::max(kv.second.rate, 100e3); } });
	auto settled = [&] {
		for(auto t : flows) {
			if(!t->bound() && t->closedByApp && !t->rx) continue;
			for(auto &m : t->msgs) {
				if(!m->finished) return false;
				if(t->closedByApp && !fs[t].down && !stopping && !t->exceptions && t->rx && !t->rx->closedByApp && !t->rx->completes) return false;
				if(m->plain && !m->delivered && !fs[t].down && !stopping && !t->exceptions && t->rx && t->rx->completes == 0) return false;
			}
		}
		return true;
	};
	bool ok = w.run(w.now + 600, settled);
	if(!ctx.failed) CHECK(ok, "never-finished", "600 s after the network works: %s", app.pending().c_str());
	if(!ctx.failed) {
		w.run(w.now + 5); // a hold may still be on
		// nothing more may be waiting, and end of session ends nothing twice
		for(auto t : flows) if(!t->closedByApp && !t->exceptions && t->bound() && !fs[t].down && !stopping) {
			w.run(w.now + 60, [&] { return t->f->getBufferedSize() == 0; });
			CHECK(t->f->getBufferedSize() == 0, "buffer-not-drained", "flow %u all messages finished but %zu bytes buffered", t->id, t->f->getBufferedSize());
		}
		for(auto &kv : app.tx) for(auto &m : kv.second->msgs) consistent(kv.second.get(), m.get(), "end");
		for(auto t : flows) if(!fs[t].down && !stopping && !t->exceptions) for(auto &m : t->msgs) if(m->finished && !m->finAbandoned && t->rx && !t->closedByApp) CHECK(m->delivered, "delivered-but-not", "flow %u message %u finished as delivered but the application never got it", t->id, m->idx);
	}
	stopping = true;
	statsFromWorld(w);
	ctx.stat("receipts_delivered", nDel); ctx.stat("receipts_abandoned", nAb); ctx.stat("abandoned_yet_received", nAbDelivered); ctx.stat("messages_received", msgs);
	ctx.stat("flows_closed_inside_receipt_callback", closedInFin); ctx.stat("judged_events", checked); ctx.stat("abandoned_by_application", why[0]); ctx.stat("abandoned_finish_deadline", why[1]); ctx.stat("abandoned_start_deadline", why[2]); ctx.stat("abandoned_with_parent", why[3]); ctx.stat("abandoned_lost_no_retransmit", why[4]); ctx.stat("abandoned_flow_or_session_end", why[5]);
	ctx.nontrivial = nDel > 0 && nAb > 0;
	ctx.sample(fmt("case %llu: %zu flows, %llu delivered, %llu abandoned (app %llu finish %llu start %llu parent %llu lost %llu end %llu), path %s", (unsigned long long)ctx.caseIndex, flows.size(), (unsigned long long)nDel, (unsigned long long)nAb, (unsigned long long)why[0], (unsigned long long)why[1], (unsigned long long)why[2], (unsigned long long)why[3], (unsigned long long)why[4], (unsigned long long)why[5], describe(w.dflt).c_str()));
	cleanup(w, &app);
}
}
