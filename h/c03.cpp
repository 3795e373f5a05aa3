// C03: network-order and held delivery against a reference receiver fed from the wire.
#include "wire.hpp"
namespace vf {
const char *driverRule() { return "one case = two endpoints with 1-4 flows whose receive order switches between network, held and original order over a faulty path; a reference receiver fed with the same packets says what must come out of each; non-trivial when a message completed ahead of an earlier one was delivered early or messages were withheld by a hold; distinct by the hash of every packet sent and its fate"; }
uint64_t driverCases(bool t) { return t ? 150000 : 6000; }
void driverInit() {}
void driverDone() {}

namespace {
struct R {
	Rx *rx; Tx *tx;
	std::map<uint32_t, uintmax_t> gotSeq;      // message index -> sequence number delivered with
	std::set<uintmax_t> delivered;             // first sequence numbers
	int merges = 0, mergesInPkt = 0;
	int mustMerge = 0; // for the current packet
	std::set<uintmax_t> dueNow;                // message starts completed by the current packet under network order
	ReceiveOrder orderAtPkt = RO_SEQUENCE;
	bool orderChanged = false;
	uintmax_t lastCum = 0, lastFwd = 0;
	bool held = false; long double leftHold = -1;
	uint64_t early = 0, withheld = 0;
};
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	int nasty = int(rng.range(1, 2));
	w.dflt = randomPath(rng, nasty);
	if(rng.chance(0.5)) { w.dflt.reorder = rng.real(0.05, 0.5); w.dflt.reorderDelay = w.dflt.delay * rng.real(0.5, 6); }
	for(int i = 0; i < 2; i++) {
		Node *nd = w.addNode(fmt("node%d", i), {fmt("10.0.0.%d:%d", i + 1, 1000 + i)});
		nd->platform->writableDelay = rng.logreal(0.000001, 0.002);
		nd->platform->pace = rng.logreal(0.000001, 0.001);
		nd->rtmfp->setDefaultSessionRetransmitLimit(100000);
		nd->rtmfp->setDefaultSessionIdleLimit(1e6);
		w.path(i, i);
	}
	w.path(0, 1); w.path(1, 0);
	App app(w);
	app.checkOrder = false;
	for(auto &nd : w.nodes) app.listen(nd.get());
	WireMon mon(w, app);
	std::map<Rx *, R> rs;
	uint64_t msgs = 0, earlyTotal = 0, withheldTotal = 0, mergeTotal = 0, completions = 0;
	bool deadlines = rng.chance(0.4);

	auto after = [&] (R &r) { // numbers only go forward, and agree with the reference
		FlowW *f = mon.flowOf(r.tx);
		if(!f) return;
		uintmax_t c = r.rx->f->getCumulativeAckSequenceNumber(), fw = r.rx->f->getForwardSequenceNumber();
		CHECK(c >= r.lastCum, "cumulative-went-back", "flow %u cumulative %ju -> %ju", r.rx->id, r.lastCum, c);
		CHECK(fw >= r.lastFwd, "forward-went-back", "flow %u forward %ju -> %ju", r.rx->id, r.lastFwd, fw);
		r.lastCum = c; r.lastFwd = fw;
	};
	auto setOrder = [&] (R &r, ReceiveOrder o) {
		if(r.rx->f->getReceiveOrder() == o) return;
		bool wasHold = r.rx->f->getReceiveOrder() == RO_HOLD;
		r.rx->f->setReceiveOrder(o);
		r.rx->order = o;
		r.orderChanged = true;
		if(wasHold) {
			r.leftHold = w.now;
			Rx *rx = r.rx; long double t = w.now;
			// everything received meanwhile, up to the first gap, comes out with the next tasks
			w.after(0.0001, [&, rx, t] {
				R &r = rs[rx];
				if(r.leftHold != t || rx->f->getReceiveOrder() == RO_HOLD) return;
				mon.sync();
				FlowW *f = mon.flowOf(r.tx);
				if(!f) return;
				uintmax_t cum = f->rx.cum();
				for(auto it = f->buf.begin(); it != f->buf.end(); ) {
					uintmax_t a, b;
					if(f->whole(it->first, a, b) && a == it->first) {
						if(b <= cum && !r.delivered.count(a)) ctx.fail("hold-not-released", "flow %u left hold at %.4Lf but message at %ju (cumulative %ju) was not delivered", rx->id, t, a, cum);
						it = f->buf.upper_bound(b);
					} else ++it;
				}
			});
		} else r.leftHold = -1;
	};
	app.onAccepted = [&] (Rx *rx) {
		R &r = rs[rx];
		r.rx = rx; r.tx = rx->tx;
		int k = int(rng.u(4));
		if(k == 0) rx->order = RO_HOLD;
		else if(k < 3) rx->order = RO_NETWORK;
		else rx->order = RO_SEQUENCE;
		rx->f->setReceiveOrder(rx->order);
		r.orderAtPkt = rx->order;
		if(rng.chance(0.2)) rx->f->setBufferCapacity(rng.range(4000, 200000));
		R *pr = &r;
		rx->f->onCumulativeAckDidMerge = [pr] { pr->merges++; pr->mergesInPkt++; };
	};
	app.onMsg = [&] (Rx *rx, const Rx::Got &g) {
		mon.sync();
		R &r = rs[rx];
		msgs++;
		CHECK(rx->f->getReceiveOrder() != RO_HOLD, "delivered-on-hold", "flow %u message seq %ju delivered while on hold", rx->id, g.seq);
		uint32_t fl = 0, idx = 0;
		if(g.data.size() >= 12) { memcpy(&fl, &g.data[0], 4); memcpy(&idx, &g.data[4], 4); }
		if(fl != rx->id || idx >= rx->tx->msgs.size() || rx->tx->msgs[idx]->data != g.data) { ctx.fail("altered-message", "flow %u seq %ju: %zu bytes are not a message written on it", rx->id, g.seq, g.data.size()); return; }
		CHECK(!r.gotSeq.count(idx), "delivered-twice", "flow %u message %u delivered again (seq %ju, before %ju)", rx->id, idx, g.seq, r.gotSeq[idx]);
		r.gotSeq[idx] = g.seq;
		rx->tx->msgs[idx]->delivered = true;
		FlowW *f = mon.flowOf(rx->tx);
		uintmax_t a, b;
		if(!f || !f->whole(g.seq, a, b)) { ctx.fail("delivered-incomplete", "flow %u seq %ju delivered but not all of its fragments have arrived", rx->id, g.seq); return; }
		CHECK(a == g.seq && b - a + 1 == g.frags, "wrong-sequence-number", "flow %u message %u delivered as seq %ju with %zu fragments, on the wire it is %ju..%ju", rx->id, idx, g.seq, g.frags, a, b);
		r.delivered.insert(a);
		if(rx->f->getReceiveOrder() == RO_SEQUENCE) CHECK(b <= f->rx.cum(), "sequence-order-early", "flow %u seq %ju delivered in original order ahead of the cumulative number %ju", rx->id, a, f->rx.cum());
		// ahead of an earlier message?
		for(uint32_t i = 0; i < idx; i++) if(!rx->tx->msgs[i]->delivered && rx->tx->msgs[i]->plain) { r.early++; earlyTotal++; break; }
		if(w.rng.chance(0.02)) setOrder(r, ReceiveOrder(w.rng.u(3)));
	};
	mon.onArrive = [&] (Sess &, int, const Pkt &, const Wire &, std::vector<PChunk> &) {
		for(auto &kv : rs) { R &r = kv.second; r.dueNow.clear(); r.mustMerge = 0; r.mergesInPkt = 0; r.orderChanged = false; r.orderAtPkt = r.rx->f->getReceiveOrder(); }
	};
	mon.onRxData = [&] (Sess &, int, FlowW &f, const WUserData &ud, bool fresh, const Ranges &pre) {
		if(!f.tx || !f.tx->rx) return;
		auto it = rs.find(f.tx->rx);
		if(it == rs.end()) return;
		R &r = it->second;
		uintmax_t a, b;
		if(fresh && !(ud.flags & USERDATA_FLAG_ABN) && f.whole(ud.seq, a, b) && r.orderAtPkt == RO_NETWORK && r.rx->f->isOpen()) { r.dueNow.insert(a); completions++; }
		// Did the cumulative number advance across something received ahead? Then a range disappeared into the first one.
		uintmax_t cum = f.rx.cum();
		for(auto &x : pre.m) if(x.first > 0 && x.first <= cum) { r.mustMerge++; break; }
	};
	mon.onArrived = [&] (Sess &, int, const Pkt &p, const Wire &, std::vector<PChunk> &) {
		for(auto &kv : rs) {
			R &r = kv.second;
			if(r.rx->node->index != p.toNode) continue;
			if(!r.rx->f) continue;
			after(r);
			FlowW *f = mon.flowOf(r.tx);
			if(f && r.rx->completes == 0) {
				CHECK(r.rx->f->getCumulativeAckSequenceNumber() == f->rx.cum(), "cumulative-wrong", "flow %u cumulative %ju, received from the wire %ju", r.rx->id, r.rx->f->getCumulativeAckSequenceNumber(), f->rx.cum());
				CHECK(r.rx->f->getForwardSequenceNumber() == f->rxFsn, "forward-wrong", "flow %u forward %ju, received from the wire %ju", r.rx->id, r.rx->f->getForwardSequenceNumber(), f->rxFsn);
			}
			if(r.orderChanged) { r.mergesInPkt = 0; continue; }
			for(auto a : r.dueNow) CHECK(r.delivered.count(a), "network-order-late", "flow %u message at %ju became complete in network order but was not delivered", r.rx->id, a);
			if(r.orderAtPkt == RO_NETWORK && r.rx->completes == 0) {
				if(r.mergesInPkt < r.mustMerge) ctx.fail("merge-not-notified", "flow %u the cumulative number advanced across a gap %d times in a packet, notified %d times (now %ju)", r.rx->id, r.mustMerge, r.mergesInPkt, r.lastCum);
				if(r.mergesInPkt > r.mustMerge) ctx.fail("merge-notified-wrongly", "flow %u notified %d times of a merge, %d happened", r.rx->id, r.mergesInPkt, r.mustMerge);
				mergeTotal += r.mergesInPkt;
			} else if(r.orderAtPkt != RO_NETWORK && r.mergesInPkt) ctx.fail("merge-notified-wrongly", "flow %u notified of a merge though not in network order", r.rx->id);
			if(r.orderAtPkt == RO_HOLD && f) {
				size_t have = f->buf.size();
				if(have) { withheldTotal++; r.withheld++; }
			}
		}
	};
	std::vector<Tx *> flows;
	int nf = int(rng.range(1, 3)), style = int(rng.u(7));
	double T = rng.logreal(0.2, 10);
	size_t budget = 250000;
	for(int i = 0; i < nf; i++) w.after(rng.real(0, 0.3), [&] {
		Tx *t = app.open(w.nodes[0].get(), w.nodes[1].get(), Priority(w.rng.u(NUM_PRIORITIES)));
		if(!t) return;
		flows.push_back(t);
		int n = int(w.rng.range(2, 60));
		for(int k = 0; k < n; k++) w.after(w.rng.chance(0.4) ? 0 : w.rng.real(0, T), [&, t] {
			if(t->closedByApp) return;
			size_t len = std::min(12 + pickLen(w.rng, style), budget);
			if(len < 12) return;
			budget -= len;
			if(deadlines && w.rng.chance(0.3)) t->write(len, w.rng.chance(0.5) ? w.rng.real(0, 0.3) : INFINITY, w.rng.logreal(0.01, 2));
			else t->write(len);
		});
	});
	int sw = int(rng.u(12));
	bool swNever = rng.chance(0.3); // stays in the initial order: the strictest checks apply all along
	for(int i = 0; i < sw && !swNever; i++) w.after(rng.real(0.2, T + 2), [&] {
		if(rs.empty()) return;
		auto it = rs.begin(); std::advance(it, w.rng.u(rs.size()));
		if(it->second.rx->completes == 0) setOrder(it->second, ReceiveOrder(w.rng.u(3)));
	});
	w.run(w.now + T + 0.5);
	bool closeHeld = rng.chance(0.4);
	auto closeAll = [&] { for(auto t : flows) if(!t->closedByApp && t->rx && !t->msgs.empty()) t->close(); };
	if(closeHeld) closeAll();
	w.after(rng.real(0, 5), [&w] { for(auto &kv : w.paths) { kv.second.loss = 0; kv.second.corrupt = 0; kv.second.ecnMark = 0; if(kv.second.rate) kv.second.rate = std::max(kv.second.rate, 100e3); } });
	w.run(w.now + rng.real(0, 8));
	if(closeHeld) closeAll(); // flows first offered meanwhile
	for(auto &kv : rs) if(kv.second.rx->f->getReceiveOrder() == RO_HOLD && kv.second.rx->completes == 0) { setOrder(kv.second, rng.chance(0.5) ? RO_NETWORK : RO_SEQUENCE); kv.second.rx->f->setBufferCapacity(200000); }
	auto settled = [&] {
		for(auto t : flows) for(auto &m : t->msgs) if(!m->finished || (m->plain && !m->delivered)) return false;
		return true;
	};
	// callbacks may still switch to hold: let it go again
	std::function<void()> unhold = [&] { for(auto &kv : rs) if(kv.second.rx->f->getReceiveOrder() == RO_HOLD && kv.second.rx->completes == 0) setOrder(kv.second, RO_NETWORK); w.after(1, unhold); };
	w.after(1, unhold);
	bool ok = w.run(w.now + 400, settled);
	if(!ctx.failed) CHECK(ok, "not-delivered", "data missing 400 s after everything was released: %s", app.pending().c_str());
	if(!ctx.failed) {
		closeAll();
		auto completed = [&] { for(auto t : flows) if(t->closedByApp && t->rx && t->rx->completes == 0) return false; return true; };
		ok = w.run(w.now + 90, completed);
		if(!ctx.failed) CHECK(ok, "no-completion", "flows closed and everything delivered but completion not reported: %s", app.pending().c_str());
	}
	if(!ctx.failed) for(auto &kv : rs) {
		uintmax_t last = 0; bool first = true;
		for(auto &x : kv.second.gotSeq) { if(!first) CHECK(x.second > last, "sequence-numbers-not-in-written-order", "flow %u message %u has seq %ju, an earlier one %ju", kv.first->id, x.first, x.second, last); last = x.second; first = false; }
		for(auto &m : kv.first->tx->msgs) {
			if(m->delivered && m->finished) continue;
			if(m->plain) CHECK(m->delivered, "lost-message", "flow %u message %u never delivered", kv.first->id, m->idx);
		}
	}
	statsFromWorld(w);
	ctx.stat("messages_delivered", msgs); ctx.stat("delivered_ahead_of_earlier", earlyTotal); ctx.stat("packets_withheld_by_hold", withheldTotal); ctx.stat("merge_notifications", mergeTotal);
	ctx.stat("completions_checked_at_once", completions); ctx.stat("flows", app.tx.size());
	ctx.nontrivial = earlyTotal > 0 || withheldTotal > 0;
	ctx.sample(fmt("case %llu: %zu flows, %llu messages, %llu delivered ahead, %llu packets with data withheld, %llu merges, path %s", (unsigned long long)ctx.caseIndex, app.tx.size(), (unsigned long long)msgs, (unsigned long long)earlyTotal, (unsigned long long)withheldTotal, (unsigned long long)mergeTotal, describe(w.dflt).c_str()));
	cleanup(w, &app);
}
}
