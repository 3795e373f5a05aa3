// C10: flow setup - metadata, association, acceptance and rejection.
#include "app.hpp"
namespace vf {
const char *driverRule() { return "one case = two or three endpoints opening many flows (unassociated, beside another, in return, nested) with any metadata over a faulty network, whose receivers accept, ignore or close them with reasons, in the offer or at any later time; run under AddressSanitizer and UBSan; non-trivial when at least 4 flows were offered, one was rejected and one delivered everything; distinct by the hash of every packet and its fate"; }
uint64_t driverCases(bool t) { return t ? 400000 : 30000; }
void driverInit() {}
void driverDone() {}

namespace {
enum How { ACCEPT, IGNORE, CLOSE_IN_OFFER, ACCEPT_THEN_CLOSE, CLOSE_LATER, NO_LISTENER };
struct Plan { How how = ACCEPT; std::set<uintmax_t> reasons; bool rejected = false; long double at = -1; bool assocMayBeGone = false; size_t deliveredAtClose = 0; uint64_t closeAfterMsgs = UINT64_MAX; bool offered = false; };
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	int nasty = int(rng.u(3));
	int nn = rng.chance(0.3) ? 3 : 2;
	for(int i = 0; i < nn; i++) { Node *n = w.addNode(fmt("n%d", i), {fmt("10.0.0.%d:%d", i + 1, 1000 + i)}); n->rtmfp->setDefaultSessionRetransmitLimit(100000); n->platform->performDelay0 = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.01); n->platform->performDelayN = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.05); }
	for(auto &a : w.nodes) for(auto &b : w.nodes) if(a != b) w.path(a->index, b->index) = randomPath(rng, nasty);
	App app(w);
	app.checkOrder = true;
	for(auto &n : w.nodes) app.listen(n.get());
	std::map<Tx *, Plan> plans;
	std::map<Bytes, uint32_t> metas;
	uint64_t offers = 0, rejections = 0, told = 0, returns = 0, later = 0, refusedMeta = 0, delivered = 0, maxMeta = 0, emptyMeta = 0, noListener = 0, nudges = 0;
	bool stop = false;
	double T = rng.real(1, 8);

	auto makeMeta = [&] (uint32_t id) {
		Bytes m;
		do {
			switch(rng.u(6)) {
			case 0: m = rng.bytes(rng.u(5)); break;
			case 1: m = rng.bytes(rng.pick({size_t(512), size_t(511), size_t(500), size_t(127), size_t(128), size_t(129)})); break;
			case 2: m = rng.bytes(rng.u(513)); break;
			case 3: m = Bytes(rng.u(300), uint8_t(rng.chance(0.5) ? 0 : rng.bits())); break; // runs of one byte
			default: m = rng.bytes(rng.u(40));
			}
		} while(metas.count(m));
		metas[m] = id;
		if(m.size() == 512) maxMeta++; if(m.empty()) emptyMeta++;
		return m;
	};
	app.identify = [&] (Node *, const Bytes &m, Tx *) { auto it = metas.find(m); return it == metas.end() ? 0u : it->second; };
	auto closeRx = [&] (Rx *r, Plan &p, bool withReason) {
		if(r->closedByApp) { // again: the reason may be either
			if(withReason) { uintmax_t why = rng.bits(); p.reasons.insert(why); r->f->close(why); } else r->f->close();
			return;
		}
		if(r->completes) return;
		uintmax_t why = withReason ? rng.pick({rng.bits(), rng.bits(), uintmax_t(0), uintmax_t(127), uintmax_t(128), UINTMAX_MAX}) : 0;
		r->closedByApp = true; p.rejected = true; p.at = w.now; p.reasons.insert(why); p.deliveredAtClose = r->delivered;
		rejections++;
		if(withReason) r->f->close(why); else r->f->close();
		CHECK(!r->f->isOpen(), "open-after-close", "a receiving flow says it is open after close()");
	};
	std::function<Tx *(Tx *)> setup;
	auto check = [&] (Tx *t) { // refused opens
		if(!rng.chance(0.1) || !t) return;
		Bytes big = rng.bytes(rng.range(513, 2000));
		refusedMeta++;
		CHECK(!t->src->rtmfp->openFlow(t->dst->name.data(), t->dst->name.size(), big.data(), big.size()), "long-metadata-taken", "openFlow with %zu bytes of metadata", big.size());
		CHECK(!t->f->openFlow(big), "long-metadata-taken", "Flow::openFlow with %zu bytes of metadata", big.size());
		if(t->rx) CHECK(!t->rx->f->openReturnFlow(big), "long-metadata-taken", "openReturnFlow with %zu bytes of metadata", big.size());
	};
	auto openRet = [&] (Rx *r) -> Tx * {
		uint32_t id = app.nextId++; Bytes m = makeMeta(id);
		auto f = r->f->openReturnFlow(m, Priority(rng.u(NUM_PRIORITIES)));
		if(!f) { metas.erase(m); return nullptr; }
		Tx *t = app.adopt(id, f, r->node, r->tx->src, m); t->via = r->tx; returns++;
		return setup(t);
	};
	auto openAny = [&] (Tx *beside) -> Tx * {
		uint32_t id = app.nextId++; Bytes m = makeMeta(id);
		std::shared_ptr<SendFlow> f; Node *src, *dst;
		if(beside && rng.chance(0.5)) { src = beside->src; dst = beside->dst; f = beside->f->openFlow(m, Priority(rng.u(NUM_PRIORITIES))); }
		else { src = w.nodes[rng.u(nn)].get(); do dst = w.nodes[rng.u(nn)].get(); while(dst == src); f = src->rtmfp->openFlow(dst->name.data(), dst->name.size(), m.data(), m.size(), Priority(rng.u(NUM_PRIORITIES))); if(f) for(auto &kv : dst->pub) f->addCandidateAddress(kv.second); }
		if(!f) { metas.erase(m); return nullptr; }
		return setup(app.adopt(id, f, src, dst, m));
	};
	setup = [&] (Tx *t) {
		Plan &p = plans[t];
		double x = rng.real();
		p.how = x < 0.55 ? ACCEPT : x < 0.62 ? IGNORE : x < 0.72 ? CLOSE_IN_OFFER : x < 0.78 ? ACCEPT_THEN_CLOSE : CLOSE_LATER;
		if(rng.chance(0.1)) { t->f->onRecvFlow = nullptr; noListener++; }
		else t->f->onRecvFlow = [&, t] (std::shared_ptr<RecvFlow> flow) { t->onRecvOffers++; app.offer(t->src, flow, t); };
		int n = int(rng.chance(0.1) ? 0 : rng.range(1, 12));
		int style = int(rng.u(6));
		for(int i = 0; i < n; i++) w.after(i == 0 || rng.chance(0.4) ? 0 : rng.real(0, T), [&, t, style] { if(!t->closedByApp && !t->exceptions) { Msg *m = t->write(pickLen(w.rng, style) % 8000); CHECK(m, "write-refused", "flow %u takes no message though nobody closed it", t->id); } });
		if(rng.chance(0.25)) w.after(rng.real(0, T * 1.5), [&, t] { if(!t->closedByApp && !t->exceptions) { t->close(); } });
		return t;
	};
	app.onOffer = [&] (Node *n, Rx *r) {
		offers++;
		Tx *t = r->tx; Plan &p = plans[t];
		CHECK(!p.offered, "offered-twice", "flow %u offered twice", t->id);
		p.offered = true;
		Tx *assoc = nullptr; for(auto &kv : app.tx) if(kv.second->f && kv.second->f == r->f->getAssociatedSendFlow()) assoc = kv.second.get();
		CHECK(assoc == t->via, "wrong-association", "flow %u was opened in return to flow %u but offered to flow %u (0: the endpoint)", t->id, t->via ? t->via->id : 0, assoc ? assoc->id : 0);
		CHECK(r->f->getMetadata() == t->meta, "metadata-differs", "flow %u", t->id);
		Bytes far = r->f->getFarCanonicalEPD();
		CHECK(std::string(far.begin(), far.end()) == t->src->name, "wrong-peer", "flow %u from %s says its peer is %s", t->id, t->src->name.c_str(), hex(far).c_str());
		app.attach(r);
		if(rng.chance(0.15)) r->f->setReceiveOrder(RO_NETWORK), r->order = RO_NETWORK;
		switch(p.how) {
		case ACCEPT: break;
		case IGNORE: p.rejected = true; p.at = w.now; p.reasons.insert(0); r->closedByApp = true; rejections++; return false;
		case CLOSE_IN_OFFER: closeRx(r, p, rng.chance(0.8)); if(rng.chance(0.2)) closeRx(r, p, true); return false;
		case ACCEPT_THEN_CLOSE: r->f->accept(); closeRx(r, p, rng.chance(0.8)); return false;
		default: later++; if(rng.chance(0.4)) p.closeAfterMsgs = rng.u(5); else w.after(rng.real(0, T), [&, r] { closeRx(r, plans[r->tx], w.rng.chance(0.8)); if(w.rng.chance(0.1)) closeRx(r, plans[r->tx], true); });
		}
		r->f->accept();
		if(!stop && app.tx.size() < 40 && rng.chance(0.4)) openRet(r);
		if(!stop && app.tx.size() < 40 && rng.chance(0.3)) w.after(rng.real(0, T), [&, r] { if(!stop) openRet(r); });
		return false; // accepted and attached here
	};
	app.onMsg = [&] (Rx *r, const Rx::Got &) {
		Plan &p = plans[r->tx]; delivered++;
		CHECK(!p.rejected, "delivered-after-rejection", "flow %u delivered a message after its rejection", r->id);
		if(r->delivered >= p.closeAfterMsgs) { p.closeAfterMsgs = UINT64_MAX; closeRx(r, p, w.rng.chance(0.8)); }
	};
	app.onExc = [&] (Tx *t) {
		Plan &p = plans[t]; told++;
		CHECK(t->exceptions == 1, "told-twice", "flow %u was told of its end %d times", t->id, t->exceptions);
		bool assocGone = t->via && (t->via->closedByApp || t->via->exceptions || !t->via->f->onRecvFlow);
		bool noRx = t->via && !t->via->f->onRecvFlow;
		if(!p.rejected && !assocGone && !noRx) ctx.fail("rejected-by-nobody", "flow %u (%s->%s, return of %u) was told %ju though nobody rejected it", t->id, t->src->name.c_str(), t->dst->name.c_str(), t->via ? t->via->id : 0, t->reason);
		else if(p.rejected) { if(!p.reasons.count(t->reason)) { std::string e; for(auto x : p.reasons) e += fmt(" %ju", x); ctx.fail("wrong-reason", "flow %u was told reason %ju, its receiver gave%s", t->id, t->reason, e.c_str()); } }
		else CHECK(t->reason == 0, "wrong-reason", "flow %u was told reason %ju though it was not accepted", t->id, t->reason);
		CHECK(!t->f->isOpen(), "open-after-exception", "flow %u says it is open when told it was rejected", t->id);
		CHECK(!t->f->write("x", 1), "write-after-rejection", "flow %u took a message after its rejection", t->id);
	};
	int n0 = int(rng.range(1, 8));
	for(int i = 0; i < n0; i++) w.after(rng.chance(0.4) ? 0 : rng.real(0, T), [&] { std::vector<Tx *> a; for(auto &kv : app.tx) a.push_back(kv.second.get()); Tx *t = openAny(a.empty() ? nullptr : a[w.rng.u(a.size())]); check(t); });
	w.run(w.now + T * 1.6);
	stop = true;
	for(auto &kv : w.paths) { kv.second.loss = 0; kv.second.corrupt = 0; kv.second.dup = 0; kv.second.reorder = 0; kv.second.maxConsecLoss = 0; kv.second.rate = 0; }
	auto mayBeLost = [&] (Tx *t) { return t->via && (t->via->closedByApp || t->via->exceptions || !t->via->f->onRecvFlow); }; // the flow it returns to may have been gone when it arrived
	auto ready = [&] {
		for(auto &kv : plans) {
			Tx *t = kv.first; Plan &p = kv.second;
			if(t->msgs.empty()) continue;
			bool early = t->closedByApp && !t->rx; // closed before its session opened, perhaps
			if(p.rejected) { if(!t->exceptions && !t->closedByApp) return false; continue; }
			if(t->exceptions) continue;
			if(early) continue;
			if(!t->rx) { return false; }
			if(t->rx->delivered < t->msgs.size()) return false;
		}
		return true;
	};
	for(auto &kv : plans) { Tx *t = kv.first; if(kv.second.rejected && !t->exceptions && !t->closedByApp && !t->msgs.empty()) { Msg *m = t->write(20); CHECK(m, "write-refused", "flow %u takes no message though nobody closed it", t->id); nudges++; } } // a rejection whose notice was lost is repeated when the flow sends again
	bool ok = w.run(w.now + 120, ready);
	w.run(w.now + rng.real(0, 5));
	if(!ctx.failed && !ok) {
		std::string s;
		for(auto &kv : plans) { Tx *t = kv.first; Plan &p = kv.second; if(t->msgs.empty() || (t->closedByApp && !t->rx) || t->exceptions) continue;
			if(p.rejected ? !t->closedByApp : (!t->rx || t->rx->delivered < t->msgs.size())) s += fmt("[flow %u %s->%s return of %u, metadata %zu bytes, %s; written %zu delivered %zu; offered %d; rejected at %.3Lf, told %d]", t->id, t->src->name.c_str(), t->dst->name.c_str(), t->via ? t->via->id : 0, t->meta.size(), p.how == ACCEPT ? "accepted" : "to be rejected", t->msgs.size(), t->rx ? t->rx->delivered : 0, p.offered, p.at, t->exceptions); }
		ctx.fail("not-settled", "120 s after the network healed: %s", s.c_str());
	}
	uint64_t whole = 0;
	if(!ctx.failed) for(auto &kv : plans) {
		Tx *t = kv.first; Plan &p = kv.second;
		if(p.rejected && t->rx) CHECK(t->rx->delivered == p.deliveredAtClose, "delivered-after-rejection", "flow %u delivered %zu messages, %zu before its rejection", t->id, t->rx->delivered, p.deliveredAtClose);
		if(!p.rejected && !mayBeLost(t)) CHECK(!t->exceptions, "accepted-flow-hurt", "flow %u was accepted but told %ju", t->id, t->reason);
		if(!p.rejected && !t->exceptions && t->rx && t->rx->delivered == t->msgs.size() && !t->msgs.empty()) whole++;
	}
	statsFromWorld(w);
	ctx.stat("flows_offered", offers); ctx.stat("flows_rejected", rejections); ctx.stat("rejections_told", told); ctx.stat("return_flows", returns); ctx.stat("closed_later", later); ctx.stat("too_long_metadata_refused", refusedMeta); ctx.stat("messages_delivered", delivered); ctx.stat("metadata_of_512_bytes", maxMeta); ctx.stat("empty_metadata", emptyMeta); ctx.stat("flows_without_listener", noListener); ctx.stat("flows_whole", whole); ctx.stat("writes_after_lost_rejection", nudges);
	ctx.nontrivial = offers >= 4 && rejections && whole;
	ctx.sample(fmt("case %llu: %zu flows, %llu offered, %llu rejected (%llu told), %llu returns, %llu whole", (unsigned long long)ctx.caseIndex, plans.size(), (unsigned long long)offers, (unsigned long long)rejections, (unsigned long long)told, (unsigned long long)returns, (unsigned long long)whole));
	cleanup(w, &app);
	for(auto &kv : plans) if(!ctx.failed) CHECK(kv.first->exceptions <= 1, "told-twice", "flow %u", kv.first->id);
}
}
