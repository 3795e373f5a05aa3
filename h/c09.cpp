// C09: simultaneous, duplicated, redirected and introduced openings end in one session per pair that carries everything.
#include "app.hpp"
namespace vf {
const char *driverRule() { return "one case = 2-4 endpoints (some with two addresses) opening up to 30 flows to each other, many at the same moment, under names and aliases, with any mix of right, dead and wrong candidate addresses and through a redirector that redirects or introduces, over paths that lose, duplicate, delay and reorder, then heal; run under AddressSanitizer and UBSan; non-trivial when both ends of a pair opened towards each other before either session was up, or an opening went through the redirector; distinct by the hash of every packet and its fate"; }
uint64_t driverCases(bool t) { return t ? 400000 : 12000; }
void driverInit() {}
void driverDone() {}

namespace {
typedef long double LD;
struct Plan { bool live = false, viaR = false; LD at = 0; bool late = false; };
typedef std::pair<Bytes, Bytes> Nonces;
Nonces noncesOf(Flow *f) { Bytes a = f->getNearNonce(), b = f->getFarNonce(); return a < b ? Nonces(a, b) : Nonces(b, a); }
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	int nn = int(rng.range(2, 4));
	bool useR = rng.chance(0.5);
	bool multi = rng.chance(0.5);
	int nasty = int(rng.u(4));
	bool slowCrypto = rng.chance(0.5);
	double perf0 = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.05), perfN = slowCrypto ? rng.logreal(0.001, 0.3) : 0;
	for(int i = 0; i < nn + (useR ? 1 : 0); i++) {
		std::vector<std::string> a{fmt("10.0.%d.1:%d", i, 1000 + i)};
		if(multi && i < nn && rng.chance(0.7)) a.push_back(fmt("10.0.%d.2:%d", i, 2000 + i));
		Node *n = w.addNode(i < nn ? fmt("n%d", i) : std::string("R"), a);
		n->platform->performDelay0 = perf0; n->platform->performDelayN = perfN;
		n->sim->lateAuth = slowCrypto && rng.chance(0.3);
	}
	Node *R = useR ? w.nodes[nn].get() : nullptr;
	double base = rng.logreal(0.0005, 0.4);
	auto cfg = [&] (bool good) {
		PathCfg p; p.delay = base * rng.real(0.7, 1.3); p.jitter = rng.chance(0.5) ? 0 : p.delay;
		if(good) return p;
		if(nasty >= 1) { p.loss = rng.real(0, nasty == 1 ? 0.1 : 0.5); p.dup = rng.real(0, 0.3); p.reorder = rng.real(0, 0.3); p.reorderDelay = rng.chance(0.3) ? rng.real(0, 6) : rng.real(0, 1); p.corrupt = rng.chance(0.2) ? 0.05 : 0; }
		if(nasty >= 3 && rng.chance(0.5)) p.down = true;
		return p;
	};
	auto setPaths = [&] (bool good) { for(auto &a : w.nodes) for(auto &b : w.nodes) if(a != b) w.path(a->index, b->index) = cfg(good); };
	App app(w);
	for(auto &n : w.nodes) app.listen(n.get());
	std::map<Tx *, Plan> plan;
	std::vector<bool> known(nn, false); // registered at the redirector
	std::map<std::string, std::shared_ptr<Flow>> reg;
	std::vector<Address> dead;
	for(int i = 0; i < 6; i++) dead.push_back(A(fmt("10.9.0.%d:%d", i + 1, 500 + i)));
	uint64_t redirects = 0, forwards = 0, glares = 0, dupes = 0, refused = 0, lateOpens = 0, unreachable = 0;
	std::set<std::pair<int, int>> pairsOpened;

	// --- the redirector and who is known to it
	int rmode = int(rng.u(3)); // redirect, introduce, both
	FIHelloResponseMode fimode = rng.chance(0.7) ? FI_SEND_RHELLO : FI_SEND_REDIRECT;
	setPaths(true);
	if(R) {
		for(int i = 0; i < nn; i++) if(rng.chance(0.8)) {
			known[i] = true;
			Tx *t = app.open(w.nodes[i].get(), R);
			t->f->setSessionFIHelloMode(fimode);
			t->write(20);
			plan[t].live = true;
		}
		app.onAccepted = [&] (Rx *r) { if(r->node == R) reg[r->tx->src->name] = r->f; };
		w.run(w.now + 30, [&] { for(int i = 0; i < nn; i++) if(known[i] && !reg.count(fmt("n%d", i))) return false; return true; });
		for(int i = 0; i < nn; i++) if(known[i] && !reg.count(fmt("n%d", i))) { ctx.fail("not-opened", "n%d could not open to the redirector", i); cleanup(w, &app); return; }
		for(auto &kv : app.tx) if(kv.second->dst == R) kv.second->f->setSessionFIHelloMode(fimode); // a setting of the session
		std::map<std::string, std::vector<Address>> where;
		R->rtmfp->onUnmatchedIHello = [&] (const void *epd, size_t epdLen, const void *tag, size_t tagLen, int ifid, const struct sockaddr *src) {
			for(int i = 0; i < nn; i++) if(known[i] && SimCrypto::epdSelects(w.nodes[i]->name, (const uint8_t *)epd, epdLen)) {
				if(rmode != 1) {
					std::vector<Address> l;
					for(auto &kv : w.nodes[i]->pub) l.push_back(kv.second);
					for(auto &d : dead) if(w.rng.chance(0.3)) l.insert(l.begin() + w.rng.u(l.size() + 1), d);
					R->rtmfp->sendResponderRedirect(tag, tagLen, l, ifid, src);
					redirects++;
				}
				if(rmode != 0) { reg[w.nodes[i]->name]->forwardIHello(epd, epdLen, Address(src), tag, tagLen); forwards++; }
			}
		};
	}
	// --- openings
	auto t0 = w.now;
	setPaths(false);
	double T = rng.chance(0.4) ? rng.real(0.1, 3) : rng.real(3, 30);
	std::function<void()> onBound;
	auto openOne = [&] (int a, int b) {
		Node *src = w.nodes[a].get(), *dst = w.nodes[b].get();
		std::string epd = rng.chance(0.6) ? dst->name : "alias:" + dst->name;
		if(ctx.failed) return (Tx *)nullptr;
		Tx *t = app.open(src, dst, Priority(rng.u(NUM_PRIORITIES)), epd, false);
		if(!t) return t;
		Plan &p = plan[t];
		p.at = w.now;
		std::vector<std::pair<Address, int>> cand; // kind: 0 right 1 dead 2 wrong 3 redirector
		int k = int(rng.range(1, 6));
		bool needLive = rng.chance(0.85);
		if(needLive) { if(R && known[b] && rng.chance(0.5)) cand.push_back({R->pub.begin()->second, 3}); else { auto it = dst->pub.begin(); if(dst->pub.size() > 1 && rng.chance(0.5)) ++it; cand.push_back({it->second, 0}); } }
		for(int i = 1; i < k; i++) {
			int kind = int(rng.u(4));
			if(kind == 0 && needLive) { for(auto &x : dst->pub) cand.push_back({x.second, 0}); }
			else if(kind == 1 || kind == 0) cand.push_back({rng.pick(dead), 1});
			else if(kind == 2) { int c = int(rng.u(nn)); if(c != b && c != a) cand.push_back({w.nodes[c]->pub.begin()->second, 2}); }
			else if(R) { if(!known[b] || needLive) cand.push_back({R->pub.begin()->second, known[b] ? 3 : 1}); }
		}
		std::sort(cand.begin(), cand.end()); std::random_shuffle(cand.begin(), cand.end(), [&] (int n) { return int(rng.u(n)); });
		for(auto &c : cand) {
			double d = rng.chance(0.7) ? 0 : rng.real(0, 3);
			t->f->addCandidateAddress(c.first, d);
			if(c.second == 0 || c.second == 3) p.live = true;
			if(c.second == 3) p.viaR = true;
		}
		if(p.live) for(int i = 0; i < int(rng.range(1, 4)); i++) t->write(rng.u(4000)); else t->write(10);
		for(auto &kv : plan) if(kv.first->src == dst && kv.first->dst == src && !kv.first->bound() && kv.second.live && p.live) glares++;
		for(auto &kv : plan) if(kv.first != t && kv.first->src == src && kv.first->dst == dst && !kv.first->bound()) dupes++;
		if(rng.chance(0.05)) w.after(rng.real(0, 2), [t] { t->close(); });
		return t;
	};
	int nf = int(rng.range(1, 12));
	for(int i = 0; i < nf; i++) {
		int a = int(rng.u(nn)), b; do b = int(rng.u(nn)); while(b == a);
		double at = rng.chance(0.4) ? 0 : rng.chance(0.5) ? rng.real(0, std::min(T, base * 8)) : rng.real(0, T);
		int copies = rng.chance(0.3) ? int(rng.range(2, 3)) : 1;
		bool mutual = rng.chance(0.6);
		double apart = rng.chance(0.3) ? 0 : rng.real(0, base * 5);
		w.after(at, [&, a, b, copies, mutual, apart] {
			for(int c = 0; c < copies; c++) openOne(a, b);
			if(mutual) w.after(apart, [&, a, b] { openOne(b, a); });
		});
	}
	app.onExc = [&] (Tx *t) {
		CHECK(t->exceptions == 1, "told-twice", "flow %u n%d->n%d was told %d times", t->id, t->src->index, t->dst->index, t->exceptions);
		Plan &p = plan[t];
		if(p.live) ctx.fail("opening-failed", "flow %u from %s to %s, which has an address that answers, ends %.3Lf s after it was opened (%s)", t->id, t->src->name.c_str(), t->dst->name.c_str(), w.now - p.at, t->f->getNearNonce().empty() ? "never bound" : "bound");
		else if(w.now > p.at + 95 + 1) ctx.fail("given-up-late", "flow %u told only %.2Lf s after it was opened", t->id, w.now - p.at);
		refused++;
	};
	w.run(w.now + T);
	for(auto &a : w.nodes) for(auto &b : w.nodes) if(a != b) { auto &p = w.path(a->index, b->index); p = cfg(true); }
	auto done = [&] {
		for(auto &kv : plan) { Tx *t = kv.first; if(t->closedByApp) continue;
			if(kv.second.live) { if(!t->rx || t->rx->delivered < t->msgs.size() || t->f->getBufferedSize()) return false; }
			else if(!t->exceptions && !t->bound()) return false; }
		return true;
	};
	auto finish = [&] (const char *when) {
		for(auto &kv : plan) { Tx *t = kv.first; if(t->closedByApp) continue;
			if(kv.second.live) CHECK(!t->exceptions && t->rx && t->rx->delivered == t->msgs.size(), "not-carried", "%s: flow %u from %s to %s, which has an address that answers: %s, %zu of %zu messages delivered, bound %d", when, t->id, t->src->name.c_str(), t->dst->name.c_str(), t->exceptions ? "ended" : "not ended", t->rx ? t->rx->delivered : 0, t->msgs.size(), t->bound());
			else CHECK(t->exceptions == 1 || t->bound() || w.now < kv.second.at + 97, "not-told", "%s: flow %u, opened %.1Lf s ago to addresses that do not answer, was told %d times", when, t->id, w.now - kv.second.at, t->exceptions); }
		// one session per pair
		std::map<std::pair<int, int>, std::map<Nonces, Tx *>> pairs;
		for(auto &kv : plan) { Tx *t = kv.first; if(t->closedByApp || t->exceptions || !t->bound()) continue;
			int a = t->src->index, b = t->dst->index; if(a > b) std::swap(a, b);
			Nonces x = noncesOf(t->f.get());
			pairs[{a, b}].insert({x, t}); pairsOpened.insert({a, b});
			if(t->rx && !t->rx->closedByApp && !t->rx->completes) { CHECK(noncesOf(t->rx->f.get()) == x && t->rx->f->getNearNonce() == t->f->getFarNonce(), "nonces-differ", "flow %u: the two ends disagree on the session's nonces", t->id); }
			CHECK(SimCrypto::epdSelects(t->dst->name, t->f->getFarCanonicalEPD().data(), t->f->getFarCanonicalEPD().size()), "wrong-peer", "flow %u", t->id);
		}
		for(auto &p : pairs) if(p.second.size() > 1) {
			std::string l; for(auto &x : p.second) l += fmt("[flow %u %s->%s opened %.3Lf]", x.second->id, x.second->src->name.c_str(), x.second->dst->name.c_str(), plan[x.second].at);
			ctx.fail("several-sessions", "%s: the flows of %s and %s use %zu sessions: %s", when, w.nodes[p.first.first]->name.c_str(), w.nodes[p.first.second]->name.c_str(), p.second.size(), l.c_str());
		}
	};
	if(!ctx.failed) { w.run(w.now + 110, done); finish("after healing"); }
	// --- whoever opens now joins the session there is
	if(!ctx.failed) {
		w.run(w.now + rng.real(0, 20));
		std::vector<Tx *> l;
		for(auto &p : pairsOpened) for(int d = 0; d < 2; d++) if(p.second < nn) {
			Node *src = w.nodes[d ? p.second : p.first].get(), *dst = w.nodes[d ? p.first : p.second].get();
			Tx *t = app.open(src, dst, PRI_ROUTINE, rng.chance(0.5) ? dst->name : "alias:" + dst->name);
			plan[t].live = true; plan[t].at = w.now; t->write(rng.u(3000)); lateOpens++;
		}
		w.run(w.now + 30, done);
		finish("opened later");
	}
	for(auto &kv : plan) if(!kv.second.live) unreachable++;
	statsFromWorld(w);
	ctx.stat("flows", plan.size()); ctx.stat("pairs_opened", pairsOpened.size()); ctx.stat("simultaneous_openings", glares); ctx.stat("openings_joining_others", dupes); ctx.stat("redirects", redirects); ctx.stat("introductions", forwards); ctx.stat("flows_to_silent_addresses", unreachable); ctx.stat("refused", refused); ctx.stat("late_openings", lateOpens); ctx.stat("multihomed_cases", multi);
	ctx.nontrivial = glares > 0 || redirects + forwards > 0;
	ctx.sample(fmt("case %llu: %zu flows between %d endpoints, %llu towards each other, %llu redirects, %llu introductions, %llu refused", (unsigned long long)ctx.caseIndex, plan.size(), nn, (unsigned long long)glares, (unsigned long long)redirects, (unsigned long long)forwards, (unsigned long long)refused));
	cleanup(w, &app);
}
}
