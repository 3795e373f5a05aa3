// C07: the API used from inside its own callbacks, everything given back in the end.
#include "app.hpp"
#include "rtmfp/WriteReceipt.hpp"
namespace vf {
const char *driverRule() { return "one case = two or three endpoints with flows whose every callback (message, completion, exception, writable, offer, address change, merge, receipt, unmatched hello, shutdown) does a random series of API calls on its own and other flows, receipts and the endpoint (write, close, close the session, open, reject, change settings, abandon, chain, shut down, drop references), closures reading their captures afterwards; run under AddressSanitizer and UBSan, captures counted until all are given back; non-trivial when something was called from inside a callback; distinct by the hash of every packet and its fate"; }
uint64_t driverCases(bool t) { return t ? 1000000 : 40000; }
void driverInit() {}
void driverDone() {}

namespace {
long alive; // captures not given back yet
struct Token { Token() { alive++; } ~Token() { alive--; } };
struct Cap { // what a closure holds: big enough to live on the heap
	std::shared_ptr<Token> t = std::make_shared<Token>();
	uint64_t magic[6] = {11, 22, 33, 44, 55, 66};
	bool good() const { return t && t.use_count() > 0 && magic[0] == 11 && magic[1] == 22 && magic[2] == 33 && magic[3] == 44 && magic[4] == 55 && magic[5] == 66; }
};
struct Small { uint32_t id; uint32_t check; };
struct SF; struct RF;
struct Rc { std::shared_ptr<WriteReceipt> r; int finished = 0; SF *of; };
struct SF { uint32_t id; int node, peer; std::shared_ptr<SendFlow> f; bool closed = false, reopens = false; int exc = 0, gen = 0; long double born = 0; std::vector<Rc *> receipts; };
struct RF { uint32_t id; int node, peer; std::shared_ptr<RecvFlow> f; bool closed = false; int completes = 0; };
struct Chaos {
	World &w; Rng &rng;
	std::vector<std::unique_ptr<SF>> sf;
	std::vector<std::unique_ptr<RF>> rf;
	std::vector<std::unique_ptr<Rc>> rc;
	int depth = 0, budget = 0, opened = 0;
	double mood = 0.1;
	bool wild = false, over = false, resurrect = false;
	uint64_t actions = 0, inside = 0, deep = 0, byKind[40] = {0}, callbacks = 0, closedInside = 0, dropped = 0, shutdowns = 0, shutInside = 0, refused = 0, reopened = 0;
	std::vector<int> down;
	Chaos(World &w_, Rng &r) : w(w_), rng(r) {}
	template <class T> T *pickAt(std::vector<std::unique_ptr<T>> &v, int node) { for(int i = 0; i < 6; i++) { if(v.empty()) return nullptr; T *x = v[v.size() - 1 - rng.u(std::min<size_t>(v.size(), rng.chance(0.5) ? 3 : 1000))].get(); if(x->f && x->node == node) return x; } return nullptr; }
	struct In { Chaos &c; In(Chaos &c_) : c(c_) { c.depth++; c.callbacks++; } ~In() { c.depth--; } };

	void receipt(SF *s, std::shared_ptr<WriteReceipt> r)
	{
		rc.emplace_back(new Rc()); Rc *p = rc.back().get(); p->r = r; p->of = s; s->receipts.push_back(p);
		Cap cap; std::shared_ptr<WriteReceipt> keep; if(rng.chance(0.2)) keep = r;
		int node = s->node; uint32_t id = s->id;
		r->onFinished = [this, p, cap, keep, node, id] (bool abandoned) {
			In in(*this); (void)abandoned;
			p->finished++;
			CHECK(p->finished == 1, "receipt-finished-twice", "a receipt of flow %u finished %d times", id, p->finished);
			if(rng.chance(0.2)) { p->r.reset(); if(!over && wild && rng.chance(0.1 * mood) && p->of->f) { auto f = p->of->f; if(rng.chance(0.5)) f->closeSession(); else closeS(p->of); } }
			act(node, p->of, nullptr, p);
			CHECK(cap.good(), "capture-gone", "a receipt callback of flow %u lost its captures while running", id);
		};
	}
	bool write(SF *s, size_t len)
	{
		Bytes b = rng.bytes(std::min<size_t>(len, 64)); b.resize(len);
		Duration sw = rng.chance(0.7) ? INFINITY : rng.real(-0.1, 1), fw = rng.chance(0.7) ? INFINITY : rng.real(-0.1, 2);
		auto f = s->f;
		auto r = f->write(b, sw, fw);
		if(!r) { refused++; return false; }
		CHECK(!s->closed, "write-after-close", "flow %u took a message after it was closed", s->id);
		receipt(s, r);
		if(rng.chance(0.2)) r->retransmit = false;
		if(rng.chance(0.2) && s->receipts.size() > 1) { auto &q = s->receipts[rng.u(s->receipts.size() - 1)]->r; if(q && q != r) r->parent = q; }
		return true;
	}
	void adoptS(SF *s)
	{
		Cap cap; std::shared_ptr<SendFlow> keep; if(rng.chance(0.3)) keep = s->f;
		int node = s->node;
		auto f = s->f;
		f->onException = [this, s, cap, keep, node] (uintmax_t) {
			In in(*this);
			CHECK(!s->closed, "callback-after-close", "flow %u onException after close()", s->id);
			s->exc++; CHECK(s->exc == 1, "exception-twice", "flow %u", s->id);
			if(s->reopens && !over && w.nodes[node]->rtmfp && reopened < 3000) { // reconnect at once
				int gen = s->born == w.now ? s->gen + 1 : 0;
				CHECK(gen < 6, "reopen-loop", "a flow opened again from onException fails at once, over and over (%d times)", gen);
				if(gen < 6) if(SF *x = open(node, s->peer, true)) { x->reopens = true; x->gen = gen; reopened++; if(rng.chance(0.5)) write(x, rng.u(3000)); }
			}
			act(node, s, nullptr, nullptr);
			CHECK(cap.good(), "capture-gone", "flow %u onException lost its captures while running", s->id);
		};
		if(rng.chance(0.5)) f->onWritable = [this, s, cap, keep, node] () -> bool {
			In in(*this);
			CHECK(!s->closed, "callback-after-close", "flow %u onWritable after close()", s->id);
			bool more = s->f && budget > 0 && rng.chance(0.7) && write(s, rng.u(3000));
			act(node, s, nullptr, nullptr);
			CHECK(cap.good(), "capture-gone", "flow %u onWritable lost its captures while running", s->id);
			return more;
		};
		else { Small sm{s->id, s->id ^ 0x5a5a5a5a}; // small captures live inside the function object itself
			f->onWritable = [s, sm] () -> bool { return Chaos::smallWritable(s, sm.id, sm.check, &sm); }; }
		if(rng.chance(0.7)) f->onRecvFlow = [this, s, cap, keep, node] (std::shared_ptr<RecvFlow> flow) {
			In in(*this);
			CHECK(!s->closed, "callback-after-close", "flow %u onRecvFlow after close()", s->id);
			offer(node, s->peer, flow, s);
			CHECK(cap.good(), "capture-gone", "flow %u onRecvFlow lost its captures while running", s->id);
		};
		f->onFarAddressDidChange = [this, s, cap, keep, node] {
			In in(*this);
			CHECK(!s->closed, "callback-after-close", "flow %u onFarAddressDidChange after close()", s->id);
			act(node, s, nullptr, nullptr);
			CHECK(cap.good(), "capture-gone", "flow %u onFarAddressDidChange lost its captures while running", s->id);
		};
	}
	static Chaos *self;
	static bool smallWritable(SF *s, uint32_t id, uint32_t check, const Small *where)
	{
		Chaos *c = self; In in(*c);
		CHECK(!s->closed, "callback-after-close", "flow %u onWritable after close()", s->id);
		c->act(s->node, s, nullptr, nullptr);
		CHECK(where->id == id && where->check == check && check == (id ^ 0x5a5a5a5a), "capture-gone", "flow %u onWritable lost its small captures while running", s->id);
		return false;
	}
	void offer(int node, int peer, std::shared_ptr<RecvFlow> flow, SF *assoc)
	{
		rf.emplace_back(new RF()); RF *r = rf.back().get(); r->id = uint32_t(rf.size()); r->node = node; r->peer = peer; r->f = flow;
		(void)assoc;
		if(rng.chance(0.9)) { attach(r); flow->accept(); if(rng.chance(0.2)) act(node, nullptr, r, nullptr); }
		else { if(rng.chance(0.5)) { attach(r); flow->accept(); } act(node, nullptr, r, nullptr); if(rng.chance(0.5) && r->f) { closeR(r); } }
	}
	void attach(RF *r)
	{
		Cap cap; std::shared_ptr<RecvFlow> keep; if(rng.chance(0.3)) keep = r->f;
		int node = r->node; auto f = r->f;
		f->onMessage = [this, r, cap, keep, node] (const uint8_t *b, size_t len, uintmax_t, size_t) {
			In in(*this);
			CHECK(!r->closed, "callback-after-close", "receiving flow %u onMessage after close()", r->id);
			act(node, nullptr, r, nullptr);
			uint32_t x = 0; for(size_t i = 0; i < len; i++) x += b[i]; // the message stays readable through the callback
			CHECK(cap.good() && x != 0xffffffff, "capture-gone", "receiving flow %u onMessage lost its captures while running", r->id);
		};
		f->onComplete = [this, r, cap, keep, node] (bool) {
			In in(*this);
			CHECK(!r->closed, "callback-after-close", "receiving flow %u onComplete after close()", r->id);
			r->completes++; CHECK(r->completes == 1, "completed-twice", "receiving flow %u", r->id);
			act(node, nullptr, r, nullptr);
			CHECK(cap.good(), "capture-gone", "receiving flow %u onComplete lost its captures while running", r->id);
		};
		f->onCumulativeAckDidMerge = [this, r, cap, keep, node] {
			In in(*this);
			CHECK(!r->closed, "callback-after-close", "receiving flow %u onCumulativeAckDidMerge after close()", r->id);
			act(node, nullptr, r, nullptr);
			CHECK(cap.good(), "capture-gone", "receiving flow %u onCumulativeAckDidMerge lost its captures while running", r->id);
		};
		f->onFarAddressDidChange = [this, r, cap, keep, node] {
			In in(*this);
			CHECK(!r->closed, "callback-after-close", "receiving flow %u onFarAddressDidChange after close()", r->id);
			act(node, nullptr, r, nullptr);
			CHECK(cap.good(), "capture-gone", "receiving flow %u onFarAddressDidChange lost its captures while running", r->id);
		};
		if(rng.chance(0.3)) f->setReceiveOrder(rng.chance(0.5) ? RO_NETWORK : RO_HOLD);
	}
	void closeS(SF *s) { s->closed = true; auto f = s->f; if(rng.chance(0.3)) s->f.reset(); f->close(); if(depth) closedInside++; }
	void closeR(RF *r) { r->closed = true; auto f = r->f; if(rng.chance(0.3)) r->f.reset(); if(rng.chance(0.5)) f->close(); else f->close(rng.u(5)); if(depth) closedInside++; }
	SF *track(std::shared_ptr<SendFlow> f, int node, int peer)
	{
		if(!f) { refused++; return nullptr; }
		sf.emplace_back(new SF()); SF *s = sf.back().get(); s->id = uint32_t(sf.size()); s->node = node; s->peer = peer; s->f = f; s->born = w.now; s->reopens = rng.chance(0.15);
		adoptS(s);
		return s;
	}
	SF *open(int a, int b, bool again = false)
	{
		if(!w.nodes[a]->rtmfp || (opened > 40 && !again)) return nullptr;
		if(!again) opened++;
		Node *n = w.nodes[b].get();
		SF *s = track(w.nodes[a]->rtmfp->openFlow(n->name.data(), n->name.size(), "m", 1, Priority(rng.u(8))), a, b);
		if(s && s->f) s->f->addCandidateAddress(n->pub[1], rng.chance(0.8) ? 0 : rng.real(0, 1));
		return s;
	}
	// a random series of calls by something running at this node
	void act(int node, SF *s0, RF *r0, Rc *c0)
	{
		if(over || depth > 6 || !rng.chance(mood)) return;
		int n = rng.chance(0.6) ? 1 : int(rng.range(2, 5));
		for(int i = 0; i < n && budget > 0 && !ctx.failed; i++) one(node, s0, r0, c0);
	}
	void one(int node, SF *s0, RF *r0, Rc *c0)
	{
		budget--; actions++; if(depth) inside++; if(depth > 1) deep++;
		SF *s = (s0 && s0->f && rng.chance(0.6)) ? s0 : pickAt(sf, node);
		RF *r = (r0 && r0->f && rng.chance(0.6)) ? r0 : pickAt(rf, node);
		Rc *c = (c0 && c0->r && rng.chance(0.4)) ? c0 : (rc.empty() ? nullptr : rc[rng.u(rc.size())].get());
		if(c && !c->r) c = nullptr;
		if(c && c->of->node != node) c = nullptr;
		auto &R = w.nodes[node]->rtmfp;
		int k = int(rng.u(wild ? 34 : 30));
		byKind[k]++;
		switch(k) {
		case 0: case 1: case 2: case 3: if(s && !s->closed) { int m = int(rng.range(1, 6)); for(int i = 0; i < m && s->f && !s->closed; i++) write(s, rng.chance(0.3) ? rng.u(20000) : rng.u(300)); } break;
		case 4: if(s) closeS(s); break;
		case 5: if(r) closeR(r); break;
		case 6: if(c) { auto x = c->r; x->abandon(); } break;
		case 7: if(c) c->r->abandon(); break; // the callback may drop this very reference
		case 8: if(c) { c->r->setFinishWithin(rng.real(-1, 1)); } break;
		case 9: if(c) { c->r->setStartWithin(rng.real(-1, 1)); } break;
		case 10: if(c && s && !s->receipts.empty()) { auto q = s->receipts[rng.u(s->receipts.size())]->r; if(q && q != c->r && q->createdAt() <= c->r->createdAt()) { bool loop = false; for(auto p = q; p; p = p->parent) if(p == c->r) loop = true; if(!loop) c->r->parent = q; } } break;
		case 11: case 12: open(node, int(rng.u(w.nodes.size())) == node ? (node + 1) % int(w.nodes.size()) : int(rng.u(w.nodes.size()))); break;
		case 13: if(s && opened < 40) { opened++; auto f = s->f; int p = s->peer; if(SF *x = track(f->openFlow("n", 1, Priority(rng.u(8))), node, p)) write(x, rng.u(2000)); } break;
		case 14: if(r && opened < 40) { opened++; auto f = r->f; int p = r->peer; if(SF *x = track(f->openReturnFlow("r", 1, Priority(rng.u(8))), node, p)) if(rng.chance(0.7)) write(x, rng.u(2000)); } break;
		case 15: if(s) s->f->setPriority(Priority(rng.u(8))); break;
		case 16: if(s) s->f->setBufferCapacity(rng.u(100000)); break;
		case 17: case 18: if(s) s->f->notifyWhenWritable(); break;
		case 19: if(r) r->f->setReceiveOrder(ReceiveOrder(rng.u(3))); break;
		case 20: if(r) r->f->setBufferCapacity(rng.chance(0.3) ? 0 : rng.u(100000)); break;
		case 21: if(r) r->f->setWindowLimit(rng.chance(0.3) ? 0 : rng.u(100000)); break;
		case 22: if(s) { s->f->setSessionIdleLimit(rng.real(1, 20)); s->f->setSessionKeepalivePeriod(rng.real(1, 20)); s->f->setSessionRetransmitLimit(rng.real(20, 60)); s->f->setSessionTrafficClass(int(rng.u(256))); s->f->setSessionCongestionDelay(rng.chance(0.5) ? INFINITY : 0.1); } break;
		case 23: if(r) { r->f->setSessionIdleLimit(rng.real(1, 20)); r->f->setSessionKeepalivePeriod(rng.real(1, 20)); } break;
		case 24: if(s) { auto f = s->f; f->getNearNonce(); f->getFarNonce(); f->getFarCertificate(); f->getFarCanonicalEPD(); f->getFarAddress(); f->getSRTT(); f->getSafeSRTT(); f->getCongestionWindow(); f->getERTO(); f->getBufferedAge(); f->getUnstartedAge(); f->isWritable(); f->getBufferedSize(); f->getOutstandingBytes(); f->getBaseRTT(); } break;
		case 25: if(r) { auto f = r->f; f->getMetadata(); f->getAssociatedSendFlow(); f->getCumulativeAckSequenceNumber(); f->getForwardSequenceNumber(); f->getBufferedSize(); f->getLastRTT(); f->getMRTO(); f->getRTTVariance(); } break;
		case 26: if(s) { dropped++; s->f.reset(); } else if(r) { dropped++; r->f.reset(); } break;
		case 27: if(c) { dropped++; c->r.reset(); } else if(r) { dropped++; r->f.reset(); } break;
		case 28: if(R) { Address a = w.nodes[rng.u(w.nodes.size())]->pub[1]; R->sendIHello("nobody", 6, "tag", 3, rng.chance(0.3) ? INTERFACE_ID_ALL : 1, a.getSockaddr()); if(s) s->f->forwardIHello("n1", 2, a, "tag", 3); R->sendResponderRedirect("tag", 3, {a}, 1, a.getSockaddr()); } break;
		case 29: if(s) s->f->addCandidateAddress(w.nodes[s->peer]->pub[1], rng.chance(0.5) ? 0 : 0.5); break;
		case 30: if(s && rng.chance(0.7)) s->f->closeSession(); else if(r) r->f->closeSession(); break;
		case 31: if(r) r->f->closeSession(); break;
		case 32: if(rng.chance(0.5)) { for(auto &x : sf) if(x->node == node && rng.chance(0.7)) { x->f.reset(); dropped++; } for(auto &x : rf) if(x->node == node && rng.chance(0.7)) { x->f.reset(); dropped++; } } break;
		default: if(rng.chance(0.15) && R) { shutdowns++; if(depth) shutInside++; down[node] = 1; R->shutdown(rng.chance(0.5)); } break;
		}
	}
};
Chaos *Chaos::self;
}

void runCase(Rng &rng, uint64_t)
{
	alive = 0;
	uint64_t nSent = 0;
	std::string sum;
	{
	World w(rng);
	int nn = rng.chance(0.7) ? 2 : 3;
	int nasty = int(rng.u(3));
	Chaos c(w, rng); Chaos::self = &c;
	c.down.assign(nn, 0);
	for(int i = 0; i < nn; i++) {
		Node *n = w.addNode(fmt("n%d", i), {fmt("10.0.%d.1:%d", i, 1000 + i)});
		n->platform->performDelay0 = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.01);
		n->platform->performDelayN = rng.chance(0.5) ? 0 : rng.logreal(0.0001, 0.05);
		n->sim->lateAuth = rng.chance(0.3);
	}
	for(int i = 0; i < nn; i++) for(int j = 0; j < nn; j++) if(i != j) { w.path(i, j) = randomPath(rng, nasty); if(rng.chance(0.5)) { w.path(i, j).rate = 0; } }
	std::set<int> finished;
	for(auto &n : w.nodes) {
		int i = n->index; Node *N = n.get();
		Cap cap;
		N->rtmfp->onRecvFlow = [&c, i, cap] (std::shared_ptr<RecvFlow> flow) { Chaos::In in(c); int peer = 0; for(auto &m : c.w.nodes) if(Bytes(m->name.begin(), m->name.end()) == flow->getFarCanonicalEPD()) peer = m->index; c.offer(i, peer, flow, nullptr); CHECK(cap.good(), "capture-gone", "onRecvFlow lost its captures"); };
		N->rtmfp->onUnmatchedIHello = [&c, i, cap] (const void *, size_t, const void *, size_t, int, const struct sockaddr *) { Chaos::In in(c); c.act(i, nullptr, nullptr, nullptr); };
		N->rtmfp->onUnmatchedRHello = [&c, i, cap] (const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, int, const struct sockaddr *) { Chaos::In in(c); c.act(i, nullptr, nullptr, nullptr); };
		bool destroy = rng.chance(0.5);
		N->onShutdownComplete = [&c, &finished, N, i, destroy] {
			Chaos::In in(c);
			CHECK(finished.insert(i).second, "shutdown-complete-twice", "node %d", i);
			c.act(i, nullptr, nullptr, nullptr);
			if(destroy) { for(auto &x : c.sf) if(x->node == i) x->f.reset(); for(auto &x : c.rf) if(x->node == i) x->f.reset(); N->destroyed = true; N->rtmfp.reset(); }
		};
	}
	c.budget = int(rng.logreal(10, 600));
	c.mood = rng.logreal(0.03, 0.8);
	c.wild = rng.chance(0.6);
	int start = int(rng.range(1, 6));
	for(int i = 0; i < start; i++) { int a = int(rng.u(nn)), b = (a + 1 + int(rng.u(nn - 1))) % nn; if(SF *s = c.open(a, b)) { int m = int(rng.u(5)); for(int j = 0; j < m && s->f && !s->closed; j++) c.write(s, rng.chance(0.3) ? rng.u(30000) : rng.u(500)); if(s->f) s->f->notifyWhenWritable(); } }
	double T = rng.logreal(0.5, 30);
	std::function<void()> tick = [&] { if(c.over || ctx.failed) return; int node = int(rng.u(nn)); if(c.budget > 0 && !w.nodes[node]->destroyed) c.one(node, nullptr, nullptr, nullptr); w.after(rng.real(0, T / 10), tick); };
	w.after(0.1, tick);
	int moves = int(rng.u(3)); for(int i = 0; i < moves; i++) w.after(rng.real(0.2, T), [&, i] { int a = int(rng.u(nn)); if(w.nodes[a]->destroyed) return; w.bind(w.nodes[a].get(), 1, A(fmt("10.1.%d.%d:%d", a, i + 1, 2000 + i))); });
	w.run(w.now + T, [&] { return ctx.failed; });
	// --- the end
	if(!ctx.failed) {
		for(auto &n : w.nodes) if(!n->destroyed && n->rtmfp && (!c.down[n->index] || rng.chance(0.5))) { c.down[n->index] = 1; n->rtmfp->shutdown(rng.chance(0.5)); }
		bool ok = w.run(w.now + 400, [&] { return ctx.failed || int(finished.size()) == nn; });
		if(!ok) for(auto &n : w.nodes) if(!finished.count(n->index)) { ctx.fail("shutdown-incomplete", "%s did not report its shutdown complete in 400 s", n->name.c_str()); break; }
		w.run(w.now + 200, [&] { return ctx.failed; }); // lingering ends
	}
	c.over = true;
	std::map<std::string, uint64_t> k;
	uint64_t receipts = c.rc.size(), unfinished = 0;
	for(auto &r : c.rc) if(!r->finished) unfinished++;
	CHECK(!unfinished || ctx.failed, "receipt-never-finished", "%llu of %llu receipts never finished though the endpoints are shut down", (unsigned long long)unfinished, (unsigned long long)receipts);
	statsFromWorld(w);
	nSent = w.nSent;
	ctx.stat("actions", c.actions); ctx.stat("actions_inside_callbacks", c.inside); ctx.stat("actions_inside_nested_callbacks", c.deep); ctx.stat("callbacks", c.callbacks); ctx.stat("closed_inside_callbacks", c.closedInside); ctx.stat("references_dropped", c.dropped); ctx.stat("shutdowns_inside_callbacks", c.shutInside); ctx.stat("flows_opened", c.sf.size()); ctx.stat("flows_received", c.rf.size()); ctx.stat("receipts", receipts); ctx.stat("reopened_inside_exception_callback", c.reopened); ctx.stat("calls_refused", c.refused); ctx.stat("endpoints_destroyed_inside_shutdown_callback", [&] { uint64_t x = 0; for(auto &n : w.nodes) x += n->destroyed; return x; }());
	ctx.nontrivial = c.inside > 0;
	ctx.sample(fmt("case %llu: %llu calls, %llu inside callbacks (%llu nested), %zu flows, %llu receipts, %llu packets", (unsigned long long)ctx.caseIndex, (unsigned long long)c.actions, (unsigned long long)c.inside, (unsigned long long)c.deep, c.sf.size(), (unsigned long long)receipts, (unsigned long long)nSent));
	if(ctx.failed) { // nothing that happens from here on counts
		for(auto &n : w.nodes) if(n->rtmfp) { n->rtmfp->shutdown(true); }
		bool f = ctx.failed; auto fk = ctx.failKey, fd = ctx.failDetail; ctx.failed = false; w.stopped = false; w.maxEvents += 200000; w.run(w.now + 2); ctx.failed = f; ctx.failKey = fk; ctx.failDetail = fd;
	}
	// drop everything
	for(auto &x : c.rc) x->r.reset();
	for(auto &x : c.sf) x->f.reset();
	for(auto &x : c.rf) x->f.reset();
	for(auto &n : w.nodes) { n->onShutdownComplete = nullptr; n->destroyed = true; n->rtmfp.reset(); }
	} // the world goes
	CHECK(alive == 0, "captures-leaked", "%ld callbacks are still held after the endpoints were shut down and all references dropped", alive);
}
}
