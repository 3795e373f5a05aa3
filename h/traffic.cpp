#include "traffic.hpp"
namespace vf {

Traffic::Traffic(World &world, App &a, WireMon &m, TrafOpt opt) : w(world), app(a), mon(m), o(opt), left(opt.budget) {}

void Traffic::addNodes()
{
	for(int i = 0; i < o.nodes; i++) {
		Node *nd = w.addNode(fmt("node%d", i), {fmt("10.0.0.%d:%d", i + 1, 1000 + i)});
		nd->platform->writableDelay = w.rng.logreal(0.000001, 0.002);
		nd->platform->pace = w.rng.logreal(0.000001, 0.0005);
		nd->rtmfp->setDefaultSessionRetransmitLimit(100000);
		nd->rtmfp->setDefaultSessionIdleLimit(1e6);
	}
	for(int i = 0; i < o.nodes; i++) for(int j = 0; j < o.nodes; j++) if(i != j) {
		PathCfg p = randomPath(w.rng, o.nasty);
		if(o.rateLimited) { p.rate = w.rng.logreal(15e3, 1e6); p.queueLimit = w.rng.real(0.05, 0.8); if(w.rng.chance(0.4)) p.ecnThresh = p.queueLimit / 3; }
		w.paths[{i, j}] = p;
	}
	for(auto &nd : w.nodes) app.listen(nd.get());
}

bool Traffic::writeOne(Tx *t, size_t len)
{
	if(stop || t->closedByApp || !t->f->isOpen()) return false;
	len = std::min(len, left);
	if(len < 12) return false;
	left -= len;
	if(w.rng.chance(o.pDeadline)) {
		Duration sw = INFINITY, fw = INFINITY;
		int q = int(w.rng.u(3));
		if(q != 1) sw = w.rng.logreal(0.005, 2);
		if(q != 0) fw = w.rng.logreal(0.02, 4);
		Msg *m = t->write(len, sw, fw);
		if(m && w.rng.chance(0.2)) m->r->retransmit = false;
		return m != nullptr;
	}
	return t->write(len) != nullptr;
}

void Traffic::feed(Tx *t)
{
	int st = w.rng.chance(0.7) ? o.style : int(w.rng.u(7));
	if(w.rng.chance(o.pBulk)) {
		if(w.rng.chance(0.3)) t->f->setBufferCapacity(w.rng.range(2000, 200000));
		t->f->onWritable = [this, t, st] { return !stop && w.now < tEnd && writeOne(t, 12 + pickLen(w.rng, st)); };
		t->f->notifyWhenWritable();
		if(o.idleGaps) for(int i = 0; i < 4; i++) w.after(w.rng.real(0, o.T), [t] { if(t->f->isOpen() && !t->closedByApp) t->f->notifyWhenWritable(); });
	} else if(w.rng.chance(0.5)) {
		// one message every so often
		double every = w.rng.logreal(0.005, 1);
		size_t len = 12 + w.rng.u(w.rng.chance(0.3) ? 3000 : 300);
		struct Tick { static void go(Traffic *T, Tx *t, double every, size_t len) {
			if(T->stop || T->w.now > T->tEnd || !T->writeOne(t, len)) return;
			T->w.after(every, [T, t, every, len] { go(T, t, every, len); });
		} };
		Tick::go(this, t, every, len);
	} else {
		int n = int(w.rng.range(1, 40)); double at = 0;
		for(int k = 0; k < n; k++) {
			if(w.rng.chance(0.5)) at = w.rng.real(0, o.T);
			size_t len = 12 + pickLen(w.rng, st);
			w.after(at, [this, t, len] { writeOne(t, len); });
		}
	}
}

Tx *Traffic::openOne(int a, int b)
{
	if(stop) return nullptr;
	Tx *t = app.open(w.nodes[a].get(), w.nodes[b].get(), o.priorities ? Priority(w.rng.u(NUM_PRIORITIES)) : PRI_ROUTINE);
	if(!t) return nullptr;
	flows.push_back(t);
	if(onOpened) onOpened(t);
	feed(t);
	return t;
}

void Traffic::start()
{
	t0 = w.now; tEnd = w.now + o.T;
	if(!setCap) setCap = [this] (Rx *rx, size_t n) { auto &m = capMax[rx]; m = std::max(m, n); rx->f->setBufferCapacity(n); };
	app.onOffer = [this] (Node *, Rx *rx) { capMax[rx] = 65536; return stop || !w.rng.chance(o.pReject); };
	app.onAccepted = [this] (Rx *rx) {
		if(o.windows && !stop) {
			if(w.rng.chance(0.6)) { setCap(rx, w.rng.chance(0.15) ? 0 : size_t(w.rng.logreal(300, 300000))); capChanges++; }
			if(w.rng.chance(0.3)) rx->f->setWindowLimit(w.rng.chance(0.1) ? 0 : size_t(w.rng.logreal(300, 100000)));
		}
		if(o.holds && !stop && w.rng.chance(0.4)) { rx->f->setReceiveOrder(RO_HOLD); holdsOn++; }
		if(!stop && w.rng.chance(o.pReturn)) {
			Tx *t = app.openReturn(rx, o.priorities ? Priority(w.rng.u(NUM_PRIORITIES)) : PRI_ROUTINE);
			if(t) { flows.push_back(t); if(onOpened) onOpened(t); feed(t); }
		}
	};
	for(int a = 0; a < o.nodes; a++) for(int b = 0; b < o.nodes; b++) if(a != b && (a < b || o.duplex)) {
		if(o.nodes > 2 && a > 0 && b > 0 && w.rng.chance(0.5)) continue;
		int n = int(w.rng.range(o.minFlows, o.maxFlows));
		for(int i = 0; i < n; i++) w.after(w.rng.chance(0.5) ? w.rng.real(0, 0.2) : w.rng.real(0, o.T * 0.7), [this, a, b] { openOne(a, b); });
	}
	int np = o.pPriChange > 0 ? int(w.rng.u(uint64_t(1 + 40 * o.pPriChange))) : 0;
	for(int i = 0; i < np; i++) w.after(w.rng.real(0.1, o.T), [this] {
		if(flows.empty() || stop) return;
		Tx *t = flows[w.rng.u(flows.size())];
		if(t->closedByApp || !t->f->isOpen()) return;
		t->f->setPriority(Priority(w.rng.u(NUM_PRIORITIES))); priChanges++;
		if(onPriChange) onPriChange(t);
	});
	int nw = o.windows ? int(w.rng.u(12)) : 0;
	for(int i = 0; i < nw; i++) w.after(w.rng.real(0.1, o.T), [this] {
		if(app.rx.empty() || stop) return;
		auto it = app.rx.begin(); std::advance(it, w.rng.u(app.rx.size()));
		Rx *rx = it->second.get();
		if(rx->completes || rx->closedByApp || !rx->f->isOpen()) return;
		if(w.rng.chance(0.7)) { setCap(rx, w.rng.chance(0.2) ? 0 : size_t(w.rng.logreal(300, 300000))); capChanges++; }
		else rx->f->setWindowLimit(w.rng.chance(0.15) ? 0 : size_t(w.rng.logreal(300, 100000)));
	});
	int nh = o.holds ? int(w.rng.u(6)) : 0;
	for(int i = 0; i < nh; i++) {
		double at = w.rng.real(0.1, o.T), d = w.rng.logreal(0.05, 6);
		w.after(at, [this, d] {
			if(app.rx.empty() || stop) return;
			auto it = app.rx.begin(); std::advance(it, w.rng.u(app.rx.size()));
			Rx *rx = it->second.get();
			if(rx->completes || rx->closedByApp || !rx->f->isOpen()) return;
			rx->f->setReceiveOrder(RO_HOLD); holdsOn++;
			w.after(d, [rx] { if(!rx->completes && !rx->closedByApp && rx->f->isOpen()) rx->f->setReceiveOrder(RO_SEQUENCE); });
		});
	}
	for(int i = 0; i < o.outages; i++) {
		double at = w.rng.real(0, o.T), d = w.rng.logreal(0.05, 4); int q = int(w.rng.range(1, 3));
		w.after(at, [this, q] { if(stop) return; for(auto &kv : w.paths) if(q & (kv.first.first < kv.first.second ? 1 : 2)) kv.second.down = true; });
		w.after(at + d, [this] { for(auto &kv : w.paths) kv.second.down = false; });
	}
	if(o.pClose > 0) for(int i = 0; i < 3; i++) if(w.rng.chance(o.pClose)) w.after(w.rng.real(0.2, o.T), [this] {
		if(flows.empty() || stop) return;
		Tx *t = flows[w.rng.u(flows.size())];
		if(!t->closedByApp && t->bound() && !t->msgs.empty()) t->close();
	});
	if(o.pClose > 0 && w.rng.chance(0.6)) { // closing the flow when its last message is done with, from inside that callback
		auto prev = app.onFin; double p = w.rng.real(0.02, 0.5);
		app.onFin = [this, prev, p] (Tx *t, Msg *m, bool abandoned) {
			if(prev) prev(t, m, abandoned);
			if(stop || t->closedByApp || !t->f || !t->bound() || m != t->msgs.back().get() || !w.rng.chance(p)) return;
			t->close(); closedInFin++;
		};
	}
}

void Traffic::heal()
{
	stop = true;
	for(auto &kv : w.paths) { kv.second.down = false; kv.second.loss = 0; kv.second.corrupt = 0; kv.second.ecnMark = 0; if(kv.second.rate) kv.second.rate = std::max(kv.second.rate, 100e3); }
	for(auto &kv : app.rx) {
		Rx *rx = kv.second.get();
		if(rx->completes || rx->closedByApp || !rx->f->isOpen()) continue;
		if(rx->f->getBufferCapacity() < 20000) setCap(rx, 65536);
		rx->f->setWindowLimit(SIZE_MAX);
		if(rx->f->getReceiveOrder() == RO_HOLD) rx->f->setReceiveOrder(RO_SEQUENCE);
	}
}

bool Traffic::settled() const
{
	for(auto t : flows) {
		if(t->exceptions) continue;
		if(t->closedByApp && !t->rx) continue;
		for(auto &m : t->msgs) {
			if(!m->finished) return false;
		}
	}
	return true;
}

TrafOpt randomTraffic(Rng &r)
{
	TrafOpt o;
	o.nasty = int(r.u(3));
	o.maxFlows = int(r.range(1, 4));
	o.duplex = r.chance(0.3);
	o.pReturn = r.chance(0.3) ? r.real(0.2, 1) : 0;
	o.priorities = r.chance(0.5);
	o.pPriChange = r.chance(0.3) ? r.real() : 0;
	o.pDeadline = r.chance(0.3) ? r.real(0.05, 0.7) : 0;
	o.windows = r.chance(0.3);
	o.holds = r.chance(0.2);
	o.outages = r.chance(0.4) ? int(r.range(1, 3)) : 0;
	o.pReject = r.chance(0.15) ? 0.3 : 0;
	o.pClose = r.chance(0.2) ? 0.4 : 0;
	o.pBulk = r.real();
	o.T = r.logreal(0.5, 15);
	o.budget = size_t(r.logreal(20e3, 400e3));
	o.style = int(r.u(7));
	o.rateLimited = r.chance(0.4);
	o.idleGaps = r.chance(0.3);
	return o;
}

} // namespace vf
