// C02: liveness. Disturb, heal, then everything must get through within a bound derived from the protocol's own timers.
#include "app.hpp"
namespace vf {
const char *driverRule() { return "one case = two endpoints with 1-5 reliable flows, disturbed (blackouts, one-way outages, loss bursts, closed or held receive windows, disturbed handshakes) for less than the session limit, then healed; non-trivial when the disturbance lost packets or shut a window and data was still undelivered at the heal; distinct by the hash of every packet sent and its fate"; }
uint64_t driverCases(bool t) { return t ? 150000 : 6000; }
void driverInit() {}
void driverDone() {}

namespace {
struct Plan {
	Tx *t; int left = 0, style = 0; bool viaWritable = false, waiting = false;
	long double writableSince = -1; uint64_t calls = 0, lastCalls = 0;
};
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	PathCfg base;
	base.delay = rng.logreal(0.0005, 0.15);
	base.jitter = rng.chance(0.5) ? 0 : base.delay * rng.real(0, 0.5);
	if(rng.chance(0.25)) { base.rate = rng.logreal(100e3, 5e6); base.queueLimit = rng.real(0.1, 0.5); }
	base.maxConsecLoss = 1000000;
	w.dflt = base;
	double L = rng.pick({30.0, 60.0, 120.0, 300.0});
	bool late = rng.chance(0.3);
	for(int i = 0; i < 2; i++) {
		Node *nd = w.addNode(fmt("node%d", i), {fmt("10.0.0.%d:%d", i + 1, 1000 + i)});
		nd->platform->performDelay0 = rng.chance(0.6) ? 0 : rng.logreal(0.00001, 0.01);
		nd->platform->performDelayN = rng.chance(0.6) ? 0 : rng.logreal(0.0001, 0.1);
		nd->platform->writableDelay = rng.logreal(0.000001, 0.002);
		nd->platform->pace = rng.logreal(0.000001, 0.001);
		nd->platform->lateTimers = late;
		nd->rtmfp->setDefaultSessionRetransmitLimit(L);
		nd->rtmfp->setDefaultSessionIdleLimit(1e6); // a flow nothing was written on is unknown to the far end
		if(rng.chance(0.3)) nd->rtmfp->setDefaultSessionKeepalivePeriod(rng.real(1, 20));
		w.path(i, i);
	}
	w.path(0, 1); w.path(1, 0);
	App app(w);
	for(auto &nd : w.nodes) app.listen(nd.get());
	app.onExc = [&] (Tx *t) { ctx.fail("session-lost", "flow %u got exception %ju though packets got through again well before the session's limit of %.0f s: %s", t->id, t->reason, L, app.pending().c_str()); };
	app.onDone = [&] (Rx *r) { if(r->completeError) ctx.fail("session-lost", "flow %u completed with error", r->id); };

	size_t budget = 150000;
	std::vector<std::unique_ptr<Plan>> plans;
	size_t frags = 0;
	auto put = [&] (Plan *p) {
		size_t len = std::min(pickLen(w.rng, p->style), budget);
		budget -= len;
		if(p->t->write(len)) frags += len / 1161 + 1;
	};
	auto addPlan = [&] (Tx *t) {
		if(!t) return;
		plans.emplace_back(new Plan());
		Plan *p = plans.back().get();
		p->t = t; p->style = int(rng.u(7)); p->left = int(rng.range(1, 30)); p->viaWritable = rng.chance(0.5);
		if(rng.chance(0.3)) t->f->setBufferCapacity(rng.range(1, 30000));
		if(p->viaWritable) {
			t->f->onWritable = [p, &put] () -> bool {
				p->calls++;
				if(p->left > 0) { put(p); p->left--; }
				p->waiting = p->left > 0;
				return p->waiting;
			};
			p->waiting = true;
			t->f->notifyWhenWritable();
		}
	};
	struct Win { Rx *r; size_t cap; };
	bool useWindow = rng.chance(0.45);
	app.onAccepted = [&] (Rx *r) {
		if(rng.chance(0.3)) r->f->setBufferCapacity(rng.range(1500, 100000));
		if(plans.size() < 5 && rng.chance(0.3)) addPlan(app.openReturn(r, Priority(rng.u(NUM_PRIORITIES))));
	};
	// writable watchdog
	std::function<void()> watch = [&] {
		for(auto &p : plans) {
			if(p->waiting && p->t->f->isWritable() && p->calls == p->lastCalls) {
				if(p->writableSince < 0) p->writableSince = w.now;
				if(w.now - p->writableSince > 1.0) ctx.fail("writable-not-notified", "flow %u asked to be told when writable and has been writable for %.2Lf s without being called: %s", p->t->id, w.now - p->writableSince, app.pending().c_str());
			} else p->writableSince = -1;
			p->lastCalls = p->calls;
		}
		w.after(0.25, watch);
	};
	w.after(0.25, watch);

	bool hsDisturbed = rng.chance(0.25); // outage from the very start
	double tBegin = hsDisturbed ? 0 : rng.real(0.6, 4);
	int nf = int(rng.range(1, 3));
	for(int i = 0; i < nf; i++) {
		int s = rng.chance(0.8) ? 0 : 1;
		Priority pri = Priority(rng.u(NUM_PRIORITIES));
		w.after(hsDisturbed ? rng.real(0, 0.2) : rng.real(0, tBegin * 0.5), [&, s, pri] { addPlan(app.open(w.nodes[s].get(), w.nodes[1 - s].get(), pri)); });
	}
	bool isHealed = false;
	std::set<Rx *> shut;
	auto isZero = [&] { return !shut.empty(); };
	bool anyLostAck = false;
	// application writes: some before, some during the disturbance
	int bursts = int(rng.range(1, 6));
	double span = rng.real(1, 40);
	for(int i = 0; i < bursts; i++) w.after(rng.real(0, tBegin + span), [&] {
		if(isHealed) return;
		for(auto &p : plans) if(!p->viaWritable) { int k = int(w.rng.u(6)); while(k-- > 0 && budget) put(p.get()); }
		if(!plans.empty() && w.rng.chance(0.4)) w.rng.pick(plans)->t->f->setPriority(Priority(w.rng.u(NUM_PRIORITIES)));
	});
	// shut windows
	if(useWindow) {
		int k = int(rng.range(1, 3));
		for(int i = 0; i < k; i++) w.after(tBegin + rng.real(0, span), [&] {
			if(isHealed) return;
			for(auto &kv : app.rx) {
				Rx *r = kv.second.get();
				if(shut.count(r) || !w.rng.chance(0.7)) continue;
				int how = int(w.rng.u(3));
				if(how == 0) { r->f->setBufferCapacity(0); }
				else if(how == 1) { r->f->setWindowLimit(0); }
				else { r->f->setReceiveOrder(RO_HOLD); if(w.rng.chance(0.7)) r->f->setBufferCapacity(w.rng.range(1, 4000)); }
				shut.insert(r);
				ctx.stat("windows_shut");
			}
		});
	}
	w.run(w.now + tBegin);
	// disturbances
	int phases = int(rng.range(1, 3));
	if(useWindow && rng.chance(0.4)) phases = 0;
	if(hsDisturbed) phases = 1;
	double outage = 0;
	long double lostBefore = w.nLost;
	for(int ph = 0; ph < phases && !ctx.failed; ph++) {
		bool opening = hsDisturbed || plans.empty();
		for(auto &p : plans) if(!p->t->bound()) opening = true;
		if(opening) hsDisturbed = true;
		double lim = opening ? (ph ? 2 : std::min(45.0, L - 26)) : L - 26;
		double D = rng.chance(0.15) ? lim : std::min(lim, rng.logreal(0.3, 60));
		int kind = int(rng.u(4));
		if(kind == 0) { w.path(0, 1).down = w.path(1, 0).down = true; }
		else if(kind == 1) w.path(0, 1).down = true;
		else if(kind == 2) w.path(1, 0).down = true;
		else { w.path(0, 1).loss = w.path(1, 0).loss = rng.real(0.3, 0.95); }
		outage += D;
		if(rng.chance(0.7)) w.after(rng.real(0, D), [&] { if(!isHealed) for(auto &p : plans) if(!p->viaWritable && budget) put(p.get()); });
		ctx.note("t %.2Lf: kind %d for %.1f s", w.now, kind, D);
		bool reopenDuring = isZero() && rng.chance(0.5);
		if(reopenDuring) { w.run(w.now + D * 0.7); }
		else w.run(w.now + D);
		if(ph + 1 < phases) {
			if(reopenDuring) w.run(w.now + D * 0.3);
			w.path(0, 1) = w.path(1, 0) = base;
			w.run(w.now + rng.real(14, 30));
		} else if(reopenDuring) {
			anyLostAck = true;
			for(auto r : shut) { r->f->setBufferCapacity(65536); r->f->setWindowLimit(~size_t(0)); r->f->setReceiveOrder(RO_SEQUENCE); }
			shut.clear();
			w.run(w.now + D * 0.3);
		}
	}
	if(!phases) w.run(w.now + span);
	// heal
	if(ctx.failed) { cleanup(w, &app); return; }
	size_t undelivered = 0, frOpen = 0;
	for(auto &kv : app.tx) { Tx *t = kv.second.get(); undelivered += t->msgs.size() - (t->rx ? t->rx->delivered : 0); frOpen += t->rx ? 0 : 1; }
	w.path(0, 1) = base; w.path(1, 0) = base;
	bool reopened = !shut.empty();
	int rehow = int(rng.u(2));
	for(auto r : shut) { if(rehow && r->f->getReceiveOrder() == RO_HOLD) { r->f->setReceiveOrder(RO_SEQUENCE); r->f->setBufferCapacity(65536); } else { r->f->setBufferCapacity(65536); r->f->setWindowLimit(~size_t(0)); r->f->setReceiveOrder(RO_SEQUENCE); } }
	shut.clear();
	isHealed = true;
	long double healed = w.now;
	// what the protocol's timers allow: the retransmission timer is at its cap; hellos and keying back off by 1.5 s each;
	// a zero window that reopened unnoticed waits for the next probe
	double rtt = 2 * (base.delay + base.jitter) + (base.rate ? base.queueLimit : 0) + 0.05;
	double wait = 11.5 + rtt * 4;
	if(hsDisturbed) { int k = 0; double s = 0; while(s < outage + 1) { s += 1 + 1.5 * k; k++; } wait = std::max(wait, 2 * (1 + 1.5 * k) + 6 * rtt + 11.5); }
	if(anyLostAck || (reopened && phases)) wait += 61;
	double smallWindow = frags * (rtt + 0.25);
	double B = wait + std::min(200.0, smallWindow) + 5;
	auto busy = [&] { for(auto &p : plans) if(p->viaWritable && p->left > 0) return true; return false; };
	auto done = [&] { return !busy() && app.allDelivered() && app.allFinished() && app.allDrained(); };
	// frags may grow while flows are being fed: recompute the allowance
	bool ok = false;
	while(!ok && !ctx.failed) {
		B = wait + 5 + frags * (rtt + 0.25);
		if(w.now - healed > B) break;
		ok = w.run(std::min(w.now + 5, healed + B + 0.001L), done);
	}
	if(!ctx.failed) CHECK(ok, "stalled", "%.1f s after the network healed (outage %.1f s, session limit %.0f, handshake disturbed %d, window reopened %d lost %d, rtt %.3f) data is still pending: %s", B, outage, L, hsDisturbed, reopened, anyLostAck, rtt, app.pending().c_str());
	double took = double(w.now - healed);
	if(ok) { ctx.statmax("max_time_to_drain_s", took); ctx.statmax("max_share_of_bound", took / B); ctx.stat("healed_with_data_pending", undelivered ? 1 : 0); ctx.stat("flows_unopened_at_heal", frOpen); }
	ctx.note("heal after %.1f s outage; undelivered %zu; took %.2f of bound %.2f", outage, undelivered, took, B);
	// data written now must go straight through, with nothing left over from before
	bool known = true;
	for(auto &p : plans) if(!p->t->f->getRecvBufferBytesAvailable()) known = false; // waits for a probe
	if(!ctx.failed && known && rng.chance(0.5)) {
		w.run(w.now + rng.real(0, 30));
		if(!ctx.failed) for(auto &p : plans) if(p->t->rx) p->t->write(100);
		long double t0 = w.now;
		ok = w.run(w.now + 1.5 + 3 * rtt, done);
		if(!ctx.failed) CHECK(ok, "slow-after-heal", "%.2Lf s after writing on a healed, drained session data is still pending: %s", w.now - t0, app.pending().c_str());
	}
	statsFromWorld(w);
	ctx.stat("blackout_seconds", outage); ctx.stat("flows", app.tx.size());
	uint64_t wc = 0; for(auto &p : plans) wc += p->calls;
	ctx.stat("writable_callbacks", wc);
	ctx.nontrivial = ok && undelivered && (w.nLost > lostBefore || reopened || anyLostAck);
	ctx.sample(fmt("case %llu: outage %.1f s in %d phases, %zu flows, %zu undelivered at heal, drained %.2f s after it (bound %.1f), handshake disturbed %d, window shut %d", (unsigned long long)ctx.caseIndex, outage, phases, app.tx.size(), undelivered, took, B, hsDisturbed, reopened || anyLostAck));
	cleanup(w, &app);
}
}
