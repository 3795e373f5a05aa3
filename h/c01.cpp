#include "app.hpp"
namespace vf {
const char *driverRule() { return "one case = a world of 2-3 endpoints with 1-6 reliable in-order flows over randomly faulty paths; non-trivial when at least one message was delivered and the network lost, duplicated, reordered or corrupted at least one packet; distinct by the hash of every packet sent and its fate"; }
uint64_t driverCases(bool t) { return t ? 200000 : 7000; }
void driverInit() {}
void driverDone() {}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	int nasty = int(rng.u(3));
	w.dflt = randomPath(rng, nasty);
	bool asym = rng.chance(0.4);
	int n = rng.chance(0.75) ? 2 : 3;
	for(int i = 0; i < n; i++) {
		std::vector<std::string> addrs{fmt("10.0.0.%d:%d", i + 1, 1000 + i)};
		if(rng.chance(0.15)) addrs[0] = (fmt("[2001:db8::%d]:%d", i + 1, 2000 + i));
		Node *nd = w.addNode(fmt("node%d", i), addrs);
		nd->platform->performDelay0 = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.01);
		nd->platform->performDelayN = rng.chance(0.5) ? 0 : rng.logreal(0.0001, 0.3);
		nd->platform->writableDelay = rng.logreal(0.000001, 0.002);
		nd->platform->pace = rng.logreal(0.000001, 0.001);
		if(rng.chance(0.3)) nd->sim->lateAuth = true;
		nd->rtmfp->setDefaultSessionRetransmitLimit(rng.chance(0.7) || nasty == 2 ? 100000 : 120);
		w.path(i, i);
	}
	if(asym) for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(i != j) w.path(i, j) = randomPath(rng, nasty);
	ctx.note("%d nodes nasty %d path %s", n, nasty, describe(w.path(0, 1)).c_str());
	App app(w);
	for(auto &nd : w.nodes) app.listen(nd.get());
	int style = int(rng.u(7));
	int nflows = int(rng.range(1, 5));
	double T = rng.logreal(0.2, 30);
	size_t budget = 400000; // bytes per case
	struct Plan { int left; int style; bool viaWritable; int due = 0; };
	std::map<Tx *, Plan> plan;
	std::vector<Tx *> order;
	auto addPlan = [&] (Tx *t) {
		if(!t) return;
		Plan p; p.left = int(rng.range(1, 40)); p.style = rng.chance(0.5) ? style : int(rng.u(7)); p.viaWritable = rng.chance(0.3);
		plan[t] = p; order.push_back(t);
		if(rng.chance(0.3)) t->f->setBufferCapacity(rng.range(100, 100000));
		if(p.viaWritable) {
			t->f->onWritable = [t, &plan, &budget, &w] () -> bool {
				Plan &p = plan[t];
				t->writableCalls++;
				if(p.left <= 0) return false;
				size_t len = std::min(pickLen(w.rng, p.style), budget);
				budget -= len;
				t->write(len);
				return --p.left > 0;
			};
			t->f->notifyWhenWritable();
		} else {
			for(int i = 0; i < p.left; i++) {
				plan[t].due++;
				w.after(rng.chance(0.3) ? 0 : rng.real(0, T), [t, &plan, &budget, &w] {
					plan[t].due--;
					size_t len = std::min(pickLen(w.rng, plan[t].style), budget);
					budget -= len;
					if(!t->write(len)) ctx.fail("write-refused", "flow %u write refused while open", t->id);
				});
			}
			plan[t].left = 0;
		}
	};
	int returns = 0;
	app.onAccepted = [&] (Rx *r) {
		if(rng.chance(0.4)) r->f->setBufferCapacity(rng.range(1024, 200000));
		if(rng.chance(0.1)) r->f->setWindowLimit(rng.range(1024, 50000));
		if(returns < 4 && rng.chance(0.3)) { returns++; addPlan(app.openReturn(r, Priority(rng.u(NUM_PRIORITIES)))); }
	};
	for(int i = 0; i < nflows; i++) {
		int s = int(rng.u(n)), d = int((s + 1 + rng.u(n - 1)) % n);
		if(i && rng.chance(0.6)) { s = 0; d = 1; }
		double when = rng.chance(0.5) ? 0 : rng.real(0, T / 2);
		Priority pri = Priority(rng.u(NUM_PRIORITIES));
		w.after(when, [&, s, d, pri] {
			Tx *t = app.open(w.nodes[s].get(), w.nodes[d].get(), pri);
			addPlan(t);
		});
	}
	// changing conditions, blackouts
	double black = 0;
	int epochs = nasty ? int(rng.u(4)) : 0;
	for(int e = 0; e < epochs; e++) {
		double t0 = rng.real(0, T);
		if(rng.chance(0.4)) {
			double d = rng.logreal(0.1, 12);
			if(black + d > 25) continue;
			black += d;
			bool one = rng.chance(0.4);
			w.after(t0, [&w, one] { w.path(0, 1).down = true; if(!one) w.path(1, 0).down = true; });
			w.after(t0 + d, [&w] { w.path(0, 1).down = false; w.path(1, 0).down = false; });
		} else {
			PathCfg p = randomPath(rng, nasty);
			w.after(t0, [&w, p] { bool dn = w.path(0, 1).down; w.path(0, 1) = p; w.path(0, 1).down = dn; });
		}
	}
	// priority changes
	for(int i = 0; i < 3; i++) if(rng.chance(0.3)) w.after(rng.real(0, T), [&] { if(!order.empty()) w.rng.pick(order)->f->setPriority(Priority(w.rng.u(NUM_PRIORITIES))); });
	app.onExc = [&] (Tx *t) { ctx.fail("unexpected-exception", "flow %u got exception %ju though the path only drops packets: %s", t->id, t->reason, app.pending().c_str()); };
	app.onDone = [&] (Rx *r) {
		CHECK(!r->completeError, "error-completion", "flow %u completed with error", r->id);
		CHECK(r->tx->closedByApp, "early-completion", "flow %u completed but its sender did not close it", r->id);
		CHECK(r->delivered == r->tx->msgs.size(), "completed-before-last-message", "flow %u completed after %zu of %zu messages", r->id, r->delivered, r->tx->msgs.size());
	};
	bool closeEarly = rng.chance(0.5); // close right after the last write, data still queued
	w.run(w.now + T + black + 0.01);
	// A flow is closed only once bound (data of an unbound flow is discarded) and when return flows of it have been accepted.
	auto closable = [&] (Tx *t) {
		if(t->closedByApp || plan[t].left > 0 || plan[t].due || t->msgs.empty() || !t->rx) return false;
		for(auto o : order) if(o->via == t && !o->rx) return false;
		return true;
	};
	auto closeAll = [&] { for(auto t : order) if(closable(t)) t->close(); };
	if(closeEarly) closeAll();
	// heal
	w.after(rng.real(0, 10), [&w] { for(auto &kv : w.paths) { kv.second.loss = 0; kv.second.down = false; kv.second.corrupt = 0; kv.second.ecnMark = 0; if(kv.second.rate) kv.second.rate = std::max(kv.second.rate, 50e3); } });
	auto done = [&] { if(!app.allDelivered() || !app.allFinished()) return false; for(auto t : order) if(plan[t].left > 0 || plan[t].due) return false; return true; };
	bool ok = w.run(w.now + 400, done);
	if(!ctx.failed) CHECK(ok, "not-delivered", "400 s after the network healed data is missing: %s", app.pending().c_str());
	if(!ctx.failed) {
		closeAll();
		auto completed = [&] { for(auto t : order) if(t->closedByApp && (!t->rx || t->rx->completes == 0)) return false; return true; };
		ok = w.run(w.now + 60, completed);
		if(!ctx.failed) CHECK(ok, "no-completion", "flows closed and delivered but completion not reported: %s", app.pending().c_str());
		w.run(w.now + 20); // anything late or repeated?
	}
	size_t msgs = 0, bytes = 0, multi = 0;
	for(auto &kv : app.rx) { msgs += kv.second->delivered; bytes += kv.second->bytes; }
	for(auto &kv : app.tx) for(auto &m : kv.second->msgs) { if(m->frags > 1) multi++; if(!ctx.failed && m->finished == 1) CHECK(!m->finAbandoned, "abandoned-without-reason", "flow %u message %u abandoned", kv.second->id, m->idx); }
	ctx.stat("messages_delivered", msgs); ctx.stat("bytes_delivered", bytes); ctx.stat("multi_fragment_messages", multi); ctx.stat("flows", app.tx.size());
	statsFromWorld(w);
	ctx.nontrivial = msgs > 0 && (w.nLost + w.nDup + w.nReordered + w.nCorrupt) > 0;
	ctx.sample(fmt("case %llu: %d nodes, %zu flows, %zu messages (%zu multi-fragment), %llu packets (%llu lost, %llu dup, %llu reordered, %llu corrupted), path %s", (unsigned long long)ctx.caseIndex, n, app.tx.size(), msgs, multi,
		(unsigned long long)w.nSent, (unsigned long long)w.nLost, (unsigned long long)w.nDup, (unsigned long long)w.nReordered, (unsigned long long)w.nCorrupt, describe(w.path(0, 1)).c_str()));
	cleanup(w, &app);
}
}
