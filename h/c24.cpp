// C24: FlowSyncManager on real flows over a faulty simulated network, plus the sync message codec against a reference.
#include "app.hpp"
#include "rtmfp/FlowSyncManager.hpp"
#include "rtmfp/TCMessage.hpp"
namespace vf {
const char *driverRule() { return "one case = 2-6 flows between two endpoints over randomly different delays, sharing 1-6 sync points in sequence (some never complete and are reset, some managers destroyed, some members closed, some commands malformed), every delivery judged against the sync points passed so far; non-trivial when at least one sync point really held a flow back; distinct by the delivery sequence"; }
uint64_t driverCases(bool t) { return t ? 400000 : 14000; }
void driverInit() {}
void driverDone() {}

static Bytes refSync(uint32_t id, uint32_t n) { Bytes b{4, 0, 0, 0, 0, 0, 34}; for(int i = 3; i >= 0; i--) b.push_back(uint8_t(id >> (8 * i))); for(int i = 3; i >= 0; i--) b.push_back(uint8_t(n >> (8 * i))); return b; }
static size_t parseExact(const Bytes &b, uint32_t &id, size_t &n) { uint8_t *p = new uint8_t[b.size()]; if(b.size()) memcpy(p, b.data(), b.size()); size_t rv = FlowSyncManager::parse(p, b.size(), id, n); delete[] p; return rv; }
static void codec(Rng &r)
{
	for(int i = 0; i < 10; i++) {
		uint32_t id = uint32_t(r.bits()), n = uint32_t(r.bits());
		Bytes b = FlowSyncManager::makeSyncMessage(id, n), e = refSync(id, n);
		CHECK(b == e, "sync-encode", "%u %u: %s", id, n, hex(b).c_str());
		Bytes t = r.bytes(r.u(3)); b.insert(b.end(), t.begin(), t.end());
		uint32_t gi = 1; size_t gn = 2; size_t rv = parseExact(b, gi, gn);
		CHECK(rv == 15 && gi == id && gn == n, "sync-roundtrip", "%u %u: %zu %u %zu", id, n, rv, gi, gn);
		Bytes m = e; int k = int(r.u(3)); if(k == 0) m.resize(r.u(15)); else if(k == 1) m[r.pick({0, 5, 6})] ^= uint8_t(r.range(1, 255)); else m = r.bytes(r.u(30));
		bool ok = m.size() >= 15 && m[0] == 4 && m[5] == 0 && m[6] == 34;
		CHECK((parseExact(m, gi, gn) != 0) == ok, "sync-malformed-accepted", "%s", hex(m).c_str());
		ctx.stat("codec_checks");
	}
	auto f = share_ref(new FlowSyncManager(), false); uint32_t last = 0; std::set<uint32_t> ids;
	for(int i = 0; i < 4; i++) { Bytes b = f->makeSyncMessage(3); uint32_t id; size_t n; CHECK(15 == parseExact(b, id, n) && n == 3 && ids.insert(id).second, "sync-next-id", "%u", id); last = id; } (void)last;
	// flows need not exist: a count alone
	CHECK(f->sync(7, 1, nullptr), "sync-count", "one of one"); CHECK(!f->sync(7, 2, nullptr) && f->sync(7, 2, nullptr) && !f->sync(7, 2, nullptr), "sync-count", "two of two, then afresh"); CHECK(f->sync(9, 0, nullptr), "sync-count", "none");
}

void runCase(Rng &rng, uint64_t)
{
	if(rng.chance(0.1)) codec(rng);
	World w(rng);
	w.dflt = randomPath(rng, int(rng.u(2)));
	w.dflt.maxConsecLoss = 4;
	Node *a = w.addNode("alice", {"10.0.0.1:1"}), *b = w.addNode("bob", {"10.0.0.2:2"});
	for(auto &nd : w.nodes) { nd->platform->performDelay0 = rng.chance(0.5) ? 0 : rng.logreal(1e-5, 0.01); nd->rtmfp->setDefaultSessionRetransmitLimit(100000); }
	App app(w); app.listen(b);
	int nf = int(rng.range(2, 6)), rounds = int(rng.range(1, 6));
	std::shared_ptr<FlowSyncManager> mgr = share_ref(new FlowSyncManager(), false);
	struct Round { uint32_t id; std::set<int> members, reached; size_t count; bool complete = false, released = false, planReset = false; int closedMember = -1; };
	std::vector<Round> R(rounds);
	bool reuse = rng.chance(0.3); std::set<uint32_t> used;
	for(auto &x : R) { x.id = reuse ? uint32_t(rng.u(2)) : uint32_t(rng.bits()); while(!reuse && !used.insert(x.id).second) x.id++; size_t k = rng.range(1, nf); while(x.members.size() < k) x.members.insert(int(rng.u(nf))); x.count = x.members.size(); if(rng.chance(0.15)) { x.count += 1 + rng.u(3); x.planReset = true; } if(rng.chance(0.02)) { x.count = 0xffffffffu - rng.u(5); x.planReset = true; } }
	std::vector<Tx *> F(nf); std::map<uint32_t, int> byId;
	std::vector<int> order(nf, 0); // 0 sequence, 1 network: never held
	struct Item { int kind; int round; }; // 0 data after `round` (-1 before all), 1 sync of round, 2 malformed
	std::vector<std::vector<Item>> script(nf);
	for(int i = 0; i < nf; i++) {
		F[i] = app.open(a, b, Priority(rng.u(NUM_PRIORITIES))); byId[F[i]->id] = i; if(rng.chance(0.1)) order[i] = 1;
		int last = -1;
		for(int q = 0; q <= rounds; q++) {
			int k = int(rng.u(5)); while(k--) { script[i].push_back({rng.chance(0.08) ? 2 : 0, last}); }
			if(q < rounds && R[q].members.count(i)) { script[i].push_back({1, q}); last = q; }
		}
		script[i].push_back({0, last});
	}
	// a reset only makes sense when no later use of the same id can be mixed up: reused ids need every round to complete
	if(reuse) for(auto &x : R) { x.count = x.members.size(); x.planReset = false; }
	if(reuse) for(int q = 0; q < rounds; q++) { R[q].members.clear(); for(int i = 0; i < nf; i++) R[q].members.insert(i); R[q].count = nf; }
	if(reuse) for(int i = 0; i < nf; i++) { script[i].clear(); order[i] = 0; int last = -1; for(int q = 0; q <= rounds; q++) { int k = int(rng.u(5)); while(k--) script[i].push_back({0, last}); if(q < rounds) { script[i].push_back({1, q}); last = q; } } script[i].push_back({0, last}); }
	std::vector<size_t> pos(nf, 0); size_t held = 0; bool destroyed = false; std::vector<std::vector<size_t>> at(nf); std::vector<bool> gone(nf, false);
	std::vector<int> holding(nf, -1);
	auto allReleased = [&] (int upto) { for(int q = 0; q <= upto; q++) if(!R[q].released) return false; return true; };
	(void)allReleased;
	app.checkOrder = true;
	app.onAccepted = [&] (Rx *x) { int i = byId[x->id]; if(order[i]) { x->f->setReceiveOrder(RO_NETWORK); x->order = RO_NETWORK; } if(rng.chance(0.3)) x->f->setBufferCapacity(rng.range(1024, 100000)); };
	std::map<std::pair<int, int>, size_t> dummy;
	std::vector<std::set<uint32_t>> dataSeen(nf);
	app.onMsg = [&] (Rx *x, const Rx::Got &g) {
		int i = byId[x->id];
		size_t k = pos[i]++;
		if(order[i]) { for(size_t q = 0; q < script[i].size(); q++) if(F[i]->msgs[q]->data == g.data && dataSeen[i].insert(uint32_t(q)).second) { k = q; break; } }
		Item it = script[i][k];
		ctx.h(uint64_t(i) * 65536 + k); ctx.stat("deliveries");
		int need = it.kind == 1 ? it.round - 1 : it.round; // everything up to this round that this flow is in must have been released
		if(!order[i]) for(int q = 0; q <= need; q++) if(R[q].members.count(i))
			CHECK(R[q].released || destroyed, "sync-delivered-before-others", "flow %d delivered its item %zu, which follows sync point %d, while only %zu of %zu flows had reached it", i, k, q, R[q].reached.size(), R[q].count);
		uint32_t id = 0; size_t n = 0;
		size_t rv = FlowSyncManager::parse(g.data.data(), g.data.size(), id, n);
		CHECK((rv != 0) == (it.kind == 1), "sync-parse", "item kind %d parsed %zu", it.kind, rv);
		if(it.kind != 1 || destroyed) return;
		Round &rd = R[it.round];
		CHECK(id == rd.id && n == rd.count, "sync-roundtrip", "%u/%zu", id, n);
		rd.reached.insert(i);
		bool expect = rd.reached.size() >= rd.count;
		if(expect) rd.released = true;
		if(rd.planReset && rd.released) expect = true;
		bool done = mgr->sync(id, n, x->f);
		if(!rd.planReset) CHECK(done == expect, "sync-answer", "sync point %d: %zu of %zu reached, answered %d", it.round, rd.reached.size(), rd.count, done);
		if(!done && !order[i]) { CHECK(x->f->getReceiveOrder() == RO_HOLD, "sync-not-held", "flow %d reached sync point %d but was not held", i, it.round); held++; holding[i] = it.round; }
		if(done) { for(int j = 0; j < nf; j++) if(holding[j] == it.round) { holding[j] = -1; if(app.rx.count(F[j]->id)) CHECK(app.rx[F[j]->id]->f->getReceiveOrder() == RO_SEQUENCE, "sync-not-resumed", "flow %d still held after sync point %d completed", j, it.round); } ctx.stat("sync_points_completed"); }
		if(order[i]) CHECK(x->f->getReceiveOrder() == RO_NETWORK, "sync-changed-network-order", "flow %d", i);
	};
	double T = rng.logreal(0.05, 5);
	for(int i = 0; i < nf; i++) {
		long double t = 0;
		for(auto &it : script[i]) {
			t += rng.chance(0.5) ? 0 : rng.real(0, T / 4);
			Item c = it;
			w.after(t, [&, i, c] {
				Tx *f = F[i];
				if(c.kind == 1) { if(!f->writeData(refSync(R[c.round].id, uint32_t(R[c.round].count)))) ctx.fail("write-refused", "flow %d", i); }
				else if(c.kind == 2) { Bytes m = refSync(R[0].id, 1); if(rng.chance(0.5)) m.resize(rng.u(15)); else m[rng.pick({0, 5, 6})] ^= 1; f->writeData(m); }
				else f->write(rng.u(3000) + 16);
			});
		}
	}
	auto total = [&] { for(int i = 0; i < nf; i++) if(pos[i] < script[i].size()) return false; return true; };
	w.run(w.now + 5 * T + 30, total);
	// reset what cannot complete, one by one, or destroy the manager
	if(!ctx.failed && rng.chance(0.15)) { destroyed = true; mgr.reset(); ctx.stat("managers_destroyed"); w.run(w.now + 300, total); }
	for(int q = 0; q < rounds && !ctx.failed && !destroyed; q++) if(R[q].planReset) {
		w.run(w.now + 60, [&] { return R[q].reached.size() >= R[q].members.size(); });
		R[q].released = true; // later arrivals at it may hold again
		mgr->reset(R[q].id); ctx.stat("resets");
		if(!ctx.failed) for(int j = 0; j < nf; j++) if(holding[j] == q) { holding[j] = -1; CHECK(app.rx[F[j]->id]->f->getReceiveOrder() == RO_SEQUENCE, "sync-not-resumed", "flow %d still held after its sync point was reset", j); }
	}
	bool ok = w.run(w.now + 300, total);
	std::string st; for(int i = 0; i < nf; i++) st += fmt("[flow %d %zu/%zu order %d]", i, pos[i], script[i].size(), app.rx.count(F[i]->id) ? int(app.rx[F[i]->id]->f->getReceiveOrder()) : -1);
	CHECK(ok, "sync-held-forever", "not everything was delivered after every sync point completed or was reset: %s", st.c_str());
	if(rng.chance(0.5)) mgr.reset();
	ctx.stat("held_flows", held); if(held) ctx.nontrivial = true;
	statsFromWorld(w);
	ctx.sample(fmt("case %llu: %d flows, %d sync points, %zu holds", (unsigned long long)ctx.caseIndex, nf, rounds, held));
	cleanup(w, &app);
}
}
