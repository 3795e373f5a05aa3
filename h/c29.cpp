// C29: priorities and time-critical signalling.
#include "traffic.hpp"
namespace vf {
const char *driverRule() { return "one case = two to four endpoints with flows of mixed, changing priorities competing in several sessions; at every data packet the flow it came from is compared with every other flow of the session able to send, and every packet's time-critical marks with what was sent and received; non-trivial when flows competed; distinct by the hash of every packet sent and its fate"; }
uint64_t driverCases(bool t) { return t ? 200000 : 7000; }
void driverInit() {}
void driverDone() {}

namespace {
struct Wait { bool able = false; Priority pri = PRI_ROUTINE; std::set<Tx *> by; }; // by: flows that sent while this one waited
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	App app(w);
	WireMon mon(w, app);
	TrafOpt o = randomTraffic(rng);
	o.priorities = true; o.pPriChange = rng.chance(0.6) ? rng.real() : 0;
	o.nodes = int(rng.range(2, 4)); o.duplex = rng.chance(0.6);
	o.maxFlows = int(rng.range(2, 6)); o.pBulk = rng.real(0.3, 1);
	o.windows = rng.chance(0.15); o.holds = rng.chance(0.1);
	if(rng.chance(0.5)) o.pDeadline = 0;
	bool few = rng.chance(0.5); // few priorities, many equals
	Priority p1 = Priority(rng.u(NUM_PRIORITIES)), p2 = Priority(rng.u(NUM_PRIORITIES));
	Traffic tr(w, app, mon, o);
	app.checkOrder = false;
	tr.addNodes();
	std::map<std::pair<Sess *, int>, std::map<Tx *, Wait>> waits;
	std::map<std::pair<int, Sess *>, long double> tcRecv; // (node, session) -> last time critical packet received there
	std::map<std::pair<Sess *, int>, long double> lastChange;
	uint64_t competed = 0, turns = 0, tcPkts = 0, tcrPkts = 0, plainPkts = 0, equals = 0;
	tr.onOpened = [&] (Tx *t) { if(few) t->f->setPriority(rng.chance(0.5) ? p1 : p2); };
	auto who = [&] (Sess &s, int dir) { return fmt("node%d->node%d (sid %08x)", s.d[dir].from, s.d[dir].to, dir ? s.sidI : s.sidR); };

	// surely has something to send right now
	auto able = [&] (Tx *t) {
		if(t->exceptions || t->closedByApp || !t->f || !t->bound() || !t->f->isOpen()) return false;
		if(t->f->getRecvBufferBytesAvailable() <= t->f->getOutstandingBytes()) return false;
		for(auto it = t->msgs.rbegin(); it != t->msgs.rend(); ++it) {
			Msg *m = it->get();
			if(!m->r || m->r->isStarted()) break;
			if(m->plain && !m->finished) return true;
		}
		return false;
	};
	auto refresh = [&] (Sess &s, int dir) {
		auto &ws = waits[{&s, dir}];
		for(auto t : tr.flows) {
			if(t->src->index != s.d[dir].from || t->dst->index != s.d[dir].to) continue;
			Wait &x = ws[t];
			bool a = able(t); Priority p = t->f->getPriority();
			if(!a || p != x.pri) x.by.clear();
			x.able = a; x.pri = p;
		}
	};
	mon.onSend = [&] (Sess &s, int dir, const Pkt &p, const Wire &k, std::vector<PChunk> &pc) {
		FlowW *fw = nullptr; int n = 0;
		for(auto &x : pc) if(x.ok && (x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA)) { fw = &s.d[dir].flows[x.ud.flow]; n++; }
		bool tc = k.flags & 0x80, tcr = k.flags & 0x40;
		if(tc) tcPkts++;
		if(tcr) tcrPkts++;
		long double newest = -INFINITY; bool edge = false;
		for(auto &kv : tcRecv) if(kv.first.first == p.fromNode && kv.first.second != &s) { newest = std::max(newest, kv.second); if(fabsl(w.now - kv.second - 0.8L) < 1e-5L) edge = true; }
		if(!edge) CHECK(tcr == (w.now - newest < 0.8L), "wrong-tcr-mark", "%s %s the mark of time-critical traffic elsewhere; the last came %.4Lf s ago in another session", who(s, dir).c_str(), tcr ? "carries" : "lacks", w.now - newest);
		if(!fw) { CHECK(!tc, "mark-without-data", "%s carries the time-critical mark without data", who(s, dir).c_str()); return; }
		Tx *t = fw->tx;
		if(!t || !t->f) return;
		Priority pri = t->f->getPriority();
		CHECK(tc == (pri > PRI_ROUTINE), "wrong-time-critical-mark", "%s carries data of flow %u, priority %d, %s the time-critical mark", who(s, dir).c_str(), t->id, int(pri), tc ? "with" : "without");
		if(!tc) plainPkts++;
		if(s.closing) return;
		if(dir == 0 && !s.iniOpen) return;
		refresh(s, dir);
		auto &ws = waits[{&s, dir}];
		for(auto &kv : ws) {
			Tx *g = kv.first; Wait &x = kv.second;
			if(g == t || !x.able) continue;
			competed++;
			CHECK(x.pri <= pri, "lower-priority-first", "%s sends data of flow %u, priority %d, though flow %u, priority %d, has data waiting, %zu bytes of window and %zu outstanding", who(s, dir).c_str(), t->id, int(pri), g->id, int(x.pri), g->f->getRecvBufferBytesAvailable(), g->f->getOutstandingBytes());
			if(x.pri == pri) {
				equals++;
				CHECK(!x.by.count(t), "no-turns", "%s sends data of flow %u again though flow %u, of the same priority %d, has been waiting since it last did", who(s, dir).c_str(), t->id, g->id, int(pri));
				x.by.insert(t); turns++;
			}
		}
		ws[t].by.clear();
	};
	tr.onPriChange = [&] (Tx *t) { for(auto &kv : waits) { auto it = kv.second.find(t); if(it != kv.second.end()) it->second.by.clear(); for(auto &g : kv.second) g.second.by.erase(t); } };
	auto take = [&] (Sess &s, int dir, const Wire &k) {
		if(k.flags & 0x80) tcRecv[{s.d[dir].to, &s}] = w.now;
	};
	mon.onModel = [&] (Sess &s, int dir, const Pkt &, const Wire &k, std::vector<PChunk> &) { if(!s.closing) take(s, dir, k); };
	mon.onReplayed = [&] (Sess &s, int dir, const Pkt &, const Wire &k, std::vector<PChunk> &) { take(s, dir, k); };
	mon.onArrived = [&] (Sess &s, int dir, const Pkt &, const Wire &, std::vector<PChunk> &) { refresh(s, 1 - dir); };
	tr.start();
	w.run(w.now + o.T + rng.real(0, 2));
	tr.heal();
	w.run(w.now + 60, [&] { return tr.settled(); });
	statsFromWorld(w);
	ctx.stat("competitions_judged", competed); ctx.stat("equal_competitions", equals); ctx.stat("time_critical_packets", tcPkts); ctx.stat("packets_telling_of_others", tcrPkts); ctx.stat("plain_data_packets", plainPkts); ctx.stat("priority_changes", tr.priChanges); (void)turns;
	ctx.nontrivial = competed > 0;
	ctx.sample(fmt("case %llu: %zu flows, %llu competitions (%llu among equals), %llu time-critical packets, %llu telling others", (unsigned long long)ctx.caseIndex, tr.flows.size(), (unsigned long long)competed, (unsigned long long)equals, (unsigned long long)tcPkts, (unsigned long long)tcrPkts));
	mon.onSend = nullptr; mon.onModel = nullptr; mon.onReplayed = nullptr; mon.onArrived = nullptr;
	cleanup(w, &app);
}
}
