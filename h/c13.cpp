// C13: congestion control: window, bursts, loss and mark reactions, timeouts, round-trip measurement.
#include "traffic.hpp"
namespace vf {
const char *driverRule() { return "one case = two or three endpoints with flows over lossy, marking, rate limited, reordering or silent paths; a model fed from the wire knows what is in flight, acknowledged, reported missing or timed out, and every change of the congestion window, round-trip estimate and timeout is judged at the packet that caused it; non-trivial when a loss, a mark or a timeout happened; distinct by the hash of every packet sent and its fate"; }
uint64_t driverCases(bool t) { return t ? 200000 : 7000; }
void driverInit() {}
void driverDone() {}

namespace {
#define CHK(cond, key, ...) do { if(!onlyTcr) CHECK(cond, key, __VA_ARGS__); } while(0)
struct Fl { uintmax_t flow, seq; uint64_t tsn; int nak; size_t size; bool abn; };
const long MSS = 1161; const size_t INIT = 3 * 1161, TIMEDOUT = 2 * 1161;
struct St {
	std::list<Fl> fl; size_t sum = 0;
	uint64_t tsn = 0, maxTsn = 0;
	bool blind = false;      // in-flight model no longer certain
	bool soft = false;       // delay-based reactions possible
	size_t c = 0; bool seen = false;
	size_t rlo = 0, rhi = 0; // recovery remaining, bounds
	size_t ss = SIZE_MAX;    // slow start threshold, upper bound (exact unless soft)
	size_t acc = 0;
	long ece = 0;
	long tse = -1; bool tseKnown = false;
	long double deadline = INFINITY; bool armed = false;
	long double erto = 3, mrto = 0.25, srtt = -1, var = 0;
	long double tcSent = -INFINITY, tcrRecv = -INFINITY;
	long double burst0 = -INFINITY; double burstBytes = 0, burstAllow = 0; long double burstAt = 0; bool burstOk = false;
	// at arrival
	size_t p0 = 0, c0 = 0, acked = 0, lost = 0; bool anyAck = false, anyLoss = false, anyNaks = false, haveSnap = false;
	long double srtt0 = 0, var0 = 0, erto0 = 0, mrto0 = 0; bool newRtt = false; long double rtt = 0;
	uint64_t ceSeen = 0; bool ectOwed = false; // as receiver
	bool dataOut = false;
};
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	App app(w);
	WireMon mon(w, app);
	TrafOpt o = randomTraffic(rng);
	o.pBulk = rng.real(0.3, 1); o.rateLimited = rng.chance(0.6); o.idleGaps = rng.chance(0.5);
	o.budget = size_t(rng.logreal(50e3, 900e3));
	if(rng.chance(0.15)) o.nodes = 3;
	bool onlyTcr = ctx.prop == "C29"; // as a part of C29: only the growth of sessions told about time-critical traffic elsewhere is judged
	if(onlyTcr) { o.nodes = int(rng.range(3, 4)); o.priorities = true; o.duplex = true; o.windows = o.holds = false; o.pBulk = 0.8; }
	Traffic tr(w, app, mon, o);
	app.checkOrder = false;
	tr.addNodes();
	bool soft = rng.chance(0.2);
	Duration ccDelay = rng.logreal(0.005, 0.3);
	for(auto &kv : w.paths) {
		auto &p = kv.second;
		if(rng.chance(0.3)) p.delay = rng.logreal(0.0005, 0.3);
		if(rng.chance(0.3)) { p.loss = 0; p.reorder = 0; p.dup = 0; p.jitter = 0; } // clean growth
		if(rng.chance(0.2)) p.ecnMark = rng.logreal(0.002, 0.3);
	}
	std::map<std::pair<Sess *, int>, St> sts;
	std::map<int, long double> nodeTc;
	uint64_t tcrGrowths = 0, losses = 0, marks = 0, timeouts = 0, growths = 0, windowFull = 0, recoveries = 0, rtts = 0, sendsJudged = 0, ackArrivals = 0, blinds = 0, idles = 0, ecnReports = 0, decays = 0; double maxBurst = 0;

	auto getters = [&] (Sess &s, int dir, bool &all) {
		size_t g = 0; all = true;
		for(auto &kv : s.d[dir].flows) { if(kv.second.frags.empty() && !kv.second.tx) continue; if(!kv.second.tx || !kv.second.tx->f) { all = false; continue; } g += kv.second.tx->f->getOutstandingBytes(); }
		return g;
	};
	auto &nodes = w.nodes;
	auto who = [&] (Sess &s, int dir) { return fmt("node%d->node%d (sid %08x)", s.d[dir].from, s.d[dir].to, dir ? s.sidI : s.sidR); };
	// Bring the model up to date with timer driven changes. this packet: bytes just assembled, not in the model yet.
	auto poll = [&] (Sess &s, int dir, St &z, Tx *t, size_t thisPacket) {
		bool all; size_t g = getters(s, dir, all);
		size_t c = t->f->getCongestionWindow();
		long double erto = t->f->getERTO(), mrto = t->f->getMRTO();
		if(!z.seen) {
			z.seen = true; z.c = c; z.erto = erto; z.mrto = mrto; z.srtt = t->f->getSRTT(); z.var = t->f->getRTTVariance(); z.soft = soft;
			if(soft) t->f->setSessionCongestionDelay(ccDelay);
			CHK(c == INIT, "not-initial-window", "%s starts with a congestion window of %zu", who(s, dir).c_str(), c);
		}
		if(!all && !z.blind) { z.blind = true; blinds++; }
		bool timeout = false;
		if(!z.blind) {
			if(g != z.sum + thisPacket) {
				if(g == thisPacket && z.sum > 0) timeout = true;
				else { if(!onlyTcr) ctx.fail("outstanding-miscount", "%s counts %zu bytes outstanding; by the wire %zu are (and %zu in this packet)", who(s, dir).c_str(), g, z.sum, thisPacket); z.blind = true; return; }
			}
			if(timeout) {
				timeouts++; ctx.note("%.5Lf %s timed out", w.now, who(s, dir).c_str());
				CHK(w.now >= z.deadline - 1e-6, "timeout-early", "%s timed out at %.5Lf, no earlier than %.5Lf was due", who(s, dir).c_str(), w.now, z.deadline);
				CHK(c == TIMEDOUT, "timeout-window", "%s has a window of %zu after a timeout", who(s, dir).c_str(), c);
				long double want = std::max(std::min(z.erto * 1.4142135623731L, 10.0L), z.mrto);
				CHK(fabsl(erto - want) < 1e-3L, "timeout-backoff", "%s: timeout period %.5Lf after a timeout at %.5Lf, expected %.5Lf", who(s, dir).c_str(), erto, z.erto, want);
				z.ss = std::max(z.ss, z.c / 4 * 3 + 3); z.rlo = z.rhi = 0; z.acc = 0; z.sum = 0; z.fl.clear(); z.c = c; z.armed = false; z.burstOk = false;
			} else if(c != z.c) {
				bool idle = z.sum == 0 && c == INIT && w.now >= z.deadline - 1e-6;
				CHK(idle, "window-changed-without-cause", "%s: congestion window went from %zu to %zu without an acknowledgement or timeout (%zu outstanding)", who(s, dir).c_str(), z.c, c, z.sum);
				if(idle) { idles++; z.ss = std::max(z.ss, z.c / 4 * 3 + 3); z.rlo = z.rhi = 0; z.acc = 0; z.armed = false; z.burstOk = false; }
				z.c = c;
			}
			if(!timeout) CHK(fabsl(erto - z.erto) < 1e-9L || z.armed, "timeout-period-changed", "%s: timeout period went from %.5Lf to %.5Lf without cause", who(s, dir).c_str(), z.erto, erto);
			if(z.armed && z.sum > 0 && !timeout && !s.closing) CHK(w.now <= z.deadline + 0.05, "no-timeout", "%s: %zu bytes outstanding, nothing heard, timeout was due at %.5Lf", who(s, dir).c_str(), z.sum, z.deadline);
		}
		z.c = c; z.erto = erto; z.mrto = mrto;
		CHK(c >= TIMEDOUT, "window-below-minimum", "%s: congestion window %zu", who(s, dir).c_str(), c);
		CHK(erto >= 0.25L - 1e-9L && erto <= std::max<long double>(10, mrto) + 1e-9L, "timeout-out-of-range", "%s: timeout period %.5Lf (measured %.5Lf)", who(s, dir).c_str(), erto, mrto);
	};
	mon.onSend = [&] (Sess &s, int dir, const Pkt &p, const Wire &k, std::vector<PChunk> &pc) {
		St &z = sts[{&s, dir}];
		size_t data = 0; bool probeOnly = true;
		for(auto &x : pc) {
			if(x.ok && (x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA)) { data += 3 + x.c->body.size(); probeOnly = false; if(!s.d[dir].flows[x.ud.flow].tx && !z.blind) { z.blind = true; blinds++; } } // a flow that cannot be told apart: no metadata, as its association was already over
			if(x.type == CHUNK_ECN_REPORT) {
				ecnReports++;
				CHK(x.c->body.size() == 1 && x.c->body[0] == uint8_t(z.ceSeen), "marks-misreported", "%s reports %s marks, %llu marked packets arrived", who(s, dir).c_str(), hex(x.c->body).c_str(), (unsigned long long)z.ceSeen);
				z.ectOwed = false;
			} else if(x.type == CHUNK_ACK_RANGES && z.ectOwed) { if(!onlyTcr) ctx.fail("marks-not-reported", "%s acknowledges without reporting on marks though marked-capable packets arrived", who(s, dir).c_str()); z.ectOwed = false; }
		}
		(void)probeOnly;
		CHK(((p.tos & 3) == 0) || data > 0, "ect-without-data", "%s sends tos %d with no data", who(s, dir).c_str(), p.tos);
		Tx *t = mon.rep(s, dir);
		if(!t || s.closing) return;
		poll(s, dir, z, t, data);
		if(data) {
			if(!z.dataOut) z.dataOut = true;
			sendsJudged++;
			if(!z.blind) {
				CHK(z.sum < z.c, "window-exceeded", "%s sends %zu more bytes with %zu outstanding and a window of %zu", who(s, dir).c_str(), data, z.sum, z.c);
				if(z.sum + data >= z.c) windowFull++;
			}
			// bursts: since the last acknowledgement or timeout, at most the burst plus the window's pace
			z.burstBytes += data;
			if(z.burstOk) {
				z.burstAllow += double((w.now - z.burstAt) * z.c / z.srtt); z.burstAt = w.now;
				double lim = 6 * MSS + 1200 + z.burstAllow + MSS + 1200;
				if(z.srtt >= 0.0046L) { maxBurst = std::max(maxBurst, z.burstBytes - z.burstAllow); CHK(z.burstBytes <= lim, "burst", "%s sent %.0f bytes since the acknowledgement %.4Lf s ago; burst and pace allow %.0f (window %zu, srtt %.4Lf)", who(s, dir).c_str(), z.burstBytes, w.now - z.burst0, lim, z.c, z.srtt); }
			}
			uint64_t tsn = ++z.tsn;
			for(auto &x : pc) if(x.ok && (x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA)) {
				z.fl.push_back(Fl{x.ud.flow, x.ud.seq, tsn, 0, 3 + x.c->body.size(), (x.ud.flags & USERDATA_FLAG_ABN) != 0});
				z.sum += 3 + x.c->body.size();
			}
			z.deadline = w.now + z.erto; z.armed = true;
			if(k.flags & 0x80) { z.tcSent = w.now; nodeTc[p.fromNode] = w.now; }
		}
	};
	// what the sender in direction d (receiver of this packet) will make of it
	auto take = [&] (Sess &s, int dir, const Wire &k, const Pkt &p, std::vector<PChunk> &pc, bool replay) {
		int d = 1 - dir;
		St &z = sts[{&s, d}];
		if((p.tos & 3) != 0) z.ectOwed = true;
		if((p.tos & 3) == 3) z.ceSeen++;
		Tx *t = s.closing ? nullptr : mon.rep(s, d);
		z.haveSnap = false;
		z.anyAck = z.anyLoss = z.anyNaks = false; z.acked = z.lost = 0;
		if(t && !replay) { poll(s, d, z, t, 0); z.haveSnap = true; }
		z.p0 = z.sum; z.c0 = z.c;
		z.srtt0 = z.srtt; z.var0 = z.var; z.erto0 = z.erto; z.mrto0 = z.mrto;
		z.newRtt = false;
		if(k.tse >= 0 && k.tse != z.tse) {
			z.tse = k.tse;
			uint16_t ticks = uint16_t(uint64_t(nodes[s.d[d].from]->rtmfp->getInstanceAge() * 250)) - uint16_t(k.tse);
			if(ticks < 32768) { z.newRtt = true; z.rtt = ticks * 0.004L; }
		}
		if(k.flags & 0x40) z.tcrRecv = w.now;
		for(auto &x : pc) {
			if(!x.ok) continue;
			if(x.type == CHUNK_ECN_REPORT && x.c->body.size() >= 1) {
				uint8_t delta = uint8_t(x.c->body[0] - z.ece);
				if(delta && delta < 0xe0) { z.ece = x.c->body[0]; z.anyLoss = true; marks++; }
			} else if(x.type == CHUNK_ACK_RANGES) {
				auto fi = s.d[d].flows.find(x.ack.flow);
				if(fi == s.d[d].flows.end() || fi->second.frags.empty()) continue;
				FlowW &f = fi->second;
				if(f.finSent && w.now - f.frags.rbegin()->second.last > 100) { z.blind = true; continue; }
				z.anyAck = true;
				for(auto it = z.fl.begin(); it != z.fl.end(); ) {
					bool hit = it->flow == x.ack.flow && it->seq <= x.ack.cum;
					if(it->flow == x.ack.flow && !hit) for(auto &r : x.ack.ranges) if(it->seq >= r.first && it->seq <= r.second) hit = true;
					if(!hit) { ++it; continue; }
					z.maxTsn = std::max(z.maxTsn, it->tsn);
					z.acked += it->size; z.sum -= it->size;
					it = z.fl.erase(it);
				}
			}
		}
		if(!z.anyAck) { z.anyLoss = false; return; }
		for(auto it = z.fl.begin(); it != z.fl.end(); ) {
			if(it->tsn > z.maxTsn) break;
			it->nak++;
			if(!it->abn) z.anyNaks = true;
			if(it->nak >= 3) { if(!it->abn) { z.anyLoss = true; losses++; } z.lost += it->size; z.sum -= it->size; it = z.fl.erase(it); }
			else ++it;
		}
	};
	mon.onReplayed = [&] (Sess &s, int dir, const Pkt &p, const Wire &k, std::vector<PChunk> &pc) {
		take(s, dir, k, p, pc, true);
		// the estimates it caused are taken as they are
		int d = 1 - dir; St &z = sts[{&s, d}]; Tx *t = mon.rep(s, d);
		if(!t) return;
		z.seen = true; z.soft = soft; z.c = t->f->getCongestionWindow(); z.erto = t->f->getERTO(); z.mrto = t->f->getMRTO(); z.srtt = t->f->getSRTT(); z.var = t->f->getRTTVariance();
		if(soft) t->f->setSessionCongestionDelay(ccDelay);
	};
	mon.onArrive = [&] (Sess &s, int dir, const Pkt &p, const Wire &k, std::vector<PChunk> &pc) { take(s, dir, k, p, pc, false); };
	mon.onArrived = [&] (Sess &s, int dir, const Pkt &, const Wire &, std::vector<PChunk> &) {
		int d = 1 - dir;
		St &z = sts[{&s, d}];
		Tx *t = s.closing ? nullptr : mon.rep(s, d);
		if(!t || !z.haveSnap) return;
		z.haveSnap = false;
		bool all; size_t g = getters(s, d, all);
		size_t c1 = t->f->getCongestionWindow();
		long double srtt = t->f->getSRTT(), var = t->f->getRTTVariance(), erto = t->f->getERTO(), mrto = t->f->getMRTO();
		if(z.newRtt) {
			rtts++;
			long double es = z.srtt0 < 0 ? z.rtt : (7 * z.srtt0 + z.rtt) / 8, ev = z.srtt0 < 0 ? z.rtt / 2 : (3 * z.var0 + fabsl(z.srtt0 - z.rtt)) / 4;
			CHK(fabsl(srtt - es) < 1e-6L && fabsl(var - ev) < 1e-6L, "round-trip", "%s: measurement %.4Lf took the estimate from %.5Lf/%.5Lf to %.5Lf/%.5Lf, expected %.5Lf/%.5Lf", who(s, d).c_str(), z.rtt, z.srtt0, z.var0, srtt, var, es, ev);
			CHK(fabsl(mrto - (es + 4 * ev + 0.2L)) < 1e-6L && fabsl(erto - std::max(mrto, 0.25L)) < 1e-6L, "timeout-period", "%s: timeout %.5Lf measured %.5Lf after a measurement giving %.5Lf/%.5Lf", who(s, d).c_str(), erto, mrto, es, ev);
			CHK(fabsl(t->f->getLastRTT() - z.rtt) < 1e-6L, "round-trip", "%s: last round trip %.4Lf, measured %.4Lf", who(s, d).c_str(), (long double)t->f->getLastRTT(), z.rtt);
			CHK(t->f->getBaseRTT() <= t->f->getLastRTT() + 1e-9L, "round-trip", "%s: base round trip %.4Lf above the last one %.4Lf", who(s, d).c_str(), (long double)t->f->getBaseRTT(), (long double)t->f->getLastRTT());
		} else CHK(srtt == z.srtt0 && var == z.var0 && fabsl(erto - z.erto0) < 1e-9L && fabsl(mrto - z.mrto0) < 1e-9L, "estimate-changed-without-measurement", "%s: %.5Lf/%.5Lf/%.5Lf to %.5Lf/%.5Lf/%.5Lf with no new echo", who(s, d).c_str(), z.srtt0, z.var0, z.erto0, srtt, var, erto);
		z.srtt = srtt; z.var = var; z.erto = erto; z.mrto = mrto;
		if(all && !z.blind && g != z.sum) { if(!onlyTcr) ctx.fail("outstanding-miscount", "%s counts %zu bytes outstanding after a packet; by the wire %zu are", who(s, d).c_str(), g, z.sum); z.blind = true; }
		CHK(c1 >= TIMEDOUT, "window-below-minimum", "%s: congestion window %zu", who(s, d).c_str(), c1);
		size_t c0 = z.c0; z.c = c1;
		if(!z.anyAck) {
			CHK(c1 == c0, "window-changed-without-acknowledgement", "%s: congestion window %zu to %zu by a packet that acknowledged nothing", who(s, d).c_str(), c0, c1);
			return;
		}
		z.deadline = w.now + z.erto; z.armed = true;
		z.burst0 = w.now; z.burstBytes = 0; z.burstAllow = 0; z.burstAt = w.now; z.burstOk = true;
		ackArrivals++;
		size_t adj = z.lost ? z.lost + (z.lost + 1) / 2 : 0, drained = z.acked + z.lost, inUse = std::min(c0, z.p0);
		auto sat = [] (size_t a, size_t b) { return a > b ? a - b : 0; };
		CHK(c1 <= std::max(c0, INIT) + MSS, "grew-too-fast", "%s: congestion window %zu to %zu", who(s, d).c_str(), c0, c1);
		CHK(c1 >= std::min(c0, INIT), "cut-below-initial-window", "%s: congestion window %zu to %zu by an acknowledgement", who(s, d).c_str(), c0, c1);
		bool grew = c1 > std::max(c0, c0 < INIT ? INIT : c0);
		if(grew) growths++;
		if(z.blind) return;
		if(grew) CHK(z.p0 > c0 * 63 / 64 && !z.anyNaks, "grew-while-not-in-use", "%s: congestion window %zu to %zu with %zu bytes outstanding, %d reported missing", who(s, d).c_str(), c0, c1, z.p0, int(z.anyNaks));
		bool surelyIn = z.rlo > drained, surelyOut = z.rhi <= drained;
		if(z.soft) { surelyIn = false; }
		long double dtR = w.now - z.tcrRecv, dtN = nodeTc.count(s.d[d].from) ? w.now - nodeTc[s.d[d].from] : INFINITY, dtS = w.now - z.tcSent;
		bool fast = dtR > 0.8L && dtN > 0.8L, tcs = dtS <= 0.8L;
		bool edge = fabsl(dtR - 0.8L) < 1e-5L || fabsl(dtN - 0.8L) < 1e-5L || fabsl(dtS - 0.8L) < 1e-5L;
		if(surelyIn) {
			recoveries++;
			CHK(c1 <= std::max(c0, INIT), "grew-in-recovery", "%s: congestion window %zu to %zu while recovering from a loss", who(s, d).c_str(), c0, c1);
			CHK(c1 + adj >= c0, "cut-twice", "%s: congestion window %zu to %zu while still recovering from an earlier loss (%zu lost now)", who(s, d).c_str(), c0, c1, z.lost);
			z.rlo -= drained; z.rhi = sat(z.rhi, drained) + adj;
			if(c1 < c0) z.ss = std::min(z.ss, c1);
			return;
		}
		if(z.anyLoss) {
			if(surelyOut || z.soft) {
				// with delay-based detection an earlier cut may have begun a recovery unseen
				if(surelyOut && !z.soft) {
					bool eighth = edge || tcs || (z.p0 > 67200 && fast);
					size_t keep = eighth ? inUse - inUse / 8 : inUse - inUse / 2;
					CHK(c1 <= std::max(keep, INIT), "loss-ignored", "%s: loss or mark (%zu lost) took the congestion window from %zu only to %zu; %zu was in use%s", who(s, d).c_str(), z.lost, c0, c1, z.p0, eighth ? "" : ", no time-critical data");
					CHK(c1 >= std::max(sat(inUse, std::max(inUse / 2, adj)), INIT) || c1 >= c0, "cut-too-deep", "%s: loss or mark (%zu lost) took the congestion window from %zu to %zu; %zu was in use", who(s, d).c_str(), z.lost, c0, c1, z.p0);
					z.ss = c1; z.acc = 0; z.rlo = z.rhi = z.sum;
				} else {
					CHK(c1 + std::max(inUse / 2, adj) + 1 >= inUse, "cut-too-deep", "%s: congestion window %zu to %zu, %zu in use, %zu lost", who(s, d).c_str(), c0, c1, z.p0, z.lost);
					z.rlo = 0; z.rhi = std::max(sat(z.rhi, drained) + adj, z.sum); z.ss = SIZE_MAX; z.acc = 1 << 20;
				}
			} else { z.rlo = 0; z.rhi = std::max(z.rhi, z.sum) + adj; z.ss = SIZE_MAX; z.acc = 1 << 20; }
			return;
		}
		if(surelyOut) z.rlo = z.rhi = 0; else { z.rhi = sat(z.rhi, drained); z.rlo = 0; }
		if(z.soft) {
			if(c1 < c0 && c0 - c1 > 1) { z.rhi = std::max(z.rhi, z.sum); z.ss = SIZE_MAX; CHK(c1 >= std::min<size_t>(inUse / 2, c0), "cut-too-deep", "%s: congestion window %zu to %zu, %zu in use", who(s, d).c_str(), c0, c1, z.p0); }
			return;
		}
		if(c1 < c0) {
			decays++;
			CHK(c0 - c1 <= 1 && c0 > z.p0 && !z.anyNaks, "cut-without-loss", "%s: congestion window %zu to %zu without loss, mark or timeout (%zu in use)", who(s, d).c_str(), c0, c1, z.p0);
		}
		if(c0 >= INIT && z.p0 > c0 * 63 / 64 && !z.anyNaks) {
			size_t lim;
			if(edge) lim = MSS;
			else {
				size_t th = std::min<size_t>(std::max<size_t>(c0 / 16, 64), fast ? 9600 : 4800);
				lim = ((std::min<size_t>(z.acc, 2 * th) + z.acked) / th + 1) * (fast ? 96 : tcs ? 48 : 24); z.acc = th;
				if(c0 < z.ss && (fast || tcs)) lim = std::max(lim, fast ? z.acked : (z.acked + 3) / 4);
			}
			lim = std::min<size_t>(lim, MSS);
			if(!fast && !edge && !tcs && dtR <= 0.8L) { tcrGrowths++; CHECK(c1 <= c0 + lim, "told-but-not-slower", "%s: congestion window %zu to %zu by %zu acknowledged bytes though told of time-critical traffic %.3Lf s ago", who(s, d).c_str(), c0, c1, z.acked, dtR); }
			CHK(c1 <= c0 + lim, "grew-too-fast", "%s: congestion window %zu to %zu by %zu acknowledged bytes (threshold %zu, fast %d, time critical %d)", who(s, d).c_str(), c0, c1, z.acked, z.ss, int(fast), int(tcs));
		}
	};
	std::function<void()> watch = [&] {
		for(auto &kv : sts) { Sess &s = *kv.first.first; Tx *t = s.closing ? nullptr : mon.rep(s, kv.first.second); if(t && kv.second.seen) poll(s, kv.first.second, kv.second, t, 0); }
		w.after(0.1, watch);
	};
	w.after(0.1, watch);
	tr.start();
	w.run(w.now + o.T + rng.real(0, 2));
	if(!ctx.failed && rng.chance(0.2)) w.run(w.now + rng.real(5, 20)); // idle
	tr.heal();
	w.run(w.now + 60, [&] { return tr.settled(); });
	statsFromWorld(w);
	ctx.stat("sends_judged", sendsJudged); ctx.stat("acknowledgements_judged", ackArrivals); ctx.stat("losses", losses); ctx.stat("marks", marks); ctx.stat("timeouts", timeouts); ctx.stat("idle_resets", idles);
	ctx.stat("window_growths", growths); ctx.stat("window_full", windowFull); ctx.stat("recovery_steps", recoveries); ctx.stat("round_trips_measured", rtts); ctx.stat("uncertain_sessions", blinds); ctx.stat("mark_reports", ecnReports); ctx.stat("window_decays", decays);
	ctx.stat("growth_judged_while_told", tcrGrowths);
	ctx.statmax("max_burst_over_pace", maxBurst);
	ctx.nontrivial = onlyTcr ? tcrGrowths > 0 : losses + marks + timeouts > 0;
	ctx.sample(fmt("case %llu: %llu data packets, %llu acknowledgements, %llu losses, %llu marks, %llu timeouts, %llu measurements", (unsigned long long)ctx.caseIndex, (unsigned long long)sendsJudged, (unsigned long long)ackArrivals, (unsigned long long)losses, (unsigned long long)marks, (unsigned long long)timeouts, (unsigned long long)rtts));
	mon.onSend = nullptr; mon.onArrive = nullptr; mon.onArrived = nullptr; mon.onReplayed = nullptr;
	cleanup(w, &app);
}
}
