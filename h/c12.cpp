// C12: flow control on the wire: senders within the advertised window, truthful advertisements, probing of closed windows.
#include "traffic.hpp"
namespace vf {
const char *driverRule() { return "one case = two or three endpoints with flows over faulty paths whose receivers change buffer sizes, window limits and holds (zero included); every data packet is judged against the advertisement its sender last received, every advertisement against the receiver's buffer, and every closed window against the probing schedule; non-trivial when a window limited a sender or closed; distinct by the hash of every packet sent and its fate"; }
uint64_t driverCases(bool t) { return t ? 150000 : 6000; }
void driverInit() {}
void driverDone() {}

namespace {
struct Z { bool zero = false; long double since = 0, lastProbe = -1; Duration gap = 0; Duration ertoMax = 0, ertoMin = 0; int probes = 0; };
struct H { bool hold = false; size_t atStart = 0, cap = 0; };
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	App app(w);
	WireMon mon(w, app);
	TrafOpt o = randomTraffic(rng);
	o.windows = rng.chance(0.85); o.holds = rng.chance(0.5); o.pBulk = rng.real(0.4, 1);
	if(rng.chance(0.2)) o.nodes = 3;
	if(rng.chance(0.3)) { o.T = rng.real(20, 200); }
	bool neverHeld = !o.holds && !o.windows; (void)neverHeld;
	Traffic tr(w, app, mon, o);
	app.checkOrder = o.pDeadline == 0;
	tr.addNodes();
	std::map<Tx *, Z> zs;
	std::map<Rx *, H> hs;
	uint64_t judgedSends = 0, judgedAcks = 0, limited = 0, zeros = 0, probes = 0, reopened = 0, holdsChecked = 0, clampOne = 0;
	size_t maxOver = 0;
	long double slack = 0.02;

	mon.onSend = [&] (Sess &s, int dir, const Pkt &p, const Wire &, std::vector<PChunk> &pc) {
		// data against the window
		std::map<uintmax_t, size_t> now;
		for(auto &x : pc) if(x.ok && (x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA)) now[x.ud.flow] += 3 + x.c->body.size();
		for(auto &kv : now) {
			FlowW &f = s.d[dir].flows[kv.first];
			size_t lb = kv.second;
			for(auto &g : f.frags) if(!g.second.acked && g.second.sends && g.second.acksSince < 3 && w.now - g.second.last < 0.249) {
				bool again = false;
				for(auto &x : pc) if(x.ok && (x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA) && x.ud.flow == kv.first && x.ud.seq == g.first) again = true;
				if(!again) lb += g.second.chunk;
			}
			size_t out = f.tx && f.tx->f ? f.tx->f->getOutstandingBytes() : 0;
			bool rejected = f.tx && f.tx->exceptions;
			judgedSends++;
			if(rejected) continue;
			size_t mx = std::max(lb, out);
			if(mx > f.rwnd) { limited++; maxOver = std::max(maxOver, mx - f.rwnd); }
			CHECK(f.rwnd > SIZE_MAX - 1200 || mx <= f.rwnd + 1200, "window-overrun", "flow %ju of node %d has %zu bytes outstanding by its own count, at least %zu by the wire, after sending %zu; last advertisement received %zu at %.4Lf", kv.first, p.fromNode, out, lb, kv.second, f.rwnd, f.rwndAt);
			CHECK(f.rwnd > 0, "data-into-closed-window", "flow %ju of node %d sends %zu bytes though the receiver advertised nothing at %.4Lf", kv.first, p.fromNode, kv.second, f.rwndAt);
			if(f.tx && f.tx->bound()) CHECK(f.tx->f->getRecvBufferBytesAvailable() == f.rwnd || s.iniOpen == false, "window-not-as-advertised", "flow %ju of node %d believes in %zu bytes, the receiver advertised %zu", kv.first, p.fromNode, f.tx->f->getRecvBufferBytesAvailable(), f.rwnd);
		}
		for(auto &x : pc) {
			if(x.ok && x.type == CHUNK_ACK_RANGES) {
				FlowW &f = s.d[1 - dir].flows[x.ack.flow];
				if(!f.tx || !f.tx->rx || !f.tx->rx->f) continue;
				Rx *rx = f.tx->rx;
				size_t cap = rx->f->getBufferCapacity(), buf = rx->f->getBufferedSize(), lim = rx->f->getWindowLimit();
				size_t adv = buf >= cap ? 0 : std::min(cap - buf, lim);
				uintmax_t blocks = adv / 1024 + (adv % 1024 ? 1 : 0);
				if(blocks == 0 && cap > 0 && lim > 0 && rx->f->getReceiveOrder() != RO_HOLD) { blocks = 1; clampOne++; }
				judgedAcks++;
				CHECK(x.ack.blocks == blocks, "wrong-advertisement", "flow %u receiver advertises %ju blocks; capacity %zu buffered %zu limit %zu order %d", rx->id, x.ack.blocks, cap, buf, lim, int(rx->f->getReceiveOrder()));
				// what the buffer must hold at least: everything received beyond the cumulative number or held
				if(rx->f->isOpen() && rx->completes == 0) {
					size_t least = 0; uintmax_t cum = f.rx.cum();
					for(auto it = f.buf.upper_bound(cum); it != f.buf.end(); ++it) least += it->second.data.size();
					CHECK(buf >= least, "buffered-size-wrong", "flow %u says %zu bytes buffered, at least %zu are undelivered", rx->id, buf, least);
				}
			} else if(x.type == 0x18) {
				size_t off = 0; uintmax_t fl;
				if(!vlu(x.c->body, off, fl)) { ctx.fail("bad-probe", "probe %s", hex(x.c->body).c_str()); continue; }
				auto it = s.d[dir].flows.find(fl);
				if(it == s.d[dir].flows.end() || !it->second.tx) { ctx.fail("probe-of-unknown-flow", "probe for flow %ju, which never sent anything", fl); continue; }
				Z &z = zs[it->second.tx];
				probes++;
				if(!z.zero) continue;
				Duration gap = w.now - (z.probes ? z.lastProbe : z.since);
				if(z.probes == 0) CHECK(gap >= 1 - slack && gap <= std::max<Duration>(1, z.ertoMax) + slack, "first-probe-off-schedule", "flow %u window closed at %.4Lf, first probe %.4Lf s later (ERTO then %.3Lf)", it->second.tx->id, z.since, gap, z.ertoMax);
				else {
					CHECK(gap >= z.gap - slack || gap >= 60 - slack, "probes-not-backing-off", "flow %u probe gap %.4Lf s after one of %.4Lf s", it->second.tx->id, gap, z.gap);
					CHECK(gap <= std::max<Duration>({z.gap * 1.5L, z.ertoMax, 1.0L}) + slack && gap <= 60 + slack, "probe-gap-too-long", "flow %u probe gap %.4Lf s after one of %.4Lf s", it->second.tx->id, gap, z.gap);
					if(z.gap < 40) CHECK(gap >= z.gap * 1.2L - slack, "probe-gap-not-growing", "flow %u probe gap %.4Lf s after one of %.4Lf s", it->second.tx->id, gap, z.gap);
				}
				z.gap = gap; z.lastProbe = w.now; z.probes++;
				z.ertoMax = it->second.tx->f->getERTO();
			}
		}
	};
	mon.onAckTaken = [&] (Sess &, int, FlowW &f, const WAck &a) {
		if(!f.tx) return;
		Z &z = zs[f.tx];
		if(a.blocks == 0 && !z.zero) { z = Z(); z.zero = true; z.since = w.now; z.ertoMax = f.tx->f->getERTO(); zeros++; }
		else if(a.blocks && z.zero) { z.zero = false; reopened++; }
	};
	mon.onArrived = [&] (Sess &s, int dir, const Pkt &, const Wire &, std::vector<PChunk> &pc) {
		for(auto &x : pc) if(x.ok && x.type == CHUNK_ACK_RANGES) {
			FlowW &f = s.d[1 - dir].flows[x.ack.flow];
			if(f.tx) { Z &z = zs[f.tx]; if(z.zero && z.probes == 0) z.ertoMax = std::max<Duration>(z.ertoMax, f.tx->f->getERTO()); }
		}
		for(auto &kv : app.rx) {
			Rx *rx = kv.second.get();
			H &h = hs[rx];
			bool hold = rx->f->isOpen() && !rx->completes && rx->f->getReceiveOrder() == RO_HOLD;
			FlowW *f = mon.flowOf(rx->tx);
			if(!hold || !f) { h.hold = false; continue; }
			size_t have = 0; // payload
			size_t buffered = rx->f->getBufferedSize();
			have = buffered > 0 ? buffered : 0;
			size_t frags = 0;
			for(auto it = f->buf.rbegin(); it != f->buf.rend() && frags * 64 < have; ++it) frags++;
			(void)frags;
			if(!h.hold) { h.hold = true; h.atStart = have; h.cap = tr.capMax[rx]; }
			h.cap = std::max(h.cap, tr.capMax[rx]);
			// undelivered payload, by the wire
			size_t payload = 0;
			if(rx->delivered == 0 && rx->tx->msgs.size()) for(auto &g : f->buf) payload += g.second.data.size();
			holdsChecked++;
			if(payload) CHECK(payload <= h.atStart + std::max<size_t>(h.cap, 65536) * 2 + 2400, "buffer-grows-past-window", "flow %u on hold has %zu bytes of payload buffered, capacity at most %zu", rx->id, payload, h.cap);
		}
	};
	// probing never stops while the window is closed
	std::function<void()> watch = [&] {
		for(auto &kv : zs) {
			Z &z = kv.second; Tx *t = kv.first;
			if(!z.zero || t->exceptions || t->f->getCongestionWindow() == 0 || (t->closedByApp && t->f->getBufferedSize() == 0)) continue;
			if(t->closedByApp) continue;
			Duration lim = z.probes == 0 ? std::max<Duration>(1, z.ertoMax) : std::min<Duration>(60, std::max<Duration>({z.gap * 1.5L, t->f->getERTO(), z.ertoMax, 1.0L}));
			Duration gap = w.now - (z.probes ? z.lastProbe : z.since);
			CHECK(gap <= lim + 0.05, "no-probe", "flow %u window closed since %.4Lf, last probe %.4Lf s ago, due within %.4Lf s", t->id, z.since, gap, lim);
		}
		w.after(0.25, watch);
	};
	w.after(0.25, watch);
	tr.start();
	w.run(w.now + o.T + rng.real(0, 3));
	if(!ctx.failed && rng.chance(0.3)) w.run(w.now + rng.real(10, 150)); // leave closed windows closed for a while
	tr.heal();
	long double healed = w.now;
	bool ok = w.run(w.now + 400, [&] { return tr.settled(); });
	if(!ctx.failed) CHECK(ok, "not-resumed", "windows opened at %.3Lf, 400 s later not everything was sent: %s", healed, app.pending().c_str());
	statsFromWorld(w);
	ctx.stat("data_sends_judged", judgedSends); ctx.stat("advertisements_judged", judgedAcks); ctx.stat("window_limited_sends", limited); ctx.stat("windows_closed", zeros); ctx.stat("windows_reopened", reopened);
	ctx.stat("probes_judged", probes); ctx.stat("one_kilobyte_clamps", clampOne); ctx.stat("hold_states_checked", holdsChecked); ctx.statmax("max_bytes_over_window", double(maxOver));
	ctx.nontrivial = limited > 0 || zeros > 0;
	ctx.sample(fmt("case %llu: %zu flows, %llu data packets, %llu acknowledgements judged, %llu limited by the window, %llu windows closed, %llu probes", (unsigned long long)ctx.caseIndex, app.tx.size(), (unsigned long long)judgedSends, (unsigned long long)judgedAcks, (unsigned long long)limited, (unsigned long long)zeros, (unsigned long long)probes));
	mon.onSend = nullptr; mon.onArrived = nullptr; mon.onAckTaken = nullptr;
	cleanup(w, &app);
}
}
