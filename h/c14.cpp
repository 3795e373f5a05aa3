// C14: everything sessions put on the wire is well formed and truthful.
#include "traffic.hpp"
namespace vf {
const char *driverRule() { return "one case = two or three endpoints exchanging flows with deadlines, rejections, closes, pings, forwarded hellos and crafted gaps over faulty paths; every packet they emit is parsed and every timestamp, echo, acknowledgement, sequence number, flag and byte judged against what really happened; non-trivial when data and acknowledgements were judged; distinct by the hash of every packet sent and its fate"; }
uint64_t driverCases(bool t) { return t ? 200000 : 7000; }
void driverInit() {}
void driverDone() {}

namespace {
struct End { // one end of a session as sender of packets
	long lastTs = -1, lastTse = -1, lastTseFlows = -1; // the latter: in packets of data or acknowledgements; control packets are separate
	long rx = -1; long double rxAt = 0;
	std::map<uintmax_t, long double> owed; // flow -> since when an acknowledgement is due
};
struct Map { std::map<uintmax_t, uint32_t> start; std::map<uint32_t, uintmax_t> to; };
struct Ping { Sess *s; int dir; Bytes body; long double at; };
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	App app(w);
	WireMon mon(w, app);
	TrafOpt o = randomTraffic(rng);
	o.pDeadline = rng.chance(0.5) ? rng.real(0.1, 0.9) : 0;
	if(rng.chance(0.3)) o.pReject = 0.3;
	if(rng.chance(0.3)) o.pClose = 0.5;
	if(rng.chance(0.15)) o.nodes = 3;
	Traffic tr(w, app, mon, o);
	app.checkOrder = false;
	tr.addNodes();
	if(rng.chance(0.4)) for(auto &n : w.nodes) n->rtmfp->setDefaultSessionKeepalivePeriod(rng.logreal(0.3, 5));
	std::map<std::pair<Sess *, int>, End> ends;
	std::map<Tx *, Map> maps;
	std::list<Ping> pings;
	uint64_t pkts = 0, acks = 0, frags = 0, rtx = 0, abns = 0, fins = 0, skipped = 0, echoes = 0, pingsAnswered = 0, fihellos = 0, truncated = 0, delayed = 0, excs = 0, startups = 0; double maxAckDelay = 0; size_t maxLen = 0;
	auto who = [&] (Sess &s, int dir) { return fmt("node%d->node%d (sid %08x)", s.d[dir].from, s.d[dir].to, dir ? s.sidI : s.sidR); };
	auto ticks = [&] (int node) { return long(uint64_t(w.nodes[node]->rtmfp->getInstanceAge() * 250) & 0xffff); };

	// is this sequence number's message abandoned?
	auto abandoned = [&] (FlowW &f, uintmax_t seq) {
		Tx *t = f.tx; if(!t) return true;
		Map &m = maps[t];
		auto it = m.start.upper_bound(seq);
		uint32_t lo = 0, hi = uint32_t(t->msgs.size());
		if(it != m.start.end()) hi = it->second;
		if(it != m.start.begin()) {
			auto p = std::prev(it);
			uint32_t idx = p->second;
			auto e = m.to.find(idx);
			if(e == m.to.end() || seq <= e->second) { // inside, as far as seen
				if(t->msgs[idx]->finished && t->msgs[idx]->finAbandoned) return true;
				if(e != m.to.end()) return false;
				// its end was never sent: seq may belong to a later one only if it was itself abandoned
				return false;
			}
			lo = idx + 1;
		}
		for(uint32_t i = lo; i < hi && i < t->msgs.size(); i++) if(t->msgs[i]->finished && t->msgs[i]->finAbandoned) return true;
		return t->closedByApp || t->exceptions > 0; // the closing marker
	};
	// a return flow whose associated flow has ended forgets its metadata, and cannot be told apart
	auto unseenReturn = [&] (int node) { for(auto &kv : app.tx) if(kv.second->via && kv.second->src->index == node && !mon.flowOf(kv.second.get())) return true; return false; };
	w.onSend.push_back([&] (Pkt &p) {
		Wire k = decodeWire(p.data);
		if(p.data.size() > 4 && (k.mode() == 3 || k.mode() == 0)) {
			startups++;
			CHECK(k.ok && k.mode() == 3, "startup-grammar", "node%d sends a startup packet that does not parse: %s", p.fromNode, k.why.c_str());
			CHECK(k.ts == ticks(p.fromNode), "wrong-timestamp", "node%d stamps a startup packet %ld, its clock says %ld", p.fromNode, k.ts, ticks(p.fromNode));
			for(auto &c : k.chunks) CHECK(c.type == 0x30 || c.type == 0x70 || c.type == 0x38 || c.type == 0x78 || c.type == 0x79 || c.type == 0x71 || c.type == 0x0f, "startup-grammar", "node%d sends chunk %02x in a startup packet", p.fromNode, c.type);
		}
		return true;
	});
	mon.onSend = [&] (Sess &s, int dir, const Pkt &p, const Wire &k, std::vector<PChunk> &pc) {
		End &e = ends[{&s, dir}];
		pkts++;
		maxLen = std::max(maxLen, k.clearLen);
		CHECK(k.clearLen <= 1200, "packet-too-long", "%s sends a packet of %zu bytes of plaintext", who(s, dir).c_str(), k.clearLen);
		CHECK(!k.chunks.empty(), "empty-packet", "%s sends a packet without chunks", who(s, dir).c_str());
		CHECK(k.mode() == (dir == 0 ? 1 : 2), "wrong-role", "%s sends mode %d", who(s, dir).c_str(), k.mode());
		long t = ticks(p.fromNode);
		if(k.ts >= 0) CHECK(k.ts == t, "wrong-timestamp", "%s stamps %ld, its clock says %ld", who(s, dir).c_str(), k.ts, t);
		else CHECK(e.lastTs == t, "missing-timestamp", "%s sends no timestamp at %ld, last sent %ld", who(s, dir).c_str(), t, e.lastTs);
		if(k.ts >= 0) e.lastTs = k.ts;
		if(e.rx >= 0) {
			long double el = w.now - e.rxAt;
			long exp = (e.rx + long(el * 250)) & 0xffff;
			if(k.tse >= 0) {
				echoes++;
				long d = (k.tse - exp) & 0xffff;
				CHECK(el <= 128 + 1e-6L && (d <= 1 || d == 0xffff), "wrong-echo", "%s echoes %ld; received %ld %.4Lf s ago, so %ld is right", who(s, dir).c_str(), k.tse, e.rx, el, exp);
			} else if(el < 127.9L) {
				auto near = [&] (long t) { long d = (exp - t) & 0xffff; return t >= 0 && (d <= 1 || d == 0xffff); };
				CHECK(near(e.lastTse) || near(e.lastTseFlows), "missing-echo", "%s sends no echo; received %ld %.4Lf s ago, so %ld is due, last sent %ld", who(s, dir).c_str(), e.rx, el, exp, e.lastTse);
			}
			if(k.tse >= 0) { e.lastTse = k.tse; for(auto &x : pc) if(x.type == CHUNK_USERDATA || x.type == CHUNK_ACK_RANGES) e.lastTseFlows = k.tse; }
		} else CHECK(k.tse < 0, "wrong-echo", "%s echoes %ld though it received no timestamp", who(s, dir).c_str(), k.tse);
		bool dataSeen = false; uintmax_t theFlow = 0, topHere = 0; int nAcks = 0;
		for(auto &x : pc) {
			if(!x.ok) continue;
			switch(x.type) {
			case CHUNK_USERDATA: case CHUNK_NEXT_USERDATA: {
				FlowW &f = s.d[dir].flows[x.ud.flow];
				frags++;
				CHECK(!dataSeen || theFlow == x.ud.flow, "mixed-flows", "%s mixes flows %ju and %ju in a packet", who(s, dir).c_str(), theFlow, x.ud.flow);
				dataSeen = true; theFlow = x.ud.flow;
				bool abn = x.ud.flags & USERDATA_FLAG_ABN, fin = x.ud.flags & USERDATA_FLAG_FIN;
				uint8_t fra = x.ud.flags & USERDATA_FLAG_FRA_MASK;
				CHECK(x.ud.seq > 0, "sequence-zero", "%s flow %ju sends sequence number 0", who(s, dir).c_str(), x.ud.flow);
				CHECK(x.ud.fsn <= x.ud.seq, "bad-forward-number", "%s flow %ju forward number %ju at %ju", who(s, dir).c_str(), x.ud.flow, x.ud.fsn, x.ud.seq);
				CHECK(x.ud.fsn >= f.maxFsn, "forward-number-fell", "%s flow %ju forward number %ju after %ju", who(s, dir).c_str(), x.ud.flow, x.ud.fsn, f.maxFsn);
				if(!(x.ud.flags & USERDATA_FLAG_OPT)) CHECK(f.gotAck || (f.tx && f.tx->via) || (!f.tx && unseenReturn(p.fromNode)) || [&] { for(auto &y : pc) { if(&y == &x) return false; if(y.ok && y.ud.flow == x.ud.flow && y.ud.hasMeta) return true; } return false; }(), "metadata-missing", "%s flow %ju sends data without metadata before any acknowledgement", who(s, dir).c_str(), x.ud.flow);
				uintmax_t top = std::max({f.maxSeq, x.ud.fsn, topHere}); topHere = std::max(topHere, x.ud.seq);
				CHECK(x.ud.seq <= top + 1, "sequence-skipped", "%s flow %ju sends %ju after %ju (forward %ju)", who(s, dir).c_str(), x.ud.flow, x.ud.seq, f.maxSeq, x.ud.fsn);
				if(f.finSent) {
					CHECK(x.ud.seq <= f.finSeq, "data-after-final", "%s flow %ju sends %ju, final was %ju", who(s, dir).c_str(), x.ud.flow, x.ud.seq, f.finSeq);
					CHECK(!fin || x.ud.seq == f.finSeq, "two-finals", "%s flow %ju marks %ju final after %ju", who(s, dir).c_str(), x.ud.flow, x.ud.seq, f.finSeq);
					CHECK(fin || x.ud.seq != f.finSeq, "final-mark-lost", "%s flow %ju resends %ju without its final mark", who(s, dir).c_str(), x.ud.flow, x.ud.seq);
				}
				if(fin) { fins++; if(f.tx) CHECK(f.tx->closedByApp || f.tx->exceptions || !f.tx->f->isOpen(), "final-while-open", "flow %u marks %ju final though it is open", f.tx->id, x.ud.seq); }
				CHECK(!f.acked.has(x.ud.seq), "acknowledged-resent", "%s flow %ju resends %ju, which was acknowledged", who(s, dir).c_str(), x.ud.flow, x.ud.seq);
				auto it = f.frags.find(x.ud.seq);
				if(abn) {
					abns++;
					CHECK(x.ud.data.empty(), "data-in-abandoned", "%s flow %ju %ju is marked abandoned but carries %zu bytes", who(s, dir).c_str(), x.ud.flow, x.ud.seq, x.ud.data.size());
					CHECK(abandoned(f, x.ud.seq), "false-abandon", "%s flow %ju marks %ju abandoned; its message was not", who(s, dir).c_str(), x.ud.flow, x.ud.seq);
				}
				if(it != f.frags.end()) {
					rtx++;
					CHECK(it->second.fra == fra, "fragment-kind-changed", "%s flow %ju %ju first sent as kind %02x, now %02x", who(s, dir).c_str(), x.ud.flow, x.ud.seq, it->second.fra, fra);
					if(!abn) CHECK(!it->second.abn && (!it->second.data || it->second.bytes == x.ud.data), "fragment-changed", "%s flow %ju %ju resent with %s", who(s, dir).c_str(), x.ud.flow, x.ud.seq, it->second.abn ? "data after being marked abandoned" : "other bytes");
				}
				if(!abn && f.tx) {
					Map &m = maps[f.tx];
					if(fra == USERDATA_FRA_WHOLE || fra == USERDATA_FRA_BEGIN) { uint32_t idx; if(x.ud.data.size() >= 12) { memcpy(&idx, &x.ud.data[4], 4); m.start[x.ud.seq] = idx; } }
					if(fra == USERDATA_FRA_WHOLE || fra == USERDATA_FRA_END) { auto q = m.start.upper_bound(x.ud.seq); if(q != m.start.begin()) m.to[std::prev(q)->second] = x.ud.seq; }
				}
				// everything up to the forward number is acknowledged or abandoned
				for(uintmax_t q = std::max<uintmax_t>(f.maxFsn, f.acked.cum()) + 1; q <= x.ud.fsn; q++) {
					if(f.acked.has(q)) continue;
					skipped++;
					CHECK(abandoned(f, q), "forward-number-covers-wanted", "%s flow %ju forward number %ju covers %ju, neither acknowledged nor abandoned", who(s, dir).c_str(), x.ud.flow, x.ud.fsn, q);
				}
				break; }
			case CHUNK_ACK_RANGES: {
				acks++; nAcks++;
				FlowW &f = s.d[1 - dir].flows[x.ack.flow];
				CHECK(f.rxSeen, "acknowledges-unknown-flow", "%s acknowledges flow %ju, from which nothing came", who(s, dir).c_str(), x.ack.flow);
				std::vector<std::pair<uintmax_t, uintmax_t>> exp;
				for(auto &r : f.rx.m) if(r.first != 0) exp.push_back(r);
				bool same = x.ack.cum == f.rx.cum() && x.ack.ranges == exp;
				if(!same && x.ack.cum == f.rx.cum() && x.ack.ranges.size() < exp.size() && k.clearLen > 1200 - 24) {
					same = std::equal(x.ack.ranges.begin(), x.ack.ranges.end(), exp.begin()); truncated++;
				}
				if(!same) {
					std::string a, b; for(auto &r : x.ack.ranges) a += fmt(" %ju-%ju", r.first, r.second); for(auto &r : exp) b += fmt(" %ju-%ju", r.first, r.second);
					ctx.fail("false-acknowledgement", "%s acknowledges flow %ju up to %ju%s; received up to %ju%s", who(s, dir).c_str(), x.ack.flow, x.ack.cum, a.substr(0, 200).c_str(), f.rx.cum(), b.substr(0, 200).c_str());
				}
				auto ow = e.owed.find(x.ack.flow);
				if(ow != e.owed.end()) { maxAckDelay = std::max(maxAckDelay, double(w.now - ow->second)); e.owed.erase(ow); }
				break; }
			case CHUNK_EXCEPTION: {
				excs++;
				size_t off = 0; uintmax_t fl, code;
				bool ok = vlu(x.c->body, off, fl) && vlu(x.c->body, off, code) && off == x.c->body.size();
				CHECK(ok, "chunk-grammar", "exception report %s", hex(x.c->body).c_str());
				if(ok) CHECK(s.d[1 - dir].flows[fl].rxSeen, "exception-for-unknown-flow", "%s reports an exception for flow %ju, from which nothing came", who(s, dir).c_str(), fl);
				break; }
			case 0x18: { size_t off = 0; uintmax_t fl; CHECK(vlu(x.c->body, off, fl) && off == x.c->body.size(), "chunk-grammar", "buffer probe %s", hex(x.c->body).c_str()); break; }
			case CHUNK_ECN_REPORT: CHECK(x.c->body.size() == 1, "chunk-grammar", "ECN report %s", hex(x.c->body).c_str()); break;
			case CHUNK_CLOSE: case CHUNK_CLOSE_ACK: CHECK(x.c->body.empty(), "chunk-grammar", "close chunk %02x with %zu bytes", x.type, x.c->body.size()); break;
			case CHUNK_FIHELLO: fihellos++; break;
			case CHUNK_PING: break;
			case CHUNK_PING_REPLY:
				for(auto it = pings.begin(); ; ++it) {
					if(it == pings.end()) { ctx.fail("ping-reply-unasked", "%s replies %s to no ping", who(s, dir).c_str(), hex(x.c->body).c_str()); break; }
					if(it->s == &s && it->dir == 1 - dir && it->body == x.c->body) { pings.erase(it); pingsAnswered++; break; }
				}
				break;
			default: ctx.fail("chunk-grammar", "%s sends a chunk of type %02x", who(s, dir).c_str(), x.type);
			}
		}
	};
	auto take = [&] (Sess &s, int dir, const Wire &k, std::vector<PChunk> &pc) {
		End &e = ends[{&s, 1 - dir}];
		if(k.ts >= 0 && k.ts != e.rx) { e.rx = k.ts; e.rxAt = w.now; }
		if(s.closing) { e.owed.clear(); return; }
		for(auto &x : pc) {
			if(x.ok && (x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA)) e.owed.insert({x.ud.flow, w.now});
			if(x.type == CHUNK_PING && x.c->body.size() <= 997) pings.push_back({&s, dir, x.c->body, w.now});
		}
	};
	mon.onModel = [&] (Sess &s, int dir, const Pkt &, const Wire &k, std::vector<PChunk> &pc) { take(s, dir, k, pc); };
	mon.onReplayed = [&] (Sess &s, int dir, const Pkt &, const Wire &k, std::vector<PChunk> &pc) { take(s, dir, k, pc); };
	// the keying answer's timestamp counts too
	w.onArrive.push_back([&] (const Pkt &p) {
		if(p.corrupted || p.fromNode < 0 || p.toNode < 0) return;
		Wire k = decodeWire(p.data);
		if(k.mode() != 3 || !k.sid) return;
		auto it = mon.bySid.find({p.toNode, k.sid});
		if(it == mon.bySid.end() || it->second.second != 1 || it->second.first->iniOpen) return;
		End &e = ends[{it->second.first, 0}];
		if(k.ts >= 0 && k.ts != e.rx) { e.rx = k.ts; e.rxAt = w.now; }
	});
	double slack = 0.05;
	std::function<void()> watch = [&] {
		for(auto &kv : ends) {
			Sess &s = *kv.first.first;
			if(s.closing) { kv.second.owed.clear(); continue; }
			for(auto &ow : kv.second.owed) if(w.now - ow.second > 0.2 + slack) { ctx.fail("acknowledgement-overdue", "%s got data of flow %ju at %.4Lf and has not acknowledged it at %.4Lf", who(s, kv.first.second).c_str(), ow.first, ow.second, w.now); ow.second = INFINITY; }
		}
		for(auto it = pings.begin(); it != pings.end(); ) {
			if(it->s->closing) it = pings.erase(it);
			else { if(w.now - it->at > 0.05) { ctx.fail("ping-unanswered", "%s sent ping %s at %.4Lf, no answer by %.4Lf", who(*it->s, it->dir).c_str(), hex(it->body).c_str(), it->at, w.now); it->at = INFINITY; } ++it; }
		}
		w.after(0.04, watch);
	};
	w.after(0.04, watch);
	// pings, gaps and forwarded hellos
	int extras = rng.chance(0.6) ? int(rng.range(1, 12)) : 0;
	for(int i = 0; i < extras; i++) w.after(rng.real(0.1, o.T), [&] {
		std::vector<Sess *> live;
		for(auto &s : mon.sessions) if(s->iniOpen && !s->closing && s->d[0].pkts && s->d[1].pkts && s->key[0]) live.push_back(s.get());
		if(live.empty()) return;
		Sess *s = live[w.rng.u(live.size())];
		int dir = int(w.rng.u(2));
		if(mon.bySid.at({s->d[dir].to, dir ? s->sidI : s->sidR}).first != s) return;
		Bytes c{uint8_t(dir == 0 ? 1 : 2)};
		auto chunk = [&] (uint8_t type, const Bytes &body) { c.push_back(type); c.push_back(uint8_t(body.size() >> 8)); c.push_back(uint8_t(body.size())); c.insert(c.end(), body.begin(), body.end()); };
		switch(w.rng.u(3)) {
		case 0: {
			Bytes b = w.rng.bytes(w.rng.chance(0.3) ? w.rng.range(900, 997) : w.rng.u(60));
			if(!b.empty() && b[0] == 0) b[0] = 7;
			chunk(CHUNK_PING, b);
			mon.craft(*s, dir, c); break; }
		case 1: { // fragments with gaps of a flow nobody announced: rejected, and acknowledged
			uintmax_t fl = 5000 + w.rng.u(1000000), seq = w.rng.bits() >> w.rng.range(1, 60);
			int n = int(w.rng.chance(0.4) ? w.rng.range(600, 1500) : w.rng.range(1, 60)), per = 80;
			bool wide = w.rng.chance(0.3);
			for(int i = 0; i < n; ) {
				Bytes q{uint8_t(dir == 0 ? 1 : 2)};
				c = q;
				for(int j = 0; j < per && i < n; j++, i++) {
					seq += 1 + (w.rng.chance(0.9) ? 1 + (wide ? w.rng.bits() >> 45 : 0) : 0);
					Bytes b{0}; putVlu(b, fl); putVlu(b, seq); putVlu(b, seq);
					chunk(CHUNK_USERDATA, b);
					if(c.size() > 1150) { i++; break; }
				}
				mon.craft(*s, dir, c);
			}
			break; }
		default: {
			Tx *t = mon.rep(*s, dir);
			if(t) { Bytes e = w.rng.bytes(w.rng.chance(0.5) ? w.rng.u(60) : w.rng.range(1100, 1190)), tag = w.rng.bytes(w.rng.u(20)); t->f->forwardIHello(e.data(), e.size(), A("9.8.7.6:5"), tag.data(), tag.size()); }
			break; }
		}
	});
	tr.start();
	w.run(w.now + o.T + rng.real(0, 2));
	if(!ctx.failed && rng.chance(0.1)) w.run(w.now + rng.real(10, 300));
	tr.heal();
	w.run(w.now + 60, [&] { return tr.settled(); });
	if(!ctx.failed) w.run(w.now + 1);
	statsFromWorld(w);
	ctx.stat("packets_judged", pkts); ctx.stat("startup_packets_judged", startups); ctx.stat("acknowledgements_judged", acks); ctx.stat("fragments_judged", frags); ctx.stat("retransmissions_judged", rtx); ctx.stat("abandon_marks", abns); ctx.stat("final_marks", fins);
	ctx.stat("forward_skips", skipped); ctx.stat("echoes_judged", echoes); ctx.stat("pings_answered", pingsAnswered); ctx.stat("forwarded_hellos", fihellos); ctx.stat("truncated_acknowledgements", truncated); ctx.stat("exception_reports", excs); (void)delayed;
	ctx.statmax("max_ack_delay_s", maxAckDelay); ctx.statmax("max_clear_packet", double(maxLen));
	ctx.nontrivial = frags > 0 && acks > 0;
	ctx.sample(fmt("case %llu: %llu packets, %llu fragments (%llu resent, %llu abandoned), %llu acknowledgements, %llu echoes", (unsigned long long)ctx.caseIndex, (unsigned long long)pkts, (unsigned long long)frags, (unsigned long long)rtx, (unsigned long long)abns, (unsigned long long)acks, (unsigned long long)echoes));
	mon.onSend = nullptr; mon.onModel = nullptr; mon.onReplayed = nullptr;
	cleanup(w, &app);
}
}
