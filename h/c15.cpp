// C15: address changes: who moves a session, when, and what goes where meanwhile.
#include "app.hpp"
namespace vf {
const char *driverRule() { return "one case = two or three endpoints with flows both ways whose addresses change any number of times (also to addresses others had, also swapping), while an attacker re-sends captured packets from other addresses, repeats and holds back old probe answers, passes probes on, and (with a hostile peer) answers probes wrongly from anywhere, over paths that lose, duplicate and reorder; run under AddressSanitizer and UBSan; non-trivial when a session moved or a probe went out; distinct by the hash of every packet and its fate"; }
uint64_t driverCases(bool t) { return t ? 400000 : 12000; }
void driverInit() {}
void driverDone() {}

namespace {
typedef long double LD;
typedef std::pair<Address, int> Where; // far address, near interface
struct Side { int node = -1, peer = -1; uint64_t rx = 0, tx = 0; uint32_t rxSid = 0; Bytes near; Where cur; Address prev; LD prevAt = -1; uintmax_t last = 0; long lastProbe = -1; uint64_t moves = 0; };
struct Sn { Side s[2]; };
bool macIs(const Bytes &p, uint64_t key) { if(p.size() < 13) return false; uint64_t m = hash64(p.data() + 4, p.size() - 12, key), have; memcpy(&have, p.data() + p.size() - 8, 8); return m == have; }
Bytes sealWith(const Bytes &clear, uint64_t key, uint32_t sid)
{
	Bytes out(4); out.insert(out.end(), clear.begin(), clear.end());
	uint64_t m = hash64(clear, key); for(int i = 0; i < 8; i++) out.push_back(((uint8_t *)&m)[i]);
	uint32_t x[3] = {0, 0, 0}; memcpy(x + 1, out.data() + 4, std::min<size_t>(8, out.size() - 4)); x[0] = sid ^ x[1] ^ x[2]; memcpy(out.data(), x, 4);
	return out;
}
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	int nn = rng.chance(0.5) ? 2 : 3;
	int nasty = int(rng.u(3));
	bool twoIf = rng.chance(0.25), attacker = rng.chance(0.75), hostile = rng.chance(0.3);
	w.dflt.delay = rng.logreal(0.0005, 0.2);
	if(nasty) { w.dflt.loss = rng.real(0, nasty == 1 ? 0.05 : 0.25); w.dflt.dup = rng.real(0, 0.2); w.dflt.reorder = rng.real(0, 0.3); w.dflt.reorderDelay = rng.logreal(0.01, 3); }
	for(int i = 0; i < nn; i++) {
		std::vector<std::string> a{fmt("10.0.%d.1:%d", i, 1000 + i)};
		if(twoIf && i == 0) a.push_back("10.0.0.2:2000");
		Node *n = w.addNode(fmt("n%d", i), a);
		n->rtmfp->setDefaultSessionRetransmitLimit(100000);
		n->platform->performDelay0 = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.003);
	}
	for(int i = 0; i < nn; i++) for(int j = 0; j < nn; j++) if(i != j) { w.path(i, j) = w.dflt; w.path(i, j).loss = 0; }
	std::map<int, LD> born; for(auto &n : w.nodes) born[n->index] = w.now;
	App app(w);
	for(auto &n : w.nodes) app.listen(n.get());
	LD t0 = w.now;
	auto age = [&] { return uintmax_t(w.now - t0 + 1e-9L); };
	std::vector<std::unique_ptr<Sn>> ss;
	std::vector<std::map<Bytes, std::set<Where>>> probes(nn);
	bool active = false, judging = true, calm = false; int hoard = -1; LD hoardTill = 0;
	uint64_t excursions = 0, rescues = 0, lateReplies = 0, expectProbe = 0, moves = 0, nProbes = 0, probesAway = 0, spoofed = 0, replies = 0, wrongReplies = 0, held = 0, passed = 0, forged = 0, changes = 0, callbacks = 0, undecided = 0, reuse = 0, swaps = 0;
	struct Tape { Bytes data; Address src, dst; LD at; int from, to; bool reply; };
	std::vector<Tape> tape;
	std::vector<Address> dark; // addresses nobody has
	for(int i = 0; i < 5; i++) dark.push_back(A(i < 4 ? fmt("66.6.6.%d:%d", i, 600 + i) : std::string("[2001:db8::9]:9")));
	std::vector<std::vector<Address>> past(nn);

	app.onExc = [&] (Tx *t) { if(judging) ctx.fail("session-lost", "flow %u %s->%s failed with %ju though only addresses changed", t->id, t->src->name.c_str(), t->dst->name.c_str(), t->reason); };

	auto sideOf = [&] (int node, const Bytes &data, bool rx) -> Side * { for(auto &s : ss) for(auto &x : s->s) if(x.node == node && macIs(data, rx ? x.rx : x.tx)) return &x; return nullptr; };
	auto isProbe = [] (const WChunk &c) { return c.type == CHUNK_PING && !c.body.empty() && c.body[0] == 'M'; };
	auto isReply = [] (const WChunk &c) { return c.type == CHUNK_PING_REPLY && !c.body.empty() && c.body[0] == 'M'; };
	auto tsOf = [] (const Bytes &b) -> uintmax_t { size_t o = 1; uintmax_t v = 0; return vlu(b, o, v) ? v : 0; };
	std::map<uint64_t, int> modeOf; // transmit key -> mode bits
	auto craft = [&] (Side &victim, std::vector<std::pair<uint8_t, Bytes>> chunks) {
		Bytes c{uint8_t(modeOf[victim.rx])};
		for(auto &x : chunks) { c.push_back(x.first); c.push_back(uint8_t(x.second.size() >> 8)); c.push_back(uint8_t(x.second.size())); c.insert(c.end(), x.second.begin(), x.second.end()); }
		return sealWith(c, victim.rx, victim.rxSid);
	};

	w.onSend.push_back([&] (Pkt &p) {
		if(!active) return true;
		Wire k = decodeWire(p.data);
		if(k.sid == 0) return true;
		Side *s = sideOf(p.fromNode, p.data, false);
		if(!s) return true;
		if(calm && p.toNode != s->peer) { rescues++; w.inject(p.data, p.src, w.nodes[s->peer]->pub[1], 0, 0.01); } // somebody was led astray by late or relayed answers: in the end whoever holds the place passes on what comes
		Where to{p.dst, p.fromIf};
		bool probe = k.chunks.size() == 1 && isProbe(k.chunks[0]) && !(to == s->cur);
		if(probe) {
			nProbes++; if(p.toNode < 0) probesAway++;
			uintmax_t ts = tsOf(k.chunks[0].body);
			CHECK(long(ts) > s->lastProbe, "probes-too-often", "%s sent two probes in one second (%ju)", w.nodes[s->node]->name.c_str(), ts);
			CHECK(ts == age() || ts + 1 == age() || ts == age() + 1, "probe-not-fresh", "%s sent a probe of second %ju at age %ju", w.nodes[s->node]->name.c_str(), ts, age());
			s->lastProbe = long(ts);
			probes[s->node][k.chunks[0].body].insert(to);
		} else {
			CHECK(p.dst == s->cur.first || (p.dst == s->prev && w.now < s->prevAt + 0.5), "sent-to-unverified", "%s sent %zu bytes (first chunk %02x) to %s; the verified address of n%d is %s", w.nodes[s->node]->name.c_str(), p.data.size(), k.chunks.empty() ? 0 : k.chunks[0].type, S(p.dst).c_str(), s->peer, S(s->cur.first).c_str());
		}
		bool rep = false; for(auto &c : k.chunks) rep |= isReply(c);
		if(attacker && (rng.chance(0.3) || rep || probe)) {
			Tape t{p.data, p.src, p.dst, w.now, p.fromNode, s->peer, rep};
			if(tape.size() < 600) tape.push_back(t); else tape[rng.u(tape.size())] = t;
			if(rep && p.fromNode == hoard) { held++; auto d = rng.chance(0.3) ? rng.real(90, 119) : rng.real(121.1, 135); hoardTill = std::max<LD>(hoardTill, w.now + d); w.inject(p.data, p.src, p.dst, 0, d); return false; }
			if(rep && !calm && w.now > hoardTill && rng.chance(0.15)) { // held back for long
				held++; auto d = rng.chance(0.5) ? rng.real(1, 30) : rng.real(110, 130);
				w.inject(p.data, p.src, p.dst, 0, d);
				return rng.chance(0.5);
			}
			if(probe && p.toNode < 0 && rng.chance(0.5)) { passed++; w.inject(p.data, p.src, w.nodes[s->peer]->pub[1], 0, rng.real(0.001, 0.1)); } // a probe to nowhere is passed on to the peer
			if(probe && hostile && !calm && rng.chance(0.4)) { // the peer has the key
				Side *v = s; Bytes body = k.chunks[0].body; Address X = p.dst, N = p.src;
				w.after(rng.real(0.001, 0.5), [&, v, body, X, N] {
					if(!active) return;
					forged++;
					Bytes b = body; Address from = X;
					switch(rng.u(7)) {
					case 0: from = rng.pick(dark); break;
					case 1: b[1 + rng.u(b.size() - 1)] ^= uint8_t(1 << rng.u(8)); break;
					case 2: { Bytes n{'M'}; size_t o = 1; uintmax_t ts; vlu(b, o, ts); putVlu(n, ts + rng.range(1, 200)); n.insert(n.end(), b.begin() + o, b.end()); b = n; break; }
					case 3: b.resize(rng.u(b.size())); break;
					case 4: b.insert(b.end(), 1, uint8_t(rng.bits())); break;
					case 5: from = v->prev.getPort() ? v->prev : rng.pick(dark); break;
					default: if(rng.chance(0.7)) return; // honestly from there: the peer then is there
					}
					w.inject(craft(*v, {{uint8_t(CHUNK_PING_REPLY), b}}), from, N, 0, 0);
				});
			}
		}
		return true;
	});
	struct Pre { Side *s = nullptr; bool move = false, maybe = false; Where to, from; uintmax_t ts = 0; std::map<Tx *, int> tx; std::map<Rx *, int> rx; } pre;
	w.onArrive.push_back([&] (const Pkt &p) {
		pre = Pre();
		if(!active) return;
		Wire k = decodeWire(p.data);
		if(k.sid == 0 || !k.ok) return;
		Side *s = sideOf(p.toNode, p.data, true);
		if(!s) return;
		auto wh = w.where.find(p.dst);
		Where from{p.src, wh == w.where.end() ? 1 : wh->second.second};
		pre.s = s; pre.from = from;
		for(auto &c : k.chunks) if(isReply(c)) {
			replies++;
			uintmax_t ts = tsOf(c.body);
			auto it = probes[p.toNode].find(c.body);
			bool sent = it != probes[p.toNode].end() && it->second.count(from);
			if(sent && ts > s->last && ts + 121 >= age()) {
				if(ts + 120 < age() + 1 && ts + 121 >= age()) pre.maybe = true; // on the edge of its lifetime
				pre.move = !(from == s->cur); pre.to = from; pre.ts = ts;
				if(!pre.maybe) s->last = ts;
			} else { wrongReplies++; if(sent && ts > s->last) lateReplies++; }
		}
		for(auto &x : app.tx) { Tx *t = x.second.get(); if(t->src->index == s->node && t->bound() && t->f->isOpen() && !t->closedByApp && t->f->getNearNonce() == s->near) pre.tx[t] = t->farAddressChanges; }
		for(auto &x : app.rx) { Rx *r = x.second.get(); if(r->node->index == s->node && r->f && r->f->isOpen() && !r->closedByApp && r->f->getNearNonce() == s->near) pre.rx[r] = r->farAddressChanges; }
	});
	w.onArrived.push_back([&] (const Pkt &p, bool) {
		if(!active || !pre.s) return;
		Side *s = pre.s;
		if(!(pre.from == s->cur) && !pre.move && !pre.maybe && long(age()) > s->lastProbe + 30) { // heard from elsewhere, and no check was made for long
			expectProbe++;
			uintmax_t now = age(); long had = s->lastProbe;
			w.after(2, [&, s, now, had] { if(active) CHECK(s->lastProbe > had, "no-probe", "%s heard from elsewhere at %ju and made no check (the last was at %ld)", w.nodes[s->node]->name.c_str(), now, had); });
		}
		if(pre.maybe) { // adopt
			undecided++;
			bool told = false; for(auto &x : pre.tx) told |= x.first->farAddressChanges > x.second; for(auto &x : pre.rx) told |= x.first->farAddressChanges > x.second;
			if(told || (!pre.move && pre.to == s->cur)) s->last = std::max(s->last, pre.ts); else pre.move = false;
		}
		if(pre.move) { s->prev = s->cur.first; s->prevAt = w.now; s->cur = pre.to; s->moves++; changes++; }
		for(auto &x : pre.tx) { Tx *t = x.first; if(t->closedByApp || !t->f->isOpen()) continue;
			Address a = t->f->getFarAddress();
			if(!(a == s->cur.first)) { ctx.fail(pre.move ? "did-not-move" : "moved-wrongly", "%s: flow %u now has far address %s, expected %s, after a packet from %s", w.nodes[s->node]->name.c_str(), t->id, S(a).c_str(), S(s->cur.first).c_str(), S(p.src).c_str()); return; }
			CHECK(t->farAddressChanges == x.second + (pre.move ? 1 : 0), pre.move ? "not-told-of-change" : "told-of-no-change", "flow %u of %s was told %d times of %s", t->id, t->src->name.c_str(), t->farAddressChanges - x.second, pre.move ? "one change" : "no change");
			callbacks += pre.move; }
		for(auto &x : pre.rx) { Rx *r = x.first; if(r->closedByApp || !r->f->isOpen()) continue;
			CHECK(Address(r->f->getFarAddress()) == s->cur.first, pre.move ? "did-not-move" : "moved-wrongly", "receiving flow %u: far address %s, expected %s", r->id, S(r->f->getFarAddress()).c_str(), S(s->cur.first).c_str());
			CHECK(r->farAddressChanges == x.second + (pre.move ? 1 : 0), pre.move ? "not-told-of-change" : "told-of-no-change", "receiving flow %u at %s was told %d times of %s", r->id, r->node->name.c_str(), r->farAddressChanges - x.second, pre.move ? "one change" : "no change");
			callbacks += pre.move; }
		pre = Pre();
	});

	// --- sessions between n0 and the others
	std::vector<Tx *> flows;
	auto openPair = [&] (int a, int b, bool judgeAddr) { (void)judgeAddr; Tx *t = app.open(w.nodes[a].get(), w.nodes[b].get()); if(t) { t->write(100); flows.push_back(t); } return t; };
	auto learn = [&] { // sessions that exist now
		for(auto &kr : w.keys) if(!kr.initiator) {
			uint64_t k0 = hash64(kr.far, hash64(kr.near, 1)), k1 = hash64(kr.far, hash64(kr.near, 2));
			bool have = false; for(auto &s : ss) if(s->s[0].tx == k0) have = true;
			if(have) continue;
			int in = -1, rs = -1; for(auto &n : w.nodes) { if(n->name == kr.peer) in = n->index; if(n->name == kr.who) rs = n->index; }
			if(in < 0 || rs < 0) continue;
			// addresses as the ends see them, from their flows
			Tx *ti = nullptr, *tr = nullptr;
			for(auto t : flows) if(t->bound()) { if(t->src->index == in && t->f->getNearNonce() == kr.far) ti = t; if(t->src->index == rs && t->f->getNearNonce() == kr.near) tr = t; }
			if(!ti || !tr) continue;
			ss.emplace_back(new Sn());
			Side &a = ss.back()->s[0], &b = ss.back()->s[1];
			a.node = b.peer = in; a.peer = b.node = rs; a.tx = b.rx = k0; a.rx = b.tx = k1; a.near = kr.far; b.near = kr.near;
			modeOf[k0] = 1; modeOf[k1] = 2;
			a.cur = {ti->f->getFarAddress(), 1}; b.cur = {tr->f->getFarAddress(), 1};
			// the interface used: where the peer sends
			for(auto &kv : w.nodes[in]->pub) if(kv.second == b.cur.first) a.cur.second = kv.first;
			for(auto &kv : w.nodes[rs]->pub) if(kv.second == a.cur.first) b.cur.second = kv.first;
		}
	};
	// which session id each end listens on, from the wire
	std::map<uint64_t, uint32_t> sidByKey;
	w.onSend.push_back([&] (Pkt &p) { Wire k = decodeWire(p.data); if(k.sid && k.ok) for(auto &kr : w.keys) if(!kr.initiator) { uint64_t k0 = hash64(kr.far, hash64(kr.near, 1)), k1 = hash64(kr.far, hash64(kr.near, 2)); if(macIs(p.data, k0)) sidByKey[k0] = k.sid; if(macIs(p.data, k1)) sidByKey[k1] = k.sid; } if(sidByKey.size() == 2 * ss.size() && active) { } return true; });
	for(int b = 1; b < nn; b++) { openPair(0, b, true); }
	if(!w.run(w.now + 60, [&] { for(auto t : flows) if(!t->rx) return false; return true; })) { ctx.fail("cannot-open", "sessions do not open: %s", app.pending().c_str()); cleanup(w, &app); return; }
	for(int b = 1; b < nn; b++) { openPair(b, 0, true); for(int i = 0; i < int(rng.u(3)); i++) { bool out = rng.chance(0.5); openPair(out ? 0 : b, out ? b : 0, true); }; }
	flows.erase(std::remove_if(flows.begin(), flows.end(), [&] (Tx *t) { return t->src == t->dst; }), flows.end());
	for(int b = 1; b < nn; b++) if(rng.chance(0.5)) openPair(0, b, true);
	if(!w.run(w.now + 60, [&] { for(auto t : flows) if(t->src != t->dst && !t->rx) return false; return true; })) { ctx.fail("cannot-open", "flows do not open: %s", app.pending().c_str()); cleanup(w, &app); return; }
	learn();
	if(int(ss.size()) != nn - 1) { ctx.fail("cannot-open", "%zu sessions for %d pairs", ss.size(), nn - 1); cleanup(w, &app); return; }
	for(auto &s : ss) { s->s[1].rxSid = sidByKey[s->s[0].tx]; s->s[0].rxSid = sidByKey[s->s[1].tx]; }
	active = true;
	for(int i = 0; i < nn; i++) for(int j = 0; j < nn; j++) if(i != j) w.path(i, j) = w.dflt;

	// --- conversation
	double T = rng.real(5, 60);
	LD end = w.now + T;
	double gap = rng.logreal(0.02, 1);
	std::function<void(Tx *)> chat = [&] (Tx *t) { if(w.now > end + 400 || ctx.failed || w.stopped) return; if(t->f->isOpen() && !t->closedByApp) { if(app.tx.size() && t->msgs.size() < 3000 && t->f->getBufferedSize() < 200000) t->write(rng.chance(0.1) ? rng.u(6000) : rng.u(200)); } w.after(rng.real(0, 2 * gap) + (w.now > end ? 1.0 : 0), [&, t] { if(judging) chat(t); }); };
	bool quietSide = !hostile && rng.chance(0.3); // the hub only answers
	for(auto t : flows) if(!(quietSide && t->src->index == 0)) chat(t);
	// --- movement: one node at a time, others wait until its peers have followed
	int port = 3000;
	auto fresh = [&] (int i) -> Address {
		if(rng.chance(0.25) && !past[i].empty()) return rng.pick(past[i]);
		if(rng.chance(0.2)) return A(fmt("10.0.%d.%d:%d", i, int(rng.range(10, 200)), int(Address(w.nodes[i]->pub[1]).getPort()))); // address only
		if(rng.chance(0.3)) { Address a = w.nodes[i]->pub[1]; a.setPort(uint16_t(++port)); return a; } // port only
		if(rng.chance(0.2)) return A(fmt("[2001:db8::%x]:%d", int(rng.range(1, 0xfff0)), ++port));
		return A(fmt("10.%d.%d.1:%d", int(rng.range(1, 200)), i, ++port));
	};
	auto followed = [&] { for(auto &s : ss) for(auto &x : s->s) { bool ok = false; for(auto &kv : w.nodes[x.peer]->pub) if(kv.second == x.cur.first) ok = true; if(!ok) return false; } return true; };
	auto settle = [&] (bool on) { calm = on; for(auto &a : w.nodes) for(auto &b : w.nodes) if(a != b) w.path(a->index, b->index).loss = on ? 0 : w.dflt.loss; };
	auto moveTo = [&] (int i, const Address &a) {
		Address old = w.nodes[i]->pub[1];
		if(a == old) return;
		auto it = w.where.find(a); if(it != w.where.end() && it->second.first != i) { reuse++; }
		past[i].push_back(old);
		if(rng.chance(0.6)) { auto o = w.where.find(old); if(o != w.where.end() && o->second.first == i) w.where.erase(o); }
		w.bind(w.nodes[i].get(), 1, a);
		moves++;
	};
	std::function<void()> strike = [&] {
		if(!active || calm || w.now < hoardTill || tape.empty()) return;
		auto &t = tape[tape.size() - 1 - rng.u(std::min<size_t>(tape.size(), rng.chance(0.5) ? 10 : 600))];
		if(w.now - t.at > 60 && !t.reply) return;
		Address src;
		if(t.reply && rng.chance(0.6)) src = t.src; // exactly as it was, only later
		else { int k = int(rng.u(4)); if(k == 0) src = rng.pick(dark); else if(k == 1) src = w.nodes[rng.u(nn)]->pub[1]; else { auto &l = past[t.from]; src = l.empty() ? rng.pick(dark) : rng.pick(l); } }
		Address dst = w.nodes[t.to]->pub[twoIf && t.to == 0 && rng.chance(0.3) ? 2 : 1];
		if(!dst.getPort()) dst = w.nodes[t.to]->pub[1];
		spoofed++;
		w.inject(t.data, src, dst, 0, 0);
	};
	if(attacker) { int k = int(rng.logreal(5, 300)); for(int i = 0; i < k; i++) w.after(rng.real(0, T), strike); }
	w.run(w.now + rng.real(0, 2), [&] { return ctx.failed; });
	while(w.now < end && !ctx.failed) {
		int i = quietSide ? int(rng.range(1, nn - 1)) : int(rng.u(nn));
		int burst = rng.chance(0.7) ? 1 : int(rng.range(2, 5));
		if(nn == 3 && rng.chance(0.15)) { // the two others trade places
			swaps++;
			Address a = w.nodes[1]->pub[1], b = w.nodes[2]->pub[1];
			past[1].push_back(a); past[2].push_back(b);
			w.bind(w.nodes[1].get(), 1, b); w.bind(w.nodes[2].get(), 1, a); moves += 2;
		} else for(int j = 0; j < burst; j++) {
			Address a = fresh(i);
			auto it = w.where.find(a); if(it != w.where.end() && it->second.first != i) { bool inUse = false; for(auto &kv : w.nodes[it->second.first]->pub) if(kv.second == a) inUse = true; if(inUse) continue; }
			if(nn == 3 && i > 0 && rng.chance(0.2) && !past[3 - i].empty()) { Address o = rng.pick(past[3 - i]); if(!(o == w.nodes[3 - i]->pub[1])) a = o; }
			moveTo(i, a);
			if(j + 1 < burst) w.run(w.now + rng.real(0, 1.5), [&] { return ctx.failed; });
		}
		if(attacker && w.now < end && rng.chance(0.2)) { // out and back again, with the answers given out there held back until (almost) too late
			for(auto &kv : w.nodes) if(kv->index == i) {
				if(!followed()) break;
				excursions++;
				Address back = kv->pub[1], out = fresh(i);
				bool inUse = false; for(auto &n : w.nodes) for(auto &x : n->pub) if(x.second == out) inUse = true;
				if(inUse) break;
				hoard = i; hoardTill = w.now;
				moveTo(i, out);
				w.run(w.now + rng.real(0.3, 3), [&] { return ctx.failed; });
				past[i].push_back(kv->pub[1]);
				if(rng.chance(0.5)) { auto o = w.where.find(kv->pub[1]); if(o != w.where.end() && o->second.first == i) w.where.erase(o); }
				w.bind(kv.get(), 1, back);
				w.run(w.now + 1, [&] { return ctx.failed; });
				hoard = -1;
				w.run(hoardTill + 1, [&] { return ctx.failed; });
			}
		}
		// a moved node has to be heard before anybody can follow
		LD since = w.now;
		bool ok = w.run(w.now + 900, [&] { if(ctx.failed) return true; if(w.now > since + 100 && !calm) settle(true); return followed(); }); // a sender that backed off speaks once a minute
		settle(false);
		if(!ok && !ctx.failed) {
			std::string l; for(auto &s : ss) for(auto &x : s->s) l += fmt(" n%d thinks n%d is at %s (it is at %s)", x.node, x.peer, S(x.cur.first).c_str(), S(w.nodes[x.peer]->pub[1]).c_str());
			ctx.fail("did-not-follow", "900 s after a move:%s", l.c_str());
		}
		w.run(w.now + (rng.chance(0.3) ? 0 : rng.real(0, 3)), [&] { return ctx.failed; });
	}
	if(!ctx.failed && nn == 3 && rng.chance(0.5)) { // a new session from an address somebody moved away from
		std::vector<Address> l; for(auto &a : past[1]) { bool used = false; for(auto &n : w.nodes) for(auto &kv : n->pub) if(kv.second == a) used = true; if(!used) l.push_back(a); }
		if(!l.empty()) {
			reuse++;
			Address a = rng.pick(l);
			Node *D = w.addNode("d", {"10.77.0.1:77"});
			w.where.erase(D->pub[1]); w.bind(D, 1, a);
			for(auto &n : w.nodes) if(n.get() != D) { w.path(n->index, D->index) = w.dflt; w.path(D->index, n->index) = w.dflt; }
			app.listen(D);
			probes.resize(nn + 1); past.resize(nn + 1);
			Tx *t = app.open(D, w.nodes[0].get(), PRI_ROUTINE, "", false);
			t->f->addCandidateAddress(w.nodes[0]->pub[1]);
			t->write(500);
			bool ok = w.run(w.now + 60, [&] { return ctx.failed || (t->rx && t->rx->delivered == t->msgs.size()); });
			CHECK(ok, "cannot-open", "an endpoint at %s, which n1 left, cannot open a session to n0", S(a).c_str());
		}
	}
	// --- nothing lost
	if(!ctx.failed) {
		end = w.now - 1000;
		settle(true);
		for(auto t : flows) if(t->f->isOpen()) t->write(10);
		bool ok = w.run(w.now + 900, [&] { if(ctx.failed) return true; for(auto t : flows) if(!t->rx || t->rx->delivered < t->msgs.size()) return false; return true; });
		CHECK(ok, "data-stuck", "900 s after the last move data is missing: %s", app.pending().c_str());
	}
	uint64_t msgs = 0; for(auto t : flows) msgs += t->msgs.size();
	statsFromWorld(w);
	ctx.stat("moves", moves); ctx.stat("excursions", excursions); ctx.stat("answers_too_late", lateReplies); ctx.stat("probes_expected", expectProbe); ctx.stat("sessions_moved", changes); ctx.stat("change_callbacks", callbacks); ctx.stat("probes", nProbes); ctx.stat("probes_to_nobody", probesAway); ctx.stat("probe_answers", replies); ctx.stat("probe_answers_to_be_ignored", wrongReplies); ctx.stat("answers_held_back", held); ctx.stat("probes_passed_on", passed); ctx.stat("answers_forged", forged); ctx.stat("packets_spoofed", spoofed); ctx.stat("answers_on_edge_of_lifetime", undecided); ctx.stat("addresses_reused", reuse); ctx.stat("swaps", swaps); ctx.stat("both_astray", rescues); ctx.stat("messages", msgs);
	ctx.nontrivial = changes > 0 || nProbes > 0;
	ctx.sample(fmt("case %llu: %llu moves, %llu session moves, %llu probes, %llu answers (%llu to be ignored), %llu spoofed packets, %llu messages", (unsigned long long)ctx.caseIndex, (unsigned long long)moves, (unsigned long long)changes, (unsigned long long)nProbes, (unsigned long long)replies, (unsigned long long)wrongReplies, (unsigned long long)spoofed, (unsigned long long)msgs));
	judging = false; active = false;
	w.onSend.clear(); w.onArrive.clear(); w.onArrived.clear();
	cleanup(w, &app);
}
}
