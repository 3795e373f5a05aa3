// C06: an authenticated but hostile peer sends arbitrary chunks inside an open session.
#include "traffic.hpp"
namespace vf {
const char *driverRule() { return "one case = a victim endpoint in session with a hostile peer, which injects authentic packets made of malformed, contradictory, out-of-range and out-of-order chunks against every flow state, and with an honest peer whose flows must not notice; run under AddressSanitizer and UBSan; non-trivial when at least 20 hostile packets were taken and a message made of the hostile fragments was delivered and judged; distinct by the hash of every packet and its fate"; }
uint64_t driverCases(bool t) { return t ? 200000 : 5000; }
void driverInit() {}
void driverDone() {}

namespace {
struct Cand { uint8_t fra; Bytes data; };
struct EvilRx { std::shared_ptr<RecvFlow> f; uintmax_t flow = 0; std::set<uintmax_t> used; int completes = 0; bool closedByUs = false; bool accepted = false; };
struct Plan { uintmax_t id = 0, next = 1, fsn = 0; std::deque<WUserData> q; bool announced = false; int kind = 0; bool fin = false; };
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	w.dflt.delay = rng.logreal(0.0005, 0.05);
	if(rng.chance(0.4)) { w.dflt.loss = rng.real(0, 0.1); w.dflt.reorder = rng.real(0, 0.3); w.dflt.dup = rng.real(0, 0.1); }
	for(int i = 0; i < 3; i++) { Node *n = w.addNode(i == 0 ? "victim" : i == 1 ? "evil" : "honest", {fmt("10.0.0.%d:%d", i + 1, 1000 + i)}); n->rtmfp->setDefaultSessionRetransmitLimit(100000); n->platform->performDelay0 = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.003); }
	for(auto &a : w.nodes) for(auto &b : w.nodes) w.path(a->index, b->index);
	Node *V = w.nodes[0].get(), *E = w.nodes[1].get(), *H = w.nodes[2].get();
	App app(w);
	WireMon mon(w, app);
	mon.badGrammarFails = false;
	for(auto &n : w.nodes) app.listen(n.get());
	std::map<uintmax_t, std::map<uintmax_t, std::vector<Cand>>> cands; // flow -> sequence number -> fragments that arrived
	std::vector<std::unique_ptr<EvilRx>> erx;
	std::vector<Tx *> toE, fromE, honest;
	uint64_t hostile = 0, taken = 0, judged = 0, judgedMulti = 0, offers = 0, rejected = 0, excs = 0, moves = 0, heldConcluded = 0, returns = 0, concluded = 0;
	bool ending = false, over = false;
	Sess *S = nullptr; int dE = 0; // the session and the direction from the evil peer

	// the two outer endpoints' view of the evil flows is not judged
	app.onAccepted = [&] (Rx *r) { if(r->tx->src == E || r->tx->dst == E) r->order = RO_NETWORK; if(r->node == V && r->tx->src == E && rng.chance(0.3)) r->f->setReceiveOrder(RO_NETWORK); };
	std::function<void(std::shared_ptr<RecvFlow>, Tx *)> evilOffer = [&] (std::shared_ptr<RecvFlow> flow, Tx *assoc) {
		Bytes m = flow->getMetadata();
		if(m.size() >= 5 && m[0] == 'F') {
			uint32_t id; memcpy(&id, &m[1], 4);
			auto it = app.tx.find(id);
			if(it != app.tx.end() && it->second->src != E) { app.offer(V, flow, assoc); return; }
		}
		offers++;
		uintmax_t id = UINTMAX_MAX; bool known = false;
		if(m.size() >= 9 && m[0] == 'X') { memcpy(&id, &m[1], 8); known = true; }
		else if(m.size() >= 5 && m[0] == 'F') {
			uint32_t k; memcpy(&k, &m[1], 4);
			auto it = app.tx.find(k);
			FlowW *f = it == app.tx.end() ? nullptr : mon.flowOf(it->second.get());
			if(f) { id = f->id; known = true; }
		}
		std::shared_ptr<RecvFlow> keep = flow;
		if(w.rng.chance(0.1)) { rejected++; if(w.rng.chance(0.5)) flow->close(w.rng.bits()); return; }
		erx.emplace_back(new EvilRx());
		EvilRx *r = erx.back().get();
		r->f = flow; r->flow = id;
		flow->accept(); r->accepted = true;
		if(w.rng.chance(0.5)) flow->setReceiveOrder(w.rng.pick({RO_NETWORK, RO_NETWORK, RO_HOLD}));
		if(w.rng.chance(0.3)) flow->setBufferCapacity(w.rng.range(0, 20000));
		flow->onMessage = [&, r, known] (const uint8_t *bytes, size_t len, uintmax_t seq, size_t frags) {
			CHECK(!r->closedByUs, "callback-after-close", "message after close");
			CHECK(!r->completes, "message-after-complete", "message %ju after completion", seq);
			CHECK(r->f->getReceiveOrder() != RO_HOLD, "delivered-on-hold", "message %ju while on hold", seq);
			CHECK(frags >= 1, "fragment-count", "message %ju of no fragments", seq);
			for(size_t i = 0; i < frags && i < 100000; i++) CHECK(r->used.insert(seq + i).second, "sequence-number-twice", "flow %ju: sequence number %ju delivered a second time (message %ju of %zu fragments)", r->flow, seq + i, seq, frags);
			if(known && !ctx.failed) {
				judged++; if(frags > 1) judgedMulti++;
				auto &c = cands[r->flow];
				std::set<size_t> offs{0}; std::string why;
				for(size_t i = 0; i < frags; i++) {
					uint8_t want = frags == 1 ? USERDATA_FRA_WHOLE : i == 0 ? USERDATA_FRA_BEGIN : i + 1 == frags ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE;
					std::set<size_t> nx;
					auto it = c.find(seq + i);
					if(it != c.end()) for(auto &k : it->second) if(k.fra == want) for(size_t o : offs) if(o + k.data.size() <= len && (k.data.empty() || !memcmp(bytes + o, k.data.data(), k.data.size()))) nx.insert(o + k.data.size());
					offs = nx;
					if(offs.empty()) { why = fmt("no received fragment %ju of kind %02x fits", seq + i, want); if(it == c.end()) why += " (none received)"; else for(auto &k : it->second) why += fmt(" (received kind %02x, %zu bytes)", k.fra, k.data.size()); break; }
				}
				if(!offs.count(len)) ctx.fail("made-up-message", "flow %ju message %ju of %zu fragments, %zu bytes: %s", r->flow, seq, frags, len, why.empty() ? "too long" : why.c_str());
			}
			if(!over && w.rng.chance(0.02)) r->f->setReceiveOrder(w.rng.pick({RO_SEQUENCE, RO_NETWORK, RO_HOLD}));
			if(!over && w.rng.chance(0.01)) { r->closedByUs = true; r->f->close(w.rng.u(1000)); }
		};
		flow->onComplete = [&, r] (bool) { CHECK(!r->completes++, "completed-twice", "hostile flow completed twice"); CHECK(!r->closedByUs, "callback-after-close", "completion after close"); };
		if(w.rng.chance(0.2) && returns < 6) {
			uint32_t id = app.nextId++;
			Bytes meta = app.makeMeta(id);
			auto f = flow->openReturnFlow(meta, PRI_ROUTINE);
			if(f) {
				returns++;
				Tx *t = app.adopt(id, f, V, E, meta);
				t->f->onRecvFlow = [&, t] (std::shared_ptr<RecvFlow> g) { evilOffer(g, t); };
				toE.push_back(t);
				for(int i = 0; i < 5; i++) w.after(w.rng.real(0, 2), [t, &w] { if(t->f->isOpen()) t->write(w.rng.u(3000)); });
			}
		}
	};
	V->rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> flow) { evilOffer(flow, nullptr); };
	E->rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> flow) { // the evil peer takes what it is offered
		Bytes m = flow->getMetadata(); uint32_t id = 0; if(m.size() >= 5) memcpy(&id, &m[1], 4);
		if(app.rx.count(id) || !app.tx.count(id)) return;
		app.offer(E, flow, nullptr);
	};
	app.onExc = [&] (Tx *t) { excs++; if(!ending && (t->src == H || t->dst == H)) ctx.fail("honest-session-hurt", "flow %u %s->%s failed (%ju)", t->id, t->src->name.c_str(), t->dst->name.c_str(), t->reason); };

	mon.onModel = [&] (Sess &s, int dir, const Pkt &p, const Wire &, std::vector<PChunk> &pc) {
		if(s.d[dir].from != E->index || s.d[dir].to != V->index) return;
		if(p.fromNode < 0) taken++;
		for(auto &x : pc) if(x.ok && (x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA) && !(x.ud.flags & USERDATA_FLAG_ABN)) {
			auto &v = cands[x.ud.flow][x.ud.seq];
			if(v.size() < 20) v.push_back({uint8_t(x.ud.flags & USERDATA_FLAG_FRA_MASK), x.ud.data});
		}
	};
	mon.onReplayed = [&] (Sess &s, int dir, const Pkt &p, const Wire &k, std::vector<PChunk> &pc) { mon.onModel(s, dir, p, k, pc); };
	std::vector<std::pair<Bytes, long double>> pingsFromV;
	mon.onSent = [&] (Sess &s, int dir, const Pkt &, const Wire &, std::vector<PChunk> &pc) {
		if(s.d[dir].from != V->index || s.d[dir].to != E->index) return;
		for(auto &x : pc) if(x.type == CHUNK_PING) pingsFromV.push_back({x.c->body, w.now});
	};

	// flows
	auto chat = [&] (Tx *t, int n, double T) {
		for(int i = 0; i < n; i++) w.after(rng.chance(0.4) ? 0 : rng.real(0, T), [t, &w] { if(t->f->isOpen()) t->write(w.rng.chance(0.2) ? w.rng.u(8000) : w.rng.u(300)); });
	};
	double T = rng.real(2, 8);
	int nV = int(rng.u(3)), nE = nV ? int(rng.u(3)) : int(rng.range(1, 3));
	for(int i = 0; i < nV; i++) { Tx *t = app.open(V, E, Priority(rng.u(NUM_PRIORITIES))); t->f->onRecvFlow = [&, t] (std::shared_ptr<RecvFlow> g) { evilOffer(g, t); }; toE.push_back(t); chat(t, int(rng.range(1, 40)), T); if(rng.chance(0.2)) t->f->setBufferCapacity(rng.range(1000, 20000)); }
	for(int i = 0; i < nE; i++) { Tx *t = app.open(E, V, Priority(rng.u(NUM_PRIORITIES))); fromE.push_back(t); chat(t, int(rng.range(1, 30)), T); }
	{ Tx *t = app.open(V, H); honest.push_back(t); chat(t, 30, T); t = app.open(H, V); honest.push_back(t); chat(t, 30, T); }
	bool ok = w.run(w.now + 20, [&] {
		for(auto &s : mon.sessions) for(int d = 0; d < 2; d++) if(s->d[d].from == E->index && s->d[d].to == V->index && s->iniOpen && s->key[0] && s->d[0].pkts && s->d[1].pkts) { S = s.get(); dE = d; return true; }
		return false;
	});
	if(!ok || ctx.failed) { cleanup(w, &app); return; }
	w.run(w.now + rng.real(0, 1));
	// perhaps only the hostile packets reach the victim from now on
	bool mute = rng.chance(0.4);
	if(mute) w.onSend.push_back([&] (Pkt &p) { return !(p.fromNode == E->index && p.toNode == V->index); });
	if(rng.chance(0.3)) for(auto t : toE) t->f->setSessionFIHelloMode(rng.pick({FI_SEND_RHELLO, FI_SEND_REDIRECT, FI_IGNORE}));
	if(rng.chance(0.2)) V->rtmfp->setDefaultSessionKeepalivePeriod(1.5);

	// hostile packets
	Address eAddr = E->pub.begin()->second, vAddr = V->pub.begin()->second;
	bool noClose = rng.chance(0.85);
	int style = int(rng.u(6)); // 0..3 mixed, 4 mostly data, 5 mostly acknowledgements
	uint8_t modeByte = dE == 0 ? 1 : 2;
	std::vector<Plan> plans(rng.range(1, 4));
	uintmax_t nextEvil = 1000 + rng.u(100);
	for(auto &p : plans) { p.id = nextEvil++; p.kind = int(rng.u(4)); if(rng.chance(0.2)) { p.next = rng.bits() | 1; p.fsn = p.next - 1; } }
	auto put = [&] (Bytes &c, uint8_t type, const Bytes &body) {
		c.push_back(type); size_t n = body.size();
		if(rng.chance(0.004)) n = rng.u(2000); // lying length
		c.push_back(uint8_t(n >> 8)); c.push_back(uint8_t(n)); c.insert(c.end(), body.begin(), body.end());
	};
	auto strange = [&] () -> uintmax_t { return rng.pick({uintmax_t(0), uintmax_t(1), rng.bits(), rng.bits(), UINTMAX_MAX, UINTMAX_MAX - 1, uintmax_t(1) << 63, uintmax_t(1) << 32, (uintmax_t(1) << 62) - 1, rng.u(50)}); };
	auto vFlowId = [&] () -> uintmax_t { // a flow of the victim's
		auto &fl = S->d[1 - dE].flows;
		if(fl.empty() || rng.chance(0.05)) return rng.chance(0.5) ? rng.u(20) : rng.bits();
		auto it = fl.begin(); std::advance(it, rng.u(fl.size())); return it->first;
	};
	auto eFlowId = [&] () -> uintmax_t {
		auto &fl = S->d[dE].flows;
		if(fl.empty() || rng.chance(0.1)) return rng.chance(0.5) ? rng.u(20) : rng.bits();
		auto it = fl.begin(); std::advance(it, rng.u(fl.size())); return it->first;
	};
	auto options = [&] (uintmax_t id, bool clean) {
		Bytes o;
		auto opt = [&] (uintmax_t type, const Bytes &v) { Bytes t; putVlu(t, type); t.insert(t.end(), v.begin(), v.end()); putVlu(o, t.size()); o.insert(o.end(), t.begin(), t.end()); };
		Bytes meta{'X'}; for(int i = 0; i < 8; i++) meta.push_back(uint8_t(id >> (8 * i)));
		bool cut = !clean && rng.chance(0.2);
		if(cut) meta[0] = 'Z';
		if(!clean && rng.chance(0.2)) meta = rng.bytes(rng.pick({size_t(0), size_t(1), size_t(511), size_t(512), size_t(513), size_t(800)})), meta.empty() ? void() : void(meta[0] = 'Z');
		if(clean || rng.chance(0.8)) opt(USERDATA_OPTION_METADATA, meta);
		if(rng.chance(clean ? 0.3 : 0.5)) { Bytes a; putVlu(a, rng.chance(0.7) ? vFlowId() : strange()); if(!clean && rng.chance(0.3)) a.resize(rng.u(a.size() + 1)); opt(USERDATA_OPTION_RETURN_ASSOCIATION, a); }
		if(!clean) { if(rng.chance(0.2)) opt(strange(), rng.bytes(rng.u(40))); if(rng.chance(0.1)) { Bytes z = rng.bytes(rng.u(9)); if(!z.empty()) z[0] = 'Z'; opt(USERDATA_OPTION_METADATA, z); } }
		if(clean || rng.chance(0.85)) putVlu(o, 0);
		if(cut) o.resize(rng.u(o.size() + 1));
		return o;
	};
	auto userData = [&] (Bytes &c, const WUserData &u, bool next, bool clean) {
		Bytes b{u.flags};
		if(!next) { putVlu(b, u.flow); putVlu(b, u.seq); putVlu(b, u.seq - u.fsn); }
		if(u.flags & USERDATA_FLAG_OPT) { Bytes o = options(u.flow, clean); b.insert(b.end(), o.begin(), o.end()); }
		b.insert(b.end(), u.data.begin(), u.data.end());
		if(!clean && rng.chance(0.05)) b.resize(rng.u(b.size() + 1));
		put(c, next ? CHUNK_NEXT_USERDATA : CHUNK_USERDATA, b);
	};
	auto refill = [&] (Plan &p) { // a run of fragments, mostly sensible, disordered
		if(p.fin && rng.chance(0.5)) { p = Plan(); p.id = nextEvil++; p.kind = int(rng.u(4)); }
		std::vector<WUserData> v;
		int n = int(rng.range(2, 14)); bool in = false;
		for(int i = 0; i < n; i++) {
			WUserData u; u.flow = p.id; u.seq = p.next + i; u.fsn = p.fsn; u.data = rng.bytes(rng.chance(0.1) ? rng.u(900) : rng.u(12));
			uint8_t fra = in ? (rng.chance(0.35) ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE) : rng.chance(0.4) ? USERDATA_FRA_WHOLE : USERDATA_FRA_BEGIN;
			in = fra == USERDATA_FRA_BEGIN || fra == USERDATA_FRA_MIDDLE;
			if(p.kind >= 1 && rng.chance(p.kind == 1 ? 0.05 : p.kind == 2 ? 0.3 : 0.8)) fra = uint8_t(rng.pick({USERDATA_FRA_WHOLE, USERDATA_FRA_BEGIN, USERDATA_FRA_MIDDLE, USERDATA_FRA_MIDDLE, USERDATA_FRA_END, USERDATA_FRA_END}));
			u.flags = fra;
			if(rng.chance(0.04)) u.flags |= USERDATA_FLAG_ABN;
			if(rng.chance(0.004)) { u.flags |= USERDATA_FLAG_FIN; p.fin = true; }
			v.push_back(u);
			if(rng.chance(0.15)) { u.data = rng.chance(0.5) ? u.data : rng.bytes(rng.u(30)); if(rng.chance(0.5)) u.flags = uint8_t(rng.u(4) << 4); v.push_back(u); } // again, perhaps different
			if(rng.chance(0.05)) v.pop_back();
		}
		for(size_t i = 0; i + 1 < v.size(); i++) if(rng.chance(0.7)) std::swap(v[i], v[i + rng.u(std::min<size_t>(v.size() - i, 6))]);
		for(auto &u : v) { if(rng.chance(0.1)) { p.fsn = std::max(p.fsn, std::min(u.seq, p.next + rng.u(n))); } u.fsn = std::min(u.seq, p.fsn); p.q.push_back(u); }
		p.next += n;
		if(rng.chance(0.1)) p.next += rng.u(5);
		if(rng.chance(0.3)) p.fsn = std::max(p.fsn, p.next - 1);
	};
	auto packet = [&] {
		Bytes c{modeByte};
		if(rng.chance(0.5)) { c[0] |= 0x08; uint16_t ts = uint16_t(rng.bits()); if(rng.chance(0.7)) ts = uint16_t(uint64_t(w.now * 250)); c.push_back(uint8_t(ts >> 8)); c.push_back(uint8_t(ts)); }
		if(rng.chance(0.3)) { c[0] |= 0x04; uint16_t ts = uint16_t(rng.chance(0.6) ? uint64_t(V->rtmfp->getInstanceAge() * 250) - rng.u(300) : rng.bits()); c.push_back(uint8_t(ts >> 8)); c.push_back(uint8_t(ts)); }
		if(rng.chance(0.1)) c[0] |= 0x80;
		if(rng.chance(0.1)) c[0] |= 0x40;
		if(rng.chance(0.02)) c[0] ^= uint8_t(1 << rng.u(8));
		if(rng.chance(0.01)) { c.resize(rng.u(c.size() + 1)); if(c.empty()) c.push_back(uint8_t(rng.bits())); return c; }
		int n = int(rng.chance(0.5) ? rng.range(1, 3) : rng.range(1, 12));
		for(int i = 0; i < n && c.size() < 1100; i++) {
			int k = int(rng.u(20));
			if(style == 4 && rng.chance(0.8)) k = int(rng.u(6));
			if(style == 5 && rng.chance(0.8)) k = int(rng.range(8, 11));
			switch(k) {
			case 0: case 1: case 2: case 3: case 4: { // a plan's fragments
				Plan &p = plans[rng.u(plans.size())];
				int m = int(rng.range(1, 4)); WUserData prev; bool have = false;
				while(m-- && c.size() < 1000) {
					while(p.q.empty()) refill(p);
					WUserData u = p.q.front(); p.q.pop_front();
					bool next = have && u.flow == prev.flow && u.seq == prev.seq + 1 && u.fsn == prev.fsn && rng.chance(0.7);
					if(!p.announced || rng.chance(0.02)) u.flags |= USERDATA_FLAG_OPT;
					if(rng.chance(0.9)) p.announced = true;
					if(u.flags & USERDATA_FLAG_ABN && rng.chance(0.7)) u.data.clear();
					userData(c, u, next, true);
					prev = u; have = true;
				}
				break; }
			case 5: { WUserData u; u.flow = eFlowId(); FlowW &f = S->d[dE].flows[u.flow]; u.seq = rng.chance(0.8) ? f.maxSeq + rng.u(8) : strange(); u.fsn = rng.chance(0.5) ? 0 : rng.chance(0.8) ? u.seq - std::min<uintmax_t>(u.seq, rng.u(6)) : strange(); u.flags = uint8_t(rng.u(4) << 4); if(rng.chance(0.02)) u.flags |= USERDATA_FLAG_FIN; if(rng.chance(0.1)) u.flags |= USERDATA_FLAG_ABN; if(rng.chance(0.1)) u.flags |= USERDATA_FLAG_OPT; u.data = rng.bytes(rng.u(30)); userData(c, u, false, rng.chance(0.5)); break; }
			case 6: { WUserData u; u.flow = rng.chance(0.5) ? nextEvil++ : strange(); u.seq = strange(); u.fsn = rng.chance(0.5) ? u.seq - std::min<uintmax_t>(u.seq, strange()) : strange(); u.flags = uint8_t(rng.bits()); u.data = rng.bytes(rng.u(30)); bool next = rng.chance(0.15); if(next) u.flags &= 0x7f; else if(rng.chance(0.6)) u.flags |= USERDATA_FLAG_OPT; userData(c, u, next, rng.chance(0.4)); break; }
			case 7: { Bytes b = rng.bytes(rng.u(12)); put(c, rng.chance(0.5) ? CHUNK_NEXT_USERDATA : CHUNK_USERDATA, b); break; }
			case 8: case 9: case 10: { // acknowledgement
				uintmax_t id = vFlowId(); FlowW *f = S->d[1 - dE].flows.count(id) ? &S->d[1 - dE].flows[id] : nullptr;
				Bytes b; putVlu(b, id); putVlu(b, rng.chance(0.5) ? 64 : rng.chance(0.5) ? rng.u(4) : strange());
				uintmax_t top = f ? f->maxSeq : 5, cum = rng.chance(0.6) ? (top ? rng.u(top + 1) : 0) : rng.chance(0.6) ? top + rng.u(4) : strange();
				putVlu(b, cum);
				int r = rng.chance(0.5) ? int(rng.u(4)) : rng.chance(0.1) ? 100 : 0;
				for(int j = 0; j < r; j++) { putVlu(b, rng.chance(0.9) ? rng.u(4) : strange()); putVlu(b, rng.chance(0.9) ? rng.u(4) : strange()); }
				if(rng.chance(0.05)) b.resize(rng.u(b.size() + 1));
				if(rng.chance(0.05)) b.push_back(uint8_t(rng.bits()));
				put(c, rng.chance(0.95) ? CHUNK_ACK_RANGES : CHUNK_ACK_BITMAP, b);
				break; }
			case 11: { Bytes b; putVlu(b, vFlowId()); if(rng.chance(0.97)) putVlu(b, strange()); if(rng.chance(0.1)) b.resize(rng.u(b.size() + 1)); if(rng.chance(0.1)) put(c, CHUNK_EXCEPTION, b); else if(rng.chance(0.5)) put(c, 0x18, b); break; }
			case 12: { Bytes b; putVlu(b, eFlowId()); if(rng.chance(0.1)) b.resize(rng.u(b.size() + 1)); put(c, 0x18, b); break; }
			case 13: { Bytes b = rng.bytes(rng.pick({size_t(0), size_t(1), rng.u(40), rng.u(1000), size_t(997), size_t(998), size_t(1100)})); put(c, CHUNK_PING, b); break; }
			case 14: { // ping reply
				Bytes b;
				if(!pingsFromV.empty() && rng.chance(0.7)) b = pingsFromV[rng.u(pingsFromV.size())].first; else b = rng.bytes(rng.u(60));
				if(!b.empty() && rng.chance(0.3)) b[rng.u(b.size())] ^= uint8_t(1 << rng.u(8));
				if(rng.chance(0.1)) b.resize(rng.u(b.size() + 1));
				put(c, CHUNK_PING_REPLY, b); break; }
			case 15: { // forwarded hello
				Bytes b; Bytes epd; std::string nm = rng.pick({std::string("victim"), std::string("honest"), std::string("nobody"), std::string()}); epd.assign(nm.begin(), nm.end()); if(rng.chance(0.2)) epd = rng.bytes(rng.u(300));
				putVlu(b, rng.chance(0.9) ? epd.size() : strange()); b.insert(b.end(), epd.begin(), epd.end());
				Bytes a = A(rng.pick({std::string("10.0.0.3:1002"), std::string("7.7.7.7:7"), std::string("[2001:db8::9]:99")})).encode();
				if(rng.chance(0.1)) a.resize(rng.u(a.size() + 1));
				b.insert(b.end(), a.begin(), a.end());
				Bytes tag = rng.bytes(rng.chance(0.8) ? 16 : rng.u(400)); b.insert(b.end(), tag.begin(), tag.end());
				put(c, 0x0f, b); break; }
			case 16: put(c, CHUNK_ECN_REPORT, rng.bytes(rng.chance(0.8) ? 1 : rng.u(4))); break;
			case 17: put(c, uint8_t(rng.bits()), rng.bytes(rng.u(60))); if(c.size() > 10 && noClose) { /* an accidental close chunk is fine */ } break;
			case 18: put(c, rng.pick({uint8_t(0x30), uint8_t(0x70), uint8_t(0x38), uint8_t(0x78), uint8_t(0x79), uint8_t(0x71)}), rng.bytes(rng.u(100))); break;
			default: if(!noClose && rng.chance(0.05)) put(c, rng.chance(0.7) ? CHUNK_CLOSE : CHUNK_CLOSE_ACK, rng.chance(0.8) ? Bytes() : rng.bytes(rng.u(5))); break;
			}
		}
		if(rng.chance(0.3)) while(c.size() < 1190 && rng.chance(0.8)) c.push_back(0xff); // padding
		if(rng.chance(0.02)) c.resize(rng.range(1, c.size()));
		return c;
	};
	auto throwOne = [&] {
		if(mon.bySid[{V->index, dE == 0 ? S->sidR : S->sidI}].first != S) return;
		Bytes c = packet();
		Bytes b = mon.seal(*S, dE, c);
		mon.blessed.insert(hash64(b));
		hostile++;
		Address from = eAddr;
		if(rng.chance(0.02)) { from = A(fmt("66.6.6.%d:%d", int(rng.range(1, 3)), 600 + int(rng.u(3)))); moves++; }
		w.inject(b, from, vAddr, rng.chance(0.1) ? int(rng.u(4)) : 0, rng.chance(0.3) ? rng.real(0, 0.1) : 0);
	};
	int total = int(rng.logreal(30, 1500));
	double span = rng.logreal(1, T * 2);
	for(int i = 0; i < total; i++) w.after(rng.real(0, span), throwOne);
	// the victim's application goes on
	for(int i = 0; i < 20; i++) w.after(rng.real(0, span), [&] {
		if(!erx.empty() && rng.chance(0.5)) {
			EvilRx *r = erx[rng.u(erx.size())].get();
			if(!r->closedByUs && !r->completes) switch(rng.u(5)) { case 0: r->f->setReceiveOrder(RO_HOLD); break; case 1: r->f->setReceiveOrder(RO_NETWORK); break; case 2: r->f->setReceiveOrder(RO_SEQUENCE); break; case 3: r->f->setBufferCapacity(rng.u(70000)); break; default: if(rng.chance(0.3)) { r->closedByUs = true; r->f->close(); } }
		}
		if(!toE.empty()) { Tx *t = toE[rng.u(toE.size())]; if(t->f->isOpen()) switch(rng.u(4)) { case 0: t->write(rng.u(5000)); break; case 1: t->f->setPriority(Priority(rng.u(NUM_PRIORITIES))); break; case 2: if(!t->msgs.empty()) { Msg *m = t->msgs[rng.u(t->msgs.size())].get(); if(m->r) m->r->abandon(); } break; default: if(rng.chance(0.05)) t->close(); else t->write(rng.u(200), 0.1, 0.3); } }
		if(rng.chance(0.1)) for(auto &p : pingsFromV) (void)p;
	});
	w.run(w.now + span + 0.5);
	for(auto &kv : w.paths) { kv.second.loss = 0; kv.second.reorder = 0; kv.second.dup = 0; }
	w.run(w.now + rng.logreal(0.1, rng.chance(0.1) ? 200 : 5));
	// the honest session is alive and well
	for(auto t : honest) if(t->f->isOpen()) t->write(777);
	ok = w.run(w.now + 60, [&] { for(auto t : honest) if(!t->rx || t->rx->delivered < t->msgs.size()) return false; return true; });
	if(!ctx.failed) CHECK(ok, "honest-session-hurt", "60 s after the last hostile packet the honest peer's data is missing: %s", app.pending().c_str());
	over = true;
	// closing concludes everything of the hostile session
	if(!ctx.failed) {
		std::vector<Tx *> live; std::vector<EvilRx *> liveRx;
		for(auto t : toE) if(t->f->isOpen() && !t->closedByApp && t->bound()) live.push_back(t);
		for(auto &r : erx) if(!r->closedByUs && !r->completes) liveRx.push_back(r.get());
		if(!live.empty() || !liveRx.empty()) {
			int how = int(rng.u(3));
			if(how == 0 && mon.bySid[{V->index, dE == 0 ? S->sidR : S->sidI}].first == S) { Bytes c{modeByte, CHUNK_CLOSE, 0, 0}; mon.craft(*S, dE, c); }
			else if(how == 1) { if(!live.empty()) live[0]->f->closeSession(); else liveRx[0]->f->closeSession(); }
			else ending = true, V->rtmfp->shutdown(rng.chance(0.5));
			bool shut = how == 2;
			w.run(w.now + 1);
			if(shut) w.run(w.now + 120);
			for(auto t : live) { CHECK(t->exceptions == 1 || t->closedByApp, "flow-not-concluded", "session closed (%d) but flow %u saw %d exceptions", how, t->id, t->exceptions); for(auto &m : t->msgs) CHECK(m->finished == 1 || !m->r, "receipt-not-concluded", "session closed (%d) but message %u of flow %u finished %d times", how, m->idx, t->id, m->finished); concluded++; }
			// a held flow may have received all there is: it concludes when taken off hold
			for(auto r : liveRx) if(!r->completes && !r->closedByUs && r->f->getReceiveOrder() == RO_HOLD) { r->f->setReceiveOrder(RO_SEQUENCE); heldConcluded++; }
			w.run(w.now + 1);
			for(auto r : liveRx) { CHECK(r->completes == 1 || r->closedByUs, "flow-not-concluded", "session closed (%d) but hostile flow %ju completed %d times (order %d, buffered %zu, cumulative %ju, session %d)", how, r->flow, r->completes, int(r->f->getReceiveOrder()), r->f->getBufferedSize(), r->f->getCumulativeAckSequenceNumber(), r->f->isOpen()); concluded++; }
		}
	}
	statsFromWorld(w);
	ctx.stat("hostile_packets", hostile); ctx.stat("hostile_packets_taken", taken); ctx.stat("hostile_messages_judged", judged); ctx.stat("hostile_multi_fragment_messages", judgedMulti); ctx.stat("hostile_flows_offered", offers); ctx.stat("hostile_flows_rejected", rejected); ctx.stat("return_flows_to_hostile", returns); ctx.stat("exceptions_seen", excs); ctx.stat("address_moves_tried", moves); ctx.stat("held_flows_concluded", heldConcluded); ctx.stat("flows_concluded_by_close", concluded);
	uint64_t hm = 0; for(auto t : honest) if(t->rx) hm += t->rx->delivered;
	ctx.stat("honest_messages_delivered", hm);
	ctx.nontrivial = taken >= 20 && judged > 0;
	ctx.sample(fmt("case %llu: %llu hostile packets (%llu taken), %llu messages of theirs judged (%llu multi-fragment), %llu honest messages, %llu flows concluded", (unsigned long long)ctx.caseIndex, (unsigned long long)hostile, (unsigned long long)taken, (unsigned long long)judged, (unsigned long long)judgedMulti, (unsigned long long)hm, (unsigned long long)concluded));
	mon.onSent = nullptr; mon.onModel = nullptr; mon.onReplayed = nullptr;
	for(auto &r : erx) if(r->f) { r->f->onMessage = nullptr; r->f->onComplete = nullptr; }
	V->rtmfp->onRecvFlow = nullptr; E->rtmfp->onRecvFlow = nullptr;
	for(auto t : toE) t->f->onRecvFlow = nullptr;
	cleanup(w, &app);
}
}
