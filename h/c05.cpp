// C05: packets from parties without the session key, interleaved with genuine traffic at any point of a session's life.
#include "wire.hpp"
namespace vf {
const char *driverRule() { return "one case = two endpoints opening, using, closing and reopening a session while a third party sends garbage, truncated, altered and replayed genuine packets, and startup chunks of every kind with any field contents, from any source address; run under AddressSanitizer and UBSan; non-trivial when at least 20 foreign packets arrived while a session was established and all genuine data was judged; distinct by the hash of every packet and its fate"; }
uint64_t driverCases(bool t) { return t ? 200000 : 6000; }
void driverInit() {}
void driverDone() {}

static const size_t MAX_STARTUP = 4256 + 4 + SimCrypto::MAC;

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	w.dflt.delay = rng.logreal(0.0005, 0.1);
	bool lossy = rng.chance(0.4);
	if(lossy) { w.dflt.loss = rng.real(0, 0.1); w.dflt.reorder = rng.real(0, 0.3); w.dflt.dup = rng.real(0, 0.1); w.dflt.maxConsecLoss = 3; }
	for(int i = 0; i < 2; i++) {
		Node *n = w.addNode(i == 0 ? "victim" : "honest", {fmt("10.0.0.%d:%d", i + 1, 1000 + i)});
		n->rtmfp->setDefaultSessionRetransmitLimit(100000);
		n->platform->performDelay0 = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.003); n->platform->performDelayN = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.05);
		if(rng.chance(0.2)) n->sim->lateAuth = true;
	}
	for(auto &a : w.nodes) for(auto &b : w.nodes) w.path(a->index, b->index);
	Node *V = w.nodes[0].get(), *H = w.nodes[1].get();
	App app(w);
	WireMon mon(w, app);
	mon.badGrammarFails = false;
	for(auto &n : w.nodes) app.listen(n.get());
	// an on-path attacker can prevent opening: then only safety is judged
	bool onPathOpen = rng.chance(0.25), established = false, judge = true;
	Address aV = V->pub.begin()->second, aH = H->pub.begin()->second;
	auto addrOf = [&] (int i) { return i == 0 ? aV : aH; };
	struct Rec { Bytes data; Address src, dst; long double at; int from; bool startup; int tos; };
	std::vector<Rec> taped; std::vector<Bytes> iikeyings[2]; std::vector<std::pair<Bytes, long double>> iik[2]; // clear IIKeying packets by sender
	std::vector<Bytes> tags, cookies, skics; // genuine
	std::set<uint64_t> genuine;
	std::set<Address> strangers; // addresses foreign packets came from
	std::map<std::pair<int, uint32_t>, std::pair<Sess *, int>> &bySid = mon.bySid;
	std::set<uint32_t> sidsSeen[2]; // session ids in packets to the node
	uint64_t foreign = 0, duringEst = 0, replays = 0, mutants = 0, startups = 0, garbage = 0, refused = 0, answered = 0, reopens = 0, probes = 0, oldKeyings = 0, stormed = 0;
	size_t biggest = 0;
	std::vector<Tx *> flows;

	std::vector<Tx *> live;   // flows that must keep working
	app.onExc = [&] (Tx *t) { if(judge && established) ctx.fail("session-hurt", "flow %u %s->%s failed with %ju %s", t->id, t->src->name.c_str(), t->dst->name.c_str(), t->reason, "though the network works and nobody closed it"); };

	w.onSend.push_back([&] (Pkt &p) {
		biggest = std::max(biggest, p.data.size());
		CHECK(p.data.size() <= MAX_STARTUP, "packet-too-large", "%s sent %zu bytes", w.nodes[p.fromNode]->name.c_str(), p.data.size());
		Wire k = decodeWire(p.data);
		Rec r{p.data, p.src, p.dst, w.now, p.fromNode, k.sid == 0 || (k.ok && !k.chunks.empty() && (k.chunks[0].type == 0x78 || k.chunks[0].type == 0x79)), p.tos};
		if(p.toNode >= 0 && p.toNode != p.fromNode) {
			if(taped.size() < 3000) taped.push_back(r); else taped[rng.u(taped.size())] = r;
			genuine.insert(hash64(p.data));
			sidsSeen[p.toNode].insert(k.sid);
			if(k.ok && k.sid == 0) for(auto &c : k.chunks) {
				size_t off = 0; uintmax_t n;
				if(c.type == 0x38) { Bytes clear(p.data.begin() + 4, p.data.end() - 8); iik[p.fromNode].push_back({clear, w.now}); off = 4; if(vlu(c.body, off, n) && n <= c.body.size() - off) cookies.push_back(Bytes(c.body.begin() + off, c.body.begin() + off + n)); }
				if(c.type == 0x30 && vlu(c.body, off, n) && n <= c.body.size() - off) tags.push_back(Bytes(c.body.begin() + off + n, c.body.end()));
			}
		} else {
			answered++;
			if(onPathOpen && k.sid == 0 && k.ok && !k.chunks.empty() && (k.chunks[0].type == 0x30 || k.chunks[0].type == 0x38)) return true; // led astray while opening
			CHECK(strangers.count(p.dst) || p.toNode >= 0, "packet-to-nowhere", "%s sent %zu bytes (sid %08x flags %02x) to %s, from where nothing ever came", w.nodes[p.fromNode]->name.c_str(), p.data.size(), k.sid, k.flags, S(p.dst).c_str());
			std::string what; bool ok = k.ok;
			for(auto &c : k.chunks) {
				what += fmt(" %02x/%zu", c.type, c.body.size());
				if(c.type == CHUNK_PING) probes++;
				// a hello's answer, a cookie change, an address check, an answer to a replayed ping; close acknowledgement
				if(c.type != 0x70 && c.type != 0x79 && c.type != CHUNK_PING && c.type != CHUNK_PING_REPLY && c.type != CHUNK_CLOSE_ACK && c.type != CHUNK_CLOSE) ok = false;
			}
			CHECK(ok, "told-a-stranger", "%s sent to a stranger at %s: sid %08x flags %02x chunks%s", w.nodes[p.fromNode]->name.c_str(), S(p.dst).c_str(), k.sid, k.flags, what.c_str());
		}
		return true;
	});
	struct Expect { bool mustRefuse; const char *what; };
	std::map<uint64_t, Expect> expect; // by packet id
	uint64_t closesTaken = 0;
	w.onArrived.push_back([&] (const Pkt &p, bool rv) {
		if(p.fromNode >= 0 && rv) { Wire k = decodeWire(p.data); for(auto &c : k.chunks) if(c.type == CHUNK_CLOSE || c.type == CHUNK_CLOSE_ACK) closesTaken++; }
		if(p.fromNode >= 0) return;
		auto it = expect.find(p.id);
		foreign++; if(established) duringEst++;
		if(!rv) refused++;
		if(it != expect.end()) { if(it->second.mustRefuse) CHECK(!rv, "taken-as-own", "%s took a foreign datagram (%s, %zu bytes) as its own", w.nodes[p.toNode]->name.c_str(), it->second.what, p.data.size()); expect.erase(it); }
	});
	auto isOpenSid = [&] (int node, uint32_t sid) { // a session established at that node
		auto it = bySid.find({node, sid});
		if(it == bySid.end() || !it->second.first) return false;
		Sess *s = it->second.first;
		return established && s->key[0] && s->iniOpen && s->d[0].pkts && s->d[1].pkts;
	};
	auto throwAt = [&] (const Bytes &b, const Address &src, int node, bool refuse, const char *what, int tos = 0) {
		strangers.insert(src);
		w.inject(b, src, addrOf(node), tos, 0);
		// decided at arrival: nothing else happens in between
		if(refuse) expect[w.pktId] = {true, what};
	};
	auto source = [&] (int node) -> Address { // where a foreign packet claims to come from
		if(rng.chance(0.35)) return addrOf(1 - node);
		if(rng.chance(0.05)) return addrOf(node);
		return A(rng.chance(0.9) ? fmt("66.6.6.%d:%d", int(rng.range(1, 5)), 600 + int(rng.u(4))) : fmt("[2001:db8::%d]:99", int(rng.range(1, 3))));
	};
	auto sidFor = [&] (int node) -> uint32_t {
		auto &s = sidsSeen[node];
		if(s.empty() || rng.chance(0.3)) return uint32_t(rng.chance(0.3) ? rng.u(20) : rng.chance(0.3) ? 0xffffffffu - rng.u(3) : rng.bits());
		auto it = s.begin(); std::advance(it, rng.u(s.size())); return *it;
	};
	auto scramble = [&] (Bytes &b, uint32_t sid) { // make the datagram carry that session id
		if(b.size() < 4) return;
		uint32_t x[3] = {0, 0, 0}; memcpy(x + 1, b.data() + 4, std::min<size_t>(8, b.size() - 4)); x[0] = sid ^ x[1] ^ x[2]; memcpy(b.data(), x, 4);
	};
	auto knows = [&] (const Bytes &b, int node) { Wire k = decodeWire(b); if(b.size() < 4) return false; uint32_t x[3] = {0, 0, 0}; memcpy(x, b.data(), std::min<size_t>(12, b.size())); uint32_t sid = x[0] ^ x[1] ^ x[2]; return sid < 1000 || sidsSeen[node].count(sid) > 0; };
	// any key this attacker has: none. Whatever is not genuine bytes for a known session must be refused.
	auto mustRefuse = [&] (const Bytes &b, int node, bool sealed) {
		uint32_t x[3] = {0, 0, 0}; if(b.size() < 4) return true; memcpy(x, b.data(), std::min<size_t>(12, b.size())); uint32_t sid = x[0] ^ x[1] ^ x[2];
		if(genuine.count(hash64(b))) return !knows(b, node);
		if(sid == 0) return !sealed;
		if(!knows(b, node)) return true;
		if(!sealed) return true;
		return isOpenSid(node, sid);
	};
	auto field = [&] (Bytes &b, const Bytes &v, double pLie = 0.03) { putVlu(b, rng.chance(pLie) ? (rng.chance(0.5) ? rng.bits() : rng.u(5000)) : v.size()); b.insert(b.end(), v.begin(), v.end()); };
	auto junk = [&] (size_t max) { return rng.bytes(rng.chance(0.5) ? rng.u(40) : rng.pick({size_t(0), size_t(1), rng.u(max + 1), max})); };
	auto S_ = [] (const std::string &s) { return Bytes(s.begin(), s.end()); };
	auto mutate = [&] (Bytes b) {
		int n = int(rng.range(1, 4));
		for(int i = 0; i < n; i++) switch(rng.u(6)) {
		case 0: b.resize(rng.u(b.size() + 1)); break;
		case 1: { Bytes e = junk(300); b.insert(b.end(), e.begin(), e.end()); break; }
		case 2: if(!b.empty()) { size_t o = rng.u(b.size()), k = std::min<size_t>(b.size() - o, rng.u(9)); b.erase(b.begin() + o, b.begin() + o + k); } break;
		default: if(!b.empty()) b[rng.u(b.size())] ^= uint8_t(1 << rng.u(8));
		}
		return b;
	};
	auto chunk = [&] (Bytes &c, uint8_t type, const Bytes &body) { size_t n = body.size(); if(rng.chance(0.01)) n = rng.u(5000); c.push_back(type); c.push_back(uint8_t(n >> 8)); c.push_back(uint8_t(n)); c.insert(c.end(), body.begin(), body.end()); };
	auto startupChunk = [&] (Bytes &c, int node, bool onPath) {
		Bytes b;
		std::string me = node ? "honest" : "victim";
		switch(rng.u(10)) {
		case 0: case 1: case 2: // hello
			field(b, rng.chance(0.7) ? S_(rng.pick({me, "alias:" + me, std::string("nobody"), std::string(), std::string("group:") + me[0]})) : junk(2000));
			{ Bytes t = rng.chance(0.7) ? rng.bytes(16) : junk(4200); b.insert(b.end(), t.begin(), t.end()); }
			chunk(c, 0x30, b); break;
		case 3: // responder hello
			field(b, onPath && !tags.empty() && rng.chance(0.6) ? rng.pick(tags) : junk(300));
			field(b, onPath && !cookies.empty() && rng.chance(0.5) ? rng.pick(cookies) : junk(500));
			{ Bytes t = rng.chance(0.6) ? SimCrypto::encodeCert(rng.pick({std::string("honest"), std::string("victim"), std::string("mallory")}), rng.chance(0.7)) : junk(600); b.insert(b.end(), t.begin(), t.end()); }
			chunk(c, 0x70, b); break;
		case 4: { // redirect
			field(b, onPath && !tags.empty() && rng.chance(0.6) ? rng.pick(tags) : junk(300));
			int n = int(rng.u(rng.chance(0.1) ? 200 : 4));
			for(int i = 0; i < n; i++) { Bytes e = source(node).encode(); if(rng.chance(0.1)) e = junk(20); b.insert(b.end(), e.begin(), e.end()); }
			chunk(c, 0x71, b); break; }
		case 5: case 6: { // keying
			Bytes isid = rng.bytes(4); b.insert(b.end(), isid.begin(), isid.end());
			Bytes ck = onPath && !cookies.empty() && rng.chance(0.8) ? rng.pick(cookies) : junk(200);
			if(rng.chance(0.4)) ck = mutate(ck);
			field(b, ck);
			field(b, SimCrypto::encodeCert(rng.pick({std::string("honest"), std::string("victim"), std::string("mallory")}), rng.chance(0.8)));
			field(b, rng.chance(0.8) ? rng.bytes(8) : junk(600));
			Bytes sg = rng.chance(0.5) ? SimCrypto::signBytes("mallory", b.data(), b.size()) : junk(400);
			b.insert(b.end(), sg.begin(), sg.end());
			if(rng.chance(0.1)) b.resize(rng.u(b.size() + 1));
			chunk(c, 0x38, b); break; }
		case 7: // responder keying or cookie change, in clear
			if(rng.chance(0.5)) { Bytes r = rng.bytes(4); b.insert(b.end(), r.begin(), r.end()); field(b, rng.chance(0.7) ? rng.bytes(8) : junk(600)); Bytes sg = junk(100); b.insert(b.end(), sg.begin(), sg.end()); if(rng.chance(0.2)) b.resize(rng.u(b.size() + 1)); chunk(c, 0x78, b); }
			else { field(b, onPath && !cookies.empty() ? rng.pick(cookies) : junk(200)); Bytes n = junk(500); b.insert(b.end(), n.begin(), n.end()); chunk(c, 0x79, b); }
			break;
		case 8: chunk(c, rng.pick({uint8_t(0x0f), uint8_t(CHUNK_CLOSE), uint8_t(CHUNK_CLOSE_ACK), uint8_t(CHUNK_USERDATA), uint8_t(CHUNK_ACK_RANGES), uint8_t(CHUNK_PING), uint8_t(CHUNK_PING_REPLY)}), junk(1500)); break;
		default: chunk(c, uint8_t(rng.bits()), junk(1500));
		}
	};
	auto attack = [&] {
		int node = rng.chance(0.6) ? 0 : 1;
		bool onPath = established || onPathOpen;
		int k = int(rng.u(10));
		Address src = source(node);
		if(k < 2) { // garbage
			Bytes b = rng.bytes(rng.chance(0.6) ? rng.u(64) : rng.pick({rng.u(1500), rng.u(9000), size_t(65000), size_t(4), size_t(12)}));
			if(rng.chance(0.7)) scramble(b, rng.chance(0.3) ? 0 : sidFor(node));
			garbage++; throwAt(b, src, node, mustRefuse(b, node, false), "garbage", int(rng.u(4)));
		} else if(k < 4 && onPath && !taped.empty()) { // altered
			auto &r = taped[taped.size() - 1 - rng.u(std::min<size_t>(taped.size(), 200))];
			Bytes b = mutate(r.data);
			if(rng.chance(0.4)) { uint32_t x[3] = {0, 0, 0}; if(r.data.size() >= 12) memcpy(x, r.data.data(), 12); scramble(b, x[0] ^ x[1] ^ x[2]); }
			if(genuine.count(hash64(b))) return; // altered back
			int n2 = r.from == 0 ? 1 : 0; if(rng.chance(0.1)) n2 = 1 - n2;
			mutants++; throwAt(b, rng.chance(0.6) ? r.src : src, n2, mustRefuse(b, n2, r.startup), "altered", r.tos);
		} else if(k < 6 && onPath && !taped.empty()) { // replayed
			auto &r = taped[taped.size() - 1 - rng.u(std::min<size_t>(taped.size(), rng.chance(0.3) ? 3000 : 100))];
			if(!r.startup && w.now - r.at > 60) return; // beyond how long a flow is remembered it is up to the crypto
			if(r.startup && !established && !onPathOpen) return;
			int n2 = r.from == 0 ? 1 : 0; if(rng.chance(0.1)) n2 = 1 - n2;
			replays++; throwAt(r.data, rng.chance(0.5) ? r.src : src, n2, false, "replayed", r.tos);
		} else { // startup chunks
			Bytes c{uint8_t(rng.chance(0.9) ? 3 : rng.u(4))};
			if(rng.chance(0.2)) { c[0] |= 8; c.push_back(uint8_t(rng.bits())); c.push_back(uint8_t(rng.bits())); }
			if(rng.chance(0.02)) c[0] = uint8_t(rng.bits());
			int n = int(rng.chance(0.7) ? 1 : rng.u(5));
			bool keying = rng.chance(0.3) && onPath && !(iik[0].empty() && iik[1].empty());
			uint32_t sid = rng.chance(0.75) ? 0 : sidFor(node);
			if(keying) { // a genuine keying, perhaps altered
				int from = iik[0].empty() ? 1 : iik[1].empty() ? 0 : int(rng.u(2));
				auto &x = iik[from][rng.u(iik[from].size())];
				c = x.first; sid = 0; node = 1 - from;
				bool exact = rng.chance(0.5);
				if(!exact) { Bytes d = c; int m = int(rng.range(1, 3)); for(int i = 0; i < m; i++) d[rng.u(d.size())] ^= uint8_t(1 << rng.u(8)); if(d == c) return; c = d; }
				else oldKeyings++;
				if(rng.chance(0.6)) src = addrOf(from);
			} else for(int i = 0; i < n; i++) startupChunk(c, node, onPath);
			if(rng.chance(0.2)) while(rng.chance(0.9)) c.push_back(0xff);
			Bytes b = sealDefault(c, sid);
			startups++; throwAt(b, src, node, mustRefuse(b, node, true), "startup");
		}
	};
	auto storm = [&] (long double span, int n) { for(int i = 0; i < n; i++) w.after(rng.real(0, double(span)), attack); };
	auto chat = [&] (Tx *t, int n, double T) { for(int i = 0; i < n; i++) w.after(rng.chance(0.4) ? 0 : rng.real(0, T), [t, &w] { if(t->f->isOpen() && !t->closedByApp) t->write(w.rng.chance(0.2) ? w.rng.u(8000) : w.rng.u(300)); }); };

	int rounds = int(rng.pick({1, 1, 2, 2, 3}));
	uint64_t data = 0;
	for(int round = 0; round < rounds && !ctx.failed; round++) {
		established = false;
		double T = rng.real(0.5, 6);
		Node *ini = rng.chance(0.5) ? V : H, *rsp = ini == V ? H : V;
		std::vector<Tx *> cur;
		size_t before = mon.sessions.size();
		{ Tx *t = app.open(ini, rsp); cur.push_back(t); chat(t, int(rng.range(1, 30)), T); }
		if(rng.chance(0.5)) { Tx *t = app.open(ini, rsp); cur.push_back(t); chat(t, int(rng.range(1, 20)), T); }
		storm(rng.real(0, 2), int(rng.u(60)));
		bool ok = w.run(w.now + (onPathOpen ? 60 : 40), [&] { for(size_t i = before; i < mon.sessions.size(); i++) { auto &s = mon.sessions[i]; if(s->iniOpen && s->key[0] && s->d[0].pkts && s->d[1].pkts && cur[0]->bound() && cur[0]->rx) return true; } return false; });
		if(ctx.failed) break;
		if(!ok) {
			if(!onPathOpen) ctx.fail("cannot-open", "with only blind foreign packets and at most 3 consecutive losses the session did not open in 40 s (round %d): %s", round, app.pending().c_str());
			else judge = false;
			break;
		}
		// on-path meddling with the opening may have left other half-open sessions; only what opened cleanly is judged
		if(onPathOpen && mon.sessions.size() > before + 1) { judge = false; }
		established = true;
		if(rng.chance(0.7)) { Tx *t = app.open(rsp, ini); if(t) { cur.push_back(t); chat(t, int(rng.range(1, 30)), T); } }
		long double span = rng.logreal(0.5, 30);
		storm(span, int(rng.logreal(20, 500)));
		if(rng.chance(0.1)) { stormed++; for(int i = 0; i < 300; i++) w.after(0.1 + i * 0.0001, attack); }
		w.run(w.now + std::max((long double)T, span) + 0.2);
		if(!judge) continue;
		for(auto t : cur) if(t->f->isOpen()) t->write(500);
		ok = w.run(w.now + 600, [&] { for(auto t : cur) if(!t->rx || t->rx->delivered < t->msgs.size()) return false; return true; });
		if(ctx.failed) break;
		CHECK(ok, "data-stuck", "600 s after the attack genuine data is missing: %s", app.pending().c_str());
		for(auto t : cur) {
			data += t->msgs.size();
			CHECK(!t->farAddressChanges && (!t->rx || !t->rx->farAddressChanges), "address-moved", "flow %u %s->%s: far address changed", t->id, t->src->name.c_str(), t->dst->name.c_str());
			CHECK(Address(t->f->getFarAddress()) == addrOf(t->dst->index), "address-moved", "flow %u: far address is now %s", t->id, S(t->f->getFarAddress()).c_str());
		}
		established = false;
		if(round + 1 < rounds) { // close, and open again while old cookies are still good
			reopens++;
			w.run(w.now + 2); // what was set off by the last foreign packets is over
			closesTaken = 0;
			for(auto t : cur) if(t->f->isOpen()) { t->f->closeSession(); break; }
			w.run(w.now + 60, [&] { return closesTaken > 0; });
			w.run(w.now + rng.pick({0.5 + rng.real(0, 2), rng.real(20, 60), rng.real(21, 30)}));
		}
	}
	w.run(w.now + 1);
	CHECK(w.now < 1e6, "time", "virtual time");
	// what opened cleanly is one session per round
	statsFromWorld(w);
	ctx.stat("foreign_packets", foreign); ctx.stat("foreign_packets_while_established", duringEst); ctx.stat("foreign_refused", refused); ctx.stat("garbage", garbage); ctx.stat("altered", mutants); ctx.stat("replayed", replays); ctx.stat("startup_packets", startups); ctx.stat("genuine_keyings_replayed", oldKeyings); ctx.stat("answers_to_strangers", answered); ctx.stat("address_checks_to_strangers", probes); ctx.stat("reopens", reopens); ctx.stat("messages_judged", data); ctx.stat("bursts", stormed); ctx.statmax("largest_packet_sent", biggest); ctx.stat("judged_cases", judge ? 1 : 0);
	ctx.nontrivial = duringEst >= 20 && (data > 0 || !judge);
	ctx.sample(fmt("case %llu: %llu foreign packets (%llu refused), %llu answers to strangers, %llu reopens, %llu messages, largest packet %zu", (unsigned long long)ctx.caseIndex, (unsigned long long)foreign, (unsigned long long)refused, (unsigned long long)answered, (unsigned long long)reopens, (unsigned long long)data, biggest));
	judge = false;
	cleanup(w, &app);
}
}
