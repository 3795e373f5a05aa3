// C08: who gets a session: forged, altered, relayed, replayed and delayed handshakes against real openings.
#include "app.hpp"
namespace vf {
const char *driverRule() { return "one case = 2-3 honest endpoints opening flows to each other while an attacker with several addresses and a certificate of its own intercepts, alters, delays, relays and replays handshake packets, answers hellos it attracts, and opens towards the honest ones with any mix of its own, others', altered and expired cookies, genuine and forged certificates and right and wrong signatures; run under AddressSanitizer and UBSan; non-trivial when a keying the oracle does not justify reached a responder or an initiator, or a session was judged while such packets were about; distinct by the hash of every packet and its fate"; }
uint64_t driverCases(bool t) { return t ? 400000 : 12000; }
void driverInit() {}
void driverDone() {}

namespace {
typedef long double LD;
Bytes B(const std::string &s) { return Bytes(s.begin(), s.end()); }
void field(Bytes &b, const Bytes &v) { putVlu(b, v.size()); b.insert(b.end(), v.begin(), v.end()); }
bool take(const Bytes &b, size_t &off, Bytes &out) { uintmax_t n; if(!vlu(b, off, n) || n > b.size() - off) return false; out.assign(b.begin() + off, b.begin() + off + n); off += n; return true; }
struct Hs { // a handshake chunk, taken apart
	int type = 0;
	Bytes epd, tag, cookie, cookie2, cert, comp, sig, isid, rest, signedPart; Address reply;
};
bool parse(uint8_t type, const Bytes &b, Hs &h)
{
	h = Hs(); h.type = type; size_t o = 0;
	auto tail = [&] { return Bytes(b.begin() + o, b.end()); };
	switch(type) {
	case 0x30: if(!take(b, o, h.epd)) return false; h.tag = tail(); return true;
	case 0x70: if(!take(b, o, h.tag) || !take(b, o, h.cookie)) return false; h.cert = tail(); return true;
	case 0x71: if(!take(b, o, h.tag)) return false; h.rest = tail(); return true;
	case 0x79: if(!take(b, o, h.cookie)) return false; h.cookie2 = tail(); return true;
	case 0x38: if(b.size() < 4) return false; h.isid.assign(b.begin(), b.begin() + 4); o = 4; if(!take(b, o, h.cookie) || !take(b, o, h.cert) || !take(b, o, h.comp)) return false; h.signedPart.assign(b.begin(), b.begin() + o); h.sig = tail(); return true;
	case 0x78: if(b.size() < 4) return false; h.isid.assign(b.begin(), b.begin() + 4); o = 4; if(!take(b, o, h.comp)) return false; h.signedPart.assign(b.begin(), b.begin() + o); h.sig = tail(); return true;
	case 0x0f: { if(!take(b, o, h.epd)) return false; size_t r = h.reply.setFromEncoding(b.data() + o, b.data() + b.size()); if(!r) return false; o += r; h.tag = tail(); return true; }
	}
	return false;
}
Bytes build(const Hs &h)
{
	Bytes b;
	switch(h.type) {
	case 0x30: field(b, h.epd); b.insert(b.end(), h.tag.begin(), h.tag.end()); break;
	case 0x70: field(b, h.tag); field(b, h.cookie); b.insert(b.end(), h.cert.begin(), h.cert.end()); break;
	case 0x71: field(b, h.tag); b.insert(b.end(), h.rest.begin(), h.rest.end()); break;
	case 0x79: field(b, h.cookie); b.insert(b.end(), h.cookie2.begin(), h.cookie2.end()); break;
	case 0x38: b = h.isid; field(b, h.cookie); field(b, h.cert); field(b, h.comp); b.insert(b.end(), h.sig.begin(), h.sig.end()); break;
	case 0x78: b = h.isid; field(b, h.comp); b.insert(b.end(), h.sig.begin(), h.sig.end()); break;
	}
	return b;
}
// the part of an IIKeying that is signed
Bytes iSigned(const Hs &h) { Bytes b = h.isid; field(b, h.cookie); field(b, h.cert); field(b, h.comp); return b; }
Bytes packetOf(const std::vector<Bytes> &chunks, const std::vector<uint8_t> &types, uint8_t mode = 3)
{
	Bytes c{uint8_t(mode | 8), 0x12, 0x34};
	for(size_t i = 0; i < chunks.size(); i++) { c.push_back(types[i]); c.push_back(uint8_t(chunks[i].size() >> 8)); c.push_back(uint8_t(chunks[i].size())); c.insert(c.end(), chunks[i].begin(), chunks[i].end()); }
	return c;
}
std::string certName(const Bytes &c, bool &good)
{
	good = false;
	if(c.size() < 2 || c[0] != 'C' || c.size() != size_t(2 + c[1] + 8)) return "";
	std::string n(c.begin() + 2, c.begin() + 2 + c[1]);
	good = c == SimCrypto::encodeCert(n);
	return n;
}
const LD LIFE = 95;
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	w.bindRecipient = true;
	int nn = int(rng.range(2, 3));
	static const char *names[] = {"alice", "bob", "carol"};
	const std::string MAL = "bmallory"; // shares the group of bob
	bool slow = rng.chance(0.5), lossy = rng.chance(0.3);
	w.dflt.delay = rng.logreal(0.001, 0.2);
	if(lossy) { w.dflt.loss = rng.real(0, 0.2); w.dflt.dup = rng.real(0, 0.3); w.dflt.reorder = rng.real(0, 0.3); w.dflt.reorderDelay = rng.logreal(0.05, 5); w.dflt.corrupt = rng.chance(0.3) ? 0.05 : 0; }
	for(int i = 0; i < nn; i++) {
		Node *n = w.addNode(names[i], {fmt("10.0.%d.1:%d", i, 1000 + i)});
		n->platform->performDelay0 = slow ? rng.logreal(0.00001, 0.1) : 0; n->platform->performDelayN = slow ? rng.logreal(0.001, 0.5) : 0;
		n->sim->lateAuth = slow && rng.chance(0.5);
	}
	for(int i = 0; i < nn; i++) for(int j = 0; j < nn; j++) if(i != j) w.path(i, j) = w.dflt;
	std::vector<Address> mal;
	for(int i = 0; i < 4; i++) mal.push_back(A(i < 3 ? fmt("66.6.6.%d:%d", i / 2 + 1, 600 + i) : std::string("[2001:db8::66]:666")));
	auto home = [&] (int i) { return w.nodes[i]->pub.begin()->second; };
	auto isHonest = [&] (const std::string &n) { for(auto &x : w.nodes) if(x->name == n) return true; return false; };

	// how much the attacker does
	bool onPath = rng.chance(0.5);        // sees and alters what honest endpoints exchange
	bool responds = rng.chance(0.7);      // is among the candidate addresses and answers
	bool impersonates = rng.chance(0.7);  // answers with the certificate of who was sought (this can block an opening)
	bool initiates = rng.chance(0.8);
	double meddle = onPath ? rng.pick({0.05, 0.2, 0.5}) : 0;
	bool mustOpen = !onPath && (!responds || !impersonates) && !lossy;

	// --- the oracle's records
	struct Cookie { Address to; LD at; int by; };
	std::map<Bytes, std::vector<Cookie>> issued;
	struct Arr { Hs h; uint32_t sid = 0; Address src; LD at; bool used = false; bool just = false; std::string who; bool authentic = false, sigOk = false; int cookie = 0; bool cookieDone = false; }; // cookie: 0 bad 1 from elsewhere 2 good
	std::vector<std::vector<Arr>> iik(nn), rhello(nn), change(nn);
	std::vector<std::map<std::pair<Address, Bytes>, int>> helloRight(nn), redirectRight(nn); // answers owed at most
	std::map<std::pair<int, Bytes>, int> myTags; // tags of hellos sent
	struct Tape { Bytes data; Address src, dst; LD at; uint8_t type; };
	std::vector<Tape> tape;
	uint64_t nIik = 0, nIikJust = 0, nRh = 0, nCc = 0, nRik = 0, nIikSent = 0, nRedir = 0, nBad = 0, nAltered = 0, nReplay = 0, nRelay = 0, malSessions = 0, malFlows = 0, honestBound = 0, opens = 0, stale = 0, othersCookies = 0, keysJudged = 0, fih = 0, tested = 0;
	size_t keysSeen = 0;
	std::map<std::pair<int, Bytes>, std::vector<Bytes>> keyed; // cookies of the keyings sent, by session id

	auto toU32 = [] (const Bytes &b) { uint32_t x = 0; if(b.size() >= 4) memcpy(&x, b.data(), 4); return x; };
	auto clearDefault = [&] (const Bytes &d, const Wire &k) { return k.ok && d.size() >= 12 && sealDefault(Bytes(d.begin() + 4, d.end() - 8), k.sid) == d; };
	App app(w);
	struct MIni { Hs h; Address me; int to; std::string as; bool good; };
	std::map<Bytes, MIni> mini; // the attacker's keyings by its session id
	std::map<Bytes, std::pair<Address, Address>> relays; // relayed keyings: session id -> (back to, seen as)
	std::map<Bytes, std::pair<int, Address>> malHello; // tags of the attacker's hellos
	std::vector<std::pair<Bytes, std::pair<int, Address>>> malCookies; // cookie, by, issued to
	auto inj = [&] (const Bytes &clear, uint32_t sid, const Address &src, const Address &dst, double d = -1) { w.inject(sealDefault(clear, sid), src, dst, 0, d < 0 ? rng.real(0.0005, 0.1) : d); };
	auto flip = [&] (Bytes b) { if(b.empty()) return rng.bytes(4); switch(rng.u(4)) { case 0: b.resize(rng.u(b.size())); break; case 1: b.push_back(uint8_t(rng.bits())); break; default: b[rng.u(b.size())] ^= uint8_t(1 << rng.u(8)); } return b; };
	auto anyCert = [&] { return rng.chance(0.5) ? SimCrypto::encodeCert(rng.pick({MAL, std::string(names[rng.u(3)])}), rng.chance(0.7)) : rng.chance(0.5) ? SimCrypto::encodeCert(MAL) : flip(SimCrypto::encodeCert(names[rng.u(3)])); };
	// the only secret the attacker has is its own
	auto malSign = [&] (Bytes m, const std::string &to) { if(rng.chance(0.85)) { Bytes t = B(to); m.insert(m.end(), t.begin(), t.end()); } return SimCrypto::signBytes(MAL, m.data(), m.size()); };
	auto anyCookie = [&] (bool &own) -> Bytes {
		own = false;
		if(!malCookies.empty() && rng.chance(0.5)) return rng.pick(malCookies).first;
		if(!issued.empty() && onPath && rng.chance(0.7)) { auto it = issued.begin(); std::advance(it, rng.u(issued.size())); othersCookies++; return it->first; }
		return rng.bytes(rng.pick({size_t(0), size_t(1), size_t(65), size_t(66), size_t(64), rng.u(200)}));
	};

	// --- what the attacker does with one handshake chunk on its way
	auto alter = [&] (Hs h, const std::string &to) -> Hs {
		switch(h.type) {
		case 0x30: if(rng.chance(0.5)) h.epd = rng.chance(0.5) ? B(rng.pick({std::string(names[rng.u(3)]), MAL})) : flip(h.epd); else h.tag = flip(h.tag); break;
		case 0x70: switch(rng.u(4)) { case 0: h.tag = flip(h.tag); break; case 1: { bool o; h.cookie = rng.chance(0.5) ? flip(h.cookie) : anyCookie(o); break; } default: h.cert = anyCert(); } break;
		case 0x79: if(rng.chance(0.5)) h.cookie = flip(h.cookie); else { bool o; h.cookie2 = rng.chance(0.5) ? flip(h.cookie2) : anyCookie(o); } break;
		case 0x38: {
			bool resign = rng.chance(0.4), o;
			switch(rng.u(5)) { case 0: h.isid = rng.bytes(4); break; case 1: h.cookie = rng.chance(0.5) ? flip(h.cookie) : anyCookie(o); break; case 2: h.cert = anyCert(); break; case 3: h.comp = rng.chance(0.8) ? rng.bytes(8) : flip(h.comp); break; default: h.sig = rng.chance(0.3) ? Bytes() : flip(h.sig); }
			if(resign) h.sig = malSign(iSigned(h), to);
			break; }
		case 0x78: switch(rng.u(4)) { case 0: h.isid = rng.bytes(4); break; case 1: h.comp = rng.chance(0.8) ? rng.bytes(8) : flip(h.comp); break; default: h.sig = rng.chance(0.5) ? flip(h.sig) : malSign(h.signedPart, to); } break;
		}
		return h;
	};
	auto chunkOf = [&] (const Bytes &data, Wire &k, Hs &h) { k = decodeWire(data); return clearDefault(data, k) && k.chunks.size() == 1 && parse(k.chunks[0].type, k.chunks[0].body, h); };

	auto keyingTo = [&] (int to, const Address &me, const Bytes &cookie, bool ownCookie) {
		MIni m; m.me = me; m.to = to; m.h.type = 0x38; m.h.isid = rng.bytes(4); m.h.cookie = cookie; m.h.comp = rng.chance(0.9) ? rng.bytes(8) : rng.bytes(rng.u(20));
		int k = int(rng.u(6));
		bool honestTry = k < 2;
		m.as = honestTry ? MAL : names[rng.u(nn)];
		m.h.cert = SimCrypto::encodeCert(m.as, honestTry || rng.chance(0.6));
		if(k == 5) m.h.cert = anyCert();
		m.h.sig = malSign(iSigned(m.h), w.nodes[to]->name);
		if(rng.chance(0.15)) { Hs a = m.h; switch(rng.u(3)) { case 0: a.comp = rng.bytes(8); break; case 1: a.sig = flip(a.sig); break; default: a.isid = rng.bytes(4); } m.h = a; } // altered after signing
		m.good = ownCookie;
		mini[m.h.isid] = m;
		Bytes c = packetOf({build(m.h)}, {0x38}, rng.chance(0.97) ? 3 : uint8_t(rng.u(4)));
		inj(c, 0, me, home(to));
		if(rng.chance(0.2)) inj(c, 0, rng.chance(0.5) ? me : rng.pick(mal), home(to), rng.real(0, 3));
	};
	std::function<void()> strike = [&] { // the attacker as an initiator
		int to = int(rng.u(nn));
		Address me = rng.chance(0.8) ? rng.pick(mal) : home((to + 1) % nn); // or claims to be somebody's address
		int k = int(rng.u(10));
		if(k < 4 || malCookies.empty()) { // hello
			std::vector<Bytes> c; std::vector<uint8_t> ty;
			int n = rng.chance(0.1) ? int(rng.range(2, 4)) : 1;
			for(int i = 0; i < n; i++) { Hs h; h.type = 0x30; h.epd = B(rng.pick({w.nodes[to]->name, "alias:" + w.nodes[to]->name, "group:" + w.nodes[to]->name.substr(0, 1), MAL, std::string(names[rng.u(3)])})); if(rng.chance(0.1)) h.epd = flip(h.epd); h.tag = rng.bytes(rng.pick({size_t(8), size_t(0), size_t(200)})); malHello[h.tag] = {to, me}; c.push_back(build(h)); ty.push_back(0x30); }
			inj(packetOf(c, ty, rng.chance(0.95) ? 3 : uint8_t(rng.u(4))), 0, me, home(to));
		} else if(k < 8) { // keying with a cookie of its own, from the right or another address, now or too late
			auto &x = rng.pick(malCookies);
			Address from = rng.chance(0.7) ? x.second.second : me;
			keyingTo(rng.chance(0.9) ? x.second.first : to, from, rng.chance(0.9) ? x.first : flip(x.first), true);
		} else { bool o; keyingTo(to, me, anyCookie(o), false); }
	};
	// packets the attacker is sent
	auto malGets = [&] (const Pkt &p, const Wire &k, const Hs &h) {
		int from = p.fromNode;
		if(h.type == 0x70) { // an answer to a hello
			malCookies.push_back({h.cookie, {from, p.dst}});
			if(initiates && rng.chance(0.8)) { Address me = p.dst; Bytes c = h.cookie; double d = rng.chance(0.6) ? 0 : rng.chance(0.7) ? rng.real(0, 20) : rng.pick({94.0, 94.5, 95.0, 95.9, 96.1, 97.0, 120.0}); w.after(d, [&, me, c, from] { keyingTo(from, rng.chance(0.8) ? me : rng.pick(mal), c, true); }); if(d > 90) stale++; }
			// relaying: give the cookie to whoever is opening to us
		} else if(h.type == 0x79) { malCookies.push_back({h.cookie2, {from, p.dst}}); if(rng.chance(0.7)) { auto it = mini.find(Bytes((uint8_t *)&k.sid, (uint8_t *)&k.sid + 4)); if(it != mini.end()) keyingTo(from, p.dst, h.cookie2, true); } }
		else if(h.type == 0x30 && responds) { // somebody opens to us
			if(rng.chance(0.3) && initiates && nn > 1) { // ask the real one for a cookie meanwhile
				for(int i = 0; i < nn; i++) if(SimCrypto::epdSelects(w.nodes[i]->name, h.epd.data(), h.epd.size())) { Hs x = h; x.tag = rng.bytes(8); malHello[x.tag] = {i, p.dst}; inj(packetOf({build(x)}, {0x30}), 0, p.dst, home(i)); }
			}
			Hs r; r.type = 0x70; r.tag = rng.chance(0.9) ? h.tag : flip(h.tag);
			bool o; r.cookie = rng.chance(0.5) ? rng.bytes(65) : anyCookie(o);
			if(impersonates && rng.chance(0.6)) { std::string e(h.epd.begin(), h.epd.end()); std::string n = names[rng.u(nn)]; for(int i = 0; i < nn; i++) if(SimCrypto::epdSelects(names[i], h.epd.data(), h.epd.size())) n = names[i]; r.cert = SimCrypto::encodeCert(n); }
			else if(rng.chance(0.5)) r.cert = SimCrypto::encodeCert(MAL);
			else { r.cert = anyCert(); bool g; std::string n = certName(r.cert, g); if(g && n != MAL && !impersonates) r.cert = SimCrypto::encodeCert(n, false); }
			inj(packetOf({build(r)}, {0x70}), 0, p.dst, p.src);
			if(rng.chance(0.2)) { Hs q; q.type = 0x71; q.tag = h.tag; int n = int(rng.u(3)); for(int i = 0; i < n; i++) { Bytes e = rng.pick(mal).encode(); q.rest.insert(q.rest.end(), e.begin(), e.end()); } inj(packetOf({build(q)}, {0x71}), 0, p.dst, p.src); }
		} else if(h.type == 0x38 && responds) { // and keys with us
			bool g; std::string peer = certName(h.cert, g);
			int n = int(rng.range(1, 3));
			for(int i = 0; i < n; i++) {
				int what = int(rng.u(4));
				if(what < 2) { Hs r; r.type = 0x78; r.isid = rng.bytes(4); r.comp = rng.chance(0.9) ? rng.bytes(8) : rng.bytes(rng.u(20)); r.signedPart = r.isid; field(r.signedPart, r.comp); Bytes m = r.signedPart; if(rng.chance(0.9)) m.insert(m.end(), h.comp.begin(), h.comp.end()); r.sig = rng.chance(0.85) ? malSign(m, peer) : rng.bytes(16); inj(packetOf({build(r)}, {0x78}), toU32(h.isid), rng.chance(0.9) ? p.dst : home(int(rng.u(nn))), p.src); }
				else if(what == 2) { Hs r; r.type = 0x79; r.cookie = rng.chance(0.8) ? h.cookie : flip(h.cookie); bool o; r.cookie2 = rng.chance(0.3) ? rng.bytes(rng.u(500)) : anyCookie(o); inj(packetOf({build(r)}, {0x79}), toU32(h.isid), p.dst, p.src); }
				else { int to = int(rng.u(nn)); nRelay++; relays[h.isid] = {p.src, p.dst}; inj(packetOf({build(h)}, {0x38}), 0, rng.chance(0.7) ? p.dst : p.src, home(to)); }
			}
		} else if(h.type == 0x78) { // the answer to our keying, or to one we relayed
			auto it = mini.find(Bytes((uint8_t *)&k.sid, (uint8_t *)&k.sid + 4));
			if(it != mini.end()) {
				malSessions++;
				// use the session: open a flow in it
				uint64_t key = hash64(it->second.h.comp, hash64(h.comp, 1));
				Bytes c{uint8_t(1 | 8), 0x12, 0x34}, b{uint8_t(USERDATA_FLAG_OPT)};
				putVlu(b, 2); putVlu(b, 1); putVlu(b, 1);
				Bytes meta = B("mal"); putVlu(b, meta.size() + 1); b.push_back(0); b.insert(b.end(), meta.begin(), meta.end()); b.push_back(0); b.push_back('x');
				c.push_back(0x10); c.push_back(0); c.push_back(uint8_t(b.size())); c.insert(c.end(), b.begin(), b.end());
				Bytes out(4); out.insert(out.end(), c.begin(), c.end()); uint64_t mac = hash64(c, key); for(int i = 0; i < 8; i++) out.push_back(((uint8_t *)&mac)[i]);
				uint32_t x[3] = {0, 0, 0}; memcpy(x + 1, out.data() + 4, 8); x[0] = toU32(h.isid) ^ x[1] ^ x[2]; memcpy(out.data(), x, 4);
				w.inject(out, p.dst, p.src, 0, rng.real(0, 1));
			}
			auto r = relays.find(Bytes((uint8_t *)&k.sid, (uint8_t *)&k.sid + 4));
			if(r != relays.end()) inj(packetOf({build(h)}, {0x78}), k.sid, r->second.second, r->second.first);
		}
	};

	// --- what honest endpoints send
	w.onSend.push_back([&] (Pkt &p) {
		Wire k = decodeWire(p.data);
		bool def = clearDefault(p.data, k);
		int n = p.fromNode;
		const std::string &me = w.nodes[n]->name;
		Hs last;
		if(def) for(auto &c : k.chunks) {
			Hs h;
			if(!parse(c.type, c.body, h)) { if(c.type != 0xff) ctx.fail("odd-startup-packet", "%s sent a startup packet with chunk %02x, %zu bytes", me.c_str(), c.type, c.body.size()); continue; }
			last = h;
			CHECK(k.mode() == 3, "odd-startup-packet", "mode %d", k.mode());
			switch(h.type) {
			case 0x30: myTags[{n, h.tag}]++; break;
			case 0x70: {
				nRh++;
				int &r = helloRight[n][{p.dst, h.tag}];
				CHECK(r > 0, "hello-answered-elsewhere", "%s sent a responder hello (tag %s) to %s, from where no hello for it with that tag is unanswered", me.c_str(), hex(h.tag).c_str(), S(p.dst).c_str());
				r--;
				bool g; CHECK(certName(h.cert, g) == me && g, "odd-startup-packet", "%s offers a wrong certificate", me.c_str());
				issued[h.cookie].push_back({p.dst, w.now, n});
				break; }
			case 0x71: {
				nRedir++;
				int &r = redirectRight[n][{p.dst, h.tag}];
				CHECK(r > 0, "redirect-unasked", "%s sent a redirect to %s", me.c_str(), S(p.dst).c_str());
				r--; break; }
			case 0x79: {
				nCc++;
				bool ok = false;
				for(auto &a : iik[n]) if(!a.used && a.src == p.dst && a.h.cookie == h.cookie && toU32(a.h.isid) == k.sid && a.cookie == 1) { a.used = true; ok = true; break; }
				CHECK(ok, "cookie-change-unasked", "%s sent a cookie change to %s (session %08x) though no keying came from there with a good cookie issued for another address", me.c_str(), S(p.dst).c_str(), k.sid);
				issued[h.cookie2].push_back({p.dst, w.now, n});
				break; }
			case 0x78: {
				nRik++;
				bool ok = false; std::string why = "none came from there";
				for(auto &a : iik[n]) if(a.src == p.dst && toU32(a.h.isid) == k.sid) { why = fmt("cookie %s, certificate %s, signature %s", a.cookie == 2 ? "good" : a.cookie == 1 ? "of another address" : "bad", a.authentic ? "authentic" : "forged", a.sigOk ? "right" : "wrong"); if(a.just) ok = true; }
				CHECK(ok, "keying-answered", "%s sent a responder keying to %s for session %08x without a proper keying from there: %s", me.c_str(), S(p.dst).c_str(), k.sid, why.c_str());
				break; }
			case 0x38: {
				nIikSent++;
				bool ok = false; std::string why = "nothing with that cookie came from there";
				for(auto &a : rhello[n]) if(a.src == p.dst && a.h.cookie == h.cookie) { why = a.authentic ? "the answer had a tag never sent" : "the answer had a forged certificate"; if(a.authentic && myTags.count({n, a.h.tag})) { ok = true; break; } }
				// a cookie change is taken from any address that knows the session and its cookie
				auto &had = keyed[{n, h.isid}];
				if(!ok) for(auto &a : change[n]) if(a.h.cookie2 == h.cookie) { why = "the cookie change came for another keying"; if(a.sid == toU32(h.isid) && (std::find(had.begin(), had.end(), a.h.cookie) != had.end())) { ok = true; break; } }
				had.push_back(h.cookie);
				CHECK(ok, "keying-unasked", "%s sent its keying to %s: %s", me.c_str(), S(p.dst).c_str(), why.c_str());
				break; }
			default: ctx.fail("odd-startup-packet", "%s sent chunk %02x in the clear", me.c_str(), h.type);
			}
		}
		if(p.toNode < 0) {
			if(def && last.type && std::find(mal.begin(), mal.end(), p.dst) != mal.end()) { Hs h = last; Pkt q = p; w.after(rng.real(0.0005, 0.1), [&, q, k, h] { if(!w.stopped) malGets(q, k, h); }); }
			return true;
		}
		if(def && last.type) {
			if(onPath && tape.size() < 400) tape.push_back({p.data, p.src, p.dst, w.now, uint8_t(last.type)});
			if(onPath && rng.chance(meddle) && k.chunks.size() == 1) {
				nAltered++;
				int what = int(rng.u(6));
				Address dst = p.dst, src = p.src; Bytes orig = p.data;
				std::string to = w.nodes[p.toNode]->name;
				Hs a = last;
				if(what < 4) { int m = int(rng.range(1, 2)); for(int i = 0; i < m; i++) a = alter(a, to); inj(packetOf({build(a)}, {uint8_t(a.type)}), k.sid, rng.chance(0.9) ? src : rng.pick(mal), dst); if(rng.chance(0.3)) w.inject(orig, src, dst, 0, rng.real(0, 2)); }
				else if(what == 4) w.inject(orig, rng.chance(0.5) ? src : rng.pick(mal), rng.chance(0.8) ? dst : home(int(rng.u(nn))), 0, rng.logreal(0.1, 100));
				// or it is just gone
				return false;
			}
		}
		return true;
	});
	// --- what honest endpoints are sent
	w.onArrive.push_back([&] (const Pkt &p) {
		Wire k = decodeWire(p.data);
		int n = p.toNode;
		const std::string &me = w.nodes[n]->name;
		if(!clearDefault(p.data, k)) {
			return;
		}
		bool seen = false;
		for(auto &c : k.chunks) {
			Hs h;
			if(!parse(c.type, c.body, h)) continue;
			Arr a; a.h = h; a.sid = k.sid; a.src = p.src; a.at = w.now;
			bool g; a.who = certName(h.cert, g); a.authentic = g;
			if(k.sid == 0 && k.mode() != 3) continue;
			if(h.type == 0x30 && k.sid == 0) { if(!seen && SimCrypto::epdSelects(me, h.epd.data(), h.epd.size())) helloRight[n][{p.src, h.tag}]++; seen = true; }
			else if(h.type == 0x70 && k.sid == 0) { rhello[n].push_back(a); if(!a.authentic || !isHonest(a.who)) nBad++; }
			else if(h.type == 0x79) change[n].push_back(a);
			else if(h.type == 0x38 && k.sid == 0) {
				nIik++;
				auto it = issued.find(h.cookie);
				if(it != issued.end()) for(auto &x : it->second) if(x.by == n && w.now - x.at < LIFE + 1.001) { a.cookie = std::max(a.cookie, x.to == p.src ? 2 : 1); }
				// what shows when and by whom it was issued is the front of it
				if(!a.cookie) for(auto &y : issued) if(y.first.size() == h.cookie.size() && y.first.size() > 32 && std::equal(h.cookie.begin(), h.cookie.end() - 32, y.first.begin())) for(auto &x : y.second) if(x.by == n && w.now - x.at < LIFE + 1.001) a.cookie = 1;
				Bytes m = h.signedPart; m.insert(m.end(), me.begin(), me.end());
				a.sigOk = a.authentic && h.sig == SimCrypto::signBytes(a.who, m.data(), m.size());
				a.just = a.cookie == 2 && a.sigOk;
				if(a.just) nIikJust++; else nBad++;
				iik[n].push_back(a);
			}
		}
	});
	// --- what the applications see
	for(auto &n : w.nodes) {
		app.listen(n.get());
		auto prev = n->rtmfp->onRecvFlow; Node *N = n.get();
		n->rtmfp->onRecvFlow = [&, prev, N] (std::shared_ptr<RecvFlow> f) {
			Bytes e = f->getFarCanonicalEPD(); std::string who(e.begin(), e.end());
			bool ok = false;
			for(auto &kr : w.keys) if(kr.who == N->name && kr.near == f->getNearNonce() && kr.peer == who) ok = true;
			CHECK(ok, "flow-from-nowhere", "%s is offered a flow from %s though it never made keys for it", N->name.c_str(), who.c_str());
			if(who == MAL) { malFlows++; CHECK(f->getMetadata() == B("mal"), "flow-from-nowhere", "metadata"); return; }
			CHECK(f->getMetadata() != B("mal"), "taken-for-another", "the attacker's flow reaches %s as one of %s", N->name.c_str(), who.c_str());
			bool both = false;
			for(auto &kr : w.keys) if(kr.who == who && kr.near == f->getFarNonce() && kr.peer == N->name) both = true;
			CHECK(both, "ends-disagree", "%s is offered a flow from %s, which made no such keys for it", N->name.c_str(), who.c_str());
			prev(f);
		};
	}
	std::set<Tx *> judged;
	auto watch = [&] {
		for(; keysSeen < w.keys.size(); keysSeen++) {
			auto &kr = w.keys[keysSeen];
			if(kr.initiator) continue;
			keysJudged++;
			int n = -1; for(auto &x : w.nodes) if(x->name == kr.who) n = x->index;
			bool ok = false; std::string why = "no such keying came";
			if(n >= 0) for(auto &a : iik[n]) if(a.who == kr.peer && a.h.comp == kr.far) { why = fmt("cookie %s, certificate %s, signature %s", a.cookie == 2 ? "good" : a.cookie == 1 ? "of another address" : "bad", a.authentic ? "authentic" : "forged", a.sigOk ? "right" : "wrong"); if(a.just) { ok = true; break; } }
			CHECK(ok, "keys-for-nobody", "%s made keys for a session with %s: %s", kr.who.c_str(), kr.peer.c_str(), why.c_str());
		}
		for(auto &x : app.tx) {
			Tx *t = x.second.get();
			if(judged.count(t) || !t->bound()) continue;
			judged.insert(t);
			Bytes e = t->f->getFarCanonicalEPD(), near = t->f->getNearNonce(), far = t->f->getFarNonce(); std::string who(e.begin(), e.end());
			Bytes sought = B(t->src->name); // not used
			bool mine = false, theirs = false;
			for(auto &kr : w.keys) { if(kr.who == t->src->name && kr.near == near && kr.peer == who) mine = true; if(kr.who == who && kr.near == far && kr.peer == t->src->name && (kr.initiator || kr.far == near)) theirs = true; }
			CHECK(mine, "bound-to-another", "flow %u of %s is in a session with %s it made no keys for", t->id, t->src->name.c_str(), who.c_str());
			if(isHonest(who)) { honestBound++; CHECK(theirs, "bound-to-impostor", "flow %u of %s is in a session said to be with %s, which made no such keys for it", t->id, t->src->name.c_str(), who.c_str()); }
			else CHECK(who == MAL, "bound-to-impostor", "flow %u of %s is in a session with '%s'", t->id, t->src->name.c_str(), who.c_str());
		}
		return false;
	};
	std::map<Tx *, std::string> epds;
	double T = rng.chance(0.25) ? rng.real(100, 200) : rng.real(1, 20);
	auto openOne = [&] {
		int a = int(rng.u(nn)), b; do b = int(rng.u(nn)); while(b == a);
		Node *src = w.nodes[a].get(), *dst = w.nodes[b].get();
		std::string epd = rng.pick({dst->name, "alias:" + dst->name, "group:" + dst->name.substr(0, 1), MAL});
		if(epd == MAL && !responds) epd = dst->name;
		Tx *t = app.open(src, dst, Priority(rng.u(NUM_PRIORITIES)), epd, false);
		if(!t) return;
		opens++;
		epds[t] = epd;
		if(epd != MAL || rng.chance(0.3)) t->f->addCandidateAddress(home(b));
		if(rng.chance(0.3)) t->f->addCandidateAddress(home(int(rng.u(nn))), rng.real(0, 1));
		if(responds || rng.chance(0.2)) { int k = int(rng.range(1, 2)); for(int i = 0; i < k; i++) t->f->addCandidateAddress(rng.pick(mal), rng.chance(0.5) ? 0 : rng.real(0, 2)); }
		for(int i = 0; i < 2; i++) t->write(rng.u(1500));
	};
	auto epdCheck = [&] {
		for(auto &x : epds) if(x.first->bound()) { Bytes e = x.first->f->getFarCanonicalEPD(); std::string who(e.begin(), e.end()); tested++; CHECK(SimCrypto::epdSelects(who, (const uint8_t *)x.second.data(), x.second.size()), "not-who-was-sought", "flow %u of %s, opened to %s, is in a session with %s", x.first->id, x.first->src->name.c_str(), x.second.c_str(), who.c_str()); }
	};
	int no = int(rng.range(1, 8));
	for(int i = 0; i < no; i++) w.after(rng.chance(0.4) ? rng.real(0, 0.2) : rng.real(0, T), openOne);
	if(initiates) { int k = int(rng.logreal(1, 60)); for(int i = 0; i < k; i++) w.after(rng.chance(0.3) ? rng.real(0, 1) : rng.real(0, T), strike); }
	if(onPath) { int k = int(rng.u(20)); for(int i = 0; i < k; i++) w.after(rng.real(0, T), [&] { if(tape.empty()) return; nReplay++; auto &r = rng.pick(tape); Wire kk; Hs h; Bytes d = r.data; if(rng.chance(0.4) && chunkOf(r.data, kk, h)) { int n2 = -1; for(auto &x : w.nodes) if(home(x->index) == r.dst) n2 = x->index; h = alter(h, n2 < 0 ? MAL : w.nodes[n2]->name); d = sealDefault(packetOf({build(h)}, {uint8_t(h.type)}), rng.chance(0.9) ? kk.sid : 0); } w.inject(d, rng.chance(0.6) ? r.src : rng.chance(0.5) ? rng.pick(mal) : home(int(rng.u(nn))), rng.chance(0.8) ? r.dst : home(int(rng.u(nn))), 0, 0); }); }
	// introductions
	if(rng.chance(0.4)) {
		int k = int(rng.range(1, 6));
		for(int i = 0; i < k; i++) w.after(rng.real(0, T), [&] {
			for(auto &x : app.tx) { Tx *t = x.second.get(); if(!t->bound() || t->closedByApp || !t->f->isOpen() || !isHonest(std::string((char *)t->f->getFarCanonicalEPD().data(), t->f->getFarCanonicalEPD().size())) || rng.chance(0.5)) continue;
				Bytes fe = t->f->getFarCanonicalEPD(); std::string peer(fe.begin(), fe.end()); Node *P = nullptr; for(auto &n : w.nodes) if(n->name == peer) P = n.get();
				if(!P) continue;
				// the other side's setting, through a flow of its own in the same session
				FIHelloResponseMode mode = FI_IGNORE;
				for(auto &y : app.tx) { Tx *u = y.second.get(); if(u->src == P && u->bound() && u->f->getNearNonce() == t->f->getFarNonce() && u->f->getFarNonce() == t->f->getNearNonce()) { if(rng.chance(0.7)) u->f->setSessionFIHelloMode(rng.pick({FI_SEND_RHELLO, FI_SEND_REDIRECT, FI_IGNORE})); mode = u->f->getSessionFIHelloMode(); break; } }
				Bytes e = B(rng.pick({peer, "alias:" + peer, MAL, std::string("nobody")})), tag = rng.bytes(rng.pick({size_t(8), size_t(16), size_t(0)}));
				Address reply = rng.chance(0.7) ? rng.pick(mal) : home(int(rng.u(nn)));
				fih++;
				t->f->forwardIHello(e.data(), e.size(), reply, tag.data(), tag.size());
				(void)mode;
				break; }
		});
	}
	// introductions as they arrive: what they entitle to
	w.onArrive.push_back([&] (const Pkt &p) {
		Wire k = decodeWire(p.data);
		if(!k.ok || k.sid == 0 || clearDefault(p.data, k)) return;
		int n = p.toNode; const std::string &me = w.nodes[n]->name;
		for(auto &c : k.chunks) {
			Hs h; if(c.type != 0x0f || !parse(c.type, c.body, h) || p.corrupted) continue;
			if(!SimCrypto::epdSelects(me, h.epd.data(), h.epd.size())) continue;
			// which session of this endpoint: by the far address; the setting is read from any flow in it
			FIHelloResponseMode mode = FI_IGNORE; 
			for(auto &y : app.tx) { Tx *u = y.second.get(); if(u->src->index == n && u->bound() && Address(u->f->getFarAddress()) == p.src && u->f->getSessionFIHelloMode() != FI_IGNORE) mode = u->f->getSessionFIHelloMode(); }
			if(mode == FI_SEND_RHELLO) helloRight[n][{h.reply, h.tag}]++;
			else if(mode == FI_SEND_REDIRECT) redirectRight[n][{h.reply, h.tag}]++;
		}
	});
	w.run(w.now + T + 5, [&] { watch(); return ctx.failed; });
	if(!ctx.failed) w.run(w.now + (mustOpen ? 60 : 30), [&] { watch(); return ctx.failed; });
	watch(); epdCheck();
	if(mustOpen && !ctx.failed) for(auto &x : epds) if(x.second != MAL && x.second.substr(0, 6) != "group:") { Tx *t = x.first; CHECK(t->bound() && t->rx && t->rx->delivered == t->msgs.size() && !t->exceptions, "cannot-open", "flow %u from %s to %s: %s, though nobody touches what they exchange", t->id, t->src->name.c_str(), t->dst->name.c_str(), t->exceptions ? "refused" : t->bound() ? "bound but not delivered" : "not opened"); }
	statsFromWorld(w);
	ctx.stat("openings", opens); ctx.stat("flows_bound_to_honest", honestBound); ctx.stat("bindings_judged", tested); ctx.stat("keyings_arrived", nIik); ctx.stat("keyings_justified", nIikJust); ctx.stat("unjustified_handshakes", nBad); ctx.stat("responder_hellos", nRh); ctx.stat("cookie_changes", nCc); ctx.stat("responder_keyings", nRik); ctx.stat("initiator_keyings", nIikSent); ctx.stat("redirects", nRedir); ctx.stat("altered_in_flight", nAltered); ctx.stat("handshakes_replayed", nReplay); ctx.stat("keyings_relayed", nRelay); ctx.stat("attacker_sessions", malSessions); ctx.stat("attacker_flows", malFlows); ctx.stat("keyings_with_old_cookie", stale); ctx.stat("keyings_with_others_cookie", othersCookies); ctx.stat("responder_keys_judged", keysJudged); ctx.stat("introductions", fih); ctx.stat("judged_for_opening", mustOpen);
	ctx.nontrivial = nBad > 0 && (nRh > 0);
	ctx.sample(fmt("case %llu: %llu openings (%llu bound to honest ends), %llu keyings arrived of which %llu justified, %llu cookie changes, %llu responder keyings, %llu attacker sessions, %llu altered packets", (unsigned long long)ctx.caseIndex, (unsigned long long)opens, (unsigned long long)honestBound, (unsigned long long)nIik, (unsigned long long)nIikJust, (unsigned long long)nCc, (unsigned long long)nRik, (unsigned long long)malSessions, (unsigned long long)nAltered));
	w.onSend.clear(); w.onArrive.clear();
	for(auto &n : w.nodes) n->rtmfp->onRecvFlow = nullptr;
	cleanup(w, &app);
}
}
