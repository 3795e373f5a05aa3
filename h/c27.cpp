// C27: RedirectorClients against model redirectors over a faulty simulated network: every status change, what is sent after
// connecting and after each change, reports in the other direction, reconnection times, and closing or dropping from inside
// callbacks.
#include "app.hpp"
#include "rtmfp/RedirectorClient.hpp"
#include "rtmfp/VLU.hpp"
namespace vf {
const char *driverRule() { return "one case = one to three redirector clients of one endpoint, each against a model redirector (accepting, refusing, ending the connection with various codes, silent), over a faulty network with outages, the application changing settings, closing and dropping from inside callbacks and otherwise; non-trivial when a client was connected and messages were checked; distinct by the callback and message sequence"; }
uint64_t driverCases(bool t) { return t ? 4000000 : 100000; }
void driverInit() {}
void driverDone() {}

struct Clock { World *w; std::shared_ptr<TimerList> tl; long double armed = INFINITY;
	void arm() { Duration d = tl->howLongToNextFire(w->now, 1e9); long double t = w->now + d; if(d < 1e8 && (t < armed || armed < w->now)) { armed = t; auto k = tl; w->at(t, [this, k] { armed = INFINITY; k->fireDueTimers(w->now); arm(); }); } } };
static void mac(uint8_t *dst, const void *key, size_t keyLen, const void *msg, size_t len) { uint64_t k = hash64(key, keyLen), m = hash64(msg, len); for(int i = 0; i < 32; i++) { uint64_t b[3] = {k, m, uint64_t(i)}; dst[i] = uint8_t(hash64(b, sizeof b) >> 7); } }
struct Client : public RedirectorClient {
	Client(RTMFP *r, const Bytes &epd, Clock *c, bool *gone) : RedirectorClient(r, epd), c(c), gone(gone) {}
	~Client() { *gone = true; }
	std::shared_ptr<Timer> scheduleTimer(Time when) override { auto t = c->tl->schedule(when); c->w->after(0, [cc = c] { cc->arm(); }); return t; }
	void hmacSHA256(void *dst, const void *key, size_t keyLen, const void *msg, size_t msgLen) override { mac((uint8_t *)dst, key, keyLen, msg, msgLen); }
	SendFlow *send() { return m_send.get(); }
	Clock *c; bool *gone;
};
static const char *SIG = "http://zenomt.com/ns/rtmfp#redirector";
static Bytes sigBytes() { return Bytes(SIG, SIG + strlen(SIG)); }

struct OutMsg { std::string m; bool may = false; };
struct Ev { std::string e; bool valid; Address a; };
struct Epoch { // one time the client was connected
	std::vector<OutMsg> out; size_t pos = 0; std::multiset<std::string> auth; std::vector<Ev> in; size_t inPos = 0; bool over = false, bound = false; int lfDup = 2; size_t lf = 0; size_t lfFirst = 0; int lfSeen = 0; long double lfLast = -1; bool intervalChanged = false; double interval = 0; long double connectedAt; Bytes nonce; long double bigAt = -100; };
struct Srv { // one flow from the client as the redirector sees it
	std::shared_ptr<RecvFlow> rx; std::shared_ptr<SendFlow> tx; std::shared_ptr<Epoch> e; bool refused = false, ended = false, complete = false, error = false; uintmax_t code = 0; std::vector<std::shared_ptr<SendFlow>> bad; std::vector<std::shared_ptr<bool>> rejected; std::vector<Bytes> early; bool garbled = false; };

struct World27;
struct Red {
	World27 &x; int idx; Node *b; std::shared_ptr<Client> c; bool gone = false;
	RedirectorClient::Status st = RedirectorClient::STATUS_IDLE; bool closed = false, expectBad = false; long double lastAttempt = -1, lastDown = -1; uintmax_t downCode = 0; bool why = false; // why: something happened that may end the connection
	std::map<Bytes, Bytes> keys; bool active = true, paused = false, adv = true; std::set<Address> extra; std::vector<std::pair<uintmax_t, long double>> lfs; double interval = 0, minInt = 30, K = 10, L = 10; FIHelloResponseMode fi = FI_SEND_RHELLO;
	std::shared_ptr<Epoch> e; std::vector<std::unique_ptr<Srv>> srv; std::deque<std::shared_ptr<Epoch>> pending; int serial = 1; bool reflexCleared = false, userCleared = false, reachable = true, refuse = false; int connects = 0, downs = 0; bool nameless = false; long double connectingAt = -1;
	std::vector<Address> mine; std::set<Address> known; bool shut = false, dropped = false, selfRef = false;
	Red(World27 &x, int i) : x(x), idx(i) { lfs.push_back({0, 0}); }
	void start(); void status(RedirectorClient::Status s); void act(); void op(int k); void close(bool drop); void expectOut(const std::string &m, bool may = false); void settings(bool may = false); void event(const std::string &e);
	void accept(std::shared_ptr<RecvFlow> f); void message(Srv *s, const Bytes &m); void serverAct(); void endServer(int how); Srv *live(); bool delivered(std::string *why); void hostileFlow(Srv *s); std::string settingsNow();
};
struct World27 {
	World &w; Rng &r; Clock clk; Node *a; std::vector<std::unique_ptr<Red>> reds; bool perfect, ended = false, acting = true; int depth = 0, budget = 80; double chaos; long double T; bool outage = false; uint64_t nOut = 0, nIn = 0;
	World27(World &w, Rng &r) : w(w), r(r) { clk.w = &w; clk.tl = share_ref(new TimerList(), false); }
	void go(); void statics();
	Address raddr() { if(r.chance(0.6)) return A(fmt("%d.%d.%d.%d:%d", int(r.range(1, 223)), int(r.u(256)), int(r.u(256)), int(r.u(256)), int(r.u(65536)))); Bytes b = r.bytes(16); Address q; q.setIPAddress(b.data(), 16); q.setPort(int(r.u(65536))); return q; }
	Bytes enc(const Address &q) { Bytes o; auto sp = q.getSockaddr(); int org = int(q.getOrigin()); if(q.getFamily() == AF_INET6) { auto s6 = (const struct sockaddr_in6 *)sp; o.push_back(uint8_t(0x80 | org)); o.insert(o.end(), s6->sin6_addr.s6_addr, s6->sin6_addr.s6_addr + 16); } else { auto s4 = (const struct sockaddr_in *)sp; o.push_back(uint8_t(org)); auto p = (const uint8_t *)&s4->sin_addr; o.insert(o.end(), p, p + 4); } o.push_back(uint8_t(q.getPort() >> 8)); o.push_back(uint8_t(q.getPort())); return o; }
	void later(double d, std::function<void()> fn) { w.after(d, [this, fn] { if(!ended) fn(); }); }
};
struct Scope { World27 &x; Scope(World27 &x) : x(x) { x.depth++; } ~Scope() { x.depth--; } };
static const char *SN[] = {"idle", "connecting", "connected", "disconnected", "disconnected_bad_auth", "closed"};

std::string Red::settingsNow() { std::string s = adv ? "S:r:" : "S:-:"; std::multiset<std::string> h; for(auto &q : extra) h.insert(hex(x.enc(q))); for(auto &q : h) s += q + ","; return s; }
void Red::expectOut(const std::string &m, bool may) { if(e && !e->over) e->out.push_back({m, may}); }
void Red::settings(bool may) { if(active && !paused) expectOut(settingsNow(), may); }
void Red::start()
{
	auto &r = x.r; auto &w = x.w;
	std::string name = b->name; Bytes epd(name.begin(), name.end());
	c = share_ref(new Client(x.a->rtmfp.get(), epd, &x.clk, &gone), false);
	CHECK(c->getStatus() == RedirectorClient::STATUS_IDLE && !c->isConnected() && c->isActive() && c->getAdvertiseReflexiveAddress() && !c->isReflexiveAddressValid() && !c->sendUserData("x", 1), "rc-initial", "before connecting");
	minInt = r.pick({30.0, 0.0, 5.0, 12.0}); c->minimumReconnectInterval = minInt; minInt = std::max(minInt, 5.0);
	if(r.chance(0.7)) { K = r.real(1, 20); c->setKeepalivePeriod(K); } if(r.chance(0.7)) { L = r.real(3, 20); c->setRetransmitLimit(L); CHECK(c->getRetransmitLimit() == L, "rc-get", "retransmit limit"); }
	if(r.chance(0.3)) { fi = r.pick({FI_IGNORE, FI_SEND_RHELLO, FI_SEND_REDIRECT}); c->setFIHelloMode(fi); CHECK(c->getFIHelloMode() == fi, "rc-get", "mode"); }
	if(r.chance(0.4)) { interval = r.logreal(0.1, 5); c->setLoadFactorUpdateInterval(interval); }
	for(int n = int(r.u(4)); n > 0; n--) { Bytes k = r.bytes(r.range(1, 8)), p = r.bytes(r.u(9)); if(r.chance(0.3)) { std::string ks = "key" + std::to_string(n), ps = "pw"; keys[Bytes(ks.begin(), ks.end())] = Bytes(ps.begin(), ps.end()); c->addSimpleAuth(ks.c_str(), ps.c_str()); } else { keys[k] = p; if(r.chance(0.2)) c->addSimpleAuth(k, r.bytes(3)); c->addSimpleAuth(k, p); } }
	for(int n = int(r.u(6)); n > 0; n--) op(int(r.u(9)));
	for(auto &q : b->pub) mine.push_back(q.second);
	reachable = r.chance(0.9);
	if(r.chance(0.4)) c->addRedirectorAddress(A(fmt("10.9.%d.1:9", idx)));
	for(auto &q : mine) if(reachable && (r.chance(0.6) || q == mine.back())) { c->addRedirectorAddress(q); known.insert(q); }
	auto k = std::make_shared<int>(7); selfRef = r.chance(0.2); std::shared_ptr<Client> self; if(selfRef) self = c; // closing must break the cycle
	c->onStatus = [this, k, self] (RedirectorClient::Status s) { Scope sc(x); status(s); if(*k != 7) abort(); };
	c->onReflexiveAddress = [this, k] (const Address &q) { Scope sc(x); event("R:" + hex(x.enc(q))); if(c && e && !closed) CHECK(c->getReflexiveAddress() == q && c->isReflexiveAddressValid(), "rc-reflexive", "reported %s, answers %s valid %d", S(q).c_str(), S(c->getReflexiveAddress()).c_str(), c->isReflexiveAddressValid()); if(x.r.chance(0.03) && c) { reflexCleared = true; c->onReflexiveAddress = nullptr; } act(); if(*k != 7) abort(); };
	c->onUserData = [this, k, self] (const uint8_t *p, size_t n) { Scope sc(x); Bytes q(p, p + n); event("U:" + hex(q)); if(x.r.chance(0.03) && c) { userCleared = true; c->onUserData = nullptr; } act(); if(n && memcmp(p, q.data(), n)) ctx.fail("rc-bytes-changed", "the bytes changed during the callback"); if(*k != 7) abort(); };
	b->rtmfp->onRecvFlow = [this] (std::shared_ptr<RecvFlow> f) { if(!x.ended) accept(f); };
	refuse = r.chance(0.05);
	lastAttempt = w.now; auto hold = c; c->connect(); if(c && !closed) CHECK(st == RedirectorClient::STATUS_CONNECTING, "rc-connect", "connect() made it %s", SN[st]);
	if(c && !closed && r.chance(0.3)) { c->connect(); CHECK(connects == 1, "rc-connect-twice", "a second connect() started another attempt"); }
	if(!reachable && r.chance(0.8)) w.after(r.real(0.5, 20), [this] { if(c && !x.ended) { reachable = true; known.insert(mine[0]); connectingAt = std::max(connectingAt, x.w.now); c->addRedirectorAddress(mine[0]); if(x.perfect && st == RedirectorClient::STATUS_CONNECTING && !x.outage) { ctx.stat("late_addresses"); int n = connects; x.later(25, [this, n] { if(!x.outage && !shut && !closed && !refuse && !ctx.failed) CHECK(st != RedirectorClient::STATUS_CONNECTING || connects != n, "rc-late-address", "not connected 25 s after its redirector's address was added"); }); } } });
}
void Red::status(RedirectorClient::Status s)
{
	auto &w = x.w; ctx.h(uint64_t(s) + 100 * idx); ctx.note("%.3Lf client %d status %s", w.now, idx, SN[s]); ctx.stat(fmt("status_%s", SN[s]).c_str());
	CHECK(!closed, "rc-callback-after-close", "status %s after close", SN[s]); if(closed) return;
	CHECK(!c || (c->getStatus() == s && c->isConnected() == (s == RedirectorClient::STATUS_CONNECTED)), "rc-status", "told %s, answers %s connected %d", SN[s], SN[c ? c->getStatus() : 0], c ? c->isConnected() : 0);
	bool down = st == RedirectorClient::STATUS_DISCONNECTED || st == RedirectorClient::STATUS_DISCONNECTED_BAD_AUTH, ok = false;
	switch(s) {
	case RedirectorClient::STATUS_CONNECTING: {
		ok = st == RedirectorClient::STATUS_IDLE || down; connects++; connectingAt = w.now;
		if(down) { long double due = std::max(lastAttempt + minInt, lastDown); CHECK(w.now >= due - 1e-6, "rc-reconnect-early", "reconnecting %.3Lf s after the last attempt, minimum %g", w.now - lastAttempt, minInt); CHECK(w.now <= due + 0.01, "rc-reconnect-late", "reconnecting %.3Lf s late", w.now - due); ctx.stat("reconnects"); }
		lastAttempt = w.now; break; }
	case RedirectorClient::STATUS_CONNECTED: {
		ok = st == RedirectorClient::STATUS_CONNECTING; e = std::make_shared<Epoch>(); e->connectedAt = w.now; e->interval = interval; if(c && c->send()) e->nonce = c->send()->getFarNonce(); for(auto &k : keys) { Bytes n = c && c->send() ? c->send()->getFarNonce() : Bytes(); uint8_t md[32]; mac(md, k.second.data(), k.second.size(), n.data(), n.size()); Bytes t(md, md + 32); t.insert(t.end(), k.first.begin(), k.first.end()); e->auth.insert(hex(t)); }
		e->lf = lfs.size() - 1; e->lfFirst = e->lf; pending.push_back(e); 
		CHECK(!c || known.count(c->getRedirectorAddress()) || x.reds.size() > 1, "rc-address", "connected to %s", c ? S(c->getRedirectorAddress()).c_str() : ""); break; }
	case RedirectorClient::STATUS_DISCONNECTED: case RedirectorClient::STATUS_DISCONNECTED_BAD_AUTH: {
		ok = st == RedirectorClient::STATUS_CONNECTED || st == RedirectorClient::STATUS_CONNECTING || (down && shut); lastDown = w.now; downs++; 
		CHECK(why || !x.perfect || refuse || shut || st == RedirectorClient::STATUS_CONNECTING, "rc-spurious-disconnect", "%s although nothing happened", SN[s]);
		if(s == RedirectorClient::STATUS_DISCONNECTED_BAD_AUTH) CHECK(expectBad, "rc-bad-auth", "reported bad authentication, the redirector ended it with code %ju", downCode); else if(x.perfect && downCode == 10 && expectBad && st == RedirectorClient::STATUS_CONNECTED && !x.outage && !shut) CHECK(false, "rc-bad-auth", "the redirector reported bad authentication, status %s", SN[s]);
		if(e) e->over = true; e.reset(); why = expectBad = false; downCode = 0;
		if(c) CHECK(!c->isReflexiveAddressValid() && !c->sendUserData("x", 1), "rc-down-state", "disconnected, but the reflexive address is valid or data is taken"); break; }
	default: break;
	}
	CHECK(ok, "rc-status-order", "%s after %s", SN[s], SN[st]);
	st = s; act(); if(x.r.chance(0.3)) act();
	if(s == RedirectorClient::STATUS_CONNECTED && dropped && e) { if(!paused && active) e->out.push_back({settingsNow(), true}); if(!active) e->out.push_back({"D", true}); } // dropped, but not closed, in this callback: lives until it returns
	if(s == RedirectorClient::STATUS_CONNECTED && e && !e->over && !closed) { settings(); if(!active) expectOut("D"); }
}
void Red::event(const std::string &ev)
{
	ctx.h(hash64(ev.data(), ev.size())); ctx.note("%.3Lf client %d sees %s", x.w.now, idx, ev.substr(0, 60).c_str()); x.nIn++;
	CHECK(!closed, "rc-callback-after-close", "%s after close", ev.substr(0, 60).c_str()); CHECK(!!e, "rc-callback-unconnected", "%s while not connected", ev.substr(0, 60).c_str()); if(closed || !e) return;
	size_t p = e->inPos; auto skip = [&] (const Ev &v) { return v.e[0] == '-' || (v.e[0] == 'R' && reflexCleared) || (v.e[0] == 'U' && userCleared); };
	while(p < e->in.size() && e->in[p].e != ev && skip(e->in[p])) p++;
	CHECK(p < e->in.size() && e->in[p].e == ev, "rc-report", "saw %s, expected %s (%zu of %zu)", ev.substr(0, 80).c_str(), p < e->in.size() ? e->in[p].e.substr(0, 80).c_str() : "nothing", p, e->in.size());
	if(p < e->in.size()) { e->inPos = p + 1; if(c) CHECK(c->isReflexiveAddressValid() == e->in[p].valid, "rc-reflexive-valid", "valid %d, the latest report says %d", c->isReflexiveAddressValid(), e->in[p].valid); if(c && e->in[p].valid) CHECK(c->getReflexiveAddress() == e->in[p].a, "rc-reflexive", "%s, reported %s", S(c->getReflexiveAddress()).c_str(), S(e->in[p].a).c_str()); }
}
void Red::close(bool drop)
{
	if(!c) return;
	ctx.note("%.3Lf client %d closes (drop %d)", x.w.now, idx, drop);
	closed = true; if(e) e->over = true; auto hold = x.r.chance(0.3) ? c : nullptr; Client *p = c.get();
	if(drop && !hold && !selfRef && x.r.chance(0.5)) { dropped = x.depth > 0; c.reset(); return; } // the last reference goes: same as closing
	if(drop) { auto h = c; c.reset(); h->close(); } else { p->close(); CHECK(p->getStatus() == RedirectorClient::STATUS_CLOSED && !p->isConnected() && !p->sendUserData("x", 1) && !p->isReflexiveAddressValid(), "rc-closed-state", "after close: %s", SN[p->getStatus()]); }
	ctx.stat("closes");
}
void Red::op(int k)
{
	auto &r = x.r; if(!c) return; bool up = e && !e->over;
	switch(k) {
	case 0: { bool v = r.u(2); bool ch = v != active; active = v; if(ch) { settings(); if(!active) expectOut("D"); } c->setActive(v); CHECK(closed || !c || c->isActive() == v, "rc-get", "active"); break; }
	case 1: { bool v = r.u(2); bool was = paused; paused = v; if(!v) settings(!was); c->setPaused(v); break; }
	case 2: { bool v = r.u(2); bool ch = v != adv; adv = v; if(ch) settings(); c->setAdvertiseReflexiveAddress(v); CHECK(c->getAdvertiseReflexiveAddress() == v, "rc-get", "advertise"); break; }
	case 3: case 4: { Address q = !extra.empty() && r.chance(0.2) ? *extra.begin() : x.raddr(); if(r.chance(0.3)) q.setOrigin(r.pick({Address::ORIGIN_REPORTED, Address::ORIGIN_OBSERVED, Address::ORIGIN_RELAY})); bool known = extra.count(q); extra.insert(q); settings(known); c->addAdditionalAddress(q); break; }
	case 5: { if(extra.empty()) return; auto it = extra.begin(); std::advance(it, r.u(extra.size())); Address q = *it; extra.erase(it); settings(); c->removeAdditionalAddress(q); break; }
	case 6: { if(!r.chance(0.3)) return; bool was = extra.empty(); extra.clear(); settings(was); c->clearAdditionalAddresses(); break; }
	case 7: case 8: { int n = int(r.range(1, 5)); while(n--) { uintmax_t v = r.chance(0.2) ? lfs.back().first : r.chance(0.1) ? uintmax_t(r.bits()) : uintmax_t(serial++) * 1000 + r.u(1000); if(v != lfs.back().first) lfs.push_back({v, x.w.now}); c->setLoadFactor(v); CHECK(c->getLoadFactor() == v, "rc-get", "load factor"); } break; }
	case 9: case 10: { Bytes m = r.bytes(r.chance(0.1) ? r.u(3000) : r.u(30)); auto rc = c->sendUserData(m.data(), m.size()); CHECK(!!rc == up || (shut && !rc), "rc-user-data", "sendUserData answered %d, connected %d", !!rc, up); if(rc && e && m.size() > 300) e->bigAt = x.w.now; if(rc) expectOut("U:" + hex(m)); break; }
	case 11: { interval = r.chance(0.3) ? 0 : r.logreal(0.1, 5); if(e) e->intervalChanged = true; c->setLoadFactorUpdateInterval(interval); CHECK(std::abs(double(c->getLoadFactorUpdateInterval()) - interval) < 1e-12, "rc-get", "interval"); break; }
	case 12: { K = r.real(1, 20); c->setKeepalivePeriod(K); CHECK(c->getKeepalivePeriod() == K, "rc-get", "keepalive"); break; }
	case 13: { L = r.real(3, 20); c->setRetransmitLimit(L); break; }
	case 14: { fi = r.pick({FI_IGNORE, FI_SEND_RHELLO, FI_SEND_REDIRECT}); c->setFIHelloMode(fi); break; }
	case 15: { if(reachable) { Address q = mine[r.u(mine.size())]; known.insert(q); c->addRedirectorAddress(q); } break; }
	}
}
void Red::act()
{
	if(!x.acting || x.budget <= 0 || x.depth > 4 || !c || closed || !x.r.chance(x.chaos)) return;
	x.budget--;
	if(x.r.chance(0.02)) { close(x.r.chance(0.5)); return; }
	int n = int(x.r.range(1, 5)); while(n-- && c && !closed) op(int(x.r.u(16)));
}
// the redirector
void Red::accept(std::shared_ptr<RecvFlow> f)
{
	auto &r = x.r;
	CHECK(f->getMetadata() == sigBytes(), "rc-metadata", "%s", hex(f->getMetadata()).c_str());
	auto s = std::make_unique<Srv>(); Srv *p = s.get(); srv.push_back(std::move(s)); ctx.stat("connections");
	Bytes nonce = f->getNearNonce(); for(auto &q : pending) if(!q->bound && q->nonce == nonce) { p->e = q; break; } // a session's flows arrive in order, seconds apart
	CHECK(!!p->e, "rc-message-unconnected", "a flow of no known connection"); if(!p->e) return;
	p->e->bound = true; ctx.stat("epochs");
	for(auto &o : srv) if(o.get() != p && !o->complete) o->ended = true; // an old connection the client gave up
	if(refuse || r.chance(0.05)) { p->refused = true; why = true; refuse = r.chance(0.5); ctx.stat("refused"); return; }
	p->rx = f; f->setBufferCapacity(1 << 22);
	f->onMessage = [this, p] (const uint8_t *d, size_t n, uintmax_t, size_t) { if(!x.ended) message(p, Bytes(d, d + n)); };
	f->onComplete = [this, p] (bool err) { p->complete = true; p->error = err; };
	f->accept(); auto hold = f;
	int n = int(r.u(6)); while(n--) x.later(r.logreal(0.001, 10), [this, p] { if(!p->ended) serverAct(); });
	if(r.chance(0.5)) x.later(r.logreal(0.001, 10), [this, p] { if(!p->ended) hostileFlow(p); });
	if(r.chance(0.35)) { int how = int(r.u(5)); x.later(r.logreal(0.01, 30), [this, p, how] { if(!p->ended && live() == p && x.acting) endServer(how); }); }
}
Srv *Red::live() { if(srv.empty()) return nullptr; Srv *s = srv.back().get(); return s->ended || s->refused || s->complete || !s->rx ? nullptr : s; }
void Red::message(Srv *s, const Bytes &m)
{
	x.nOut++; if(s->ended && s->code) return;
	if(!s->e) return;
	Epoch &ep = *s->e; ctx.h(m.empty() ? 0 : m[0]);
	if(m.empty()) { ctx.fail("rc-empty-message", "an empty message"); return; }
	Bytes body(m.begin() + 1, m.end()); std::string got;
	switch(m[0]) {
	case 0x1d: { auto it = ep.auth.find(hex(body)); CHECK(it != ep.auth.end(), "rc-auth", "authentication %s is not what is expected (%zu left)", hex(body).c_str(), ep.auth.size()); if(it != ep.auth.end()) ep.auth.erase(it); ctx.stat("auths"); return; }
	case 0x0f: {
		uintmax_t v = 0; size_t o = 0; bool ok = vlu(body, o, v) && o == body.size(); CHECK(ok, "rc-load-factor", "%s", hex(body).c_str());
		CHECK(ep.auth.empty(), "rc-auth-first", "load factor before authentication"); ctx.stat("load_factors");
		size_t i = ep.lf; if(lfs[i].first == v && ep.lfDup > 0) { ep.lfDup--; } else { i++; while(i < lfs.size() && lfs[i].first != v) i++; CHECK(i < lfs.size(), "rc-load-factor", "load factor %ju is not one that was set since the last one sent", v); ep.lf = std::min(i, lfs.size() - 1); ep.lfDup = std::min(ep.lfDup, 1); }
		ep.lfSeen++; if(x.perfect && !ep.intervalChanged && x.w.now > ep.connectedAt + 2) { if(ep.lfLast >= 0 && x.w.now > ep.bigAt + 5) CHECK(x.w.now - ep.lfLast >= ep.interval - 0.001, "rc-load-factor-rate", "load factors %.4Lf s apart, interval %g", x.w.now - ep.lfLast, ep.interval); ep.lfLast = x.w.now; }
		return; }
	case 0x05: {
		bool refl = false, bad = false; std::multiset<std::string> as; size_t o = 0;
		while(o < body.size()) { uintmax_t len = 0, type = 0; if(!vlu(body, o, len)) { bad = true; break; } if(!len) continue; size_t end = o + size_t(len); if(end > body.size()) { bad = true; break; } if(!vlu(body, o, type) || o > end) { bad = true; break; } if(type == 0x0d) refl = true; else if(type == 0x0a) as.insert(hex(Bytes(body.begin() + o, body.begin() + end))); else bad = true; o = end; }
		CHECK(!bad, "rc-settings", "malformed settings %s", hex(body).c_str());
		got = refl ? "S:r:" : "S:-:"; for(auto &q : as) got += q + ","; ctx.stat("settings_messages"); break; }
	case 0x00: CHECK(body.empty(), "rc-draining", "draining with content"); got = "D"; ctx.stat("draining_messages"); break;
	case 0x10: got = "U:" + hex(body); ctx.stat("user_data_out"); break;
	default: ctx.fail("rc-command", "unknown command %02x", m[0]); return;
	}
	CHECK(ep.auth.empty(), "rc-auth-first", "%s before authentication", got.substr(0, 60).c_str());
	size_t p = ep.pos; while(p < ep.out.size() && ep.out[p].m != got && ep.out[p].may) p++;
	CHECK(p < ep.out.size() && ep.out[p].m == got, "rc-message", "the redirector received %s, expected %s (%zu of %zu)", got.substr(0, 100).c_str(), p < ep.out.size() ? ep.out[p].m.substr(0, 100).c_str() : "nothing", p, ep.out.size());
	if(p < ep.out.size() && ep.out[p].m == got) ep.pos = p + 1;
}
void Red::serverAct()
{
	Srv *s = live(); auto &r = x.r; if(!s || !s->e || s->e->over) return;
	if(!s->tx) { Bytes m = sigBytes(); if(r.chance(0.3)) { m.push_back(0); Bytes t = r.bytes(r.u(6)); m.insert(m.end(), t.begin(), t.end()); } s->tx = s->rx->openReturnFlow(m, PRI_ROUTINE); if(!s->tx) return; }
	Epoch &ep = *s->e; bool valid = ep.in.empty() ? false : ep.in.back().valid; Address cur; if(valid) cur = ep.in.back().a;
	int n = int(r.range(1, 4));
	while(n--) {
		Bytes m; Ev v; v.valid = valid; v.a = cur;
		switch(r.u(5)) {
		case 0: case 1: { Address q = x.raddr(); if(r.chance(0.5)) q.setOrigin(Address::ORIGIN_OBSERVED); m = {0x0d}; Bytes t = x.enc(q); m.insert(m.end(), t.begin(), t.end()); if(r.chance(0.2)) m.push_back(9); v.e = "R:" + hex(x.enc(q)); v.valid = valid = true; v.a = cur = q; break; }
		case 2: case 3: { Bytes t = r.bytes(r.chance(0.1) ? r.u(3000) : r.u(20)); m = {0x10}; m.insert(m.end(), t.begin(), t.end()); v.e = "U:" + hex(t); break; }
		case 4: { v.e = "-"; if(r.chance(0.5)) { m = {0x0d}; Bytes t = r.bytes(r.u(19)); m.insert(m.end(), t.begin(), t.end()); if(m.size() > 1) { if(m.size() < 20) m[1] |= 0x80; } v.valid = valid = false; } else { m = r.bytes(r.u(10)); if(m.size() && (m[0] == 0x0d || m[0] == 0x10)) m[0] = 0x44; } break; }
		}
		if(!s->tx->write(m)) return;
		ep.in.push_back(v); ctx.stat("reports_sent");
	}
}
void Red::hostileFlow(Srv *s) // return flows that must not be taken
{
	auto &r = x.r; if(!s->rx || !s->e || s->e->over || !live()) return;
	Bytes m = sigBytes(); int k = int(r.u(5));
	if(k == 0) { if(!s->tx || !s->e->inPos) return; } // a second one
	else if(k == 1) m.resize(r.u(m.size())); else if(k == 2) m[r.u(m.size())] ^= uint8_t(1 << r.u(8)); else if(k == 3) m.push_back(uint8_t(r.range(1, 255))); else m = r.bytes(r.u(60));
	if(k == 4 && m == sigBytes()) return;
	auto f = s->rx->openReturnFlow(m, PRI_ROUTINE); if(!f) return;
	auto rej = std::make_shared<bool>(false); f->onException = [rej] (uintmax_t) { *rej = true; }; s->bad.push_back(f); s->rejected.push_back(rej);
	Bytes d = {0x10, 0xff, 0xfe, 0xfd, uint8_t(r.bits()), uint8_t(r.bits())}; f->write(d); ctx.stat("bad_flows");
}
void Red::endServer(int how)
{
	Srv *s = live(); if(!s) return;
	ctx.note("%.3Lf redirector %d ends it, way %d", x.w.now, idx, how); why = true; s->ended = true;
	if(s->tx && how < 3) s->tx->close();
	switch(how) {
	case 0: s->code = 10; break; case 1: s->code = x.r.pick({1, 9, 11, 0x0a0a, 26}); break; case 2: s->code = 0; break;
	default: s->rx->closeSession(); ctx.stat("ended_session"); return;
	}
	downCode = s->code; if(how == 0) expectBad = true; s->rx->close(s->code); if(!s->code) s->code = 1; ctx.stat("ended_code");
}
bool Red::delivered(std::string *why_)
{
	if(closed || !e || e->over) return true;
	Srv *s = live(); if(!s || s->e != e) { for(auto &m : e->out) if(!m.may) { if(why_) *why_ = "everything (the redirector has no connection)"; return false; } return true; }
	if(e->auth.size()) { if(why_) *why_ = "authentication"; return false; }
	for(size_t i = e->pos; i < e->out.size(); i++) if(!e->out[i].may) { if(why_) *why_ = "message " + e->out[i].m.substr(0, 60); return false; }
	if(lfs[e->lf].first != lfs.back().first || !e->lfSeen) { if(why_) *why_ = fmt("load factor %ju (the redirector has %ju)", lfs.back().first, lfs[e->lf].first); return false; }
	for(size_t i = e->inPos; i < e->in.size(); i++) if(!(e->in[i].e[0] == '-' || (e->in[i].e[0] == 'R' && reflexCleared) || (e->in[i].e[0] == 'U' && userCleared))) { if(why_) *why_ = "report " + e->in[i].e.substr(0, 60); return false; }
	for(auto &q : s->rejected) if(!*q) { if(why_) *why_ = "the rejection of a flow it must not take"; return false; }
	return true;
}
void World27::statics()
{
	CHECK(RedirectorClient::makeFlowMetadata() == sigBytes(), "rc-metadata", "makeFlowMetadata");
	for(int i = 0; i < 10; i++) {
		Bytes m = sigBytes(); switch(r.u(6)) { case 0: break; case 1: m.resize(r.u(m.size())); break; case 2: m[r.u(m.size())] ^= uint8_t(1 << r.u(8)); break; case 3: { m.push_back(0); Bytes t = r.bytes(r.u(5)); m.insert(m.end(), t.begin(), t.end()); break; } case 4: m.push_back(uint8_t(r.u(256))); break; default: m = r.bytes(r.u(60)); }
		Bytes g = sigBytes(); bool want = m.size() >= g.size() && !memcmp(m.data(), g.data(), g.size()) && (m.size() == g.size() || m[g.size()] == 0);
		auto *exact = new uint8_t[m.size() ? m.size() : 1]; (void)exact; delete[] exact; Bytes t(m); t.shrink_to_fit();
		CHECK(RedirectorClient::checkFlowMetadata(t) == want, "rc-check-metadata", "%s", hex(m).c_str());
	}
}
void World27::go()
{
	statics();
	perfect = r.chance(0.5); w.dflt = perfect ? PathCfg() : randomPath(r, int(r.u(2))); if(perfect) w.dflt.delay = r.logreal(0.001, 0.1); w.dflt.maxConsecLoss = 2; w.dflt.ecnMark = 0;
	a = w.addNode("alice", {"10.0.0.1:1"}); int n = int(r.chance(0.6) ? 1 : r.range(2, 3)); T = r.logreal(5, 150); chaos = r.pick({0.0, 0.15, 0.4, 0.7});
	for(int i = 0; i < n; i++) { std::vector<std::string> ad; for(int q = int(r.range(1, 3)); q > 0; q--) ad.push_back(fmt("10.1.%d.%d:%d", i, q, 10 + i)); auto d = std::make_unique<Red>(*this, i); d->b = w.addNode(fmt("red%d", i), ad); reds.push_back(std::move(d)); }
	for(auto &q : w.nodes) q->platform->performDelay0 = r.chance(0.5) ? 0 : r.logreal(1e-5, 0.01);
	for(auto &d : reds) d->start();
	auto pick = [this] { return r.pick(reds).get(); };
	for(int k = int(r.u(25)); k > 0; k--) w.after(r.real(0, double(T)), [this, pick] { if(!ended && acting) { double c = chaos; chaos = 1; budget++; pick()->act(); chaos = c; } });
	for(int k = int(r.u(12)); k > 0; k--) w.after(r.real(0, double(T)), [this, pick] { if(!ended && acting) pick()->serverAct(); });
	if(r.chance(0.25)) w.after(r.real(0, double(T)), [this, pick] { if(ended || !acting) return; Red *d = pick(); if(d->live()) { double l = r.logreal(0.1, 60); outage = true; d->why = true; if(d->e) d->e->intervalChanged = true; int bi = d->idx + 1; w.path(0, bi).down = w.path(bi, 0).down = true; ctx.note("%.3Lf outage of redirector %d for %g", w.now, d->idx, l); w.after(l, [this, bi, d] { w.path(0, bi).down = w.path(bi, 0).down = false; if(d->e) d->why = true; }); w.after(l + 61, [this] { outage = false; }); ctx.stat("outages"); } });
	w.run(w.now + T, [this] { return ctx.failed; });
	acting = false; for(auto &d : reds) d->refuse = false;
	// a report that the redirector gave up the flow is sent once, and again for any more data: if lost, the next message gets it
	for(int k = 0; k < 1200; k += 5) later(k, [this] { for(auto &d : reds) if(d->c && d->e && !d->e->over && !d->closed && !d->live() && !d->shut) d->op(9); });
	for(auto &d : reds) d->connectingAt = std::max(d->connectingAt, w.now);
	// everybody reachable is connected again before long, and everything gets through
	if(!ctx.failed) {
		auto fine = [this] (std::string *why) { for(auto &d : reds) { if(d->closed || !d->reachable) continue; if(d->st != RedirectorClient::STATUS_CONNECTED) { if(why) *why = fmt("client %d is %s", d->idx, SN[d->st]); return false; } std::string q; if(!d->delivered(&q)) { if(why) *why = fmt("client %d: ", d->idx) + q; return false; } } return true; };
		bool ok = w.run(w.now + 600, [&] { return ctx.failed || fine(nullptr); });
		std::string why; if(!ok) { fine(&why); ctx.fail("rc-not-settled", "still not after 600 s: %s", why.c_str()); }
		for(auto &d : reds) if(!ctx.failed && d->c && !d->closed && d->e && d->c->send()) { auto f = d->c->send();
			CHECK(std::abs(double(f->getSessionKeepalivePeriod()) - d->K) < 1e-9 && std::abs(double(f->getSessionRetransmitLimit()) - d->L) < 1e-9 && f->getSessionFIHelloMode() == d->fi, "rc-session-settings", "keepalive %g limit %g mode %d, set %g %g %d", double(f->getSessionKeepalivePeriod()), double(f->getSessionRetransmitLimit()), int(f->getSessionFIHelloMode()), d->K, d->L, int(d->fi));
			ctx.stat("settled_clients"); }
	}
	// a redirector that goes silent is noticed
	if(!ctx.failed && perfect && !outage && r.chance(0.5)) {
		Red *d = r.pick(reds).get(); w.run(w.now + 5);
		if(d->e && !d->closed && d->live()) { ctx.note("%.3Lf redirector %d goes silent", w.now, d->idx); int bi = d->idx + 1; w.path(0, bi).down = w.path(bi, 0).down = true; d->why = true; long double t0 = w.now; bool ok = w.run(w.now + d->K + d->L + 25, [d] { return ctx.failed || !d->e; }); CHECK(ok, "rc-silence-unnoticed", "the redirector has been silent for %.1Lf s: still %s (keepalive %g, limit %g)", w.now - t0, SN[d->st], d->K, d->L);
			if(ok) { CHECK(w.now >= t0 + std::min(d->L, 1e9) - 1, "rc-silence-early", "disconnected %.2Lf s into the silence, limit %g", w.now - t0, d->L); ctx.stat("silences"); ctx.statmax("silence_noticed_ms", double(w.now - t0) * 1000); }
			if(r.chance(0.5)) { w.path(0, bi).down = w.path(bi, 0).down = false; ok = w.run(w.now + 300, [d] { return ctx.failed || (d->e && d->delivered(nullptr)); }); std::string why; if(!ok) { d->delivered(&why); ctx.fail("rc-not-reconnected", "reachable again for 300 s: %s, %s", SN[d->st], why.c_str()); } } else d->closed ? (void)0 : (void)(d->reachable = false); }
	}
	if(!ctx.failed && r.chance(0.15)) { for(auto &d : reds) d->shut = true; ctx.note("%.3Lf shutdown", w.now); a->rtmfp->shutdown(r.chance(0.5)); w.run(w.now + r.real(0, 150)); ctx.stat("shutdowns"); }
	for(auto &d : reds) if(!ctx.failed && !d->closed) {
		auto ep = d->e; Srv *s = d->live(); if(s && s->e != ep) s = nullptr; bool judge = ep && s && d->reachable && !d->shut && !outage;
		d->close(r.chance(0.5));
		if(judge) { bool ok = w.run(w.now + 120, [s] { return ctx.failed || s->complete; }); CHECK(ok && !s->error, "rc-close-incomplete", "closed, but the redirector sees no end of the flow (complete %d error %d)", s->complete, s->error); for(size_t i = ep->pos; i < ep->out.size(); i++) CHECK(ep->out[i].may, "rc-close-lost", "sent before closing, never received: %s", ep->out[i].m.substr(0, 80).c_str()); ctx.stat("clean_closes"); }
	}
	if(!ctx.failed) { w.run(w.now + 100); for(auto &d : reds) { d->c.reset(); CHECK(d->gone, "rc-leak", "a closed client still exists"); } }
	bool any = false; for(auto &d : reds) if(d->connects) any = true;
	if(any && nOut > 3) ctx.nontrivial = true;
	ctx.stat("messages_at_redirector", double(nOut)); ctx.stat("events_at_client", double(nIn)); statsFromWorld(w);
	ctx.sample(fmt("case %llu: %zu clients, perfect %d, %llu messages out, %llu events in", (unsigned long long)ctx.caseIndex, reds.size(), perfect, (unsigned long long)nOut, (unsigned long long)nIn));
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	World27 x(w, rng);
	x.go();
	x.ended = true; x.acting = false;
	for(auto &d : x.reds) { d->closed = true; if(d->c) { d->c->onStatus = nullptr; d->c->onUserData = nullptr; d->c->onReflexiveAddress = nullptr; d->c->close(); } d->c.reset(); d->b->rtmfp->onRecvFlow = nullptr; }
	cleanup(w, nullptr);
}
}
