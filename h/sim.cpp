#include "sim.hpp"

namespace vf {

// ---------------------------------------------------------------- crypto

static const uint64_t DEFAULT_KEY = 0x5eedd5eedull;

static uint64_t nameSecret(const std::string &n) { return hash64(n.data(), n.size(), 0xA11CE); }

static void putMac(Bytes &b, uint64_t m) { for(int i = 0; i < 8; i++) b.push_back(uint8_t(m >> (8 * i))); }

Bytes SimCrypto::encodeCert(const std::string &name, bool good)
{
	Bytes b;
	b.push_back('C');
	b.push_back(uint8_t(name.size()));
	b.insert(b.end(), name.begin(), name.end());
	putMac(b, hash64(name.data(), name.size(), good ? 0xCA : 0xBAD));
	return b;
}

Bytes SimCrypto::signBytes(const std::string &who, const uint8_t *msg, size_t len)
{
	Bytes b;
	putMac(b, hash64(msg, len, nameSecret(who)));
	putMac(b, hash64(msg, len, ~nameSecret(who)));
	return b;
}

// A name is selected by itself, by "alias:<name>" and by "group:<first letter>".
bool SimCrypto::epdSelects(const std::string &name, const uint8_t *epd, size_t len)
{
	std::string e((const char *)epd, len);
	return e == name || e == "alias:" + name || (name.size() && e == std::string("group:") + name[0]);
}

namespace {

struct SimCert : public CryptoCert {
	SimCrypto *owner; std::string name; Bytes raw; bool authentic;
	SimCert(SimCrypto *o, const std::string &n, const Bytes &r, bool a) : owner(o), name(n), raw(r), authentic(a) {}
	void maybeLater(const Task &t)
	{
		if(owner->lateAuth && owner->world->rng.chance(0.7)) { Task c = t; Node *n = owner->home; owner->world->after(owner->world->rng.real(0, 0.3), [c, n] { if(!n || !n->destroyed) c(); }); }
		else t();
	}
	void isAuthentic(const Task &f) override { owner->checks++; if(authentic) maybeLater(f); }
	bool isSelectedByEPD(const uint8_t *epd, size_t len) override { return SimCrypto::epdSelects(name, epd, len); }
	Bytes getCanonicalEPD() override { return Bytes(name.begin(), name.end()); }
	void checkSignature(const uint8_t *msg, size_t msgLen, const uint8_t *sig, size_t sigLen, const Task &f) override
	{
		owner->checks++;
		Bytes m(msg, msg + msgLen);
		if(owner->world->bindRecipient) m.insert(m.end(), owner->name.begin(), owner->name.end());
		Bytes want = SimCrypto::signBytes(name, m.data(), m.size());
		if(sigLen == want.size() && 0 == memcmp(sig, want.data(), sigLen)) maybeLater(f);
	}
	bool doesCertOverrideSession(std::shared_ptr<CryptoCert> other) override { return ((SimCert *)other.get())->name == name; }
	Bytes encode() override { return raw; }
};

struct SimKey : public SessionCryptoKey {
	World *world = nullptr;
	std::string who;
	uint64_t tx = DEFAULT_KEY, rx = DEFAULT_KEY;
	Bytes near, far;
	size_t getEncryptSrcFrontMargin() override { return 16; }
	bool encrypt(uint8_t *dst, size_t &ioDstLen, uint8_t *src, size_t srcLen, size_t margin) override
	{
		if(srcLen < margin) return false;
		size_t n = srcLen - margin;
		if(ioDstLen < n + 8) return false;
		memcpy(dst, src + margin, n);
		uint64_t m = hash64(dst, n, tx);
		memcpy(dst + n, &m, 8);
		ioDstLen = n + 8;
		return true;
	}
	bool decrypt(uint8_t *dst, size_t &ioDstLen, size_t &margin, const uint8_t *src, size_t srcLen) override
	{
		if(srcLen < 9 || ioDstLen < srcLen + 16) return false;
		size_t n = srcLen - 8;
		uint64_t m = hash64(src, n, rx), have;
		memcpy(&have, src + n, 8);
		if(m != have) return false;
		margin = 16;
		memcpy(dst + 16, src, n);
		ioDstLen = n + 16;
		return true;
	}
	Bytes getNearNonce() override { return near; }
	Bytes getFarNonce() override { return far; }
	bool generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert> c, Bytes *out) override { *out = near; if(world) world->keys.push_back({who, ((SimCert *)c.get())->name, near, Bytes(), true, world->now}); return true; }
	bool initiatorCombineResponderKeyingComponent(const uint8_t *p, size_t len) override
	{
		if(len != near.size()) return false;
		far.assign(p, p + len);
		derive(near, far, true);
		if(world) { world->combined.insert(rx); world->justCombined = rx; }
		return true;
	}
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert> c, const uint8_t *p, size_t len, Bytes *out) override
	{
		if(len != near.size()) return false;
		far.assign(p, p + len);
		*out = near;
		derive(far, near, false);
		if(world) world->keys.push_back({who, ((SimCert *)c.get())->name, near, far, false, world->now});
		return true;
	}
	void derive(const Bytes &ini, const Bytes &resp, bool initiator)
	{
		uint64_t a = hash64(ini, hash64(resp, 1)), b = hash64(ini, hash64(resp, 2));
		tx = initiator ? a : b;
		rx = initiator ? b : a;
	}
};

} // anonymous namespace

SimCrypto::SimCrypto(World *w, const std::string &n, uint64_t seed) : world(w), name(n), signAs(n), rng(seed) {}

std::shared_ptr<SessionCryptoKey> SimCrypto::getKeyForNewSession()
{
	auto k = share_ref(new SimKey(), false);
	((SimKey *)k.get())->near = rng.bytes(8);
	((SimKey *)k.get())->world = world;
	((SimKey *)k.get())->who = name;
	keysMade++;
	return k;
}
Bytes SimCrypto::getNearEncodedCertForEPD(const uint8_t *, size_t) { return encodeCert(name, !forgeEndorsement); }
bool SimCrypto::isSelectedByEPD(const uint8_t *epd, size_t len) { return epdSelects(name, epd, len); }
Bytes SimCrypto::sign(const uint8_t *msg, size_t len, std::shared_ptr<CryptoCert> to)
{
	signs++;
	Bytes m(msg, msg + len);
	if(world->bindRecipient && to) { const std::string &n = ((SimCert *)to.get())->name; m.insert(m.end(), n.begin(), n.end()); }
	return signBytes(signAs, m.data(), m.size());
}
bool SimCrypto::checkNearWinsGlare(std::shared_ptr<CryptoCert> far) { return name < ((SimCert *)far.get())->name; }
std::shared_ptr<CryptoCert> SimCrypto::decodeCertificate(const uint8_t *p, size_t len)
{
	if(len < 2 || p[0] != 'C') return nullptr;
	size_t n = p[1];
	if(len != 2 + n + 8) return nullptr;
	std::string nm((const char *)p + 2, n);
	uint64_t want = hash64(nm.data(), nm.size(), 0xCA), have;
	memcpy(&have, p + 2 + n, 8);
	return share_ref(new SimCert(this, nm, Bytes(p, p + len), want == have), false);
}
void SimCrypto::pseudoRandomBytes(uint8_t *dst, size_t len) { while(len--) *dst++ = uint8_t(rng.next()); }
void SimCrypto::cryptoHash256(uint8_t *dst, const uint8_t *msg, size_t len)
{
	for(uint64_t i = 0; i < 4; i++) { uint64_t h = hash64(msg, len, 0x1234 + i * 77); memcpy(dst + 8 * i, &h, 8); }
}

Bytes sealDefault(const Bytes &clear, uint32_t sid)
{
	Bytes out(4);
	out.insert(out.end(), clear.begin(), clear.end());
	uint64_t m = hash64(clear, DEFAULT_KEY);
	for(int i = 0; i < 8; i++) out.push_back(((uint8_t *)&m)[i]);
	uint32_t w[3] = {0, 0, 0};
	memcpy(w + 1, out.data() + 4, std::min<size_t>(8, out.size() - 4));
	w[0] = sid ^ w[1] ^ w[2];
	memcpy(out.data(), w, 4);
	return out;
}

// ---------------------------------------------------------------- platform

Time SimPlatform::getCurrentTime() { return world->now + node->skew; }

void SimPlatform::rewake()
{
	if(!node->rtmfp || node->destroyed) return;
	long double d = node->rtmfp->howLongToSleep();
	if(d < 0) d = 0;
	if(lateTimers) d += world->rng.real(0, 0.01);
	wakeAt = world->now + d;
	uint64_t gen = ++wakeGen;
	world->at(wakeAt, [this, gen] {
		if(gen != wakeGen || !node->rtmfp || node->destroyed || !node->alive) return;
		timerRuns++;
		node->rtmfp->doTimerWork();
		rewake();
	});
}

void SimPlatform::onHowLongToSleepDidChange() { rewake(); }

bool SimPlatform::notifyWhenInterfaceWritable(int, const std::function<bool(void)> &fn)
{
	auto f = std::make_shared<std::function<bool(void)>>(fn);
	auto loop = std::make_shared<std::function<void()>>();
	std::weak_ptr<std::function<void()>> wl = loop;
	// self-rescheduling closure, kept alive by the scheduled event only
	struct Fire { static void go(SimPlatform *p, std::shared_ptr<std::function<bool(void)>> f, double d) {
		p->world->after(d, [p, f] {
			if(p->node->destroyed) return;
			if((*f)()) go(p, f, p->pace);
		});
	} };
	Fire::go(this, f, writableDelay * world->rng.real(0.1, 1));
	return true;
}

bool SimPlatform::writePacket(const void *bytes, size_t len, int ifid, const struct sockaddr *addr, socklen_t addrLen, int tos)
{
	writes++;
	Pkt p;
	p.data.assign((const uint8_t *)bytes, (const uint8_t *)bytes + len);
	p.src = node->pub[ifid];
	p.dst.setSockaddr(addr);
	p.tos = tos;
	p.fromNode = node->index;
	p.fromIf = ifid;
	world->transmit(p);
	return true;
}

bool SimPlatform::perform(unsigned long thread, const Task &task)
{
	performs++;
	double maxd = thread ? performDelayN : performDelay0;
	long double t = world->now + (maxd > 0 ? world->rng.real(0, maxd) : 0);
	auto &last = lastPerform[thread];
	if(t < last) t = last;
	last = t;
	Task c = task;
	World *w = world;
	uint64_t opens = thread ? 0 : w->justCombined; // what follows deriving the keys: the session opens
	Node *nd = node;
	w->at(t, [c, w, opens, nd] { if(nd->destroyed) return; w->justCombined = 0; if(opens) w->opened.insert(opens); c(); w->justCombined = 0; });
	return true;
}

void SimPlatform::onShutdownComplete()
{
	shutdownCompletes++;
	if(node->onShutdownComplete) node->onShutdownComplete();
}

bool Node::receive(const Pkt &p)
{
	if(!rtmfp || destroyed || !alive) return false;
	int ifid = 0;
	auto it = world->where.find(p.dst);
	if(it != world->where.end()) ifid = it->second.second;
	return rtmfp->onReceivePacket(p.data.data(), p.data.size(), ifid, p.src.getSockaddr(), p.tos);
}

// ---------------------------------------------------------------- world

World::World(Rng &r) : rng(r.next()), now(1000.0L + (long double)r.real(0, 100)) {}

World::~World()
{
	for(auto &n : nodes) n->destroyed = true;
	// Events may own endpoint objects and drop the last reference to them: run destructors with the nodes still there.
	while(!q.empty()) { Ev *e = q.top(); q.pop(); delete e; }
	for(auto &n : nodes) n->rtmfp.reset();
	while(!q.empty()) { Ev *e = q.top(); q.pop(); delete e; }
}

void World::at(long double t, std::function<void()> fn)
{
	Ev *e = new Ev{t < now ? now : t, seq++, std::move(fn)};
	q.push(e);
}

bool World::step()
{
	if(q.empty() || stopped) return false;
	Ev *e = q.top(); q.pop();
	if(e->t > now) now = e->t;
	processed++;
	if(processed > maxEvents) { stopped = true; ctx.fail("livelock", "more than %llu events, virtual time %.3Lf: endless activity", (unsigned long long)maxEvents, now); }
	e->fn();
	delete e;
	return !stopped;
}

bool World::run(long double until, const std::function<bool()> &cond)
{
	while(!ctx.failed && !stopped) {
		if(cond && cond()) return true;
		if(q.empty() || q.top()->t > until) break;
		step();
	}
	if(now < until && !ctx.failed && !stopped) now = until;
	return cond && cond();
}

Node *World::addNode(const std::string &name, const std::vector<std::string> &addrs, std::unique_ptr<ICryptoAdapter> crypto)
{
	nodes.emplace_back(new Node());
	Node *n = nodes.back().get();
	n->world = this; n->index = int(nodes.size()) - 1; n->name = name;
	n->platform.reset(new SimPlatform(this, n));
	if(crypto) n->crypto = std::move(crypto);
	else { n->sim = new SimCrypto(this, name, rng.next()); n->sim->home = n; n->crypto.reset(n->sim); }
	n->rtmfp = share_ref(new RTMFP(n->platform.get(), n->crypto.get()), false);
	int ifid = 1;
	for(auto &a : addrs) { bind(n, ifid, A(a)); n->rtmfp->addInterface(ifid); ifid++; }
	n->platform->rewake();
	return n;
}

PathCfg &World::path(int a, int b)
{
	auto k = std::make_pair(a, b);
	auto it = paths.find(k);
	if(it == paths.end()) it = paths.emplace(k, dflt).first;
	return it->second;
}

void World::bind(Node *n, int ifid, const Address &a, bool makePublic)
{
	where[a] = std::make_pair(n->index, ifid);
	if(makePublic) n->pub[ifid] = a;
}

static void trace_(World &w, const char *dir, const Pkt &p)
{
	Wire k = decodeWire(p.data);
	std::string c;
	for(auto &x : k.chunks) c += fmt(" %02x/%zu", x.type, x.body.size()) + (x.type == CHUNK_USERDATA || x.type == CHUNK_ACK_RANGES ? "(" + hex(x.body, 12) + ")" : "");
	fprintf(stderr, "%.5Lf %s #%llu %s>%s sid %08x fl %02x%s%s%s\n", w.now, dir, (unsigned long long)p.id, S(p.src).c_str(), S(p.dst).c_str(), k.sid, k.flags, c.c_str(), k.ok ? "" : " BAD ", k.why.c_str());
}

void World::transmit(Pkt p)
{
	p.id = ++pktId;
	p.sentAt = now;
	auto it = where.find(p.dst);
	p.toNode = it == where.end() ? -1 : it->second.first;
	nSent++;
	for(auto &f : onSend) if(!f(p)) return;
	trace = mix64(trace ^ hash64(p.data, p.fromNode));
	if(ctx.verbose) trace_(*this, "->", p);
	if(p.toNode < 0) return;
	PathCfg &c = path(p.fromNode, p.toNode);
	if(c.down) { nLost++; return; }
	if(rng.chance(c.loss) && c.consec < c.maxConsecLoss) { nLost++; c.consec++; trace = mix64(trace ^ 11); return; }
	c.consec = 0;
	long double qd = 0;
	if(c.rate > 0) {
		if(c.busyUntil < now) c.busyUntil = now;
		qd = c.busyUntil - now;
		if(qd > c.queueLimit) { nLost++; nQueueDrop++; return; }
		c.busyUntil += p.data.size() / c.rate;
		qd = c.busyUntil - now;
	}
	if((p.tos & 3) == 2 && ((c.ecnThresh >= 0 && qd > c.ecnThresh) || rng.chance(c.ecnMark))) { p.tos |= 3; nMarked++; }
	int copies = rng.chance(c.dup) ? 2 : 1;
	if(copies == 2) nDup++;
	for(int i = 0; i < copies; i++) {
		Pkt q2 = p;
		if(rng.chance(c.corrupt) && !q2.data.empty()) {
			nCorrupt++;
			int k = int(rng.range(1, 3));
			for(int j = 0; j < k; j++) q2.data[rng.u(q2.data.size())] ^= uint8_t(rng.range(1, 255));
			if(rng.chance(0.2)) q2.data.resize(rng.u(q2.data.size() + 1));
			q2.corrupted = q2.data != p.data; // several flips can cancel out
		}
		long double d = c.delay + rng.real(0, c.jitter) + qd;
		if(c.reorder > 0 && rng.chance(c.reorder)) { d += rng.real(0, c.reorderDelay); nReordered++; }
		if(i) d += rng.real(0, 0.05);
		at(now + d, [this, q2] { arrive(q2); });
	}
}

void World::arrive(Pkt p)
{
	auto it = where.find(p.dst);
	if(it == where.end()) return;
	p.toNode = it->second.first;
	Node *n = nodes[p.toNode].get();
	if(!n->alive || n->destroyed || !n->rtmfp) return;
	nDelivered++;
	if(ctx.verbose) trace_(*this, "<-", p);
	for(auto &f : onArrive) f(p);
	bool rv = n->receive(p);
	for(auto &f : onArrived) f(p, rv);
}

void World::inject(const Bytes &data, const Address &src, const Address &dst, int tos, double delay)
{
	Pkt p;
	p.data = data; p.src = src; p.dst = dst; p.tos = tos; p.id = ++pktId; p.sentAt = now;
	at(now + delay, [this, p] { arrive(p); });
}

// ---------------------------------------------------------------- wire decoding

bool vlu(const Bytes &b, size_t &off, uintmax_t &v)
{
	v = 0;
	for(int i = 0; i < 10; i++) {
		if(off >= b.size()) return false;
		uint8_t c = b[off++];
		v = (v << 7) | (c & 0x7f);
		if(!(c & 0x80)) return true;
	}
	return false;
}

void putVlu(Bytes &b, uintmax_t v)
{
	uint8_t t[10]; int n = 0;
	do { t[n++] = v & 0x7f; v >>= 7; } while(v);
	while(n--) b.push_back(t[n] | (n ? 0x80 : 0));
}

Wire decodeWire(const Bytes &pkt, size_t trailer)
{
	Wire w;
	if(pkt.size() < 4 + 1 + trailer) { w.why = "too short"; return w; }
	uint32_t s[3] = {0, 0, 0};
	memcpy(s, pkt.data(), std::min<size_t>(12, pkt.size()));
	w.sid = s[0] ^ s[1] ^ s[2];
	size_t off = 4, lim = pkt.size() - trailer;
	w.clearLen = lim - off;
	w.flags = pkt[off++];
	auto u16 = [&](long &v) { if(lim - off < 2) return false; v = (pkt[off] << 8) | pkt[off + 1]; off += 2; return true; };
	if((w.flags & 0x08) && !u16(w.ts)) { w.why = "timestamp"; return w; }
	if((w.flags & 0x04) && !u16(w.tse)) { w.why = "timestamp echo"; return w; }
	while(off < lim) {
		if(lim - off < 3) { w.why = fmt("%zu stray bytes after last chunk", lim - off); return w; }
		size_t n = (pkt[off + 1] << 8) | pkt[off + 2];
		if(n > lim - off - 3) { w.why = fmt("chunk %02x length %zu exceeds packet", pkt[off], n); return w; }
		w.chunks.push_back(WChunk{pkt[off], Bytes(pkt.begin() + off + 3, pkt.begin() + off + 3 + n), off - 4});
		off += 3 + n;
	}
	w.ok = true;
	return w;
}

bool parseUserData(const WChunk &c, const WUserData *prev, WUserData &o)
{
	o = WUserData();
	size_t off = 0;
	if(c.body.empty()) return false;
	o.flags = c.body[off++];
	if(c.type == CHUNK_USERDATA) {
		uintmax_t fo;
		if(!vlu(c.body, off, o.flow) || !vlu(c.body, off, o.seq) || !vlu(c.body, off, fo) || fo > o.seq) return false;
		o.fsn = o.seq - fo;
	} else {
		if(!prev) return false;
		o.flow = prev->flow; o.seq = prev->seq + 1; o.fsn = prev->fsn;
	}
	if(o.flags & USERDATA_FLAG_OPT) {
		o.hasOpt = true;
		while(true) {
			uintmax_t len;
			if(!vlu(c.body, off, len)) return false;
			if(len == 0) break;
			if(len > c.body.size() - off) return false;
			size_t end = off + len;
			Bytes sub(c.body.begin() + off, c.body.begin() + end);
			size_t so = 0; uintmax_t type;
			if(!vlu(sub, so, type)) return false;
			if(type == 0) { o.hasMeta = true; o.meta.assign(sub.begin() + so, sub.end()); }
			else if(type == 0x0a) { o.hasAssoc = true; if(!vlu(sub, so, o.assoc)) return false; }
			off = end;
		}
	}
	o.data.assign(c.body.begin() + off, c.body.end());
	return true;
}

bool parseAck(const WChunk &c, WAck &o)
{
	o = WAck();
	size_t off = 0;
	if(!vlu(c.body, off, o.flow) || !vlu(c.body, off, o.blocks) || !vlu(c.body, off, o.cum)) return false;
	uintmax_t cur = o.cum;
	while(off < c.body.size()) {
		uintmax_t h, r;
		if(!vlu(c.body, off, h)) break;
		if(!vlu(c.body, off, r)) break;
		uintmax_t from = cur + 1 + h + 1, to = from + r;
		o.ranges.push_back({from, to});
		cur = to;
	}
	return true;
}

} // namespace vf
