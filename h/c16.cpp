// C16: the Flash-compatible crypto: negotiation, packet protection, certificates and discriminators; alone,
// against an independent implementation of the profile (OpenSSL primitives only), and under real sessions.
#include "app.hpp"
#include "rtmfp/FlashCryptoAdapter_OpenSSL.hpp"
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
namespace vf {
const char *driverRule() { return "one case = either two real crypto adapters of random options keyed to each other and exchanging packets that are altered, cut, extended, swapped, reflected, replayed and reordered; or one against an independent implementation with valid, conflicting, weak and malformed keying components; or generated and mutated certificates and discriminators against a reference decoder; or sessions over a simulated network that duplicates, reorders, replays and alters packets; under AddressSanitizer and UBSan; non-trivial when packets were judged or a certificate or component was decided by the reference; distinct by the hash of the configuration and every outcome"; }
uint64_t driverCases(bool t) { return t ? 2000000 : 50000; }

namespace {
// --- deterministic randomness for OpenSSL
Rng osslRng(1);
int rb(unsigned char *b, int n) { for(int i = 0; i < n; i++) b[i] = (unsigned char)osslRng.next(); return 1; }
int rs() { return 1; }
int rseed(const void *, int) { return 1; }
int radd(const void *, int, double) { return 1; }
RAND_METHOD meth = { rseed, rb, nullptr, radd, rb, rs };

typedef std::string Str;
Bytes cat(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
void opt(Bytes &b, uint64_t type, const Bytes &v) { Bytes t; putVlu(t, type); putVlu(b, t.size() + v.size()); b = cat(b, t); b = cat(b, v); }
Bytes vl(uint64_t v) { Bytes b; putVlu(b, v); return b; }
Bytes B(const Str &s) { return Bytes(s.begin(), s.end()); }
Bytes sha(const Bytes &b) { Bytes d(32); SHA256(b.data(), b.size(), d.data()); return d; }
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
Bytes mac(const Bytes &key, const Bytes &m) { Bytes d(32); unsigned n = 32; static const unsigned char z = 0; HMAC(EVP_sha256(), key.empty() ? &z : key.data(), int(key.size()), m.data(), m.size(), d.data(), &n); return d; }
void setRand() { RAND_set_rand_method(&meth); }
#pragma GCC diagnostic pop
#pragma clang diagnostic pop
Bytes aes(const Bytes &key, const Bytes &in, bool enc)
{
	EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); unsigned char iv[16] = {0}; Bytes out(in.size()); int n = 0;
	EVP_CipherInit_ex(c, EVP_aes_128_cbc(), nullptr, key.data(), iv, enc); EVP_CIPHER_CTX_set_padding(c, 0);
	EVP_CipherUpdate(c, out.data(), &n, in.data(), int(in.size())); EVP_CIPHER_CTX_free(c); return out;
}
uint16_t ck(const uint8_t *p, size_t n) { uint32_t s = 0; for(size_t i = 0; i < n; i += 2) s += i + 1 < n ? (p[i] << 8) | p[i + 1] : p[i]; /* an odd last byte counts as the library's own tests say */ while(s >> 16) s = (s & 0xffff) + (s >> 16); return uint16_t(~s); }

// --- the adapter under test, watched
struct SpyKey;
struct Ledger {
	struct Sent { Bytes plain; SpyKey *by; };
	std::map<Bytes, std::vector<Sent>> sent; // packets as encrypted
	uint64_t accepted = 0, refused = 0, tampered = 0, dupRefused = 0, startup = 0;
	std::vector<std::shared_ptr<SessionCryptoKey>> keep;
};
struct Conf { bool server = false, ephemeral = false; bool named = false; Str host; size_t hmacLen = 16; bool hs = false, hr = false, ss = false, sr = false; std::vector<int> groups; };
struct Spy : FlashCryptoAdapter_OpenSSL {
	Conf c; Rng rng; Ledger *ledger = nullptr;
	Spy(const Conf &conf, uint64_t seed) : c(conf), rng(seed)
	{
		if(c.hmacLen) setHMACLength(c.hmacLen);
		setHMACSendAlways(c.hs); setHMACRecvRequired(c.hr); setSSeqSendAlways(c.ss); setSSeqRecvRequired(c.sr);
		if(!init(c.server, c.ephemeral, c.named ? c.host.c_str() : nullptr)) ctx.fail("adapter-init", "init failed");
	}
	std::vector<int> getSupportedDHGroups() const override { return c.groups; }
	void pseudoRandomBytes(uint8_t *d, size_t n) override { for(size_t i = 0; i < n; i++) d[i] = uint8_t(rng.next()); }
	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override;
};
Conf randomConf(Rng &r, bool fast)
{
	Conf c; c.server = r.chance(0.5); c.ephemeral = r.chance(0.6); c.named = r.chance(0.5);
	c.host = r.pick({"localhost", "a.example", "x", "A.example", "b"}); 
	c.hmacLen = r.chance(0.3) ? r.range(4, 32) : r.pick({4, 10, 16, 31, 32});
	c.hs = r.chance(0.35); c.hr = r.chance(0.35); c.ss = r.chance(0.35); c.sr = r.chance(0.35);
	switch(fast ? r.u(4) : r.u(8)) {
	case 0: case 1: case 2: c.groups = {2}; break;
	case 3: c.groups = {14, 2}; break;
	case 4: c.groups = {2, 14}; break;
	case 5: c.groups = {14}; break;
	case 6: c.groups = {16, 14, 2}; break;
	case 7: c.groups = {16}; break;
	}
	return c;
}
Str desc(const Conf &c)
{
	Str g; for(int x : c.groups) g += fmt("%d ", x);
	return fmt("%s%s%s hmac %zu%s%s seq%s%s groups %s", c.server ? "server " : "", c.ephemeral ? "ephemeral" : "static", c.named ? (" " + c.host).c_str() : "", c.hmacLen, c.hs ? " send" : "", c.hr ? " require" : "", c.ss ? " send" : "", c.sr ? " require" : "", g.c_str());
}
bool common(const Conf &a, const Conf &b) { for(int x : a.groups) for(int y : b.groups) if(x == y) return true; return false; }
uint64_t h(const Conf &c) { Str s = desc(c); return hash64(s.data(), s.size()); }

// one direction of a session as the options say it must be protected
struct Dir { bool hmac, seq; size_t len; };
Dir dirOf(const Conf &from, const Conf &to) { Dir d; d.hmac = from.hs || to.hr; d.seq = from.ss || to.sr; d.len = d.hmac ? from.hmacLen : 0; return d; }

struct SpyKey : FlashCryptoKey {
	Spy *owner; bool keyed = false; std::map<Bytes, int> taken; SpyKey *peer = nullptr;
	bool encrypt(uint8_t *dst, size_t &io, uint8_t *src, size_t n, size_t margin) override
	{
		Bytes plain(src + margin, src + n);
		bool ok = FlashCryptoKey::encrypt(dst, io, src, n, margin);
		if(owner->ledger && ok) owner->ledger->sent[Bytes(dst, dst + io)].push_back({plain, keyed ? this : nullptr});
		return ok;
	}
	SpyKey *findPeer()
	{
		if(peer) return peer;
		for(auto &k : owner->ledger->keep) { SpyKey *o = static_cast<SpyKey *>(k.get()); if(o != this && o->keyed && o->getNearNonce() == getFarNonce() && o->getFarNonce() == getNearNonce()) { peer = o; break; } }
		return peer;
	}
	bool decrypt(uint8_t *dst, size_t &io, size_t &margin, const uint8_t *src, size_t n) override
	{
		Bytes wire(src, src + n);
		bool ok = FlashCryptoKey::decrypt(dst, io, margin, src, n);
		Ledger *l = owner->ledger;
		if(!l) return ok;
		if(!ok) { l->refused++; return ok; }
		l->accepted++;
		if(!keyed) { l->startup++; }
		else {
			SpyKey *p = findPeer();
			CHECK(p, "no-mirror", "a packet was accepted under a session key no other endpoint holds");
			if(!p) return ok;
			Dir d = dirOf(p->owner->c, owner->c);
			bool mine = false;
			auto it = l->sent.find(wire);
			if(it != l->sent.end()) for(auto &s : it->second) if(s.by == p) mine = true;
			if(d.hmac) CHECK(mine, "not-from-peer", "with authentication in use a packet of %zu bytes the peer never made was accepted", n);
			if(d.seq && mine) CHECK(!taken[wire]++, "accepted-twice", "with sequence numbering in use a packet was accepted a second time");
		}
		auto it = l->sent.find(wire);
		if(it != l->sent.end()) {
			Bytes got(dst + margin, dst + io); bool eq = false;
			for(auto &s : it->second) if(s.by == (keyed ? peer : nullptr) && got.size() >= s.plain.size() && got.size() - s.plain.size() < 16 && std::equal(s.plain.begin(), s.plain.end(), got.begin()) && std::all_of(got.begin() + s.plain.size(), got.end(), [] (uint8_t x) { return x == 0xff; })) eq = true;
			CHECK(eq, "plaintext-differs", "a packet did not decrypt to what was sent");
			ctx.stat("plaintexts_compared");
		}
		return ok;
	}
	bool initiatorCombineResponderKeyingComponent(const uint8_t *c, size_t n) override { bool ok = FlashCryptoKey::initiatorCombineResponderKeyingComponent(c, n); if(ok) keyed = true; return ok; }
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert> i, const uint8_t *c, size_t n, Bytes *out) override { bool ok = FlashCryptoKey::generateResponderKeyingComponent(i, c, n, out); if(ok) keyed = true; return ok; }
};
std::shared_ptr<SessionCryptoKey> Spy::getKeyForNewSession()
{
	auto k = share_ref(new SpyKey(), false); k->owner = this;
	if(!k->init(this)) ctx.fail("key-init", "init failed");
	if(ledger) ledger->keep.push_back(k);
	return k;
}

// --- key helpers on exact buffers
struct Sealed { bool ok; Bytes wire; };
Sealed seal(SessionCryptoKey *k, const Bytes &plain, Rng &r, size_t *marginOut = nullptr)
{
	size_t margin = k->getEncryptSrcFrontMargin(); if(marginOut) *marginOut = margin;
	size_t n = margin + plain.size(), padded = (n + 15) & ~size_t(15);
	uint8_t *src = new uint8_t[padded ? padded : 1]; memset(src, 0x5a, padded ? padded : 1);
	if(plain.size()) memcpy(src + margin, plain.data(), plain.size());
	size_t cap = padded + 32 + (r.chance(0.5) ? 0 : r.u(40));
	uint8_t *dst = new uint8_t[cap ? cap : 1]; size_t io = cap;
	Sealed s; s.ok = k->encrypt(dst, io, src, n, margin);
	if(s.ok) { CHECK(io <= cap, "encrypt-length", "answered %zu bytes into a buffer of %zu", io, cap); if(io <= cap) s.wire.assign(dst, dst + io); }
	delete[] src; delete[] dst;
	return s;
}
struct Opened { bool ok; Bytes plain; };
Opened open(SessionCryptoKey *k, const Bytes &wire, Rng &r, size_t plainCap = size_t(-1))
{
	size_t cap = plainCap != size_t(-1) ? plainCap : wire.size() + (r.chance(0.5) ? 0 : r.u(40));
	uint8_t *dst = new uint8_t[cap ? cap : 1], *src = new uint8_t[wire.size() ? wire.size() : 1]; if(wire.size()) memcpy(src, wire.data(), wire.size());
	size_t io = cap, margin = 0;
	Opened o; o.ok = k->decrypt(dst, io, margin, src, wire.size());
	if(o.ok) { CHECK(margin <= io && io <= cap, "decrypt-length", "margin %zu length %zu capacity %zu", margin, io, cap); if(margin <= io && io <= cap) o.plain.assign(dst + margin, dst + io); }
	delete[] src; delete[] dst;
	return o;
}
bool samePlain(const Bytes &sent, const Bytes &got) { return got.size() >= sent.size() && got.size() - sent.size() < 16 && std::equal(sent.begin(), sent.end(), got.begin()); }

Bytes tamper(Rng &r, const Bytes &w, const Bytes &other)
{
	Bytes m = w;
	switch(r.u(9)) {
	case 0: case 1: m[r.u(m.size())] ^= uint8_t(1 << r.u(8)); break;
	case 2: m[r.u(m.size())] ^= uint8_t(r.range(1, 255)); break;
	case 3: m.resize(r.u(m.size())); break;
	case 4: m.resize(m.size() > 16 ? m.size() - 16 : 0); break;
	case 5: m = cat(m, r.bytes(r.chance(0.5) ? 16 * r.range(1, 3) : r.range(1, 40))); break;
	case 6: if(m.size() >= 32) { size_t a = r.u(m.size() / 16) * 16, b = r.u(m.size() / 16) * 16; std::swap_ranges(m.begin() + a, m.begin() + a + 16, m.begin() + b); } break;
	case 7: if(other.size() >= 16 && m.size() >= 16) { size_t n = 16 * r.range(1, std::min(m.size(), other.size()) / 16); std::copy(other.begin(), other.begin() + n, m.begin()); } break;
	case 8: if(r.chance(0.5)) m.erase(m.begin(), m.begin() + std::min<size_t>(16, m.size())); else m = cat(r.bytes(16), m); break;
	}
	return m;
}

size_t pickSize(Rng &r) { return r.chance(0.6) ? r.range(1, 60) : r.range(1, 1200); } // a packet has at least its flags

// packets from key a to key b; foreign: packets under other keys
void channel(Rng &r, SessionCryptoKey *a, SessionCryptoKey *b, Dir d, int count, const std::vector<Bytes> &foreign, const Str &what)
{
	struct P { Bytes plain, wire; uint64_t seq; };
	std::vector<P> all; std::deque<P> held; uint64_t max = 0; bool any = false; std::set<uint64_t> taken;
	uint64_t n = 0;
	size_t overheadSeq = 0;
	auto give = [&] (const P &p, bool again) {
		uint64_t gap = any && p.seq < max ? max - p.seq : 0;
		Opened o = open(b, p.wire, r);
		if(!d.seq) { CHECK(o.ok, "genuine-refused", "%s: genuine packet refused", what.c_str()); }
		else if(taken.count(p.seq)) { CHECK(!o.ok, "accepted-twice", "%s: packet %llu accepted again", what.c_str(), (unsigned long long)p.seq); ctx.stat("replays_refused"); }
		else if(gap < FlashCryptoKey::MAX_SSEQ_GAP) CHECK(o.ok, "genuine-refused", "%s: genuine packet %llu refused, newest %llu", what.c_str(), (unsigned long long)p.seq, (unsigned long long)max);
		if(o.ok) { CHECK(samePlain(p.plain, o.plain), "plaintext-differs", "%s: sent %s got %s", what.c_str(), hex(p.plain).c_str(), hex(o.plain).c_str()); taken.insert(p.seq); if(!any || p.seq > max) max = p.seq; any = true; ctx.stat("packets_accepted"); }
		(void)again;
	};
	for(int i = 0; i < count && !ctx.failed; i++) {
		Bytes plain = r.bytes(pickSize(r)); size_t margin;
		if(r.chance(0.1)) { size_t m0 = a->getEncryptSrcFrontMargin(); size_t need = ((m0 + plain.size() + 15) & ~size_t(15)) + d.len; uint8_t *src = new uint8_t[need + 32](), *dst = new uint8_t[need]; size_t cap = r.chance(0.5) ? need - 1 : r.u(need), io = cap; delete[] dst; dst = new uint8_t[cap ? cap : 1]; bool ok = a->encrypt(dst, io, src, m0 + plain.size(), m0); CHECK(!ok, "encrypt-overflow", "%zu bytes encrypted into %zu", need, cap); delete[] src; delete[] dst; if(a->getEncryptSrcFrontMargin() != m0) ctx.stat("numbers_spent"); }
		Sealed s = seal(a, plain, r, &margin);
		CHECK(s.ok, "encrypt-failed", "%s: %zu bytes", what.c_str(), plain.size());
		if(!s.ok) return;
		overheadSeq = d.seq ? vl(n).size() : 0;
		size_t want = margin + plain.size(); want = ((want + 15) & ~size_t(15)) + d.len;
		CHECK(margin == overheadSeq + (d.hmac ? 0 : 2), "margin", "%s: margin %zu for packet %llu", what.c_str(), margin, (unsigned long long)n);
		if(margin == 0 && plain.empty()) want = s.wire.size();
		CHECK(s.wire.size() == want, "protected-length", "%s: %zu bytes became %zu, expected %zu", what.c_str(), plain.size(), s.wire.size(), want);
		P p{plain, s.wire, n++}; all.push_back(p);
		if(s.wire.empty()) continue;
		int tries = d.hmac ? int(r.u(4)) : 0;
		for(int t = 0; t < tries && !ctx.failed; t++) {
			const Bytes &o2 = r.chance(0.5) && !foreign.empty() ? r.pick(foreign) : r.pick(all).wire;
			Bytes m = r.chance(0.15) && !foreign.empty() ? r.pick(foreign) : tamper(r, p.wire, o2);
			bool genuine = false; for(auto &q : all) if(q.wire == m) genuine = true;
			if(genuine) continue;
			Opened o = open(b, m, r); ctx.stat("forgeries_refused");
			CHECK(!o.ok, "forgery-accepted", "%s: packet %llu altered from %s to %s was accepted", what.c_str(), (unsigned long long)p.seq, hex(p.wire, 80).c_str(), hex(m, 80).c_str());
		}
		if(d.seq && !d.hmac && r.chance(0.5)) { // guarded by the checksum only: whatever fails it must leave no trace
			Bytes m = p.wire; m[r.u(m.size())] ^= uint8_t(1 << r.u(8)); if(r.chance(0.3)) m = r.bytes(16 * r.range(1, 4));
			if(open(b, m, r).ok) { ctx.stat("checksum_collisions"); return; } }
		if(d.hmac && r.chance(0.02)) for(size_t x = 0; x < p.wire.size() && !ctx.failed; x++) { Bytes m = p.wire; m[x] ^= uint8_t(1 << r.u(8)); CHECK(!open(b, m, r).ok, "forgery-accepted", "%s: byte %zu of %zu altered", what.c_str(), x, m.size()); ctx.stat("forgeries_refused"); }
		if(d.hmac && r.chance(0.02)) for(size_t x = 0; x < p.wire.size() && !ctx.failed; x++) { Bytes m(p.wire.begin(), p.wire.begin() + x); CHECK(!open(b, m, r).ok, "forgery-accepted", "%s: cut to %zu of %zu", what.c_str(), x, p.wire.size()); ctx.stat("forgeries_refused"); }
		if(r.chance(0.05)) { // no room
			size_t need = p.wire.size() - d.len; if(need) { size_t cap = r.u(need); Opened o = open(b, p.wire, r, cap); CHECK(!o.ok, "decrypt-overflow", "decrypted %zu bytes into %zu", need, cap); }
		}
		if(r.chance(0.25)) { held.push_back(p); continue; }
		if(r.chance(0.01)) continue; // lost
		give(p, false);
		while(!held.empty() && r.chance(0.3) && !ctx.failed) { size_t k = r.u(held.size()); give(held[k], false); if(r.chance(0.7)) held.erase(held.begin() + k); }
		if(r.chance(0.2)) { size_t back = std::min<size_t>(all.size() - 1, r.u(40)); const P &q = all[all.size() - 1 - back]; if(d.seq && taken.count(q.seq)) give(q, true); }
	}
	ctx.h(taken.size()); if(!all.empty()) ctx.nontrivial = true;
}

// --- independent parsing of option lists
struct Opt { uint64_t type; Bytes v; bool marker; size_t start, end; };
bool parseOpts(const Bytes &b, std::vector<Opt> &out)
{
	size_t o = 0;
	while(o < b.size()) {
		size_t at = o; uintmax_t n, t; if(!vlu(b, o, n) || n > b.size() - o) return false;
		if(!n) { out.push_back({0, {}, true, at, o}); continue; }
		Bytes in(b.begin() + o, b.begin() + o + n); o += n; size_t p = 0;
		if(!vlu(in, p, t)) return false;
		out.push_back({t, Bytes(in.begin() + p, in.end()), false, at, o});
	}
	return true;
}
struct RefCert { bool ok = false; Bytes fp, fp2; /* without and with the marker */ bool host = false, anc = false, dup = false; Bytes hostname; bool stat = false; };
RefCert refCert(const Bytes &c)
{
	RefCert R; std::vector<Opt> o; if(!parseOpts(c, o)) return R;
	size_t canon = c.size(), canon2 = canon; bool st = false, ep = false; int hosts = 0;
	for(auto &x : o) { if(x.marker) { canon = x.start; canon2 = x.end; break; }
		if(x.type == 0) { if(!hosts++) R.hostname = x.v; R.host = true; } else if(x.type == 0x0a) R.anc = true; else if(x.type == 0x15) ep = true; else if(x.type == 0x1d) st = true; }
	R.dup = hosts > 1; R.ok = st != ep; R.stat = st;
	R.fp = sha(Bytes(c.begin(), c.begin() + canon)); R.fp2 = sha(Bytes(c.begin(), c.begin() + canon2));
	return R;
}
struct RefEpd { bool ok = false, dup = false, fp = false, anc = false, host = false; Bytes fpV, ancV, hostV; };
RefEpd refEpd(const Bytes &e)
{
	RefEpd R; std::vector<Opt> o; if(!parseOpts(e, o)) return R;
	for(auto &x : o) { if(x.marker) continue;
		if(x.type == 0) { R.dup |= R.host; R.host = true; R.hostV = x.v; } else if(x.type == 0x0a) { R.dup |= R.anc; R.anc = true; R.ancV = x.v; } else if(x.type == 0x0f) { R.dup |= R.fp; R.fp = true; R.fpV = x.v; } }
	R.ok = R.fp || R.anc || R.host;
	return R;
}
bool refSelects(const RefEpd &e, const Bytes &fp, bool hasHost, const Bytes &host, bool anc)
{
	if(!e.ok) return false;
	if(e.fp) return e.fpV == fp;
	if(e.host && !(hasHost && host == e.hostV)) return false;
	if(e.anc && !anc) return false;
	return true;
}

// exact-size copies so that any stray read is seen
template <class F> auto exact(const Bytes &b, F f) -> decltype(f((const uint8_t *)nullptr, size_t(0)))
{
	std::unique_ptr<uint8_t[]> p(new uint8_t[b.size() ? b.size() : 1]); if(b.size()) memcpy(p.get(), b.data(), b.size());
	const uint8_t *at = b.size() ? p.get() : p.get() + 1; return f(at, b.size());
}

Bytes mutate(Rng &r, Bytes b)
{
	for(int i = int(r.range(1, 3)); i > 0; i--) switch(r.u(7)) {
	case 0: if(b.size()) b[r.u(b.size())] ^= uint8_t(1 << r.u(8)); break;
	case 1: if(b.size()) b[r.u(b.size())] = uint8_t(r.next()); break;
	case 2: if(b.size()) b.resize(r.u(b.size())); break;
	case 3: b = cat(b, r.bytes(r.range(1, 12))); break;
	case 4: if(b.size()) b.erase(b.begin() + r.u(b.size())); break;
	case 5: b.insert(b.begin() + r.u(b.size() + 1), uint8_t(r.chance(0.5) ? 0 : r.next())); break;
	case 6: if(b.size()) { size_t a = r.u(b.size()), n = r.range(1, std::min<size_t>(b.size() - a, 20)); Bytes s(b.begin() + a, b.begin() + a + n); b.insert(b.begin() + r.u(b.size() + 1), s.begin(), s.end()); } break;
	}
	return b;
}

Bytes randomEpd(Rng &r, const Bytes &fp, const Str &host)
{
	Bytes e;
	for(int i = int(r.u(4)); i >= 0; i--) switch(r.u(8)) {
	case 0: case 1: { Bytes f = fp; if(r.chance(0.4)) f[r.u(f.size())] ^= uint8_t(1 << r.u(8)); if(r.chance(0.15)) f.resize(r.u(f.size())); else if(r.chance(0.1)) f.push_back(uint8_t(r.next())); opt(e, 0x0f, f); break; }
	case 2: case 3: { Str s = host; if(r.chance(0.3)) { if(s.size() && r.chance(0.5)) s.pop_back(); else s += "x"; } if(s.size() && r.chance(0.2)) s[r.u(s.size())] ^= 0x20; opt(e, 0x00, B(s)); break; }
	case 4: opt(e, 0x0a, r.chance(0.5) ? B("rtmfp://host/app") : r.bytes(r.u(10))); break;
	case 5: e.push_back(0); break;
	case 6: opt(e, r.range(1, 300), r.bytes(r.u(10))); break;
	case 7: break;
	}
	return e;
}

void names(Rng &r)
{
	Conf c = randomConf(r, true); if(!c.ephemeral && r.chance(0.7)) c.ephemeral = true;
	Spy me(c, r.next());
	Bytes own = me.getNearEncodedCertForEPD((const uint8_t *)"", 0);
	auto cert = me.decodeFlashCertificate(own.data(), own.size());
	CHECK(cert, "own-cert", "own certificate does not decode"); if(!cert) return;
	Bytes fp = me.getFingerprint();
	CHECK(cert->getFingerprint() == fp && fp == sha(own), "fingerprint", "own fingerprint %s, decoded %s, of its bytes %s", hex(fp).c_str(), hex(cert->getFingerprint()).c_str(), hex(sha(own)).c_str());
	CHECK(cert->encode() == own, "cert-encode", "certificate does not encode to its bytes");
	CHECK(cert->getCanonicalEPD() == me.getCanonicalEPD(), "canonical-epd", "differs between adapter and certificate");
	{ Bytes e; opt(e, 0x0f, fp); CHECK(me.getCanonicalEPD() == e, "canonical-epd", "is %s", hex(me.getCanonicalEPD()).c_str()); }
	Str host = c.named ? c.host : "a.example";
	Bytes ancSeen; int ancCalls = 0; bool ancAnswer = r.chance(0.5), ancSet = r.chance(0.6);
	if(ancSet) me.isSelectedByAncillaryData = [&] (const uint8_t *p, size_t n) { ancCalls++; ancSeen.assign(p, p + n); return ancAnswer; };
	for(int i = 0; i < 60 && !ctx.failed; i++) {
		Bytes e = randomEpd(r, fp, host);
		if(r.chance(0.3)) e = mutate(r, e);
		if(r.chance(0.05)) e = r.bytes(r.u(40));
		RefEpd R = refEpd(e);
		bool a = exact(e, [&] (const uint8_t *p, size_t n) { return cert->isSelectedByEPD(p, n); });
		bool b = exact(e, [&] (const uint8_t *p, size_t n) { return me.isSelectedByEPD(p, n); });
		ctx.stat("discriminators_judged"); ctx.nontrivial = true;
		if(R.dup) continue;
		bool want = refSelects(R, fp, c.named, B(c.host), c.server);
		CHECK(a == want, "cert-selection", "discriminator %s %s the certificate (%s)", hex(e, 90).c_str(), a ? "selected" : "did not select", desc(c).c_str());
		bool want2 = want; if(want && !R.fp && R.anc && ancSet) { want2 = ancAnswer; CHECK(ancSeen == R.ancV, "ancillary-data", "given %s for %s", hex(ancSeen).c_str(), hex(R.ancV).c_str()); }
		CHECK(b == want2, "adapter-selection", "discriminator %s %s the endpoint (%s)", hex(e, 90).c_str(), b ? "selected" : "did not select", desc(c).c_str());
		ctx.h(a * 2 + b);
	}
	// made from text
	for(int i = 0; i < 4 && !ctx.failed; i++) {
		bool f = r.chance(0.5), an = r.chance(0.4), ho = r.chance(0.5), bad = false; Str hx;
		if(f) { for(uint8_t x : fp) hx += fmt("%02x", x); if(r.chance(0.2)) { hx[r.u(hx.size())] = 'g'; bad = true; } }
		Bytes e = FlashCryptoAdapter::makeEPD(f ? hx.c_str() : nullptr, an ? "rtmfp://x/y" : nullptr, ho ? host.c_str() : nullptr);
		if(!f && !an && !ho) { CHECK(e.empty(), "make-epd", "made from nothing"); continue; }
		if(bad) { CHECK(e.empty(), "make-epd", "made from text that is not hexadecimal"); continue; }
		RefEpd R = refEpd(e);
		CHECK(R.ok && R.fp == f && R.anc == an && R.host == ho && (!f || R.fpV == fp) && (!an || R.ancV == B("rtmfp://x/y")) && (!ho || R.hostV == B(host)), "make-epd", "made %s", hex(e, 90).c_str());
	}
	// certificates from elsewhere
	for(int i = 0; i < 40 && !ctx.failed; i++) {
		Bytes b;
		if(r.chance(0.5)) { for(int k = int(r.u(6)); k >= 0; k--) switch(r.u(8)) {
			case 0: opt(b, 0, r.chance(0.5) ? B(host) : r.bytes(r.u(6))); break;
			case 1: opt(b, 0x0a, {}); break;
			case 2: opt(b, 0x0e, r.bytes(r.u(30))); break;
			case 3: case 4: opt(b, 0x15, r.chance(0.8) ? vl(r.pick({2, 14, 16, 5})) : r.bytes(r.u(4))); break;
			case 5: opt(b, 0x1d, cat(r.chance(0.8) ? vl(r.pick({2, 14})) : vl(r.bits()), r.bytes(r.u(40)))); break;
			case 6: b.push_back(0); break;
			case 7: opt(b, r.u(300), r.bytes(r.u(8))); break; } }
		else if(r.chance(0.1)) b = r.bytes(r.u(60)); else b = own;
		if(r.chance(0.4)) b = mutate(r, b);
		RefCert R = refCert(b);
		auto got = exact(b, [&] (const uint8_t *p, size_t n) { return me.decodeFlashCertificate(p, n); });
		CHECK(bool(got) == R.ok, "cert-decode", "certificate %s %s", hex(b, 120).c_str(), got ? "decoded" : "did not decode");
		ctx.stat(R.ok ? "certificates_decoded" : "certificates_refused"); ctx.h(R.ok);
		if(!got || !R.ok) continue;
		if(got->getFingerprint() == R.fp2) R.fp = R.fp2;
		CHECK(got->getFingerprint() == R.fp, "cert-fingerprint", "certificate %s", hex(b, 120).c_str());
		CHECK(got->isStatic() == R.stat && got->doesAcceptAncillaryData() == R.anc && got->encode() == b, "cert-fields", "certificate %s", hex(b, 120).c_str());
		for(int k = 0; k < 6 && !ctx.failed; k++) {
			Bytes e = randomEpd(r, R.fp, R.host ? Str(R.hostname.begin(), R.hostname.end()) : host); RefEpd E = refEpd(e);
			bool a = got->isSelectedByEPD(e.data(), e.size());
			if(!E.dup && !R.dup) CHECK(a == refSelects(E, R.fp, R.host, R.hostname, R.anc), "cert-selection", "discriminator %s %s certificate %s", hex(e, 90).c_str(), a ? "selected" : "did not select", hex(b, 90).c_str());
		}
		for(int g : {2, 14, 16, 5, -1, 0}) { const uint8_t *k = nullptr; size_t n = 0; bool has = got->supportsDHGroup(g); bool pk = got->getPublicKey(g, &k, &n); CHECK(!pk || (has && R.stat), "cert-group", "group %d", g); if(pk) { uint64_t x = hash64(k, n); (void)x; } }
		// keying with whatever this is must fail cleanly or succeed
		if(r.chance(0.3)) { auto key = me.getKeyForNewSession(); Bytes comp; key->generateInitiatorKeyingComponent(got, &comp); auto key2 = me.getKeyForNewSession(); Bytes in = r.chance(0.5) ? comp : r.bytes(r.u(60)); key2->generateResponderKeyingComponent(got, in.data(), in.size(), &comp); }
	}
}

// --- two real ones
void pair(Rng &r)
{
	Conf ca = randomConf(r, r.chance(0.85)), cb = randomConf(r, r.chance(0.85));
	if(r.chance(0.4)) { ca.groups = cb.groups = {2}; }
	Spy a(ca, r.next()), b(cb, r.next());
	if(ctx.failed) return;
	ctx.note("initiator %s", desc(ca).c_str()); ctx.note("responder %s", desc(cb).c_str());
	ctx.h(h(ca)); ctx.h(h(cb));
	auto ba = a.getNearEncodedCertForEPD(nullptr, 0), bb = b.getNearEncodedCertForEPD(nullptr, 0);
	auto certB = a.decodeCertificate(bb.data(), bb.size()); auto certA = b.decodeCertificate(ba.data(), ba.size());
	CHECK(certA && certB, "cert-decode", "a genuine certificate does not decode"); if(!certA || !certB) return;
	// the startup key
	auto ka = a.getKeyForNewSession(), kb = b.getKeyForNewSession();
	for(int i = 0; i < 3; i++) { Bytes p = r.bytes(pickSize(r)); Sealed s = seal(ka.get(), p, r); Opened o = open(kb.get(), s.wire, r); CHECK(s.ok && o.ok && samePlain(p, o.plain), "startup-packet", "a packet of %zu bytes under the startup key was not read by another endpoint", p.size()); }
	Bytes compA, compB;
	bool ok = ka->generateInitiatorKeyingComponent(certB, &compA);
	CHECK(ok == common(ca, cb), "keying", "initiator %s a component though the groups %s", ok ? "made" : "did not make", common(ca, cb) ? "overlap" : "do not overlap");
	if(!ok) { ctx.stat("no_common_group"); ctx.nontrivial = true; return; }
	bool rok = kb->generateResponderKeyingComponent(certA, compA.data(), compA.size(), &compB);
	CHECK(rok, "keying", "the responder refused a genuine component"); if(!rok) return;
	bool iok = ka->initiatorCombineResponderKeyingComponent(compB.data(), compB.size());
	CHECK(iok, "keying", "the initiator refused a genuine component"); if(!iok) return;
	CHECK(ka->getNearNonce() == kb->getFarNonce() && kb->getNearNonce() == ka->getFarNonce() && ka->getNearNonce() != kb->getNearNonce(), "nonces", "not mirrored");
	ctx.stat("pairs_keyed");
	// packets of another pair, of the startup key, and of the other direction
	std::vector<Bytes> foreign;
	auto ka2 = a.getKeyForNewSession(), kb2 = b.getKeyForNewSession();
	foreign.push_back(seal(b.getKeyForNewSession().get(), r.bytes(40), r).wire);
	if(r.chance(0.4)) { Bytes c1, c2; if(ka2->generateInitiatorKeyingComponent(certB, &c1) && kb2->generateResponderKeyingComponent(certA, c1.data(), c1.size(), &c2) && ka2->initiatorCombineResponderKeyingComponent(c2.data(), c2.size())) { for(int i = 0; i < 4; i++) { foreign.push_back(seal(ka2.get(), r.bytes(pickSize(r)), r).wire); foreign.push_back(seal(kb2.get(), r.bytes(pickSize(r)), r).wire); }
		CHECK(ka2->getNearNonce() != ka->getNearNonce() && kb2->getNearNonce() != kb->getNearNonce(), "nonces", "the same in two sessions"); } }
	Dir ab = dirOf(ca, cb), bA = dirOf(cb, ca);
	// a repeated copy of the responder's component must not disturb the session
	if(r.chance(0.3)) { ka->initiatorCombineResponderKeyingComponent(compB.data(), compB.size()); CHECK(ka->getNearNonce() == kb->getFarNonce() && ka->getFarNonce() == kb->getNearNonce(), "nonces", "changed by a repeated component"); ctx.stat("repeated_components"); }
	int n = r.chance(0.05) ? 400 : int(r.range(10, 80));
	channel(r, ka.get(), kb.get(), ab, n, foreign, "initiator to responder");
	if(ctx.failed) return;
	// reflect what was sent one way
	{ Bytes p = r.bytes(20); Sealed s = seal(kb.get(), p, r); /* sequence number 0 of that way is spent */ if(bA.hmac || ab.hmac) { if(bA.hmac) CHECK(open(ka.get(), s.wire, r).ok, "genuine-refused", "first packet"); if(ab.hmac) CHECK(!open(kb.get(), s.wire, r).ok, "forgery-accepted", "a reflected packet was accepted"); } }
	if(!bA.seq) channel(r, kb.get(), ka.get(), bA, int(r.range(10, 60)), foreign, "responder to initiator");
	else { // continue from sequence number 1
		std::set<Bytes> seen; 
		for(int i = 0; i < 30 && !ctx.failed; i++) { Bytes p = r.bytes(pickSize(r)); Sealed s = seal(kb.get(), p, r); if(s.wire.empty()) continue; Opened o = open(ka.get(), s.wire, r); CHECK(o.ok && samePlain(p, o.plain), "genuine-refused", "responder to initiator %d", i); CHECK(!open(ka.get(), s.wire, r).ok, "accepted-twice", "responder to initiator %d", i); if(bA.hmac) { Bytes m = tamper(r, s.wire, r.pick(foreign)); if(m != s.wire) CHECK(!open(ka.get(), m, r).ok, "forgery-accepted", "responder to initiator: %s to %s", hex(s.wire).c_str(), hex(m).c_str()); } ctx.stat("packets_accepted"); }
	}
	// memory safety of refusing whatever
	for(int i = 0; i < 10; i++) open(r.chance(0.5) ? ka.get() : kb.get(), r.bytes(r.chance(0.5) ? 16 * r.u(6) + (r.chance(0.5) ? ab.len : bA.len) : r.u(200)), r);
}

// --- one real, one independent
struct Bn { BIGNUM *b; Bn() : b(BN_new()) {} ~Bn() { BN_free(b); } Bn(const Bn &) = delete; };
Bytes bytesOf(const BIGNUM *b) { Bytes o(BN_num_bytes(b)); BN_bn2bin(b, o.data()); return o; }
void prime(int g, Bn &p) { if(g == 2) BN_get_rfc2409_prime_1024(p.b); else if(g == 14) BN_get_rfc3526_prime_2048(p.b); else BN_get_rfc3526_prime_4096(p.b); }
Bytes power(int g, const Bytes &base, const Bytes &e)
{
	Bn p, x, y, z; prime(g, p); BN_bin2bn(base.data(), int(base.size()), x.b); BN_bin2bn(e.data(), int(e.size()), y.b);
	BN_CTX *c = BN_CTX_new(); BN_mod_exp(z.b, x.b, y.b, p.b, c); BN_CTX_free(c); return bytesOf(z.b);
}
struct Ref { // the other end
	Bytes secret, near, far; // components
	bool txHmac = false, rxHmac = false, txSeq = false, rxSeq = false; size_t txLen = 16, rxLen = 16; uint64_t seq = 0;
	Bytes encKey() const { return mac(secret, mac(far, near)); }
	Bytes decKey() const { return mac(secret, mac(near, far)); }
	static Bytes k128(Bytes k) { k.resize(16); return k; }
	Bytes enc(const Bytes &plain)
	{
		Bytes b; if(txSeq) putVlu(b, seq++);
		size_t at = b.size(); if(!txHmac) { b.push_back(0); b.push_back(0); }
		b = cat(b, plain); while(b.size() & 15) b.push_back(0xff);
		if(!txHmac) { uint16_t c = ck(&b[at + 2], b.size() - at - 2); b[at] = uint8_t(c >> 8); b[at + 1] = uint8_t(c); }
		Bytes w = aes(k128(encKey()), b, true);
		if(txHmac) { Bytes m = mac(mac(secret, encKey()), w); m.resize(txLen); w = cat(w, m); }
		return w;
	}
	bool dec(Bytes w, uint64_t wantSeq, Bytes &plain)
	{
		if(rxHmac) { if(w.size() < rxLen) return false; Bytes t(w.end() - rxLen, w.end()); w.resize(w.size() - rxLen); Bytes m = mac(mac(secret, decKey()), w); m.resize(rxLen); if(m != t) return false; }
		if(w.empty() || (w.size() & 15)) return false;
		Bytes b = aes(k128(decKey()), w, false); size_t o = 0;
		if(rxSeq) { uintmax_t s; if(!vlu(b, o, s) || s != wantSeq) return false; }
		if(!rxHmac) { uint16_t c = uint16_t((b[o] << 8) | b[o + 1]); o += 2; if(ck(&b[o], b.size() - o) != c) return false; }
		plain.assign(b.begin() + o, b.end()); return true;
	}
};
struct Comp { Bytes b; bool valid = true; Str why; int hf = -1, sf = -1; uintmax_t hlen = 0; };

void against(Rng &r)
{
	Conf c = randomConf(r, true); if(r.chance(0.7)) c.groups = {2};
	Spy me(c, r.next()); if(ctx.failed) return;
	ctx.h(h(c)); ctx.note("endpoint %s", desc(c).c_str());
	int g = c.groups[r.u(c.groups.size())];
	bool meInitiator = r.chance(0.5), refStatic = r.chance(0.4);
	if(meInitiator) g = c.groups[0]; // its preference; the other end supports all
	Bytes x = r.bytes(28), pub = power(g, Bytes{2}, x);
	Bytes myCert;
	if(refStatic) { for(int k : {16, 14, 2}) opt(myCert, 0x1d, cat(vl(k), power(k, Bytes{2}, x))); }
	else { for(int k : {16, 14, 2}) opt(myCert, 0x15, vl(k)); opt(myCert, 0x0e, r.bytes(64)); }
	auto cert = me.decodeCertificate(myCert.data(), myCert.size()); CHECK(cert, "cert-decode", "independent certificate refused"); if(!cert) return;
	Bytes own = me.getNearEncodedCertForEPD(nullptr, 0); auto ownCert = me.decodeFlashCertificate(own.data(), own.size());

	auto make = [&] (int flaw) {
		Comp m; std::vector<Bytes> opts;
		int hf = int(r.u(8)), sf = int(r.u(8)); uintmax_t hlen = r.range(4, 32);
		if(flaw == 0) { if(c.hr && !(hf & 6)) hf |= 2; if(c.sr && !(sf & 6)) sf |= 2; } // willing
		if(flaw == 1) { hf &= 1; if(c.hr) { m.valid = false; m.why = "never authenticates though required"; } else if(c.sr && !(sf & 6)) sf |= 2; }
		if(flaw == 2) { sf &= 1; if(c.sr) { m.valid = false; m.why = "never numbers though required"; } else if(c.hr && !(hf & 6)) hf |= 2; }
		if(flaw == 3) { hlen = r.pick({0, 1, 3, 33, 64, 1000000}); if(r.chance(0.3)) hlen = r.bits() | 64; if(!(sf & 6)) sf |= 4; if(!(hf & 6)) hf |= 4; if(c.hr || (hf & 4)) { m.valid = false; m.why = fmt("authenticates with %ju bytes", hlen); } }
		bool hOpt = true, sOpt = true;
		if(flaw == 4) { hOpt = r.chance(0.5); sOpt = !hOpt || r.chance(0.5); if(!hOpt) hf = 0; else if(!(hf & 6)) hf |= 2; if(!sOpt) sf = 0; else if(!(sf & 6)) sf |= 2; if((!hOpt && c.hr) || (!sOpt && c.sr)) { m.valid = false; m.why = "does not negotiate what is required"; } }
		Bytes o;
		if(sOpt) { o.clear(); opt(o, 0x1e, Bytes{uint8_t(sf)}); opts.push_back(o); }
		if(hOpt) { o.clear(); opt(o, 0x1a, cat(Bytes{uint8_t(hf)}, vl(hlen))); opts.push_back(o); }
		m.hf = hf; m.sf = sf; m.hlen = hlen;
		if(m.valid && flaw != 3) { if(c.hr && !(hf & 6)) { m.valid = false; m.why = "never authenticates though required"; } if(c.sr && !(sf & 6)) { m.valid = false; m.why = "never numbers though required"; } }
		Bytes key = pub; uint64_t group = g; bool keyed = true;
		bool needKey = meInitiator ? !refStatic : !refStatic; bool needSelect = !meInitiator && refStatic;
		if(flaw == 5 && needKey) { // weak or absurd public keys
			Bn p; prime(g, p); m.valid = false; m.why = "weak public key";
			switch(r.u(9)) {
			case 0: key = {}; break;
			case 1: key = {1}; break;
			case 2: key = Bytes{0xff, 0xff, 0xff}; break;
			case 3: key = bytesOf(p.b); break;
			case 4: { Bn q; BN_copy(q.b, p.b); BN_sub_word(q.b, 1 + r.u(0x800000)); key = bytesOf(q.b); break; }
			case 5: key = Bytes(128, 0); key[5] = 1; for(int i = 0; i < 8; i++) key[r.range(6, 127)] |= uint8_t(1 << r.u(8)); break; // few ones
			case 6: key = Bytes(100, 0xff); for(int i = 0; i < 8; i++) key[r.u(100)] &= uint8_t(~(1 << r.u(8))); break;   // few zeros
			case 7: key = cat(Bytes{1}, bytesOf(p.b)); break; // greater than the modulus
			case 8: key = r.bytes(700); key[0] |= 1; break;
			} }
		if(flaw == 6 && needKey && r.chance(0.4) && !std::count(c.groups.begin(), c.groups.end(), 14)) { group = 14; key = power(14, Bytes{2}, x); m.valid = false; m.why = "group not enabled"; }
		else if(flaw == 6 && needSelect && r.chance(0.4) && !std::count(c.groups.begin(), c.groups.end(), 14)) { group = 14; m.valid = false; m.why = "group not enabled"; }
		else if(flaw == 6) { group = r.pick({1, 5, 15, 18, 0}); if(r.chance(0.3)) group = (uint64_t(1) << 32) + uint64_t(g); if(needKey || needSelect) { m.valid = false; m.why = "group unsupported"; } }
		if(flaw == 7) { keyed = false; if(needKey || needSelect) { m.valid = false; m.why = "no key"; } }
		if(keyed && needKey) { o.clear(); opt(o, 0x0d, cat(vl(group), key)); opts.push_back(o); }
		if(keyed && needSelect) { o.clear(); opt(o, 0x1d, vl(group)); opts.push_back(o); }
		if(r.chance(0.5)) { o.clear(); opt(o, 0x0e, r.bytes(r.u(64))); opts.push_back(o); }
		if(r.chance(0.3)) { o.clear(); opt(o, 0x77, r.bytes(r.u(9))); opts.push_back(o); }
		for(size_t i = opts.size(); i > 1; i--) std::swap(opts[i - 1], opts[r.u(i)]);
		for(auto &q : opts) m.b = cat(m.b, q);
		return m;
	};

	auto key = me.getKeyForNewSession(); Bytes mine; Comp m; bool done = false;
	if(meInitiator) {
		CHECK(key->generateInitiatorKeyingComponent(cert, &mine), "keying", "no component made for an independent responder"); if(ctx.failed) return;
		int bad = int(r.u(4));
		for(int i = 0; i <= bad && !ctx.failed && !done; i++) {
			bool last = i == bad;
			if(!last && r.chance(0.4)) { // anything at all
				Bytes x2 = mutate(r, make(0).b); if(r.chance(0.3)) x2 = r.bytes(r.u(80));
				bool ok = exact(x2, [&] (const uint8_t *p, size_t n) { return key->initiatorCombineResponderKeyingComponent(p, n); });
				ctx.stat("malformed_components"); if(ok) { ctx.nontrivial = true; return; } // harmless mutation
				continue;
			}
			m = make(last ? 0 : int(r.range(1, 7)));
			bool ok = exact(m.b, [&] (const uint8_t *p, size_t n) { return key->initiatorCombineResponderKeyingComponent(p, n); });
			CHECK(ok == m.valid, "combine", "a responder's component that is %s was %s (%s; options hmac %d/%ju seq %d)", m.valid ? "right" : m.why.c_str(), ok ? "accepted" : "refused", desc(c).c_str(), m.hf, m.hlen, m.sf);
			ctx.stat(m.valid ? "components_accepted" : "components_refused"); ctx.h(ok); ctx.nontrivial = true; if(!m.valid) ctx.stat(("refused: " + m.why.substr(0, 14)).c_str());
			if(ok) done = true;
		}
	} else {
		int flaw = r.chance(0.4) ? 0 : int(r.range(1, 7)); m = make(flaw);
		if(r.chance(0.2)) { Bytes x2 = mutate(r, m.b); exact(x2, [&] (const uint8_t *p, size_t n) { return key->generateResponderKeyingComponent(cert, p, n, &mine); }); ctx.stat("malformed_components"); ctx.nontrivial = true; return; }
		bool ok = exact(m.b, [&] (const uint8_t *p, size_t n) { return key->generateResponderKeyingComponent(cert, p, n, &mine); });
		CHECK(ok == m.valid, "respond", "an initiator's component that is %s was %s (%s; options hmac %d/%ju seq %d)", m.valid ? "right" : m.why.c_str(), ok ? "accepted" : "refused", desc(c).c_str(), m.hf, m.hlen, m.sf);
		ctx.stat(m.valid ? "components_accepted" : "components_refused"); ctx.h(ok); ctx.nontrivial = true; if(!m.valid) ctx.stat(("refused: " + m.why.substr(0, 14)).c_str());
		done = ok;
	}
	if(!done || ctx.failed) return;
	// play the other end
	Ref ref; ref.near = m.b; ref.far = mine;
	std::vector<Opt> o; CHECK(parseOpts(mine, o), "component-form", "the component made does not parse"); if(ctx.failed) return;
	Bytes theirs; int hf = 0, sf = 0; uintmax_t hl = 0;
	for(auto &q : o) { if(q.type == 0x0d) { size_t p = 0; uintmax_t gg; vlu(q.v, p, gg); CHECK(int(gg) == g, "component-group", "group %ju instead of %d", gg, g); theirs.assign(q.v.begin() + p, q.v.end()); }
		if(q.type == 0x1a && q.v.size()) { hf = q.v[0]; size_t p = 1; vlu(q.v, p, hl); } if(q.type == 0x1e && q.v.size()) sf = q.v[0]; }
	if(!c.ephemeral) { const uint8_t *p; size_t n; CHECK(ownCert->getPublicKey(g, &p, &n), "cert-group", "static certificate without group %d", g); if(ctx.failed) return; theirs.assign(p, p + n); }
	CHECK(hl == c.hmacLen, "component-hmac", "announces %ju bytes of authentication, set to %zu", hl, c.hmacLen);
	ref.secret = power(g, theirs, x);
	bool meSendH = c.hs || (m.hf & 1), meRecvH = c.hr || (m.hf & 4), meSendS = c.ss || (m.sf & 1), meRecvS = c.sr || (m.sf & 4);
	CHECK(!!(hf & 4) || !c.hs, "component-hmac", "does not say it always sends"); CHECK(!!(hf & 1) || !c.hr, "component-hmac", "does not say it requires"); CHECK(!!(sf & 4) || !c.ss, "component-seq", "does not say it always sends"); CHECK(!!(sf & 1) || !c.sr, "component-seq", "does not say it requires");
	CHECK(hf & 6, "component-hmac", "does not offer authentication"); CHECK(sf & 6, "component-seq", "does not offer sequence numbers");
	ref.rxHmac = meSendH; ref.txHmac = meRecvH; ref.rxSeq = meSendS; ref.txSeq = meRecvS; ref.rxLen = c.hmacLen; ref.txLen = m.hlen;
	CHECK(key->getNearNonce() == mac(ref.secret, mine), "nonces", "near nonce"); CHECK(key->getFarNonce() == mac(ref.secret, m.b), "nonces", "far nonce");
	if(meInitiator && r.chance(0.3)) key->initiatorCombineResponderKeyingComponent(m.b.data(), m.b.size());
	for(int i = 0; i < 12 && !ctx.failed; i++) {
		Bytes p = r.bytes(pickSize(r)), got; Sealed s = seal(key.get(), p, r);
		if(!(s.wire.empty() && p.empty())) CHECK(s.ok && ref.dec(s.wire, uint64_t(i), got) && samePlain(p, got), "interop-out", "packet %d of %zu bytes is not what the profile says (%s, hmac %d seq %d)", i, p.size(), desc(c).c_str(), ref.rxHmac, ref.rxSeq);
		Bytes w = ref.enc(p);
		if(ref.txHmac && r.chance(0.5) && w.size()) { Bytes f = tamper(r, w, s.wire); if(f != w) CHECK(!open(key.get(), f, r).ok, "forgery-accepted", "%s to %s", hex(w).c_str(), hex(f).c_str()); }
		if(w.size() > ref.txLen || !ref.txHmac) { Opened q = open(key.get(), w, r); CHECK(q.ok && samePlain(p, q.plain), "interop-in", "packet %d of %zu bytes made as the profile says was %s (%s, hmac %d seq %d)", i, p.size(), q.ok ? "misread" : "refused", desc(c).c_str(), ref.txHmac, ref.txSeq);
			if(ref.txSeq) CHECK(!open(key.get(), w, r).ok, "accepted-twice", "packet %d", i); }
		ctx.stat("interop_packets");
	}
}

// --- whole sessions
void sessions(Rng &r)
{
	Ledger L;
	World w(r); App app(w);
	std::vector<Conf> cs; std::vector<Spy *> spies; int n = int(r.range(2, 3));
	w.dflt = randomPath(r, int(r.u(3))); w.dflt.corrupt = 0; if(r.chance(0.6)) w.dflt.dup = r.real(0, 0.6);
	if(w.dflt.loss > 0.2) w.dflt.loss = 0.2;
	for(int i = 0; i < n; i++) {
		Conf c = randomConf(r, true); c.groups = r.chance(0.85) ? std::vector<int>{2} : std::vector<int>{14, 2}; if(r.chance(0.2)) c.groups = {14};
		c.host = fmt("h%d", i);
		if(r.chance(0.4)) c.hr = true; cs.push_back(c);
		Spy *s = new Spy(c, r.next()); s->ledger = &L; spies.push_back(s);
		Node *nd = w.addNode(fmt("n%d", i), {fmt("10.0.0.%d:1935", i + 1)}, std::unique_ptr<ICryptoAdapter>(s));
		if(r.chance(0.5)) nd->platform->performDelay0 = r.logreal(0.0001, 0.2);
		if(r.chance(0.5)) nd->platform->performDelayN = r.logreal(0.0001, 0.2);
		app.listen(nd); ctx.h(h(c)); ctx.note("n%d %s", i, desc(c).c_str());
	}
	if(ctx.failed) return;
	double maxDelay = w.dflt.delay + w.dflt.jitter + w.dflt.reorderDelay;
	// altered, cut and replayed copies of protected packets
	double evil = r.chance(0.7) ? r.real(0.05, 0.4) : 0; auto stopEvil = std::make_shared<bool>(false);
	w.onSend.push_back([&, stopEvil] (Pkt &p) {
		if(*stopEvil || p.fromNode < 0 || !r.chance(evil) || p.data.size() < 8) return true;
		Bytes inner(p.data.begin() + 4, p.data.end());
		auto it = L.sent.find(inner); if(it == L.sent.end()) return true;
		SpyKey *by = nullptr; for(auto &s : it->second) if(s.by) by = s.by;
		SpyKey *peer = by ? by->findPeer() : nullptr;
		Bytes m = p.data; bool kept = false;
		if(peer && dirOf(by->owner->c, peer->owner->c).hmac && r.chance(0.6)) { Bytes t = tamper(r, inner, inner); uint32_t sid; memcpy(&sid, p.data.data(), 4);
			if(t.size() >= 8 && inner.size() >= 8) { uint8_t d[4]; for(int k = 0; k < 4; k++) d[k] = uint8_t(inner[k] ^ inner[k + 4] ^ t[k] ^ t[k + 4]); for(int k = 0; k < 4; k++) m[k] ^= d[k]; } // keep it addressed to the same session
			m.resize(4); m = cat(m, t); L.tampered++; }
		else kept = true; // a replay
		if(kept && !by && !r.chance(0.5)) return true;
		w.inject(m, p.src, p.dst, p.tos, r.chance(0.5) ? 0 : r.logreal(0.001, 8.0));
		return true;
	});
	int flows = 0; std::vector<Tx *> txs;
	for(int i = 0, k = int(r.range(1, 4)); i < k; i++) {
		int a = int(r.u(n)), b = (a + 1 + int(r.u(n - 1))) % n;
		Bytes e = spies[b]->getCanonicalEPD();
		bool byName = false;
		if(r.chance(0.3) && cs[b].named) { e.clear(); opt(e, 0, B(cs[b].host)); byName = true; if(cs[b].server && r.chance(0.5)) opt(e, 0x0a, B("rtmfp://x")); }
		(void)byName;
		w.after(r.chance(0.5) ? 0 : r.real(0, 3), [&, a, b, e] {
			Tx *t = app.open(w.nodes[a].get(), w.nodes[b].get(), PRI_ROUTINE, Str(e.begin(), e.end())); if(!t) return; txs.push_back(t); flows++;
			int nm = int(r.range(1, 12)); for(int j = 0; j < nm; j++) w.after(r.real(0, 8), [&, t] { if(t->f->isOpen()) t->write(pickLen(r, 0)); });
		});
	}
	w.run(w.now + 12);
	*stopEvil = true; evil = 0;
	w.dflt.loss = w.dflt.dup = 0; for(auto &kv : w.paths) { kv.second.loss = kv.second.dup = 0; kv.second.reorder = 0; }
	w.run(w.now + 130 + maxDelay * 50, [&] { for(Tx *t : txs) { bool can = common(cs[t->src->index], cs[t->dst->index]); if(can && !t->exceptions) for(auto &m : t->msgs) if(!m->delivered || !m->finished) return false; if(!can && !t->exceptions) return false; } return true; });
	for(Tx *t : txs) {
		const Conf &ca = cs[t->src->index], &cb = cs[t->dst->index]; bool can = common(ca, cb);
		ctx.nontrivial = true;
		if(!can) { CHECK(!t->bound() || t->msgs.empty() || !t->msgs[0]->delivered, "conflict-opened", "endpoints with no common group opened a session"); ctx.stat("flows_that_cannot_open"); continue; }
		CHECK(!t->exceptions, "flow-failed", "flow %u from n%d to n%d failed (%s | %s)", t->id, t->src->index, t->dst->index, desc(ca).c_str(), desc(cb).c_str());
		size_t del = 0; for(auto &m : t->msgs) if(m->delivered) del++;
		CHECK(del == t->msgs.size(), "no-agreement", "%zu of %zu messages of flow %u from n%d to n%d arrived (%s | %s) %s", del, t->msgs.size(), t->id, t->src->index, t->dst->index, desc(ca).c_str(), desc(cb).c_str(), app.pending().substr(0, 100).c_str());
		ctx.stat("session_messages", double(del));
		if(t->rx && t->rx->f->isOpen() && t->f->isOpen()) { CHECK(t->f->getNearNonce() == t->rx->f->getFarNonce() && t->f->getFarNonce() == t->rx->f->getNearNonce(), "nonces", "the two ends of flow %u hold different nonces", t->id);
			CHECK(t->f->getFarCanonicalEPD() == spies[t->dst->index]->getCanonicalEPD(), "far-epd", "flow %u is bound to someone else", t->id); }
		ctx.h(del);
	}
	ctx.stat("session_packets_accepted", double(L.accepted)); ctx.stat("session_packets_refused", double(L.refused)); ctx.stat("session_packets_altered", double(L.tampered)); ctx.stat("startup_packets", double(L.startup));
	cleanup(w, &app);
	for(Spy *s : spies) s->ledger = nullptr;
	L.keep.clear();
}
} // namespace

void driverInit() { setRand(); }
void driverDone() {}
void runCase(Rng &r, uint64_t)
{
	osslRng = Rng(r.next());
	switch(r.u(8)) {
	case 0: names(r); break;
	case 1: case 2: pair(r); break;
	case 3: case 4: case 5: against(r); break;
	default: sessions(r); break;
	}
}
}
