// C19: Address conversions, ordering and parsing against an independent model.
#include "base.hpp"
#include <arpa/inet.h>
#include "rtmfp/Address.hpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
namespace vf {
const char *driverRule() { return "one case = an address pushed through every conversion and back, compared and ordered against others, plus malformed encodings and texts; non-trivial when a round trip and a refusal were both checked; distinct by address bytes, port, origin and text"; }
uint64_t driverCases(bool t) { return t ? 6000000 : 120000; }
void driverInit() {}
void driverDone() {}
struct M { bool six = false; Bytes ip; unsigned port = 0; int origin = 0; };
static M pick(Rng &r)
{
	M m; m.six = r.chance(0.5); m.ip = r.bytes(m.six ? 16 : 4); m.port = r.chance(0.2) ? r.pick({0, 1, 255, 256, 65535}) : unsigned(r.u(65536)); m.origin = int(r.u(4));
	if(m.six) switch(r.u(5)) {
	case 0: for(int i = 0; i < 12; i++) m.ip[i] = i < 10 ? 0 : 0xff; break; // v4-mapped
	case 1: for(int i = 0; i < 16; i++) if(r.chance(0.7)) m.ip[i] = 0; break;
	case 2: for(int i = 0; i < 12; i++) m.ip[i] = i < 10 ? 0 : 0xff; m.ip[r.u(12)] ^= uint8_t(1 << r.u(8)); break; // nearly mapped
	case 3: { size_t a = r.u(16), b = r.u(17); for(size_t i = a; i < b; i++) m.ip[i] = 0; break; }
	}
	else if(r.chance(0.2)) for(auto &b : m.ip) b = r.pick({0, 1, 127, 255});
	return m;
}
static bool is(const Address &a, const M &m, bool origin = true)
{
	return a.getFamily() == (m.six ? AF_INET6 : AF_INET) && a.getIPAddress() == m.ip && a.getPort() == m.port && (!origin || a.getOrigin() == m.origin) && a.getIPAddressLength() == m.ip.size() && !memcmp(a.getIPAddressPtr(), m.ip.data(), m.ip.size());
}
static void make(Rng &r, const M &m, Address &a)
{
	if(r.chance(0.5)) { // whatever was there before must not show through
		M j = pick(r); a.setIPAddress(j.ip.data(), j.ip.size()); a.setPort(j.port); a.setOrigin(Address::Origin(j.origin));
	}
	a.setIPAddress(m.ip.data(), m.ip.size()); a.setPort(m.port); a.setOrigin(Address::Origin(m.origin));
}
static std::string text(const M &m) { char b[64]; inet_ntop(m.six ? AF_INET6 : AF_INET, m.ip.data(), b, sizeof b); return b; }
static Bytes encoding(const M &m) { Bytes b{uint8_t((m.six ? 0x80 : 0) | m.origin)}; b.insert(b.end(), m.ip.begin(), m.ip.end()); b.push_back(uint8_t(m.port >> 8)); b.push_back(uint8_t(m.port)); return b; }
static int key(const M &a, const M &b) { if(a.six != b.six) return a.six < b.six ? -1 : 1; int c = memcmp(a.ip.data(), b.ip.data(), a.ip.size()); if(c) return c < 0 ? -1 : 1; return a.port < b.port ? -1 : a.port > b.port; }

void runCase(Rng &r, uint64_t)
{
	M m = pick(r); Address a; make(r, m, a);
	std::string T = text(m);
	CHECK(is(a, m), "set", "%s", T.c_str());
	// wire encoding
	Bytes e = encoding(m);
	CHECK(a.encode() == e && a.getEncodedLength() == e.size(), "encode", "%s -> %s expected %s", T.c_str(), hex(a.encode()).c_str(), hex(e).c_str());
	{ uint8_t *d = new uint8_t[e.size()]; CHECK(a.encode(d) == e.size() && !memcmp(d, e.data(), e.size()), "encode-raw", "%s", T.c_str()); delete[] d; }
	{
		Bytes w = e; w[0] |= uint8_t(r.u(32) << 2); size_t extra = r.u(3); for(size_t i = 0; i < extra; i++) w.push_back(uint8_t(r.next()));
		uint8_t *p = new uint8_t[w.size()]; memcpy(p, w.data(), w.size());
		Address d; if(r.chance(0.5)) make(r, pick(r), d);
		CHECK(d.setFromEncoding(p, p + w.size()) == e.size() && is(d, m), "decode", "%s from %s", T.c_str(), hex(w).c_str());
		CHECK(d == a, "decode-equal", "%s", T.c_str());
		delete[] p;
		for(size_t k = 0; k < e.size(); k++) { uint8_t *t = new uint8_t[k]; if(k) memcpy(t, e.data(), k); Address x; M b = pick(r); make(r, b, x); CHECK(0 == x.setFromEncoding(t, t + k) && is(x, b), "truncated-encoding", "%zu bytes of %s accepted or changed the address", k, hex(e).c_str()); delete[] t; }
		Address x; CHECK(0 == x.setFromEncoding(e.data() + 1, e.data()), "reversed-limits", "accepted");
	}
	// socket address
	{
		Address s(a.getSockaddr(), Address::Origin(m.origin)); CHECK(is(s, m) && s == a, "sockaddr-roundtrip", "%s", T.c_str());
		CHECK(a.getSockaddrLen() == (m.six ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "sockaddr-len", "%s", T.c_str());
		if(m.six) { auto *s6 = (const sockaddr_in6 *)a.getSockaddr(); CHECK(s6->sin6_family == AF_INET6 && ntohs(s6->sin6_port) == m.port && !memcmp(&s6->sin6_addr, m.ip.data(), 16), "sockaddr", "%s", T.c_str()); }
		else { auto *s4 = (const sockaddr_in *)a.getSockaddr(); CHECK(s4->sin_family == AF_INET && ntohs(s4->sin_port) == m.port && !memcmp(&s4->sin_addr, m.ip.data(), 4), "sockaddr", "%s", T.c_str()); }
		uint8_t *raw = new uint8_t[a.getSockaddrLen()]; memcpy(raw, a.getSockaddr(), a.getSockaddrLen()); // exact size: no reads beyond the family's structure
		Address s2; CHECK(s2.setSockaddr((sockaddr *)raw) && is(s2, m, false), "sockaddr-set", "%s", T.c_str());
		sockaddr_storage bad; memset(&bad, 0, sizeof bad); bad.ss_family = sa_family_t(r.pick({0, 1, 3, 16, 99})); Address s3; make(r, m, s3); CHECK(!s3.setSockaddr((sockaddr *)&bad) && is(s3, m), "sockaddr-bad-family", "family %d accepted", bad.ss_family);
		CHECK(!s3.setSockaddr(nullptr), "sockaddr-null", "accepted"); delete[] raw;
	}
	// raw bytes
	{ size_t n = r.u(20); if(n != 4 && n != 16) { Bytes j = r.bytes(n); Address x; make(r, m, x); CHECK(!x.setIPAddress(j.data(), n) && is(x, m), "bad-length", "%zu bytes accepted", n); } }
	// presentation
	{
		std::string want = m.six ? "[" + T + "]:" + std::to_string(m.port) : T + ":" + std::to_string(m.port);
		CHECK(a.toPresentation() == want && a.toPresentation(true) == want && a.toPresentation(false) == T, "presentation", "%s expected %s", a.toPresentation().c_str(), want.c_str());
		char *d = new char[Address::MAX_PRESENTATION_LENGTH]; a.toPresentation(d); CHECK(want == d, "presentation-raw", "%s", d); delete[] d;
		Address p; if(r.chance(0.5)) make(r, pick(r), p); p.setOrigin(Address::Origin(m.origin));
		CHECK(p.setFromPresentation(want.c_str()) && is(p, m) && p == a, "presentation-roundtrip", "%s -> %s", want.c_str(), p.toPresentation().c_str());
		Address q; CHECK(q.setFromPresentation(T.c_str(), false) && q.getIPAddress() == m.ip, "presentation-noport", "%s", T.c_str());
		if(m.six) { Address z; CHECK(z.setFromPresentation(("[" + T + "]").c_str(), false) && z.getIPAddress() == m.ip, "presentation-bracket-noport", "%s", T.c_str()); }
		// malformed texts
		std::string bad; bool withPort = true; const char *kind = "";
		std::string host = m.six ? "[" + T + "]" : T;
		switch(r.u(16)) {
		case 0: kind = "port too large"; bad = host + ":" + std::to_string(65536 + r.u(400000)); break;
		case 1: kind = "negative port"; bad = host + ":-" + std::to_string(1 + r.u(70000)); break;
		case 2: kind = "trailing garbage"; bad = want + r.pick<std::string>({"x", " ", ":1", ".", "/", "\n", "]"}); break;
		case 3: kind = "no port"; bad = host; break;
		case 4: kind = "empty port"; bad = host + ":"; break;
		case 5: kind = "garbage port"; bad = host + ":x" + std::to_string(m.port); break;
		case 6: kind = "huge port"; bad = host + ":" + std::string(r.range(6, 30), '9'); break;
		case 7: kind = "trailing garbage without port"; withPort = false; bad = T + r.pick<std::string>({" x", "x", " ", "]", "/24"}); break;
		case 8: kind = "garbage after bracket without port"; withPort = false; bad = "[" + T + "]" + r.pick<std::string>({"x", ":80", " ", "]"}); break;
		case 9: kind = "unclosed bracket"; withPort = r.chance(0.5); bad = "[" + T + (withPort ? ":80" : ""); break;
		case 10: kind = "bad octet"; bad = "1.2.3." + std::to_string(256 + r.u(800)) + ":80"; break;
		case 11: kind = "missing octet"; bad = "1.2.3:80"; break;
		case 12: kind = "letters"; bad = std::string(r.range(1, 60), char('g' + r.u(10))) + ":80"; break;
		case 13: kind = "overlong"; bad = "[" + std::string(r.range(46, 90), r.chance(0.5) ? ':' : '1') + "]:80"; break;
		case 14: kind = "empty"; withPort = r.chance(0.5); break;
		case 15: kind = "whitespace"; withPort = r.chance(0.7); bad = r.chance(0.5) ? " " + (withPort ? want : T) : host + (withPort ? ": " + std::to_string(m.port) : " "); break;
		}
		char *s = new char[bad.size() + 1]; memcpy(s, bad.c_str(), bad.size() + 1);
		Address x; make(r, m, x);
		CHECK(!x.setFromPresentation(s, withPort), "malformed-text-accepted", "%s: \"%s\" accepted as %s", kind, bad.c_str(), x.toPresentation().c_str());
		CHECK(is(x, m), "failed-parse-changed-address", "%s: \"%s\"", kind, bad.c_str());
		delete[] s; ctx.stat("refusals");
		// arbitrary mutations: safety, and what is accepted prints and reads back
		std::string z = want; for(int i = 0; i < 3 && !z.empty(); i++) z[r.u(z.size())] = r.pick({'0', '9', ':', '.', '[', ']', 'f', ' ', '%', '-', char(r.range(1, 255))});
		Address y; bool wp = r.chance(0.7); if(y.setFromPresentation(z.c_str(), wp)) { Address w; CHECK(w.setFromPresentation(y.toPresentation().c_str()) && w == y, "accepted-not-stable", "\"%s\"", z.c_str()); ctx.stat("mutants_accepted"); }
	}
	// families
	{
		bool mapped = m.six && std::all_of(m.ip.begin(), m.ip.begin() + 10, [] (uint8_t b) { return !b; }) && m.ip[10] == 0xff && m.ip[11] == 0xff;
		CHECK(a.canMapToFamily(AF_INET) == (!m.six || mapped) && a.canMapToFamily(AF_INET6), "can-map", "%s", T.c_str());
		Address x; make(r, m, x); int fam = r.pick({AF_INET, AF_INET6});
		M w = m;
		if(fam == AF_INET && m.six) { w.six = false; w.ip = mapped ? Bytes(m.ip.begin() + 12, m.ip.end()) : Bytes(4, 0); }
		if(fam == AF_INET6 && !m.six) { w.six = true; w.ip = Bytes(10, 0); w.ip.push_back(0xff); w.ip.push_back(0xff); w.ip.insert(w.ip.end(), m.ip.begin(), m.ip.end()); }
		CHECK(x.setFamily(fam) && is(x, w), "set-family", "%s to %d became %s", T.c_str(), fam, x.toPresentation().c_str());
		if(fam == AF_INET6 && !m.six) { CHECK(x.setFamily(AF_INET) && is(x, m), "map-unmap", "%s", T.c_str()); ctx.stat("mapped"); }
		if(mapped) ctx.stat("unmapped");
		Address k; make(r, m, k); CHECK(!k.setFamily(r.pick({0, 1, 3, 99})) && is(k, m), "set-bad-family", "accepted");
		k.setPort(unsigned(r.u(65536))); CHECK(k.getIPAddress() == m.ip, "set-port", "%s", T.c_str());
	}
	// order and equality
	{
		std::vector<M> ms{m}; for(int i = 0; i < 4; i++) { M o = r.chance(0.5) ? pick(r) : m; if(r.chance(0.6)) { if(r.chance(0.5)) o.port = m.port ^ (1u << r.u(16)); else o.ip[r.u(o.ip.size())] ^= uint8_t(1 << r.u(8)); } o.origin = int(r.u(4)); ms.push_back(o); }
		for(auto &x : ms) for(auto &y : ms) { Address p, q; make(r, x, p); make(r, y, q); int c = key(x, y); CHECK((p < q) == (c < 0) && (p == q) == (c == 0), "order", "%s vs %s", p.toPresentation().c_str(), q.toPresentation().c_str()); }
		Address c(a); CHECK(c == a && is(c, m), "copy", "%s", T.c_str()); Address d; d = a; CHECK(d == a && is(d, m), "assign", "%s", T.c_str());
		Address z; CHECK(!(z == a) && (z < a) && !(a < z) && z == Address() && z.encode().empty() && z.getPort() == 0, "blank", "blank address");
	}
	ctx.h(hash64(e)); ctx.nontrivial = true; ctx.stat("addresses");
}
}
