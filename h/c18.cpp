// C18: AMF0 encode/decode/print against an independent encoder, decoder and JSON reader.
#include "base.hpp"
#include "rtmfp/AMF.hpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmp;
namespace vf {
const char *driverRule() { return "one case = one random value tree encoded, decoded, duplicated, printed and read back, all its truncations, and mutated/arbitrary byte strings decoded from exact-size heap buffers; non-trivial when the tree has at least one value and one malformed input was decoded; distinct by the encoded bytes"; }
uint64_t driverCases(bool t) { return t ? 3000000 : 70000; }
void driverInit() {}
void driverDone() {}

struct V { // independent model value
	enum K { NUM, BOOL, STR, OBJ, NUL, UND, ECMA, ARR, TYP } k = UND;
	double d = 0; bool b = false; std::string s; // s: string or class name
	std::map<std::string, V> m; std::vector<V> a;
};
static bool sameBits(double x, double y) { return !memcmp(&x, &y, 8); }
static bool eq(const V &x, const V &y)
{
	if(x.k != y.k) return false;
	switch(x.k) {
	case V::NUM: return sameBits(x.d, y.d);
	case V::BOOL: return x.b == y.b;
	case V::STR: return x.s == y.s;
	case V::TYP: if(strcmp(x.s.c_str(), y.s.c_str())) return false; // className() is a C string; fall through
	case V::OBJ: case V::ECMA: { if(x.m.size() != y.m.size()) return false; auto i = x.m.begin(), j = y.m.begin(); for(; i != x.m.end(); i++, j++) if(i->first != j->first || !eq(i->second, j->second)) return false; return true; }
	case V::ARR: if(x.a.size() != y.a.size()) return false; for(size_t i = 0; i < x.a.size(); i++) if(!eq(x.a[i], y.a[i])) return false; return true;
	default: return true;
	}
}
static void put16(Bytes &o, size_t n) { o.push_back(uint8_t(n >> 8)); o.push_back(uint8_t(n)); }
static void put32(Bytes &o, size_t n) { put16(o, n >> 16); put16(o, n & 0xffff); }
static void enc(const V &v, Bytes &o)
{
	auto mem = [&] { for(auto &e : v.m) { put16(o, e.first.size()); o.insert(o.end(), e.first.begin(), e.first.end()); enc(e.second, o); } put16(o, 0); o.push_back(9); };
	switch(v.k) {
	case V::NUM: { uint64_t u; memcpy(&u, &v.d, 8); o.push_back(0); put32(o, u >> 32); put32(o, u & 0xffffffff); break; }
	case V::BOOL: o.push_back(1); o.push_back(v.b); break;
	case V::STR: if(v.s.size() > 65535) { o.push_back(12); put32(o, v.s.size()); } else { o.push_back(2); put16(o, v.s.size()); } o.insert(o.end(), v.s.begin(), v.s.end()); break;
	case V::OBJ: o.push_back(3); mem(); break;
	case V::NUL: o.push_back(5); break;
	case V::UND: o.push_back(6); break;
	case V::ECMA: o.push_back(8); put32(o, v.m.size()); mem(); break;
	case V::ARR: o.push_back(10); put32(o, v.a.size()); for(auto &e : v.a) enc(e, o); break;
	case V::TYP: o.push_back(16); put16(o, v.s.size()); o.insert(o.end(), v.s.begin(), v.s.end()); mem(); break;
	}
}
// reference decoder. returns 1 ok, 0 malformed, -1 not covered (kinds the library may or may not support)
static int dec(const Bytes &b, size_t &p, V &v, size_t depth, size_t &budget)
{
	if(depth > 32) return -1;
	if(p >= b.size() || !budget--) return 0;
	uint8_t t = b[p++];
	auto need = [&] (size_t n) { return b.size() - p >= n; };
	auto g = [&] (int n) { size_t r = 0; while(n--) r = (r << 8) | b[p++]; return r; };
	auto str = [&] (int ls, std::string &s) { if(!need(ls)) return false; size_t n = g(ls); if(!need(n)) return false; s.assign(b.begin() + p, b.begin() + p + n); p += n; return true; };
	auto mem = [&] () -> int {
		for(;;) {
			if(!need(3)) return 0;
			std::string k; if(!str(2, k)) return 0;
			if(k.empty() && b[p] == 9) { p++; return 1; }
			V e; int r = dec(b, p, e, depth + 1, budget); if(r != 1) return r;
			v.m[k] = e;
		}
	};
	switch(t) {
	case 0: { v.k = V::NUM; if(!need(8)) return 0; uint64_t u = g(8); memcpy(&v.d, &u, 8); return 1; }
	case 1: v.k = V::BOOL; if(!need(1)) return 0; v.b = b[p++]; return 1;
	case 2: v.k = V::STR; return str(2, v.s);
	case 12: v.k = V::STR; return str(4, v.s);
	case 3: v.k = V::OBJ; return mem();
	case 5: v.k = V::NUL; return 1;
	case 6: case 13: v.k = V::UND; return 1;
	case 8: v.k = V::ECMA; if(!need(4)) return 0; p += 4; return mem();
	case 10: { v.k = V::ARR; if(!need(4)) return 0; size_t n = g(4); for(size_t i = 0; i < n; i++) { V e; int r = dec(b, p, e, depth + 1, budget); if(r != 1) return r; v.a.push_back(e); } return 1; }
	case 16: v.k = V::TYP; if(!str(2, v.s)) return 0; return mem();
	default: return -1;
	}
}
static std::string rstr(Rng &r, bool key)
{
	size_t n = r.chance(0.15) ? 0 : r.chance(0.003) ? (key ? 65535 - r.u(3) : 65530 + r.u(12)) : r.u(12);
	std::string s; int style = int(r.u(3));
	for(size_t i = 0; i < n; i++) s.push_back(style == 0 ? char('a' + r.u(26)) : style == 1 ? char(r.u(128)) : char(r.next()));
	return s;
}
static double rnum(Rng &r)
{
	switch(r.u(8)) {
	case 0: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return d; }
	case 1: return double(int64_t(r.bits())) * (r.chance(0.5) ? 1 : -1);
	case 2: return r.pick({0.0, -0.0, 1.0, 10.0, 0.1, 0.0001, 9.9999999999999995e-5, 1.8446744073709552e19, 1e22, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, double(NAN), double(INFINITY), -double(INFINITY), 0.99999999999999989, 9.9999999999999982, 999999999999999.88, 1e15, 123456789012345680.0});
	case 3: return std::ldexp(r.real(), int(r.u(2100)) - 1070) * (r.chance(0.5) ? 1 : -1);
	case 4: return std::round(r.real() * 1e6) / std::pow(10, r.u(9));
	case 5: return std::pow(10, int(r.u(40)) - 20) * (1 - (r.chance(0.5) ? 1e-16 * r.u(20) : 0));
	case 6: return std::nextafter(std::pow(10, int(r.u(640)) - 320), r.chance(0.5) ? 0 : INFINITY);
	default: return r.real(-1000, 1000);
	}
}
static V tree(Rng &r, int depth, int &budget)
{
	V v; budget--;
	int k = int(r.u(depth > 0 && budget > 0 ? 9 : 5));
	static const V::K leaf[] = {V::NUM, V::BOOL, V::STR, V::NUL, V::UND}, inner[] = {V::OBJ, V::ECMA, V::ARR, V::TYP};
	v.k = k < 5 ? leaf[k] : inner[k - 5];
	if(v.k == V::NUM) v.d = rnum(r);
	if(v.k == V::BOOL) v.b = r.chance(0.5);
	if(v.k == V::STR) v.s = rstr(r, false);
	if(v.k == V::TYP) { v.s = rstr(r, true); v.s = v.s.c_str(); }
	if(k >= 5) { size_t n = r.u(6); for(size_t i = 0; i < n; i++) { V c = tree(r, depth - 1, budget); if(v.k == V::ARR) v.a.push_back(c); else v.m[rstr(r, true)] = c; } }
	return v;
}
static std::shared_ptr<AMF0> build(Rng &r, const V &v)
{
	switch(v.k) {
	case V::NUM: return AMF0::Number(v.d);
	case V::BOOL: return r.chance(0.5) ? AMF0::Boolean(v.b) : v.b ? AMF0::True() : AMF0::False();
	case V::STR: return AMF0::String(v.s);
	case V::NUL: return AMF0::Null();
	case V::UND: return r.chance(0.3) ? nullptr : std::shared_ptr<AMF0>(AMF0::Undefined());
	case V::ARR: { auto a = AMF0::Array(); if(r.chance(0.5)) { for(auto &e : v.a) a->appendValue(build(r, e)); } else for(size_t i = v.a.size(); i--; ) a->putValueAtIndex(build(r, v.a[i]), uint32_t(i)); return a; }
	default: {
		std::shared_ptr<AMF0Object> o = v.k == V::OBJ ? AMF0::Object() : v.k == V::ECMA ? std::shared_ptr<AMF0Object>(AMF0::ECMAArray()) : std::shared_ptr<AMF0Object>(AMF0::TypedObject(v.s.c_str()));
		for(auto &e : v.m) o->putValueAtKey(build(r, e.second), e.first);
		return o;
	}
	}
}
static bool read(AMF0 *a, V &v)
{
	if(!a) { v.k = V::UND; return true; }
	if(a->isNumber()) { v.k = V::NUM; v.d = a->doubleValue(); return a->asNumber() == a; }
	if(a->isBoolean()) { v.k = V::BOOL; v.b = a->booleanValue(); return a->asBoolean(); }
	if(a->isString()) { v.k = V::STR; v.s = std::string(a->stringValue(), a->asString()->size()); return true; }
	if(a->isNull()) { v.k = V::NUL; return true; }
	if(a->isUndefined()) { v.k = V::UND; return true; }
	if(a->isArray()) { v.k = V::ARR; auto r = a->asArray(); for(size_t i = 0; i < r->size(); i++) { v.a.emplace_back(); if(!read(r->getValueAtIndex(uint32_t(i)).get(), v.a.back())) return false; } return r->getValueAtIndex(uint32_t(r->size()))->isUndefined(); }
	if(a->isObject()) {
		v.k = a->isTypedObject() ? V::TYP : a->isECMAArray() ? V::ECMA : V::OBJ;
		if(v.k == V::TYP) v.s = a->asTypedObject()->className();
		auto o = a->asObject();
		for(auto it = o->begin(); it != o->end(); it++) { if(!o->has(it->first)) return false; if(!read(o->getValueAtKey(it->first).get(), v.m[it->first])) return false; }
		return o->size() == v.m.size();
	}
	return false;
}
// minimal JSON reader into V (NUL for null). returns false on syntax errors
static bool json(const std::string &s, size_t &p, V &v)
{
	auto ws = [&] { while(p < s.size() && (s[p] == ' ' || s[p] == '\n')) p++; };
	ws(); if(p >= s.size()) return false;
	auto str = [&] (std::string &o) {
		if(s[p++] != '"') return false;
		for(; p < s.size() && s[p] != '"'; p++) {
			if(uint8_t(s[p]) < 0x20) return false;
			if(s[p] != '\\') { o.push_back(s[p]); continue; }
			switch(s[++p]) {
			case '"': case '\\': case '/': o.push_back(s[p]); break;
			case 'b': o.push_back('\b'); break; case 'f': o.push_back('\f'); break; case 'n': o.push_back('\n'); break; case 'r': o.push_back('\r'); break; case 't': o.push_back('\t'); break;
			case 'u': { if(p + 4 >= s.size()) return false; o.push_back(char(strtoul(s.substr(p + 1, 4).c_str(), nullptr, 16))); p += 4; break; }
			default: return false;
			}
		}
		return p < s.size() && s[p++] == '"';
	};
	char c = s[p];
	if(c == '"') { v.k = V::STR; return str(v.s); }
	if(c == '{') {
		v.k = V::OBJ; p++; ws(); if(s[p] == '}') { p++; return true; }
		for(;;) { ws(); std::string k; if(p >= s.size() || !str(k)) return false; ws(); if(s[p++] != ':') return false; if(v.m.count(k)) return false; if(!json(s, p, v.m[k])) return false; ws(); if(s[p] == ',') { p++; continue; } return s[p++] == '}'; }
	}
	if(c == '[') {
		v.k = V::ARR; p++; ws(); if(s[p] == ']') { p++; return true; }
		for(;;) { v.a.emplace_back(); if(!json(s, p, v.a.back())) return false; ws(); if(s[p] == ',') { p++; continue; } return s[p++] == ']'; }
	}
	if(!s.compare(p, 4, "true")) { p += 4; v.k = V::BOOL; v.b = true; return true; }
	if(!s.compare(p, 5, "false")) { p += 5; v.k = V::BOOL; v.b = false; return true; }
	if(!s.compare(p, 4, "null")) { p += 4; v.k = V::NUL; return true; }
	size_t q = p; if(s[q] == '-') q++; size_t d0 = q; while(q < s.size() && isdigit(s[q])) q++; if(q == d0 || (s[d0] == '0' && q > d0 + 1)) return false;
	if(q < s.size() && s[q] == '.') { size_t f = ++q; while(q < s.size() && isdigit(s[q])) q++; if(q == f) return false; }
	if(q < s.size() && s[q] == 'e') { q++; if(s[q] == '-' || s[q] == '+') q++; size_t f = q; while(q < s.size() && isdigit(s[q])) q++; if(q == f) return false; }
	v.k = V::NUM; v.d = strtod(s.substr(p, q - p).c_str(), nullptr); p = q; return true;
}
static bool jsonEq(const V &orig, const V &j)
{
	switch(orig.k) {
	case V::NUM:
		if(orig.d != orig.d) return j.k == V::NUL;
		if(j.k != V::NUM) return false;
		if(std::isinf(orig.d) || orig.d == 0) return orig.d == j.d && std::signbit(orig.d) == std::signbit(j.d);
		{ long double e = std::fabs((long double)j.d - orig.d), lim = std::fabs((long double)orig.d) * 5e-15L + 1e-322L; if(std::isinf(j.d)) e = 0, lim = std::fabs(orig.d) > 1.797e308 ? 1 : -1; if(e <= lim) { if(orig.d && std::fabs(orig.d) > 1e-300) ctx.statmax("max_print_rel_err_e18", double(e / std::fabs((long double)orig.d) * 1e18L)); return true; } ctx.note("number %.17g printed as %.17g", orig.d, j.d); return false; }
	case V::UND: case V::NUL: return j.k == V::NUL;
	case V::ARR: if(j.k != V::ARR || j.a.size() != orig.a.size()) return false; for(size_t i = 0; i < j.a.size(); i++) if(!jsonEq(orig.a[i], j.a[i])) return false; return true;
	case V::OBJ: case V::ECMA: case V::TYP: { if(j.k != V::OBJ) return false; size_t n = 0; for(auto &e : orig.m) if(e.second.k != V::UND) { n++; auto it = j.m.find(e.first); if(it == j.m.end() || !jsonEq(e.second, it->second)) return false; } return n == j.m.size(); }
	default: return eq(orig, j);
	}
}
struct Buf { uint8_t *p; size_t n; explicit Buf(const uint8_t *s, size_t k) : p(new uint8_t[k]), n(k) { if(k) memcpy(p, s, k); } ~Buf() { delete[] p; } };

static void decodeAny(const Bytes &in)
{
	Buf b(in.data(), in.size());
	const uint8_t *c = b.p;
	auto got = AMF0::decode(&c, b.p + b.n);
	CHECK(got || c == b.p, "decode-failed-moved", "%s", hex(in).c_str());
	CHECK(c >= b.p && c <= b.p + b.n, "decode-outside", "%s", hex(in).c_str());
	V ref; size_t p = 0, budget = 200000; int r = dec(in, p, ref, 0, budget);
	if(r >= 0) {
		CHECK(!!got == (r == 1), "decode-accept", "%s: decoder %s, format says %s", hex(in).c_str(), got ? "accepted" : "refused", r ? "valid" : "malformed");
		if(got && r == 1) { V v; CHECK(read(got.get(), v), "decode-inconsistent", "%s", hex(in).c_str()); CHECK(size_t(c - b.p) == p, "decode-consumed", "%s: %zu expected %zu", hex(in).c_str(), size_t(c - b.p), p); CHECK(eq(v, ref), "decode-value", "%s", hex(in).c_str()); ctx.stat("mutants_accepted"); }
	}
	std::vector<std::shared_ptr<AMF0>> all;
	AMF0::decode(b.p, b.p + b.n, all);
	if(got) { got->repr(); got->toJSON(0); auto e = AMF0::encode(got.get()); ctx.caseHash += e.size(); }
	ctx.stat("inputs_decoded");
}
void runCase(Rng &r, uint64_t)
{
	int budget = int(r.range(1, 60));
	V v = tree(r, int(r.u(6)), budget);
	if(r.chance(0.02)) { size_t n = r.range(26, 32); for(size_t i = 0; i < n; i++) { V o; o.k = r.pick({V::OBJ, V::ARR, V::ECMA, V::TYP}); if(o.k == V::ARR) o.a.push_back(v); else o.m[rstr(r, true)] = v; v = o; } // depth near the limit
		ctx.stat("deep_trees"); }
	Bytes ref; enc(v, ref);
	size_t p = 0, bud = 1000000; V chk; if(dec(ref, p, chk, 0, bud) != 1) return; // deeper than the limit
	std::shared_ptr<AMF0> a = build(r, v); if(!a) a = AMF0::Undefined();
	Bytes got = AMF0::encode(a.get());
	CHECK(got == ref, "encode", "%s expected %s", hex(got, 200).c_str(), hex(ref, 200).c_str());
	{ V x; CHECK(read(a.get(), x) && eq(x, v), "build-read", "values read back from the built tree differ"); }
	size_t extra = r.u(3); Bytes in = ref; for(size_t i = 0; i < extra; i++) in.push_back(uint8_t(r.next()));
	{
		Buf b(in.data(), in.size()); const uint8_t *c = b.p;
		auto d = AMF0::decode(&c, b.p + b.n);
		V x;
		CHECK(d, "roundtrip-refused", "%s", hex(ref, 200).c_str());
		if(d) { CHECK(size_t(c - b.p) == ref.size(), "roundtrip-consumed", "%zu of %zu", size_t(c - b.p), ref.size()); CHECK(read(d.get(), x) && eq(x, v), "roundtrip-value", "%s", hex(ref, 200).c_str());
			auto dup = d->duplicate(); V y; CHECK(dup && dup != d && read(dup.get(), y) && eq(y, v), "duplicate", "%s", hex(ref).c_str()); }
	}
	{ // sequences of values
		std::vector<std::shared_ptr<AMF0>> vec, out; size_t n = r.u(4); for(size_t i = 0; i < n; i++) vec.push_back(r.chance(0.5) ? a : a->duplicate());
		Bytes e = AMF0::encode(vec); Buf b(e.data(), e.size());
		CHECK(AMF0::decode(b.p, b.p + b.n, out) && out.size() == n, "sequence", "%zu of %zu values", out.size(), n);
	}
	size_t ind = r.pick({0, 1, 4});
	std::string js = a->toJSON(ind); V j; size_t q = 0; bool ok = json(js, q, j) && q == js.size();
	CHECK(ok, "json-syntax", "%s", js.substr(0, 300).c_str());
	if(ok) CHECK(jsonEq(v, j), "json-value", "%s", js.substr(0, 300).c_str());
	a->repr(ind); { std::string s; a->AMF0::repr(s, 2); }
	// truncations
	size_t step = ref.size() > 300 ? ref.size() / 100 : 1;
	for(size_t k = 0; k < ref.size() && !ctx.failed; k += step) { Buf b(ref.data(), k); const uint8_t *c = b.p; auto d = AMF0::decode(&c, b.p + k); CHECK(!d && c == b.p, "truncated-accepted", "%zu of %s", k, hex(ref, 200).c_str()); ctx.stat("truncations"); }
	// mutations and noise
	for(int i = 0; i < 6 && !ctx.failed; i++) {
		Bytes m = r.chance(0.7) ? ref : r.bytes(r.u(60));
		if(m.size() > 3000) m.resize(3000);
		size_t n = r.range(1, 4);
		for(size_t z = 0; z < n && !m.empty(); z++) switch(r.u(5)) {
			case 0: m[r.u(m.size())] ^= uint8_t(1 << r.u(8)); break;
			case 1: m[r.u(m.size())] = r.pick({0, 1, 2, 3, 5, 6, 8, 9, 10, 12, 13, 16, 255}); break;
			case 2: m.erase(m.begin() + r.u(m.size())); break;
			case 3: m.insert(m.begin() + r.u(m.size() + 1), uint8_t(r.u(17))); break;
			case 4: m.resize(r.u(m.size() + 1)); break;
		}
		decodeAny(m);
	}
	if(r.chance(0.02)) { // unbounded nesting and huge claimed counts
		Bytes m; size_t n = r.range(20, 3000); int k = int(r.u(3)); for(size_t i = 0; i < n; i++) if(k == 0) { m.push_back(10); put32(m, 1); } else if(k == 1) { m.push_back(3); put16(m, 0); } else { m.push_back(10); put32(m, 0xffffffff); }
		m.push_back(5); decodeAny(m); ctx.stat("deep_inputs");
	}
	ctx.h(hash64(ref)); ctx.nontrivial = true; ctx.stat("trees"); ctx.stat("encoded_bytes", ref.size());
}
}
