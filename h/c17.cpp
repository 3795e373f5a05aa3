// C17: VLU / Field / Option codecs and PacketAssembler against independent reference models, exact-size heap buffers under ASan.
#include "base.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/PacketAssembler.hpp"
using namespace com::zenomt::rtmfp;
namespace vf {
const char *driverRule() { return "one case = a batch of round trips of numbers, fields and options, of parses of random/mutated/truncated bytes in exact-size heap buffers, or one random PacketAssembler call sequence; non-trivial when at least one encode or accepted push was compared; distinct by the bytes produced or parsed"; }
uint64_t driverCases(bool t) { return t ? 8000000 : 160000; }
void driverInit() {}
void driverDone() {}

struct Buf { // exact-size heap copy: any read outside is an ASan report
	uint8_t *p; size_t n;
	explicit Buf(const Bytes &b) : p(new uint8_t[b.size()]), n(b.size()) { if(n) memcpy(p, b.data(), n); }
	~Buf() { delete[] p; }
	const uint8_t *lim() const { return p + n; }
};

static Bytes refEncode(uint64_t v) { Bytes r{uint8_t(v & 0x7f)}; while(v >>= 7) r.insert(r.begin(), uint8_t(0x80 | (v & 0x7f))); return r; }
// returns consumed (0 = refuse)
static size_t refParse(const uint8_t *p, size_t n, uint64_t &sat, uint64_t &wrap)
{
	bool big = false; sat = wrap = 0;
	for(size_t i = 0; i < n; i++) {
		if(wrap >> 57) big = true;
		wrap = wrap * 128 + (p[i] & 0x7f);
		if(!(p[i] & 0x80)) { sat = big ? UINT64_MAX : wrap; return i + 1; }
	}
	return 0;
}
static uint64_t pickNum(Rng &r)
{
	switch(r.u(4)) {
	case 0: return r.bits();
	case 1: return (1ull << r.u(64)) - 1 + r.u(3);
	case 2: return UINT64_MAX - r.u(3);
	default: return (1ull << (7 * r.u(10))) - r.u(2);
	}
}
static Bytes pickBytes(Rng &r)
{
	Bytes b;
	switch(r.u(4)) {
	case 0: return r.bytes(r.u(24));
	case 1: { size_t n = r.u(14); for(size_t i = 0; i < n; i++) b.push_back(uint8_t(r.next() | (r.chance(0.9) ? 0x80 : 0))); if(r.chance(0.7)) b.push_back(r.u(128)); break; }
	case 2: { uint64_t v = pickNum(r); b = refEncode(v); if(r.chance(0.5)) b.resize(r.u(b.size() + 1)); break; }
	default: { size_t n = r.u(40); b = refEncode(r.chance(0.8) ? n : pickNum(r)); Bytes c = r.bytes(r.chance(0.8) ? n : r.u(40)); b.insert(b.end(), c.begin(), c.end()); if(r.chance(0.3) && !b.empty()) b.resize(r.u(b.size())); }
	}
	return b;
}

static void roundTrips(Rng &r)
{
	uint64_t v = pickNum(r);
	Bytes ref = refEncode(v);
	size_t elen = VLU::encode(v, nullptr);
	CHECK(elen == ref.size() && elen <= VLU::MAX_VLU_SIZE && elen <= 10, "vlu-encode-size", "%llu size %zu expected %zu", (unsigned long long)v, elen, ref.size());
	{ uint8_t *d = new uint8_t[ref.size()]; size_t n = VLU::encode(v, d); CHECK(n == ref.size() && !memcmp(d, ref.data(), n), "vlu-encode", "%llu", (unsigned long long)v); delete[] d; }
	Bytes out = r.bytes(r.u(5)), orig = out;
	VLU::append(v, out);
	CHECK(out.size() == orig.size() + ref.size() && Bytes(out.begin(), out.begin() + orig.size()) == orig && Bytes(out.begin() + orig.size(), out.end()) == ref, "vlu-append", "%llu -> %s", (unsigned long long)v, hex(out).c_str());
	Bytes tail = r.bytes(r.u(4)), whole = ref; whole.insert(whole.end(), tail.begin(), tail.end());
	Buf b(whole);
	uintmax_t got = 1;
	size_t n = VLU::parse(b.p, b.lim(), &got);
	CHECK(n == ref.size() && got == v, "vlu-roundtrip", "%llu -> %llu consumed %zu/%zu", (unsigned long long)v, (unsigned long long)got, n, ref.size());
	got = 1; n = VLU::parse(b.p, nullptr, &got);
	CHECK(n == ref.size() && got == v, "vlu-roundtrip-nolimit", "%llu -> %llu consumed %zu/%zu", (unsigned long long)v, (unsigned long long)got, n, ref.size());
	for(size_t k = 0; k < ref.size(); k++) { Buf t(Bytes(ref.begin(), ref.begin() + k)); CHECK(0 == VLU::parse(t.p, t.lim(), &got), "vlu-truncated-accepted", "%s cut to %zu", hex(ref).c_str(), k); }
	ctx.h(v); ctx.stat("numbers");
	// options
	uint64_t type = pickNum(r); Bytes val = r.bytes(r.chance(0.1) ? r.u(400) : r.u(20)); int kind = int(r.u(5));
	Bytes o = r.bytes(r.u(3)), pre = o; uint64_t num = pickNum(r);
	switch(kind) {
	case 0: Option::append(type, val.data(), val.size(), o); break;
	case 1: Option::append(type, val, o); break;
	case 2: Option::append(type, uintmax_t(num), o); val = refEncode(num); break;
	case 3: Option::append(type, o); val.clear(); break;
	case 4: Option::append(o); val.clear(); break;
	}
	CHECK(Bytes(o.begin(), o.begin() + pre.size()) == pre, "option-append-clobbers", "kind %d", kind);
	Bytes body(o.begin() + pre.size(), o.end());
	if(ctx.failed) return;
	Bytes exp;
	if(kind != 4) { exp = refEncode(type); exp.insert(exp.end(), val.begin(), val.end()); }
	Bytes full = refEncode(exp.size()); full.insert(full.end(), exp.begin(), exp.end());
	CHECK(body == full, "option-append", "kind %d type %llu: %s expected %s", kind, (unsigned long long)type, hex(body).c_str(), hex(full).c_str());
	Bytes ob = full; ob.insert(ob.end(), tail.begin(), tail.end());
	Buf q(ob);
	uintmax_t t2 = 77; const uint8_t *v2 = q.p; size_t l2 = 99;
	n = Option::parse(q.p, q.lim(), &t2, &v2, &l2);
	bool ok = n == full.size() && (kind == 4 ? (t2 == 0 && !v2 && l2 == 0) : (t2 == type && l2 == val.size() && v2 == q.p + full.size() - val.size() && (!l2 || !memcmp(v2, val.data(), l2))));
	CHECK(ok, "option-roundtrip", "kind %d type %llu len %zu: consumed %zu type %llu len %zu", kind, (unsigned long long)type, val.size(), n, (unsigned long long)t2, l2);
	CHECK(Option::parse(q.p, q.lim(), nullptr, nullptr, nullptr) == n, "option-null-outs", "kind %d", kind);
	{ Buf t(Bytes(full.begin(), full.end() - 1)); CHECK(0 == Option::parse(t.p, t.lim(), &t2, &v2, &l2), "option-truncated-accepted", "%s", hex(full).c_str()); }
	ctx.h(hash64(full)); ctx.stat("options"); ctx.nontrivial = true;
}

static void parses(Rng &r)
{
	Bytes in = pickBytes(r); Buf b(in);
	ctx.h(hash64(in));
	uint64_t sat, wrap; size_t rn = refParse(b.p, b.n, sat, wrap);
	uintmax_t v = 5; size_t n = VLU::parse(b.p, b.lim(), &v);
	CHECK(n == rn && (!n || v == sat), "vlu-parse", "%s: consumed %zu value %llu, expected %zu %llu", hex(in).c_str(), n, (unsigned long long)v, rn, (unsigned long long)sat);
	v = 5; n = VLU::parse(b.p, b.lim(), &v, false);
	CHECK(n == rn && (!n || v == wrap), "vlu-parse-wrap", "%s: consumed %zu value %llu, expected %zu %llu", hex(in).c_str(), n, (unsigned long long)v, rn, (unsigned long long)wrap);
	CHECK(VLU::parse(b.p, b.lim(), nullptr) == rn, "vlu-null-out", "%s", hex(in).c_str());
	const uint8_t *pl = nullptr; size_t ln = 0;
	size_t expn = 0; if(rn && sat <= b.n - rn) expn = rn + size_t(sat);
	n = VLU::parseField(b.p, b.lim(), &pl, &ln);
	CHECK(n == expn && (!n || (pl == b.p + rn && ln == sat)), "field-parse", "%s: consumed %zu len %zu, expected %zu", hex(in).c_str(), n, ln, expn);
	CHECK(VLU::parseField(b.p, b.lim(), nullptr, nullptr) == expn, "field-null-outs", "%s", hex(in).c_str());
	if(n) for(size_t i = 0; i < ln; i++) ctx.caseHash += pl[i]; // ASan: the field is readable
	uint64_t ts = 0, tw = 0; size_t on = expn, vl = 0; const uint8_t *vp = nullptr;
	if(expn && sat) { size_t tn = refParse(b.p + rn, size_t(sat), ts, tw); if(!tn) on = 0; else { vp = b.p + rn + tn; vl = size_t(sat) - tn; } }
	uintmax_t ty = 3; const uint8_t *ov = nullptr; size_t ol = 9;
	n = Option::parse(b.p, b.lim(), &ty, &ov, &ol);
	CHECK(n == on && (!n || (ty == ts && ov == vp && ol == vl)), "option-parse", "%s: consumed %zu type %llu len %zu, expected %zu %llu %zu", hex(in).c_str(), n, (unsigned long long)ty, ol, on, (unsigned long long)ts, vl);
	ctx.stat("parses"); if(rn) ctx.stat("parses_accepted"); if(on) ctx.stat("options_accepted"); if(sat != wrap) ctx.stat("saturated");
	if(rn) ctx.nontrivial = true;
}

static void assembler(Rng &r)
{
	size_t cap = r.chance(0.5) ? r.range(9, 60) : r.range(9, 2000);
	size_t margin = r.u(5); bool flags = r.chance(0.7);
	uint8_t *buf = new uint8_t[cap]; memset(buf, 0xA5, cap);
	PacketAssembler a;
	Bytes m(margin, 0xA5); size_t flagAt = margin;
	if(flags) {
		uint8_t f = uint8_t(r.next()); long ts = r.chance(0.5) ? -1 : long(r.u(70000)), tse = r.chance(0.5) ? -1 : long(r.u(65536));
		a.init(buf, margin, cap, f, ts, tse);
		m.push_back((f & ~0x0c) | (ts >= 0 ? 8 : 0) | (tse >= 0 ? 4 : 0));
		if(ts >= 0) { m.push_back(uint8_t(ts >> 8)); m.push_back(uint8_t(ts)); }
		if(tse >= 0) { m.push_back(uint8_t(tse >> 8)); m.push_back(uint8_t(tse)); }
	} else a.init(buf, margin, cap);
	bool open = false; size_t chunkAt = 0, accepted = 0, refused = 0;
	Bytes before;
	auto same = [&] (const char *op) {
		Bytes v = a.toVector();
		bool eq = v.size() == m.size();
		for(size_t i = 0; eq && i < v.size(); i++) if(!(open && (i == chunkAt + 1 || i == chunkAt + 2)) && v[i] != m[i]) eq = false;
		CHECK(eq, "assembler-content", "after %s: %s expected %s", op, hex(v, 200).c_str(), hex(m, 200).c_str());
		CHECK(a.remaining() == cap - m.size(), "assembler-remaining", "after %s: remaining %zu expected %zu", op, a.remaining(), cap - m.size());
	};
	same("init");
	size_t steps = r.range(1, 60);
	for(size_t s = 0; s < steps && !ctx.failed; s++) {
		Bytes add; bool ok = false, exp = false; size_t room = cap - m.size();
		size_t len = r.chance(0.3) ? r.u(room + 4) : r.chance(0.2) ? room + r.u(3) - (room && r.chance(0.5)) : r.u(12);
		const char *op = "";
		switch(r.u(9)) {
		case 0: op = "push byte"; add = r.bytes(1); exp = room >= 1; ok = a.push(add[0]); break;
		case 1: op = "push bytes"; add = r.bytes(len); exp = room >= len; ok = a.push(add.data(), add.size()); break;
		case 2: op = "push vector"; add = r.bytes(len); exp = room >= len; ok = a.push(add); break;
		case 3: case 4: { op = "pushField"; Bytes f = r.bytes(len); add = refEncode(len); add.insert(add.end(), f.begin(), f.end()); exp = room >= add.size(); ok = r.chance(0.5) ? a.pushField(f) : a.pushField(f.data(), f.size()); break; }
		case 5: { op = "pushVLU"; uint64_t v = pickNum(r); add = refEncode(v); exp = room >= add.size(); ok = a.pushVLU(v); break; }
		case 6: if(open) continue; { op = "startChunk"; uint8_t t = uint8_t(r.next()); before = m; exp = room >= 3; ok = a.startChunk(t); if(exp) { open = true; chunkAt = m.size(); } add = Bytes{t, 0, 0}; } break;
		case 7: if(!open) continue; op = "commit"; a.commitChunk(); { size_t n = m.size() - chunkAt - 3; m[chunkAt + 1] = uint8_t(n >> 8); m[chunkAt + 2] = uint8_t(n); } open = false; ok = exp = true; ctx.stat("chunks_committed"); break;
		case 8: if(r.chance(0.5)) { op = "rollback"; a.rollbackChunk(); if(open) { m = before; open = false; ctx.stat("chunks_rolled_back"); } ok = exp = true; }
			else { if(!flags) continue; op = "tc"; CHECK(a.getTimeCriticalFlag() == !!(m[flagAt] & 0x80), "assembler-tc", "flag"); a.setTimeCriticalFlag(); m[flagAt] |= 0x80; if(open) before[flagAt] |= 0x80; CHECK(a.getTimeCriticalFlag(), "assembler-tc", "flag not set"); ok = exp = true; }
			break;
		}
		CHECK(ok == exp, "assembler-result", "%s of %zu bytes with %zu left answered %d", op, add.size(), room, ok);
		if(exp) { m.insert(m.end(), add.begin(), add.end()); accepted++; } else refused++;
		same(op);
	}
	for(size_t i = 0; i < margin; i++) CHECK(buf[i] == 0xA5, "assembler-margin", "front margin byte %zu overwritten", i);
	ctx.stat("pushes_accepted", accepted); ctx.stat("pushes_refused", refused);
	ctx.h(hash64(m)); if(accepted) ctx.nontrivial = true;
	delete[] buf;
}

void runCase(Rng &r, uint64_t)
{
	switch(r.u(3)) {
	case 0: for(int i = 0; i < 6 && !ctx.failed; i++) roundTrips(r); break;
	case 1: for(int i = 0; i < 12 && !ctx.failed; i++) parses(r); break;
	default: assembler(r);
	}
}
}
