// C20: TC messages and metadata, media headers and metadata, URIs, hex, checksums against independent references.
#include "base.hpp"
#include "rtmfp/TCMessage.hpp"
#include "rtmfp/Media.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/Hex.hpp"
#include "rtmfp/Checksums.hpp"
#include "rtmfp/URIParse.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace com::zenomt;
using namespace com::zenomt::rtmp;
using namespace com::zenomt::rtmfp;
namespace vf {
using Bytes = std::vector<uint8_t>;
const char *driverRule() { return "one case = one batch for one helper family (TC messages, TC metadata, video/audio classification, timestamps, media metadata, media headers, URI parts, URI resolution, hex, checksums), valid and malformed; non-trivial when at least one value was compared with its reference; distinct by the bytes or text handled"; }
uint64_t driverCases(bool t) { return t ? 10000000 : 160000; }
void driverDone() {}
struct Buf { uint8_t *p; size_t n; explicit Buf(const Bytes &b) : p(new uint8_t[b.size()]), n(b.size()) { if(n) memcpy(p, b.data(), n); } ~Buf() { delete[] p; } };
static std::string S(Rng &r, size_t max, const char *alpha = nullptr) { std::string s; size_t n = r.u(max + 1), an = alpha ? strlen(alpha) : 0; for(size_t i = 0; i < n; i++) s.push_back(alpha ? alpha[r.u(an)] : char(r.next())); return s; }
static uint64_t num(Rng &r) { return r.chance(0.2) ? UINT64_MAX - r.u(3) : r.bits(); }
static size_t refVLU(const uint8_t *p, size_t n, uint64_t &v) { bool big = false; v = 0; for(size_t i = 0; i < n; i++) { if(v >> 57) big = true; v = v * 128 + (p[i] & 0x7f); if(!(p[i] & 0x80)) { if(big) v = UINT64_MAX; return i + 1; } } return 0; }

static void tcmsg(Rng &r)
{
	uint8_t type = uint8_t(r.next()); uint32_t ts = uint32_t(r.bits()); Bytes pl = r.bytes(r.u(20));
	Bytes m = r.chance(0.5) ? TCMessage::message(type, ts, pl) : TCMessage::message(type, ts, pl.data(), pl.size());
	Bytes exp{type, uint8_t(ts >> 24), uint8_t(ts >> 16), uint8_t(ts >> 8), uint8_t(ts)}; exp.insert(exp.end(), pl.begin(), pl.end());
	CHECK(m == exp, "tcmessage", "%s expected %s", hex(m).c_str(), hex(exp).c_str());
	Buf b(exp); uint8_t ty = 0; uint32_t t2 = 0;
	CHECK(TCMessage::parseHeader(b.p, b.p + b.n, &ty, &t2) == 5 && ty == type && t2 == ts, "tcmessage-parse", "%s", hex(exp).c_str());
	CHECK(TCMessage::parseHeader(b.p, b.p + b.n, nullptr, nullptr) == 5, "tcmessage-parse-null", "null outs");
	for(size_t k = 0; k < 5; k++) { Buf t(Bytes(exp.begin(), exp.begin() + k)); CHECK(!TCMessage::parseHeader(t.p, t.p + t.n, &ty, &t2), "tcmessage-short", "%zu bytes accepted", k); }
	// commands
	std::string name = S(r, 20, "abcdeNetConnection._:"); double tid = r.chance(0.5) ? double(r.u(100)) : r.real(-5, 1e9); bool ext = r.chance(0.5);
	std::vector<std::shared_ptr<AMF0>> args; size_t n = r.u(4); for(size_t i = 0; i < n; i++) args.push_back(r.chance(0.5) ? std::shared_ptr<AMF0>(AMF0::Number(r.real())) : std::shared_ptr<AMF0>(AMF0::String(S(r, 8))));
	Bytes c; int how = int(r.u(4)); std::shared_ptr<AMF0Object> obj = r.chance(0.5) ? AMF0::Object() : nullptr; if(obj) obj->putValueAtKey(AMF0::Number(1), "x");
	std::vector<std::shared_ptr<AMF0>> want{AMF0::String(name), AMF0::Number(tid)};
	auto o = [&] { if(obj) want.push_back(obj); else want.push_back(AMF0::Null()); };
	switch(how) {
	case 0: c = TCMessage::command(name.c_str(), tid, args, ext); want.insert(want.end(), args.begin(), args.end()); break;
	case 1: c = TCMessage::command(name.c_str(), tid, obj.get(), AMF0::encode(args), ext); o(); want.insert(want.end(), args.begin(), args.end()); break;
	case 2: ext = false; c = TCMessage::command(name.c_str(), tid, obj.get(), args.empty() ? (const AMF0 *)nullptr : args[0].get()); o(); if(!args.empty()) want.push_back(args[0]); break;
	case 3: { Bytes e = AMF0::encode(args); c = TCMessage::command(name.c_str(), tid, obj.get(), e.data(), e.size(), ext); o(); want.insert(want.end(), args.begin(), args.end()); break; }
	}
	CHECK(TCMessage::parseHeader(c.data(), c.data() + c.size(), &ty, &t2) == 5 && ty == (ext ? 17 : 20) && t2 == 0, "command-header", "%s", hex(c).c_str());
	Bytes body(c.begin() + 5, c.end()); if(ext) { CHECK(!body.empty() && body[0] == 0, "command-ext", "%s", hex(c).c_str()); if(!body.empty()) body.erase(body.begin()); }
	CHECK(body == AMF0::encode(want), "command-body", "%s", hex(body).c_str());
	ctx.h(hash64(c)); ctx.stat("tc_messages"); ctx.nontrivial = true;
}
static void tcmeta(Rng &r)
{
	uint32_t sid = uint32_t(r.bits()); ReceiveOrder ro = r.chance(0.5) ? RO_NETWORK : RO_SEQUENCE;
	Bytes m = TCMetadata::encode(sid, ro); uint32_t s2 = 0; ReceiveOrder r2 = RO_HOLD;
	CHECK(TCMetadata::parse(m, &s2, &r2) == m.size() && s2 == sid && r2 == ro, "tcmetadata", "%u -> %s", sid, hex(m).c_str());
	Bytes ext = m; ext.push_back(uint8_t(r.next())); CHECK(TCMetadata::parse(ext, &s2, &r2) == m.size() && s2 == sid, "tcmetadata-extra", "%s", hex(ext).c_str());
	for(size_t k = 0; k < m.size(); k++) { Buf t(Bytes(m.begin(), m.begin() + k)); CHECK(!TCMetadata::parse(t.p, t.p + t.n, &s2, &r2), "tcmetadata-short", "%zu of %s", k, hex(m).c_str()); }
	Bytes f = r.chance(0.5) ? r.bytes(r.u(12)) : m; if(!f.empty() && r.chance(0.8)) f[r.u(f.size())] = uint8_t(r.next()); if(r.chance(0.2)) { f.resize(3); VLU::append(num(r), f); }
	Buf b(f); uint64_t v = 0; size_t vn = 0; bool ok = f.size() >= 4 && f[0] == 'T' && f[1] == 'C' && (f[2] & 4) && (vn = refVLU(b.p + 3, b.n - 3, v)) && v <= UINT32_MAX;
	s2 = 0; size_t got = TCMetadata::parse(b.p, b.p + b.n, &s2, &r2);
	CHECK(got == (ok ? 3 + vn : 0) && (!ok || (s2 == v && r2 == ((f[2] & 1) ? RO_NETWORK : RO_SEQUENCE))), "tcmetadata-parse", "%s -> %zu", hex(f).c_str(), got);
	ctx.h(hash64(f) ^ sid); ctx.stat("tc_metadata"); ctx.nontrivial = true;
}
static void classify(Rng &r)
{
	Bytes p = r.bytes(r.u(9)); if(!p.empty() && r.chance(0.6)) p[0] = uint8_t((r.pick({0x17, 0x27, 0x90, 0x91, 0x93, 0x94, 0x95, 0x96, 0xa0, 0xaf, 0x80, 0xd1, 0x22}) & 0xf0) | r.u(16)); if(p.size() > 1 && r.chance(0.6)) p[1] = uint8_t(r.u(4));
	Buf b(p); const uint8_t *q = b.p; size_t n = b.n;
	bool venh = n >= 5 && (p[0] >> 7), multi = venh && (p[0] & 15) == 6; int pt = n ? p[0] & 15 : 0;
	bool vinit = venh ? pt == 0 || pt == 5 : n > 1 && pt == 7 && p[1] == 0;
	bool vspec = n == 0 ? true : n < 2 ? false : venh ? !multi && pt != 1 && pt != 3 : pt == 7 && p[1] != 1;
	bool vkey = n && ((p[0] >> 4) & 7) == 1 && !vspec;
	uint32_t cc = n >= 5 ? uint32_t(p[1]) << 24 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 8 | p[4] : 0;
	CHECK(Message::isVideoEnhanced(q, n) == venh && Message::isVideoInit(q, n) == vinit && Message::isVideoSequenceSpecial(q, n) == vspec && Message::isVideoKeyframe(q, n) == vkey && Message::isVideoEnhancedMultitrack(q, n) == multi && Message::isVideoEnhancedMetadata(q, n) == (venh && pt == 4), "video-class", "%s", hex(p).c_str());
	CHECK(Message::getVideoCodec(q, n) == (venh ? multi ? 0 : cc : n ? uint32_t(pt) : 0), "video-codec", "%s", hex(p).c_str());
	bool aenh = n >= 5 && (p[0] >> 4) == 9, amulti = aenh && pt == 5;
	bool ainit = aenh ? pt == 0 : n > 1 && (p[0] >> 4) == 10 && p[1] == 0, aend = n == 0 || p[0] == 0x92;
	CHECK(Message::isAudioEnhanced(q, n) == aenh && Message::isAudioInit(q, n) == ainit && Message::isAudioSequenceEnd(q, n) == aend && Message::isAudioEnhancedMultitrack(q, n) == amulti && Message::isAudioEnhancedMultichannelConfig(q, n) == (aenh && pt == 4) && Message::isAudioSequenceSpecial(q, n) == (aend || ainit || (aenh && pt == 4)), "audio-class", "%s", hex(p).c_str());
	CHECK(Message::getAudioCodec(q, n) == (aenh ? amulti ? 0x90 : cc : n ? uint32_t(p[0] & 0xf0) : 0), "audio-codec", "%s", hex(p).c_str());
	uint32_t codec = r.chance(0.5) ? uint32_t(r.u(16)) : uint32_t(r.bits()); Bytes e = Message::makeVideoEndOfSequence(codec);
	if(codec > 15 || codec == 7) CHECK(Message::isVideoSequenceSpecial(e.data(), e.size()) && !Message::isVideoInit(e.data(), e.size()) && Message::getVideoCodec(e.data(), e.size()) == codec, "video-eos", "%x -> %s", codec, hex(e).c_str());
	else CHECK(e.empty(), "video-eos", "%x -> %s", codec, hex(e).c_str());
	// timestamps
	uint32_t a = uint32_t(r.next()), d = uint32_t(r.bits()), c = a + d;
	if(d != 0x80000000u) { int32_t s = int32_t(d); CHECK(Message::timestamp_gt(c, a) == (s > 0) && Message::timestamp_lt(c, a) == (s < 0) && Message::timestamp_diff(c, a) == s, "timestamp", "%u vs %u", c, a); }
	else Message::timestamp_diff(c, a);
	ctx.h(hash64(p) ^ a); ctx.stat("classified"); ctx.nontrivial = true;
}
static void mediaMeta(Rng &r)
{
	auto m = share_ref(new Media(), false);
	m->streamID = num(r); if(r.chance(0.5)) m->trackID = num(r);
	m->codec = S(r, 10); m->mediaType = S(r, 8); m->trackName = S(r, 8);
	uintmax_t ticks = 1000, per = 1; if(r.chance(0.5)) { ticks = 1 + r.u(r.chance(0.5) ? 100000 : 1ull << 40); per = 1 + r.u(r.chance(0.5) ? 3 : 1001); CHECK(m->setTimescale(ticks, per), "timescale", "refused"); }
	if(r.chance(0.1)) { CHECK(!m->setTimescale(0, 1) && !m->setTimescale(1, 0), "timescale-zero", "accepted"); CHECK(!m->setOrigin(-1) && !m->setOrigin(INFINITY) && !m->setOrigin(NAN), "origin-bad", "accepted"); CHECK(!m->setReceiveIntent(RO_HOLD), "intent-hold", "accepted"); }
	Duration tick = Duration(per) / Duration(ticks);
	if(r.chance(0.5)) { Time o = r.chance(0.5) ? Time(r.u(1ull << 40)) + Time(r.next()) / 18446744073709551616.0L : Time(r.bits() >> 1); CHECK(m->setOrigin(o), "origin", "refused"); }
	if(r.chance(0.5)) m->reorderSuggestion = r.chance(0.3) ? Duration(0) : Duration(r.real() * 10);
	if(m->reorderSuggestion > 0 && m->reorderSuggestion / tick > 1e15L) m->reorderSuggestion = -1;
	if(r.chance(0.5)) m->setReceiveIntent(RO_NETWORK);
	Bytes md = m->toMetadata();
	auto p = Media::fromMetadata(md);
	CHECK(p, "media-metadata-refused", "%s", hex(md, 200).c_str());
	if(p) {
		uintmax_t t2, p2; p->getTimescale(&t2, &p2);
		CHECK(p->streamID == m->streamID && p->trackID == m->trackID && p->codec == m->codec && p->mediaType == m->mediaType && p->trackName == m->trackName && t2 == ticks && p2 == per && p->getReceiveIntent() == m->getReceiveIntent(), "media-metadata", "%s", hex(md, 200).c_str());
		CHECK(p->getOrigin() == m->getOrigin(), "media-origin", "%.20Lg became %.20Lg", m->getOrigin(), p->getOrigin());
		CHECK((m->reorderSuggestion < 0) == (p->reorderSuggestion < 0) && (m->reorderSuggestion < 0 || std::fabs(m->reorderSuggestion - p->reorderSuggestion) <= tick * 0.500001L), "media-reorder", "%Lg became %Lg", m->reorderSuggestion, p->reorderSuggestion);
		if(m->getOrigin() == p->getOrigin()) CHECK(*p == *m && !(*p != *m) && p->track_compare(*m) == 0 && p->stream_track_compare(*m) == 0, "media-equal", "parsed copy differs");
		Media c(*m); CHECK(c == *m && c.toMetadata() == md, "media-copy", "copy differs");
		Media d(*m); int what = int(r.u(4)); if(what == 0) d.streamID ^= 1; if(what == 1) d.trackID ^= 1; if(what == 2) d.codec += "x"; if(what == 3) d.mediaType += "x"; CHECK(d != *m, "media-differs", "changed copy still equal");
		int tc = what == 1 ? (d.trackID < m->trackID ? -1 : 1) : what == 3 ? 1 : 0; auto sg = [] (int x) { return (x > 0) - (x < 0); };
		CHECK(sg(d.track_compare(*m)) == tc && sg(m->track_compare(d)) == -tc && Media::track_less(d, *m) == (tc < 0), "media-track-compare", "what %d", what);
		int sc = what == 0 ? (d.streamID < m->streamID ? -1 : 1) : tc; CHECK(sg(d.stream_track_compare(*m)) == sc && Media::stream_track_less(d, *m) == (sc < 0), "media-stream-compare", "what %d", what);
	}
	for(size_t k = 0; k < md.size(); k += 1 + md.size() / 20) { Bytes t(md.begin(), md.begin() + k); Media::fromMetadata(t); }
	for(int i = 0; i < 3; i++) { Bytes f = md; size_t n = r.range(1, 3); while(n--) switch(r.u(3)) { case 0: f[r.u(f.size())] = uint8_t(r.next()); break; case 1: if(f.size() > 40) f.erase(f.begin() + 32 + r.u(f.size() - 32)); break; case 2: f.insert(f.begin() + 33 + (f.size() > 33 ? r.u(f.size() - 33) : 0), uint8_t(r.u(8))); break; } auto q = Media::fromMetadata(f); if(q) { Bytes again = q->toMetadata(); auto z = Media::fromMetadata(again); if(q->reorderSuggestion < 0 || q->reorderSuggestion / q->getTickDuration() < 1e15L) CHECK(z && z->streamID == q->streamID && z->codec == q->codec, "media-remetadata", "%s", hex(f, 200).c_str()); ctx.stat("mutants_accepted"); } }
	// times
	uint64_t tk = r.u(1ull << 40);
	if(m->getOrigin() / tick < 1e15L) { CHECK(m->timeToTicks(m->ticksToTime(tk)) == tk, "media-ticks", "%llu origin %Lg tick %Lg", (unsigned long long)tk, m->getOrigin(), tick); CHECK(m->timeToTicks(m->getOrigin() - 5) == 0 && m->timeToTicks(INFINITY) == 0, "media-ticks-clamp", "before origin"); 
		Time dts = m->getOrigin() + tick * Duration(r.u(1ull << 36)) * r.real(), pts = r.chance(0.2) ? Time(-1) : dts + tick * (r.real() * 2000 - 500); if(pts > -1 && pts < m->getOrigin()) pts = m->getOrigin(); bool rai = r.chance(0.5); int mt = int(r.u(16)); Bytes pl = r.bytes(r.u(10)), opts; if(r.chance(0.4)) { Option::append(r.bits(), r.bytes(r.u(6)), opts); Option::append(opts); }
		Bytes msg = opts.empty() && r.chance(0.5) ? m->makeMessage(rai, mt, dts, pts, pl) : m->makeMessage(rai, mt, dts, pts, opts, pl);
		Buf b(msg); bool rai2 = !rai; int mt2 = -1; Time d2 = -9, p2 = -9; size_t oo = 0, off = m->parseHeader(b.p, b.n, &rai2, &mt2, &d2, &p2, &oo);
		if(pts < 0) pts = dts;
		CHECK(off && off == b.n - pl.size() && rai2 == rai && mt2 == mt && std::fabs(d2 - dts) <= tick * 0.51L && std::fabs(p2 - pts) <= tick * 0.51L && Bytes(b.p + off, b.p + b.n) == pl && (off - oo) == opts.size(), "media-message", "%s", hex(msg).c_str());
	}
	ctx.h(hash64(md)); ctx.stat("media_metadata"); ctx.nontrivial = true;
}
static void mediaHeader(Rng &r)
{
	bool rai = r.chance(0.5); int mt = int(r.u(16)); uint64_t d = r.chance(0.1) ? 0 : num(r), p = r.chance(0.3) ? d : r.chance(0.1) ? 0 : num(r); Bytes pl = r.bytes(r.u(12)), opts; size_t no = r.u(3); for(size_t i = 0; i < no; i++) Option::append(r.bits(), r.bytes(r.u(6)), opts); if(no) Option::append(opts);
	Bytes m = Media::basicMakeMessage(rai, mt, d, p, opts.data(), opts.size(), pl.data(), pl.size());
	Buf b(m); bool rai2 = !rai; int mt2 = -1; uintmax_t d2 = 5, p2 = 5; size_t oo = 0, off = Media::basicParseHeader(b.p, b.n, &rai2, &mt2, &d2, &p2, &oo);
	CHECK(off == b.n - pl.size() && rai2 == rai && mt2 == mt && d2 == d && p2 == p && off - oo == opts.size() && Bytes(b.p + off, b.p + b.n) == pl, "media-header", "dts %llu pts %llu: %s", (unsigned long long)d, (unsigned long long)p, hex(m).c_str());
	CHECK(Media::basicParseHeader(b.p, b.n, nullptr, nullptr, nullptr, nullptr, nullptr) == off, "media-header-null", "null outs");
	for(size_t k = 0; k < off; k++) { Buf t(Bytes(m.begin(), m.begin() + k)); CHECK(!Media::basicParseHeader(t.p, t.n, &rai2, &mt2, &d2, &p2, &oo), "media-header-short", "%zu of %s", k, hex(m).c_str()); }
	Bytes f = r.chance(0.5) ? r.bytes(r.u(24)) : m; if(!f.empty()) f[r.u(std::min<size_t>(f.size(), 6))] = uint8_t(r.next()); Buf q(f);
	// reference parser
	size_t c = 1; bool ok = f.size() >= 1; uint64_t dt = 0, ofs = 0, ps = 0; int tss = ok ? (f[0] >> 4) & 3 : 0; size_t n;
	if(ok && tss) { ok = (n = refVLU(q.p + c, q.n - c, dt)); c += ok ? n : 0; if(ok && tss > 1) { ok = (n = refVLU(q.p + c, q.n - c, ofs)); c += ok ? n : 0; } }
	if(ok && tss == 3) { if(ofs > dt) ok = false; ps = dt - ofs; } else ps = dt + ofs;
	size_t optAt = c;
	if(ok && (f[0] & 0x40)) for(;;) { uint64_t l = 0; if(!(n = refVLU(q.p + c, q.n - c, l)) || l > q.n - c - n) { ok = false; break; } if(l) { uint64_t ty; if(!refVLU(q.p + c + n, size_t(l), ty)) { ok = false; break; } } c += n + size_t(l); if(!l) break; }
	off = Media::basicParseHeader(q.p, q.n, &rai2, &mt2, &d2, &p2, &oo);
	CHECK(off == (ok ? c : 0), "media-header-parse", "%s -> %zu expected %zu", hex(f).c_str(), off, ok ? c : 0);
	if(ok && off) CHECK(d2 == dt && p2 == ps && oo == optAt && mt2 == (f[0] & 15) && rai2 == !!(f[0] & 0x80), "media-header-fields", "%s", hex(f).c_str());
	ctx.h(hash64(m) ^ hash64(f)); ctx.stat("media_headers"); ctx.nontrivial = true;
}
struct U { std::string scheme, auth, path, query, frag; bool hs = false, ha = false, hq = false, hf = false; };
static U refSplit(const std::string &s)
{
	U u; size_t p = 0, c = s.find_first_of(":/?#");
	if(c != std::string::npos && s[c] == ':' && c && isalpha(uint8_t(s[0]))) { u.hs = true; u.scheme = s.substr(0, c); p = c + 1; }
	size_t f = s.find('#', p); if(f != std::string::npos) { u.hf = true; u.frag = s.substr(f + 1); } std::string rest = s.substr(p, f == std::string::npos ? f : f - p);
	size_t q = rest.find('?'); if(q != std::string::npos) { u.hq = true; u.query = rest.substr(q + 1); rest.resize(q); }
	if(rest.compare(0, 2, "//") == 0) { u.ha = true; size_t e = rest.find('/', 2); u.auth = rest.substr(2, e == std::string::npos ? e : e - 2); u.path = e == std::string::npos ? "" : rest.substr(e); } else u.path = rest;
	return u;
}
static std::string refDots(std::string in)
{
	std::string out;
	while(!in.empty()) {
		if(!in.compare(0, 3, "../")) in.erase(0, 3); else if(!in.compare(0, 2, "./")) in.erase(0, 2);
		else if(!in.compare(0, 3, "/./")) in.erase(0, 2); else if(in == "/.") in = "/";
		else if(!in.compare(0, 4, "/../") || in == "/..") { in = in == "/.." ? "/" : in.substr(3); size_t l = out.rfind('/'); out.resize(l == std::string::npos ? 0 : l); }
		else if(in == "." || in == "..") in.clear();
		else { size_t e = in.find('/', 1); out += in.substr(0, e); in.erase(0, e); }
	}
	return out;
}
static std::string genUri(Rng &r, bool rel)
{
	std::string s;
	if(r.chance(rel ? 0.2 : 0.9)) s += r.pick<std::string>({"http", "https", "ws", "WSS", "rtmfp", "RTMP", "rtmps", "a", "x+y-z.1", "urn"}) + ":";
	if(r.chance(rel ? 0.2 : 0.8)) { s += "//"; if(r.chance(0.3)) { s += S(r, 5, "abc%41~"); if(r.chance(0.6)) s += ":" + S(r, 5, "pw:x"); s += "@"; } s += r.chance(0.2) ? "[" + S(r, 8, "0123456789abcdef:.") + "]" : S(r, 10, "abc.-%20"); if(r.chance(0.4)) s += ":" + std::to_string(r.u(70000)); if(r.chance(0.7)) s += "/"; }
	size_t n = r.u(5); for(size_t i = 0; i < n; i++) s += r.pick<std::string>({"a", "b;c", ".", "..", "", "...", "x.y", "%2e", ":", "@", "g"}) + (r.chance(0.8) ? "/" : "");
	if(r.chance(0.4)) s += "?" + S(r, 8, "abc=&/?:@"); if(r.chance(0.4)) s += "#" + S(r, 8, "abc=&/?:@#");
	return s;
}
static void uri(Rng &r)
{
	std::string s = r.chance(0.7) ? genUri(r, r.chance(0.3)) : S(r, 30, "a:/?#@[].%1b ;~\x7f\xc3");
	URIParse u; if(r.chance(0.3)) u.parse(genUri(r, false)); // reparse leaves nothing behind
	u.parse(s); U e = refSplit(s);
	CHECK(u.uri == s && u.schemePart + u.authorityPart + u.path + u.queryPart + u.fragmentPart == s, "uri-recompose", "%s", s.c_str());
	CHECK(u.scheme == e.scheme && u.schemePart == (e.hs ? e.scheme + ":" : "") && u.authority == e.auth && u.authorityPart == (e.ha ? "//" + e.auth : "") && u.path == e.path && u.query == e.query && u.queryPart == (e.hq ? "?" + e.query : "") && u.fragment == e.frag && u.fragmentPart == (e.hf ? "#" + e.frag : "") && u.hierpart == u.authorityPart + u.path, "uri-split", "%s: %s|%s|%s|%s|%s", s.c_str(), u.scheme.c_str(), u.authority.c_str(), u.path.c_str(), u.query.c_str(), u.fragment.c_str());
	std::string low; for(char c : e.scheme) low.push_back(c >= 'A' && c <= 'Z' ? c + 32 : c); CHECK(u.canonicalScheme == low, "uri-canonical-scheme", "%s", s.c_str());
	size_t at = e.auth.find('@'); std::string ui = at == std::string::npos ? "" : e.auth.substr(0, at), hi = at == std::string::npos ? e.auth : e.auth.substr(at + 1); size_t co = ui.find(':');
	CHECK(u.userinfo == ui && u.hostinfo == hi && u.userinfoPart + u.hostinfo == e.auth && u.user == ui.substr(0, co) && u.password == (co == std::string::npos ? "" : ui.substr(co + 1)) && u.user + u.passwordPart == ui, "uri-userinfo", "%s: %s|%s|%s", s.c_str(), u.user.c_str(), u.password.c_str(), u.hostinfo.c_str());
	CHECK(u.publicUri == u.schemePart + (u.authorityPart.empty() ? "" : "//" + u.hostinfo) + u.path + u.queryPart, "uri-public", "%s -> %s", s.c_str(), u.publicUri.c_str());
	CHECK(u.origin == (e.scheme.empty() || hi.empty() ? "" : e.scheme + "://" + hi), "uri-origin", "%s -> %s", s.c_str(), u.origin.c_str());
	// host and port for well formed host information
	{
		std::string h = hi, port; bool wf = true; size_t b = std::string::npos;
		if(!h.empty() && h[0] == '[') { b = h.find(']'); wf = b != std::string::npos && b > 1 && (b + 1 == h.size() || h[b + 1] == ':'); if(wf) { port = b + 1 < h.size() ? h.substr(b + 2) : ""; wf = b + 1 == h.size() || !port.empty(); h = h.substr(1, b - 1); } }
		else { size_t c = h.find(':'); if(c != std::string::npos) { port = h.substr(c + 1); wf = !port.empty(); h.resize(c); } wf = wf && h.find_first_of("[]") == std::string::npos; }
		if(port.find_first_not_of("0123456789") != std::string::npos) wf = false;
		if(wf) {
			std::string ep = port.empty() && !hi.empty() ? (low == "http" || low == "ws" ? "80" : low == "https" || low == "wss" || low == "rtmps" ? "443" : low == "rtmfp" || low == "rtmp" ? "1935" : "") : port;
			CHECK(u.host == h && u.port == port && u.effectivePort == ep, "uri-host", "%s: host %s port %s effective %s", s.c_str(), u.host.c_str(), u.port.c_str(), u.effectivePort.c_str()); ctx.stat("uri_hosts");
		}
	}
	// resolution
	std::string R = r.chance(0.8) ? genUri(r, true) : S(r, 15, "a:/?#.");
	U q = refSplit(R); std::string sp, ap, path, qp;
	if(q.hs) { sp = q.scheme + ":"; ap = q.ha ? "//" + q.auth : ""; path = refDots(q.path); qp = q.hq ? "?" + q.query : ""; }
	else {
		sp = u.schemePart; qp = q.hq ? "?" + q.query : "";
		if(q.ha) { ap = "//" + q.auth; path = refDots(q.path); }
		else { ap = u.authorityPart;
			if(q.path.empty()) { path = e.path; if(!q.hq) qp = u.queryPart; }
			else if(q.path[0] == '/') path = refDots(q.path);
			else { size_t l = e.path.rfind('/'); path = refDots((e.ha && e.path.empty()) ? "/" + q.path : (l == std::string::npos ? "" : e.path.substr(0, l + 1)) + q.path); } }
	}
	std::string want = sp + ap + path + qp + (q.hf ? "#" + q.frag : ""), got = u.transformRelativeReference(R);
	CHECK(got == want, "uri-resolve", "base %s ref %s: %s expected %s", s.c_str(), R.c_str(), got.c_str(), want.c_str());
	std::string dp = S(r, 20, "/./.a/"); CHECK(URIParse::removeDotSegments(dp) == refDots(dp), "uri-dots", "%s", dp.c_str());
	// percent and split
	std::string pc = S(r, 14, "a%4120fFg%z\xe9"), dec; bool ok = true;
	for(size_t i = 0; i < pc.size() && ok; i++) { if(pc[i] != '%') { dec.push_back(pc[i]); continue; } if(i + 2 >= pc.size() || !isxdigit(uint8_t(pc[i + 1])) || !isxdigit(uint8_t(pc[i + 2]))) { ok = false; break; } int v = int(strtol(pc.substr(i + 1, 2).c_str(), nullptr, 16)); if(!v) ok = false; dec.push_back(char(v)); i += 2; }
	if(!ok) dec.clear();
	CHECK(URIParse::percentDecode(pc) == dec && URIParse::safePercentDecode(pc) == (dec.empty() ? pc : dec), "percent-decode", "%s -> %s", pc.c_str(), URIParse::percentDecode(pc).c_str());
	std::string sp2 = S(r, 12, "ab,;,"), seps = r.pick<std::string>({",", ";", ",;"}); size_t mx = r.u(4); std::vector<std::string> w{""}; for(char c : sp2) if(seps.find(c) != std::string::npos && (!mx || w.size() < mx)) w.push_back(""); else w.back().push_back(c);
	CHECK((seps.size() == 1 && r.chance(0.5) ? URIParse::split(sp2, seps[0], mx) : URIParse::split(sp2, seps, mx)) == w, "split", "%s by %s max %zu", sp2.c_str(), seps.c_str(), mx);
	std::string nl = s; if(!nl.empty()) nl[r.u(nl.size())] = r.pick({'\n', '\r', '\0', '\xff'}); URIParse z(nl); z.transformRelativeReference(R); // safety only
	ctx.h(hash64(s.data(), s.size()) ^ hash64(R.data(), R.size())); ctx.stat("uris"); ctx.nontrivial = true;
}
static void hexes(Rng &r)
{
	Bytes b = r.bytes(r.u(20)), pre = r.bytes(r.u(3)); Buf x(b); std::string e = Hex::encode(x.p, x.n), w; for(uint8_t c : b) { char t[3]; snprintf(t, 3, "%02x", c); w += t; }
	CHECK(e == w && Hex::encode(b) == w && Hex::encode(x.p, (const void *)(x.p + x.n)) == w, "hex-encode", "%s expected %s", e.c_str(), w.c_str());
	std::string s; for(size_t i = 0; i < w.size(); i++) { if(!(i & 1) && r.chance(0.2)) s += r.pick({' ', '\t', '\n'}); s += r.chance(0.3) ? char(toupper(w[i])) : w[i]; }
	Bytes d = pre; bool ok = Hex::decode(s.c_str(), d); Bytes full = pre; full.insert(full.end(), b.begin(), b.end());
	CHECK(ok && d == full, "hex-decode", "%s", s.c_str());
	for(size_t i = 0; i + 1 < w.size(); i += 2) CHECK(Hex::decodeByte(w.c_str() + i) == b[i / 2], "hex-byte", "%s", w.c_str() + i);
	std::string bad = s; int k = int(r.u(3)); if(k == 0) { bad += "a"; } else if(k == 1) bad.insert(bad.begin() + r.u(bad.size() + 1), char(r.pick({'g', '-', 'x', '/', ':', '@', 'G', '`'}))); else if(w.size() > 1) { bad = w; bad.insert(bad.begin() + 1 + 2 * r.u(w.size() / 2), ' '); } else bad = "a ";
	char *c = new char[bad.size() + 1]; memcpy(c, bad.c_str(), bad.size() + 1); d = pre;
	CHECK(!Hex::decode(c, d) && d == pre, "hex-malformed-accepted", "\"%s\"", c); delete[] c;
	for(int ch = 0; ch < 128; ch++) { int v = isdigit(ch) ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 87 : ch >= 'A' && ch <= 'F' ? ch - 55 : -1; int g = Hex::decodeDigit(char(ch)); if(v >= 0 ? g != v : g >= 0) ctx.fail("hex-digit", "%d -> %d", ch, g); }
	ctx.h(hash64(b)); ctx.stat("hex"); ctx.nontrivial = true;
}
static void sums(Rng &r)
{
	Bytes b = r.bytes(r.chance(0.02) ? r.u(70000) : r.u(64)); if(r.chance(0.1)) for(auto &c : b) c = 0xff; Buf x(b);
	uint32_t le = 0xffffffff, be = 0xffffffff, init = uint32_t(r.next()), lei = init, bei = init;
	auto L = [] (uint32_t c, uint8_t v) { c ^= v; for(int i = 0; i < 8; i++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; return c; };
	auto B = [] (uint32_t c, uint8_t v) { c ^= uint32_t(v) << 24; for(int i = 0; i < 8; i++) c = c >> 31 ? (c << 1) ^ 0x04C11DB7u : c << 1; return c; };
	for(uint8_t v : b) { le = L(le, v); be = B(be, v); lei = L(lei, v); bei = B(bei, v); }
	CHECK(crc32_le(x.p, x.n) == le && crc32_le(init, x.p, x.n) == lei, "crc32_le", "%zu bytes", x.n);
	CHECK(crc32_be(x.p, x.n) == be && crc32_be(init, x.p, x.n) == bei, "crc32_be", "%zu bytes", x.n);
	size_t k = r.u(b.size() + 1); CHECK(crc32_le(crc32_le(init, x.p, k), x.p + k, x.n - k) == lei && crc32_be(crc32_be(init, x.p, k), x.p + k, x.n - k) == bei, "crc32-incremental", "%zu + %zu", k, x.n - k);
	uint64_t s = 0; for(size_t i = 0; i + 1 < b.size(); i += 2) s += b[i] * 256u + b[i + 1]; if(b.size() & 1) s += b.back(); while(s >> 16) s = (s & 0xffff) + (s >> 16);
	CHECK(in_cksum(x.p, x.n) == uint16_t(~s), "in_cksum", "%zu bytes: %04x expected %04x", x.n, in_cksum(x.p, x.n), unsigned(uint16_t(~s)));
	ctx.h(hash64(b)); ctx.stat("checksums"); ctx.nontrivial = true;
}
void driverInit()
{
	const char *std1 = "123456789"; // published check values
	if(uint32_t(~crc32_le(std1, 9)) != 0xCBF43926u || uint32_t(~crc32_be(std1, 9)) != 0xFC891918u) ctx.fail("crc32-check-value", "published check value differs");
}
void runCase(Rng &r, uint64_t i)
{
	if(i == 0) { // a peer-supplied URI of any length must not exhaust the stack: run in a child with the default 8 MB stack
		fflush(nullptr);
		pid_t pid = fork();
		if(pid == 0) { struct rlimit none{0, 0}; setrlimit(RLIMIT_CORE, &none); for(int s = 1; s < 32; s++) signal(s, SIG_DFL); freopen("/dev/null", "w", stderr); URIParse u("rtmfp://host/" + std::string(4000000, 'a') + "?" + std::string(100000, 'q') + "#" + std::string(400000, 'f')); _exit(u.path.size() == 4000001 && u.fragment.size() == 400000 ? 0 : 1); }
		int st = 0; waitpid(pid, &st, 0);
		CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "uri-long-crash", "parsing a long URI ended with status %x", st);
		ctx.nontrivial = true; return;
	}
	switch(r.u(10)) {
	case 0: case 1: tcmsg(r); break; case 2: tcmeta(r); break; case 3: classify(r); break; case 4: mediaMeta(r); break; case 5: mediaHeader(r); break;
	case 6: case 7: uri(r); break; case 8: hexes(r); break; default: sums(r);
	}
}
}
