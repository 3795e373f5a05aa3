// C26: RTMFPTCConnection and TCStream against a model server over a faulty simulated network: every command, answer,
// media and data message in both directions judged, with the application closing, deleting and dropping things from
// inside its callbacks; and the same under a hostile server.
#include "app.hpp"
#include "rtmfp/TCConnection.hpp"
#include "rtmfp/URIParse.hpp"
using namespace com::zenomt::rtmp;
namespace vf {
const char *driverRule() { return "one case = a client connection with up to several streams against a model server (answers delayed, reordered, repeated, unknown; media on several flows in sequence and network order; sync points; keepalive requests) over a faulty network, the application acting from inside its callbacks (creating, sending, deleting, closing, dropping), ended by either side, or (a third of the cases) a server sending malformed and contradictory messages; non-trivial when a transaction was answered and stream traffic was checked, or hostile messages reached an open connection; distinct by the callback sequence"; }
uint64_t driverCases(bool t) { return t ? 4000000 : 100000; }
void driverInit() {}
void driverDone() {}

typedef std::shared_ptr<AMF0> Amf;
struct Val { char k = 'z'; double n = 0; std::string s; }; // number, string, boolean, z null, undefined, object with a serial
static void enc(Bytes &b, const Val &v)
{
	auto num = [&] (double d) { b.push_back(0); uint64_t u; memcpy(&u, &d, 8); for(int i = 7; i >= 0; i--) b.push_back(uint8_t(u >> (8 * i))); };
	switch(v.k) {
	case 'n': num(v.n); break;
	case 's': if(v.s.size() < 65536) { b.push_back(2); } else { b.push_back(12); b.push_back(uint8_t(v.s.size() >> 24)); b.push_back(uint8_t(v.s.size() >> 16)); } b.push_back(uint8_t(v.s.size() >> 8)); b.push_back(uint8_t(v.s.size())); b.insert(b.end(), v.s.begin(), v.s.end()); break;
	case 'b': b.push_back(1); b.push_back(v.n != 0); break;
	case 'u': b.push_back(6); break;
	case 'o': { b.push_back(3); for(auto k : {std::string("code"), std::string("serial")}) { b.push_back(0); b.push_back(uint8_t(k.size())); b.insert(b.end(), k.begin(), k.end()); if(k == "code") { Val c; c.k = 's'; c.s = v.s; enc(b, c); } else num(v.n); } b.push_back(0); b.push_back(0); b.push_back(9); break; }
	default: b.push_back(5);
	}
}
static Bytes enc(const std::vector<Val> &v) { Bytes b; for(auto &x : v) enc(b, x); return b; }
static Val N(double d) { Val v; v.k = 'n'; v.n = d; return v; }
static Val Str(const std::string &s) { Val v; v.k = 's'; v.s = s; return v; }
static Val Z() { return Val(); }
static Val O(double serial, const std::string &code = "NetStream.Info") { Val v; v.k = 'o'; v.n = serial; v.s = code; return v; }
static std::string sig(const Val &v) { switch(v.k) { case 'n': return fmt("n%.17g", v.n); case 's': return "s" + v.s; case 'b': return v.n != 0 ? "b1" : "b0"; case 'u': return "u"; case 'o': return fmt("o%.17g/", v.n) + v.s; default: return "z"; } }
static std::string sig(const Amf &a) { if(!a) return "nil"; if(a->isNumber()) return fmt("n%.17g", a->doubleValue()); if(a->isString()) return std::string("s") + a->stringValue(); if(a->isBoolean()) return a->booleanValue() ? "b1" : "b0"; if(a->isUndefined()) return "u"; if(a->isObject()) return fmt("o%.17g/", a->getValueAtKey("serial")->doubleValue()) + (a->getValueAtKey("code")->isString() ? a->getValueAtKey("code")->stringValue() : "?"); return a->isNull() ? "z" : "?"; }
static std::string sig(const std::vector<Val> &v) { std::string s; for(auto &x : v) s += sig(x) + ","; return s; }
static std::string sig(const std::vector<Amf> &v) { std::string s; for(auto &x : v) s += sig(x) + ","; return s; }
static Amf amf(const Val &v) { switch(v.k) { case 'n': return AMF0::Number(v.n); case 's': return AMF0::String(v.s); case 'b': return AMF0::Boolean(v.n != 0); case 'u': return AMF0::Undefined(); case 'o': { auto o = AMF0::Object(); o->putValueAtKey(AMF0::String(v.s), "code"); o->putValueAtKey(AMF0::Number(v.n), "serial"); return o; } default: return AMF0::Null(); } }
static std::vector<Amf> amf(const std::vector<Val> &v) { std::vector<Amf> r; for(auto &x : v) r.push_back(amf(x)); return r; }
static Val rval(Rng &r) { switch(r.u(8)) { case 0: case 1: return N(r.chance(0.5) ? double(r.u(100)) : r.real(-1e9, 1e9)); case 2: case 3: { std::string s; size_t n = r.chance(0.03) ? r.range(60000, 70000) : r.u(20); for(size_t i = 0; i < n; i++) s += char('a' + r.u(26)); return Str(s); } case 4: { Val v; v.k = 'b'; v.n = r.u(2); return v; } case 5: { Val v; v.k = 'u'; return v; } case 6: return O(double(r.u(1000)), "x"); default: return Z(); } }
static std::vector<Val> rvals(Rng &r) { std::vector<Val> v; size_t n = r.u(4); while(n--) v.push_back(rval(r)); return v; }
static Bytes tcm(uint8_t type, uint32_t ts, const Bytes &p) { Bytes b{type, uint8_t(ts >> 24), uint8_t(ts >> 16), uint8_t(ts >> 8), uint8_t(ts)}; b.insert(b.end(), p.begin(), p.end()); return b; }
static Bytes cmdPayload(const std::string &name, double tid, const std::vector<Val> &args) { Bytes b; enc(b, Str(name)); enc(b, N(tid)); Bytes t = enc(args); b.insert(b.end(), t.begin(), t.end()); return b; }
static Bytes tcMeta(uint32_t sid, bool network) { Bytes b{'T', 'C', uint8_t(4 | (network ? 1 : 0))}; putVlu(b, sid); return b; }
static bool videoSpecial(const Bytes &p) { if(p.empty()) return true; if(p.size() < 2) return false; if(p.size() >= 5 && (p[0] & 0x80)) { int t = p[0] & 15; return t != 1 && t != 3 && t != 6; } return (p[0] & 15) == 7 && p[1] != 1; }
static bool audioSpecial(const Bytes &p) { if(p.empty()) return true; if(p[0] == 0x92) return true; if(p.size() >= 5 && (p[0] & 0xf0) == 0x90) return (p[0] & 15) == 0 || (p[0] & 15) == 4; return p.size() > 1 && (p[0] & 0xf0) == 0xa0 && p[1] == 0; }

struct Clock { World *w; std::shared_ptr<TimerList> tl; long double armed = INFINITY;
	void arm() { Duration d = tl->howLongToNextFire(w->now, 1e9); long double t = w->now + d; if(d < 1e8 && (t < armed || armed < w->now)) { armed = t; auto k = tl; w->at(t, [this, k] { armed = INFINITY; k->fireDueTimers(w->now); arm(); }); } } };
struct RBuf : public ReorderBuffer {
	RBuf(Duration p, Clock *c) : ReorderBuffer(p), c(c) {}
	Time getCurrentTime() const override { return c->w->now; }
	std::shared_ptr<Timer> scheduleTimer(Time when) override { auto t = c->tl->schedule(when); c->w->after(0, [cc = c] { cc->arm(); }); return t; }
	Clock *c;
};
struct Conn : public RTMFPTCConnection {
	Conn(Clock *c, bool *gone) : c(c), gone(gone) {}
	~Conn() { *gone = true; }
	std::shared_ptr<ReorderBuffer> reorderBufferFactory(Duration p) override { buffers++; return share_ref(new RBuf(p, c), false); }
	Clock *c; bool *gone; int buffers = 0;
};

struct Out { Bytes raw; bool must = true; int sync = -1; };
struct Rec { // one TCStream as the application knows it
	int idx; std::shared_ptr<TCStream> s;
	bool opened = false, deleted = false, deletedWhileOpen = false; int onOpens = 0; uint32_t sid = 0; bool finite = false;
	std::vector<Out> pend; std::vector<Out> L[3]; size_t pos[3] = {0, 0, 0}; bool flow[3] = {false, false, false}; // data+command, video, audio
	bool cleared[4] = {false, false, false, false}; // status, data, audio, video
	std::vector<std::pair<std::shared_ptr<WriteReceipt>, std::pair<int, size_t>>> chained;
	bool srvActive = false, srvDeleted = false; int deletes = 0;
};
struct SM { bool may = false; uint8_t type; uint32_t ts; Bytes payload; int kind; bool special; int got = 0; double serial; std::string sg; int barrier = -1; }; // kind: -1 nothing is delivered, 0 status 1 data 2 audio 3 video
struct SF { Rec *rec; std::shared_ptr<SendFlow> f; bool network; std::vector<SM> m; size_t next = 0; size_t maxMedia = 0; bool closed = false; };
struct CF { Rec *rec; std::shared_ptr<RecvFlow> f; std::vector<Bytes> held; int cls = -1; bool done = false; };
struct Barrier { std::vector<std::pair<SF *, size_t>> at; };
struct Exp { std::string ev; char kind; Rec *rec; std::function<void()> check; };
struct CtlOut { std::string name; int kind; Bytes args; int key; };
struct Trans { int calls = 0; bool answered = false; bool connect = false; };

struct Run {
	World &w; Rng &r; Clock clk; Node *a, *b; bool hostile;
	std::shared_ptr<Conn> conn; bool gone = false; bool connOpen = false; int opens = 0, closes = 0, closingStatus = 0;
	bool closing = false, appClosed = false, serverEnded = false, tcOpen = false, statusCleared = false, commandCleared = false; std::string expectCode; bool openAtClose = false, closedAfterOpen = false, nestedClose = false; bool connectCalled = false;
	bool ignoreKeep = false; double window = 1; double chaos; int budget = 60; bool acting = true; int depth = 0;
	std::vector<std::unique_ptr<Rec>> recs; std::map<int, Trans> trans; int nextKey = 1; double serial = 1;
	// client to server control
	std::vector<CtlOut> ctl; size_t ctlPos = 0; std::set<double> tids; std::map<uint32_t, int> deletesSeen; int syncs = 0; std::map<int, uint32_t> syncId; std::set<uint32_t> syncIds;
	std::vector<Exp> exp; size_t expPos = 0;
	// server
	std::shared_ptr<SendFlow> sctl; std::shared_ptr<RecvFlow> scrx; bool srvUp = false; size_t created = 0; std::map<uint32_t, Rec *> bySid; std::vector<uint32_t> retired;
	std::vector<std::unique_ptr<SF>> sfs; std::map<uint32_t, std::pair<SF *, size_t>> byTs; std::map<double, std::pair<SF *, size_t>> bySerial; std::vector<std::unique_ptr<CF>> cfs; std::vector<Barrier> barriers; uint32_t barrierId; double lastKeepS = -1, lastKeepP = -1;
	std::vector<double> pastTids; bool ended = false; long double T; bool quietNet = false;
	uint64_t nIn = 0, nOut = 0, nAns = 0, nHostile = 0;
	std::vector<std::shared_ptr<std::pair<std::shared_ptr<SendFlow>, bool>>> strays; std::vector<std::shared_ptr<RecvFlow>> extra; std::vector<std::shared_ptr<SendFlow>> extraS;

	Run(World &w, Rng &r) : w(w), r(r) { clk.w = &w; clk.tl = share_ref(new TimerList(), false); }

	// --- the application

	struct Scope { Run &x; Scope(Run &x) : x(x) { x.depth++; } ~Scope() { x.depth--; } };
	void beginClose(const char *how)
	{
		if(closing) return;
		closing = true; closedAfterOpen = openAtClose;
		ctx.note("%.3Lf closing: %s (server ended it: %d, connected %d)", w.now, how, serverEnded, tcOpen);
		CHECK(appClosed || serverEnded || hostile, "tc-spurious-close", "the connection closed (%s) although neither the application nor the server ended it", how);
		if(!appClosed || !openAtClose) for(auto &x : recs) for(auto &l : x->L) for(auto &o : l) o.must = false;
		else for(auto &x : recs) for(int c = 0; c < 3; c++) if(!x->flow[c]) for(auto &o : x->L[c]) o.must = false;
	}
	void touch(const std::shared_ptr<int> &c) { if(*c != 7) abort(); }
	void saw(const std::string &ev)
	{
		ctx.h(hash64(ev.data(), ev.size())); ctx.note("%.3Lf sees %s", w.now, ev.substr(0, 80).c_str());
		if(hostile) return;
		CHECK(!closing, "tc-callback-after-close", "'%s' after the connection closed", ev.substr(0, 80).c_str());
		size_t p = expPos;
		while(p < exp.size() && exp[p].ev != ev && skippable(exp[p])) p++;
		CHECK(p < exp.size() && exp[p].ev == ev, "tc-control-order", "saw '%s', expected '%s' (%zu of %zu)", ev.substr(0, 100).c_str(), p < exp.size() ? exp[p].ev.substr(0, 100).c_str() : "nothing", p, exp.size());
		if(p >= exp.size() || exp[p].ev != ev) return;
		if(exp[p].check) exp[p].check();
		expPos = p + 1; nIn++;
	}
	bool skippable(const Exp &e) { return (e.kind == 'S' && statusCleared) || (e.kind == 'C' && commandCleared) || (e.kind == 'O' && (e.rec->deleted)) || e.kind == '-'; }
	std::shared_ptr<int> canary() { return std::make_shared<int>(7); }

	void setup()
	{
		conn = share_ref(new Conn(&clk, &gone), false);
		conn->reorderWindowPeriod = window; conn->ignoreSetKeepaliveUserCommand = ignoreKeep;
		CHECK(!conn->isOpen() && !conn->isConnected() && conn->getServerFingerprint().empty() && !conn->sessionOpt(), "tc-state-initial", "open before anything");
		auto c = canary();
		conn->onTransportOpen = [this, c] { Scope sc(*this); opens++; connOpen = true; ctx.note("%.3Lf transport open", w.now); CHECK(opens == 1 && !closing, "tc-open-twice", "transport opened %d times, closing %d", opens, closing); if(conn) { CHECK(conn->isOpen() && conn->sessionOpt() && !conn->getServerFingerprint().empty(), "tc-state-open", "after opening: open %d connected %d", conn->isOpen(), conn->isConnected()); if(!connectCalled) connect(); } act(); touch(c); };
		conn->onStatus = [this, c] (Amf info) {
			Scope sc(*this);
			std::string code = info && info->isObject() && info->getValueAtKey("code")->isString() ? info->getValueAtKey("code")->stringValue() : "";
			if((code == "NetConnection.Connect.Closed" || code == "NetConnection.Connect.Failed") && !info->getValueAtKey("serial")->isNumber()) {
				beginClose(code.c_str());
				closingStatus++; CHECK(closingStatus == 1 && !closes, "tc-closed-status-twice", "%s reported %d times, after onClose %d", code.c_str(), closingStatus, closes);
				if(!hostile && !expectCode.empty()) CHECK(code == (expectCode == "F" && !tcOpen ? "NetConnection.Connect.Failed" : "NetConnection.Connect.Closed"), "tc-closed-status-code", "%s, connected %d, ended by error %s", code.c_str(), tcOpen, expectCode.c_str());
				CHECK(std::string(info->getValueAtKey("level")->stringValue()) == (code.back() == 'd' && code[code.size() - 2] == 'e' && code.find("Failed") != std::string::npos ? "error" : "status"), "tc-closed-status-code", "level %s of %s", info->getValueAtKey("level")->stringValue(), code.c_str());
				if(conn) CHECK(!conn->isOpen() && !conn->isConnected(), "tc-state-closed", "still open while reporting that it closed");
			}
			else saw("S:" + sig(info));
			if(r.chance(0.02) && conn && !closing) { statusCleared = true; conn->onStatus = nullptr; }
			act(); touch(c);
		};
		conn->onCommand = [this, c] (const std::string &cmd, const TCConnection::Args &args) { Scope sc(*this); saw("C:" + cmd + ":" + sig(args)); if(r.chance(0.02) && conn) { commandCleared = true; conn->onCommand = nullptr; } act(); touch(c); if(cmd.size() > 100000) abort(); };
		conn->onClose = [this, c] { Scope sc(*this); beginClose("onClose"); closes++; ctx.note("%.3Lf onClose", w.now); for(auto &x : recs) { x->deleted = true; x->pend.clear(); } CHECK(closes == 1, "tc-closed-twice", "onClose %d times", closes); if(!statusCleared && !nestedClose) CHECK(closingStatus == 1, "tc-closed-status-missing", "closed with %d closing statuses", closingStatus); if(r.chance(0.5)) conn.reset(); act(); touch(c); };
		if(r.chance(0.1)) { conn->onTransportOpen = nullptr; opens = 1; connOpen = true; }
		CHECK(!conn->transact(nullptr, "early", {}), "tc-transact-before-connect", "transact before connect accepted");
		Bytes epd{'b', 'o', 'b'};
		if(!conn->init(a->rtmfp.get(), epd)) { ctx.fail("tc-init", "init failed"); return; }
		CHECK(!conn->init(a->rtmfp.get(), epd), "tc-init-twice", "second init accepted");
		if(r.chance(0.5)) conn->addCandidateAddress(b->pub[1]); else conn->addCandidateAddresses({b->pub[1], A("10.0.0.99:9")});
		if(r.chance(0.7) || !conn->onTransportOpen) connect();
	}
	void connect()
	{
		connectCalled = true;
		std::string scheme = "rtmfp://bob" + std::string(r.chance(0.5) ? ":1935" : ""), path = r.pick({"/live", "/app/instance", "", "/"}), query = r.pick({"", "?a=b&c=d", "?"}), frag = r.pick({"", "#f"});
		std::string url = scheme + path + query + frag; URIParse u(url);
		std::string tcUrl = u.publicUri, app = (path.empty() ? "" : path.substr(1)) + query; double enc_ = 0; std::shared_ptr<AMF0> obj; int mode = int(r.u(3));
		if(mode) { auto o = AMF0::Object(); o->putValueAtKey(AMF0::String("zz"), "extra"); if(mode == 2) { if(r.chance(0.5)) { o->putValueAtKey(AMF0::String("mine"), "tcUrl"); tcUrl = "mine"; } else o->putValueAtKey(AMF0::Number(3), "tcUrl"); if(r.chance(0.5)) { o->putValueAtKey(AMF0::String("other"), "app"); app = "other"; } if(r.chance(0.5)) { o->putValueAtKey(AMF0::Number(3), "objectEncoding"); enc_ = 3; } } obj = o; }
		auto more = rvals(r); int key = nextKey++; trans[key].connect = true; auto c = canary();
		bool keep = r.chance(0.9);
		TCConnection::Handler h = [this, key, c] (bool ok, Amf res) { answer(key, ok, res, true); touch(c); };
		if(!keep) trans.erase(key);
		std::string want = fmt("%s|%s|%g|%s|", tcUrl.c_str(), app.c_str(), enc_, obj ? "zz" : "") + sig(more);
		ctl.push_back({"connect", 2, Bytes(want.begin(), want.end()), keep ? key : 0});
		if(!conn->connect(keep ? h : TCConnection::Handler(), url, obj ? obj->asObject() : nullptr, amf(more))) ctx.fail("tc-connect-refused", "connect refused");
		CHECK(!conn->connect(nullptr, url), "tc-connect-twice", "a second connect was accepted");
		if(obj) CHECK(!obj->getValueAtKey("objectEncoding")->isNumber() || mode == 2, "tc-connect-argument-changed", "the caller's argument object was changed");
	}
	void answer(int key, bool ok, const Amf &res, bool isConnect)
	{
		Scope sc(*this); Trans &t = trans[key];
		t.calls++; CHECK(t.calls == 1, "tc-transaction-twice", "transaction %d answered %d times", key, t.calls);
		if(!ok && !res) { beginClose("transaction"); ctx.stat("transactions_cut_off"); }
		else { CHECK(!(ok && !res), "tc-result-null", "success without a result"); if(isConnect && ok) tcOpen = true; saw(fmt("R%d:%d:", key, ok) + sig(res)); nAns++; if(isConnect && conn && ok && !closing && conn->sessionOpt() && !hostile) CHECK(conn->isConnected(), "tc-state-connected", "not connected in the handler of the connect response"); if(isConnect && !ok) { serverEnded = true; expectCode = "F"; } }
		if(depth < 6) act();
	}
	void transact(int mode)
	{
		if(mode == 0) { auto args = rvals(r); std::string n = fmt("c%d", nextKey++); bool ok = conn->command(n, amf(args)); CHECK(ok == !closing, "tc-command-accepted", "command answered %d, closing %d", ok, closing); if(ok) ctl.push_back({n, 0, enc(args), 0}); return; }
		auto args = rvals(r); int key = nextKey++; std::string n = fmt("t%d", key); auto c = canary(); bool null = r.chance(0.05);
		auto save = ctl.size(); ctl.push_back({n, 1, enc(args), null ? 0 : key});
		bool ok = conn->transact(null ? TCConnection::Handler() : [this, key, c] (bool ok2, Amf res) { answer(key, ok2, res, false); touch(c); }, n, amf(args));
		CHECK(ok == !closing, "tc-command-accepted", "transact answered %d, closing %d", ok, closing);
		if(ok && !null) trans[key]; if(!ok) ctl.erase(ctl.begin() + save);
	}
	void hookStream(Rec *x)
	{
		auto c = canary(); auto &s = x->s;
		s->onOpen = [this, x, c] { Scope sc(*this); x->onOpens++; CHECK(x->onOpens == 1 && !x->deleted && !closing, "tc-stream-open", "stream %d opened %d times, deleted %d closing %d", x->idx, x->onOpens, x->deleted, closing); x->opened = true; for(auto &o : x->pend) x->L[0].push_back(o); x->pend.clear(); saw(fmt("O:%d", x->idx)); if(x->s) CHECK(x->s->isOpen(), "tc-stream-state", "not open in onOpen"); act(x); act(x); touch(c); };
		s->onStatus = [this, x, c] (Amf info) { Scope sc(*this); if(!hostile) media(x, 0, 0, nullptr, 0, info ? info->getValueAtKey("serial")->doubleValue() : -1, sig(info)); else live(x, "status"); if(r.chance(0.02) && x->s) { x->cleared[0] = true; x->s->onStatus = nullptr; } act(x); touch(c); };
		s->onData = [this, x, c] (uint32_t ts, const std::string &cmd, const TCStream::Args &args) { Scope sc(*this); if(!hostile) media(x, 1, ts, nullptr, 0, 0, cmd + "|" + sig(args)); else live(x, "data"); if(r.chance(0.02) && x->s) { x->cleared[1] = true; x->s->onData = nullptr; } act(x); touch(c); if(cmd.size() + args.size() > 1000000) abort(); };
		s->onAudio = [this, x, c] (uint32_t ts, const uint8_t *p, size_t n) { Scope sc(*this); Bytes copy(p, p + n); if(!hostile) media(x, 2, ts, p, n, 0, ""); else live(x, "audio"); if(r.chance(0.02) && x->s) { x->cleared[2] = true; x->s->onAudio = nullptr; } act(x); touch(c); if(n && memcmp(p, copy.data(), n)) ctx.fail("tc-bytes-changed", "the bytes changed during the callback"); };
		s->onVideo = [this, x, c] (uint32_t ts, const uint8_t *p, size_t n) { Scope sc(*this); Bytes copy(p, p + n); if(!hostile) media(x, 3, ts, p, n, 0, ""); else live(x, "video"); if(r.chance(0.02) && x->s) { x->cleared[3] = true; x->s->onVideo = nullptr; } act(x); touch(c); if(n && memcmp(p, copy.data(), n)) ctx.fail("tc-bytes-changed", "the bytes changed during the callback"); };
	}
	void live(Rec *x, const char *what) { CHECK(!x->deleted, "tc-callback-after-delete", "%s on a deleted stream", what); CHECK(!closing, "tc-callback-after-close", "%s on a closed connection", what); CHECK(x->opened, "tc-callback-before-open", "%s on stream %d before it opened", what, x->idx); ctx.h(uint64_t(what[0])); nIn++; }
	void media(Rec *x, int kind, uint32_t ts, const uint8_t *p, size_t n, double ser, const std::string &sg)
	{
		static const char *K[] = {"status", "data", "audio", "video"};
		live(x, K[kind]);
		SF *f = nullptr; size_t i = 0;
		if(kind == 0) { auto it = bySerial.find(ser); if(it != bySerial.end()) f = it->second.first, i = it->second.second; } else { auto it = byTs.find(ts); if(it != byTs.end()) f = it->second.first, i = it->second.second; }
		CHECK(f, "tc-stream-unknown-message", "%s with timestamp %u on stream %d was never sent", K[kind], ts, x->idx); if(!f) return;
		SM &m = f->m[i];
		CHECK(f->rec == x, "tc-stream-crossed", "a message for stream %d came out of stream %d", f->rec->idx, x->idx);
		CHECK(m.kind == kind, "tc-stream-type", "sent as %d, delivered as %s", m.type, K[kind]);
		if(kind >= 2) CHECK(m.payload.size() == n && (!n || !memcmp(p, m.payload.data(), n)), "tc-stream-content", "%s %u: %zu bytes, sent %zu", K[kind], ts, n, m.payload.size());
		else CHECK(sg == m.sg, "tc-stream-content", "%s: '%s', sent '%s'", K[kind], sg.substr(0, 100).c_str(), m.sg.substr(0, 100).c_str());
		CHECK(++m.got == 1, "tc-stream-twice", "%s %zu delivered %d times", K[kind], i, m.got);
		ctx.h(i * 4 + kind); ctx.stat(f->network ? "network_order_messages" : "sequence_messages");
		if(!f->network) {
			CHECK(i >= f->next, "tc-stream-order", "message %zu after %zu on a sequence flow", i, f->next);
			for(size_t q = f->next; q < i; q++) CHECK(skip(f, f->m[q]), "tc-stream-order", "message %zu delivered while %zu (type %d) of the same flow was not", i, q, f->m[q].type);
			f->next = i + 1;
			for(auto &bar : barriers) for(auto &me : bar.at) if(me.first == f && me.second < i) for(auto &o : bar.at) if(!o.first->network && o.first != f) for(size_t q = o.first->next; q < o.second; q++) if(!o.first->m[q].got) CHECK(skip(o.first, o.first->m[q]), "tc-sync", "delivered past a sync point before another flow got there");
		} else {
			if(!m.special) CHECK(i + 1 > f->maxMedia, "tc-late-media", "media %zu delivered after %zu on a network order flow", i, f->maxMedia);
			f->maxMedia = std::max(f->maxMedia, i + 1);
		}
	}
	bool skip(SF *f, const SM &m) { return m.got || m.may || m.kind < 0 || f->rec->cleared[m.kind]; }

	void create() { auto s = conn->createStream(); CHECK(!!s == !closing, "tc-create-stream", "createStream answered %d, closing %d", !!s, closing); if(!s) return; auto x = std::make_unique<Rec>(); x->idx = int(recs.size()); x->s = s; ctl.push_back({"createStream", 3, enc({Z()}), x->idx}); CHECK(!s->isOpen(), "tc-stream-state", "open at birth"); recs.push_back(std::move(x)); hookStream(recs.back().get()); if(r.chance(0.6)) streamOp(recs.back().get(), r.chance(0.5) ? 0 : 1); }
	void push(Rec *x, int cls, uint8_t type, uint32_t ts, const Bytes &p, bool must) { Out o; o.raw = tcm(type, ts, p); o.must = must && !closing; if(x->opened) x->L[cls].push_back(o); else x->pend.push_back(o); }
	void streamCommand(Rec *x, const std::string &n, std::vector<Val> args) { args.insert(args.begin(), Z()); if(!x->deleted) push(x, 0, 20, 0, cmdPayload(n, 0, args), true); }
	void streamOp(Rec *x, int k)
	{
		if(!x->s) return;
		TCStream &s = *x->s;
		bool up = x->opened && !x->deleted;
		if(!hostile && !closing) CHECK(s.isOpen() == up, "tc-stream-state", "stream %d isOpen %d, opened %d deleted %d", x->idx, s.isOpen(), x->opened, x->deleted);
		switch(k) {
		case 0: { auto v = rvals(r); streamCommandArgs(x, "publish", "p", v); s.publish("p", amf(v)); break; }
		case 1: { auto v = rvals(r); streamCommandArgs(x, "play", "q", v); s.play("q", amf(v)); break; }
		case 2: { Val v; v.k = 'b'; v.n = r.u(2); streamCommand(x, "pause", {v}); s.pause(v.n != 0); break; }
		case 3: { Val v; v.k = 'b'; v.n = r.u(2); streamCommand(x, "receiveAudio", {v}); s.receiveAudio(v.n != 0); break; }
		case 4: { Val v; v.k = 'b'; v.n = r.u(2); streamCommand(x, "receiveVideo", {v}); s.receiveVideo(v.n != 0); break; }
		case 5: streamCommand(x, "closeStream", {}); s.closeStream(); break;
		case 6: case 7: { // data
			uint32_t ts = r.chance(0.5) ? 0 : uint32_t(r.bits()); auto v = rvals(r); v.push_back(N(serial++)); std::string n = "onX"; Bytes p; enc(p, Str(n)); Bytes t = enc(v); p.insert(p.end(), t.begin(), t.end());
			if(up) push(x, 0, 18, ts, p, true); size_t at = x->L[0].size() - 1;
			auto rc = ts ? s.send(ts, n, amf(v)) : s.send(n, amf(v)); sent(x, rc, up, 0, at); break; }
		case 8: case 9: case 10: case 11: { // media
			bool video = k < 10; uint32_t ts = uint32_t(r.bits()); Bytes p = r.bytes(r.chance(0.1) ? r.u(20000) : r.u(200)); double sw = INFINITY, fw = INFINITY; if(r.chance(0.2)) sw = r.logreal(0.001, 5); if(r.chance(0.1)) fw = r.logreal(0.001, 5);
			if(up) push(x, video ? 1 : 2, video ? 9 : 8, ts, p, std::isinf(sw) && std::isinf(fw)); size_t at = x->L[video ? 1 : 2].size() - 1;
			auto rc = video ? (r.chance(0.5) ? s.sendVideo(ts, p, sw, fw) : s.sendVideo(ts, p.data(), p.size(), sw, fw)) : (r.chance(0.5) ? s.sendAudio(ts, p, sw, fw) : s.sendAudio(ts, p.data(), p.size(), sw, fw));
			sent(x, rc, up, video ? 1 : 2, at); break; }
		case 12: if(up) { for(int c = 0; c < 3; c++) { Out o; o.sync = syncs; o.must = !closing; x->L[c].push_back(o); } syncs++; } s.sync(); break;
		case 13: { bool inf = r.chance(0.3); if(!inf) for(auto &c : x->chained) x->L[c.second.first][c.second.second].must = false; s.expireChain(inf ? INFINITY : w.now + r.real(0, 2)); x->chained.clear(); x->finite = false; break; }
		}
	}
	void streamCommandArgs(Rec *x, const std::string &n, const std::string &name, const std::vector<Val> &v) { std::vector<Val> a{Str(name)}; a.insert(a.end(), v.begin(), v.end()); streamCommand(x, n, a); }
	void sent(Rec *x, const std::shared_ptr<WriteReceipt> &rc, bool up, int cls, size_t at)
	{
		if(hostile || closing) return;
		CHECK(!!rc == up || (!rc && serverEnded), "tc-send-state", "send on stream %d answered %d, open %d", x->idx, !!rc, up);
		if(rc && up && r.chance(0.2)) { if(x->finite || !x->L[cls][at].must) { x->finite = true; x->L[cls][at].must = false; } x->chained.push_back({rc, {cls, at}}); x->s->chain(rc); }
	}
	void del(Rec *x)
	{
		if(!x->s) return;
		ctx.note("%.3Lf delete stream %d (open %d)", w.now, x->idx, x->opened);
		bool held = x->opened && !x->deleted && !closing; // the connection keeps it
		if(held) x->deletedWhileOpen = true;
		x->deleted = true; x->pend.clear();
		if(held && r.chance(0.4)) { TCStream *s = x->s.get(); x->s.reset(); s->deleteStream(); }
		else { x->s->deleteStream(); CHECK(!x->s->isOpen(), "tc-stream-state", "open after deletion"); if(r.chance(0.3)) x->s.reset(); }
	}
	void act(Rec *x = nullptr)
	{
		if(!acting || budget <= 0 || depth > 5) return;
		if(!r.chance(chaos)) return;
		budget--;
		if(!x || r.chance(0.3)) x = recs.empty() ? nullptr : recs[r.u(recs.size())].get();
		int k = int(r.u(100));
		if(k < 3) { if(conn) close(r.chance(0.5)); }
		else if(k < 12) { if(x) del(x); }
		else if(k < 15) { if(x && x->opened) x->s.reset(); }
		else if(k < 27) { if(conn && connectCalled && recs.size() < 8) create(); }
		else if(k < 37) { if(conn && connectCalled) transact(1); }
		else if(k < 42) { if(conn && connectCalled) transact(0); }
		else if(k < 44) { if(conn && !closing && connectCalled) conn->refreshSession(); }
		else if(k < 46) { if(conn) { CHECK(!conn->command("createStream") && !conn->command("connect") && !conn->transact(nullptr, "deleteStream"), "tc-reserved-command", "a reserved command name was accepted"); } }
		else if(x) { int n = int(r.range(1, 4)); while(n-- && x->s) streamOp(x, int(r.u(14))); }
	}
	void close(bool drop)
	{
		if(!conn) return;
		if(closing) nestedClose = true; else { appClosed = true; openAtClose = conn->isOpen(); expectCode = serverEnded ? "" : "N"; }
		ctx.note("%.3Lf app closes (drop %d)", w.now, drop);
		beginClose("application");
		if(drop) { auto h = conn; conn.reset(); h->close(); } else { Conn *p = conn.get(); p->close(); } // the latter's onClose may release it
		CHECK(closes == 1 || nestedClose, "tc-close-report", "closed, onClose %d times", closes);
		for(auto &x : recs) { x->deleted = true; x->pend.clear(); }
	}

	// --- the model server

	double delay() { return r.chance(0.3) ? 0 : r.logreal(0.001, 3); }
	void later(double d, std::function<void()> fn) { w.after(d, [this, fn] { if(!ended) fn(); }); }
	bool swrite(const Bytes &m) { if(!sctl || ended) return false; return !!sctl->write(m.data(), m.size()); }
	bool sendCommand(const std::string &name, double tid, std::vector<Val> args) { args.insert(args.begin(), r.chance(0.8) ? Z() : rval(r)); Bytes p = cmdPayload(name, tid, args); if(r.chance(0.2)) { p.insert(p.begin(), 0); return swrite(tcm(17, 0, p)); } return swrite(tcm(20, r.chance(0.5) ? 0 : uint32_t(r.bits()), p)); }
	void expect(char kind, const std::string &ev, Rec *rec = nullptr, std::function<void()> check = nullptr) { exp.push_back({ev, kind, rec, check}); }
	void listen()
	{
		b->rtmfp->onRecvFlow = [this] (std::shared_ptr<RecvFlow> f) {
			if(ended) return;
			if(scrx) { ctx.fail("tc-extra-flow", "the client opened a second unassociated flow %s", hex(f->getMetadata()).c_str()); return; }
			CHECK(f->getMetadata() == tcMeta(0, false), "tc-control-metadata", "%s", hex(f->getMetadata()).c_str());
			scrx = f; f->setBufferCapacity(1 << 24);
			f->onMessage = [this] (const uint8_t *p, size_t n, uintmax_t, size_t) { if(!ended) ctlMessage(Bytes(p, p + n)); };
			f->accept();
			sctl = f->openReturnFlow(tcMeta(0, false), PRI_IMMEDIATE);
			sctl->onRecvFlow = [this] (std::shared_ptr<RecvFlow> g) { if(!ended) streamFlow(g); };
			srvUp = true;
			if(hostile) hostilities();
		};
	}
	void ctlMessage(const Bytes &m)
	{
		if(m.size() < 5 || m[0] == 0) { ctx.fail("tc-control-type", "unexpected message %s", hex(m).c_str()); return; }
		CHECK(m[0] == 20 && !m[1] && !m[2] && !m[3] && !m[4], "tc-control-type", "type %d %s", m[0], hex(m).c_str());
		size_t o = 5; std::string name; double tid = -1;
		if(o + 3 <= m.size() && m[o] == 2) { size_t n = m[o + 1] * 256u + m[o + 2]; if(o + 3 + n <= m.size()) { name.assign(m.begin() + o + 3, m.begin() + o + 3 + n); o += 3 + n; } }
		if(o + 9 <= m.size() && m[o] == 0) { uint64_t u = 0; for(int i = 1; i < 9; i++) u = u << 8 | m[o + i]; memcpy(&tid, &u, 8); o += 9; }
		Bytes args(m.begin() + std::min(o, m.size()), m.end()); nOut++;
		if(name == "deleteStream") {
			Bytes head = enc({Z()}); uint32_t id = 0; for(auto &kv : bySid) if(kv.second && args == enc({Z(), N(kv.first)})) id = kv.first;
			if(hostile) return;
			CHECK(id && tid == 0, "tc-delete-stream", "deleteStream for an unknown stream: %s", hex(m).c_str()); if(!id) return;
			Rec *x = bySid[id]; CHECK(++x->deletes == 1, "tc-delete-stream-twice", "stream %d deleted %d times", x->idx, x->deletes);
			CHECK(x->deleted || closing, "tc-delete-stream-spurious", "stream %d deleted though nobody asked for it", x->idx);
			x->srvDeleted = true; if(r.chance(0.7)) later(delay(), [this, x] { for(auto &f : sfs) if(f->rec == x && !f->closed) { f->closed = true; f->f->close(); } });
			later(20, [this, x, id] { if(reusable(x)) { retired.push_back(id); } });
			return;
		}
		if(ctlPos >= ctl.size()) { ctx.fail("tc-control-unknown", "command %s was never sent", name.c_str()); return; }
		CtlOut &e = ctl[ctlPos++]; 
		CHECK(name == e.name, "tc-control-sequence", "received %s, expected %s", name.c_str(), e.name.c_str());
		if(e.kind == 0) CHECK(tid == 0, "tc-control-tid", "command with transaction id %g", tid); else CHECK(tid > 0 && tids.insert(tid).second, "tc-control-tid", "transaction id %g used before", tid);
		if(e.kind == 2) {
			std::vector<Amf> v; AMF0::decode(args.data(), args.data() + args.size(), v); std::string got;
			if(v.size() && v[0]->isObject()) got = fmt("%s|%s|%g|%s|", v[0]->getValueAtKey("tcUrl")->isString() ? v[0]->getValueAtKey("tcUrl")->stringValue() : "?", v[0]->getValueAtKey("app")->isString() ? v[0]->getValueAtKey("app")->stringValue() : "?", v[0]->getValueAtKey("objectEncoding")->doubleValue(), v[0]->getValueAtKey("extra")->isString() ? v[0]->getValueAtKey("extra")->stringValue() : "") + sig(std::vector<Amf>(v.begin() + 1, v.end()));
			CHECK(got == std::string(e.args.begin(), e.args.end()), "tc-connect-arguments", "got %s, expected %s", got.c_str(), std::string(e.args.begin(), e.args.end()).c_str());
		}
		else CHECK(args == e.args, "tc-control-content", "%s: %s, sent %s", name.c_str(), hex(args).c_str(), hex(e.args).c_str());
		if(hostile) { hostileReply(e, tid); return; }
		CtlOut c = e; 
		if(e.kind) later(delay(), [this, c, tid] { reply(c, tid); });
	}
	bool reusable(Rec *x) { for(int c = 0; c < 3; c++) { if(x->pos[c] < x->L[c].size()) return false; } for(auto &f : cfs) if(f->rec == x && !f->done) return false; return true; }
	void reply(const CtlOut &c, double tid)
	{
		if(c.kind == 2) {
			bool ok = !r.chance(0.05); Val v = r.chance(0.8) ? O(serial++, ok ? "NetConnection.Connect.Success" : "NetConnection.Connect.Rejected") : rval(r); bool none = r.chance(0.05);
			bool up = sendCommand(ok ? "_result" : "_error", tid, none ? std::vector<Val>() : std::vector<Val>{v});
			if(!ok && up && !serverEnded) { serverEnded = true; expectCode = "F"; }
			std::string s = none ? "u" : sig(v); if(c.key) expect('R', fmt("R%d:%d:", c.key, ok) + s); expect('S', "S:" + s, nullptr, [this, ok] { if(ok) { tcOpen = true; if(conn && !closing && depth == 1 && conn->sessionOpt()) CHECK(conn->isConnected(), "tc-state-connected", "not connected after success"); } });
		}
		else if(c.kind == 3) {
			Rec *x = recs[c.key].get();
			if(r.chance(0.01)) { if(sendCommand("_error", tid, {O(serial++)}) && !serverEnded) { serverEnded = true; expectCode = "F"; } return; }
			uint32_t id; if(!retired.empty() && r.chance(0.6)) { size_t i = r.u(retired.size()); id = retired[i]; retired.erase(retired.begin() + i); ctx.stat("stream_ids_reused"); } else do id = r.chance(0.6) ? uint32_t(r.range(1, 20)) : uint32_t(r.bits()); while(!id || bySid.count(id));
			bySid[id] = x; x->sid = id; std::vector<Val> v{N(id)}; if(r.chance(0.2)) v.push_back(rval(r));
			sendCommand("_result", tid, v); expect('O', fmt("O:%d", x->idx), x);
		}
		else { bool ok = r.chance(0.7); Val v = rval(r); bool none = r.chance(0.1); sendCommand(ok ? "_result" : "_error", tid, none ? std::vector<Val>() : std::vector<Val>{v}); if(c.key) expect('R', fmt("R%d:%d:", c.key, ok) + (none ? "u" : sig(v))); }
		pastTids.push_back(tid);
		if(r.chance(0.2)) later(delay(), [this, tid] { sendCommand(r.chance(0.5) ? "_result" : "_error", tid, {N(77)}); });
	}
	void spontaneous()
	{
		switch(r.u(8)) {
		case 0: case 1: { Val v = O(serial++); sendCommand("onStatus", 0, {v}); expect('S', "S:" + sig(v)); break; }
		case 2: case 3: { auto v = rvals(r); std::string n = fmt("srv%g", serial++); sendCommand(n, r.chance(0.5) ? 0 : double(r.u(10)), v); expect('C', "C:" + n + ":" + sig(v)); break; }
		case 4: { uint32_t s = uint32_t(r.chance(0.5) ? r.u(10000) : r.range(5000, 4000000)), p = uint32_t(r.chance(0.5) ? r.u(10000) : r.range(5000, 4000000)); Bytes m{0, 41}; for(uint32_t x : {s, p}) for(int i = 3; i >= 0; i--) m.push_back(uint8_t(x >> (8 * i))); if(r.chance(0.1)) m.push_back(1); 
			if(!swrite(tcm(4, 0, m))) break;
			if(!ignoreKeep) { lastKeepS = std::max(s, 5000u) / 1000.0; lastKeepP = std::max(p, 5000u) / 1000.0; }
			double ks = lastKeepS, kp = lastKeepP; Val v = O(serial++); sendCommand("onStatus", 0, {v});
			expect('S', "S:" + sig(v), nullptr, [this, ks, kp] { if(closing || !conn || !conn->sessionOpt()) return; ctx.stat("keepalive_requests"); double gs = double(conn->sessionOpt()->getSessionKeepalivePeriod()), gp = double(a->rtmfp->getDefaultSessionKeepalivePeriod()); if(ks < 0) { CHECK(gs == baseKeep && gp == baseKeep, "tc-keepalive-ignored", "periods %g %g although the requests are to be ignored", gs, gp); return; } CHECK(gs == ks && gp == kp, "tc-keepalive", "keepalive periods: this session %g, default %g; the server asked for %g and %g", gs, gp, ks, kp); }); break; }
		case 5: { double tid = r.chance(0.3) || pastTids.empty() ? (r.chance(0.5) ? double(NAN) : r.pick({0.0, -1.0, 1e300, 0.5, 1000000.0, double(INFINITY)})) : r.pick(pastTids); sendCommand(r.chance(0.5) ? "_result" : "_error", tid, {N(66)}); ctx.stat("stray_answers"); break; }
		case 6: { Bytes p = r.bytes(r.u(20)); int k = int(r.u(4)); if(k == 0) swrite(tcm(r.pick({8, 9}), 1, p)); else if(k == 1) { p.insert(p.begin(), uint8_t(r.range(1, 255))); swrite(tcm(17, 0, p)); } else if(k == 2) swrite(tcm(r.pick({1, 2, 3, 5, 6, 16, 19, 22, 100, 255}), 0, p)); else { p.resize(r.u(10)); if(p.size() > 1) p[1] = 41, p[0] = 0; swrite(tcm(4, 0, p)); } break; }
		case 7: if(r.chance(0.5)) swrite(r.bytes(r.u(5))); // shorter than a header
			else if(strays.size() < 4 && nIn) { uint32_t id; do id = r.chance(0.5) ? uint32_t(r.range(21, 40)) : uint32_t(r.bits()); while(id <= 20 || bySid.count(id)); auto f = scrx->openReturnFlow(tcMeta(id, r.chance(0.5)), PRI_ROUTINE); if(!f) break; bySid[id] = nullptr; auto g = std::make_shared<std::pair<std::shared_ptr<SendFlow>, bool>>(f, false); strays.push_back(g); f->onException = [g] (uintmax_t) { g->second = true; }; Bytes m = tcm(8, 77, {1, 2, 3}); f->write(m.data(), m.size()); ctx.stat("flows_for_inactive_streams"); }
			break;
		}
	}
	// streams
	void streamFlow(std::shared_ptr<RecvFlow> f)
	{
		Bytes m = f->getMetadata(); uint32_t sid = 0; for(auto &kv : bySid) if(kv.second && m == tcMeta(kv.first, false)) sid = kv.first;
		if(!hostile) CHECK(sid, "tc-stream-metadata", "a stream flow with metadata %s", hex(m).c_str());
		auto c = std::make_unique<CF>(); c->f = f; c->rec = sid ? bySid[sid] : nullptr; CF *p = c.get(); cfs.push_back(std::move(c));
		f->setBufferCapacity(r.chance(0.5) ? 1 << 24 : 100000);
		f->onMessage = [this, p] (const uint8_t *d, size_t n, uintmax_t, size_t) { if(!ended && !hostile && p->rec) streamIn(p, Bytes(d, d + n)); };
		f->onComplete = [p] (bool) { p->done = true; };
		f->accept();
	}
	bool same(const Out &o, const Bytes &m, bool commit)
	{
		if(o.sync < 0) return m == o.raw;
		if(m.size() != 15 || m[0] != 4 || m[1] || m[2] || m[3] || m[4] || m[5] || m[6] != 34 || m[11] || m[12] || m[13] || m[14] != 3) return false;
		uint32_t id = uint32_t(m[7]) << 24 | m[8] << 16 | m[9] << 8 | m[10]; auto it = syncId.find(o.sync);
		if(it != syncId.end()) return it->second == id;
		if(syncIds.count(id)) return false; if(commit) { syncId[o.sync] = id; syncIds.insert(id); } return true;
	}
	void streamIn(CF *f, const Bytes &m)
	{
		Rec *x = f->rec;
		if(f->cls < 0) {
			int t = m.empty() ? -1 : m[0]; int c = t == 9 ? 1 : t == 8 ? 2 : t == 20 || t == 18 ? 0 : -1;
			if(c < 0) { CHECK(m.size() == 15 && m[0] == 4, "tc-stream-out-type", "stream %d: %s", x->idx, hex(m).c_str()); f->held.push_back(m); return; }
			if(x->flow[c] && closing) { f->rec = nullptr; return; } // sent from a closing status after closing again
			CHECK(!x->flow[c], "tc-stream-flows", "stream %d uses two flows for the same kind of message", x->idx);
			x->flow[c] = true; f->cls = c; auto h = f->held; f->held.clear(); for(auto &q : h) take(x, c, q);
		}
		take(x, f->cls, m);
		if(f->cls == 0 && !x->srvActive && m[0] == 20) { x->srvActive = true; int n = int(r.range(1, 3)); while(n--) later(delay(), [this, x] { openSF(x); }); }
	}
	void take(Rec *x, int c, const Bytes &m)
	{
		static const char *K[] = {"command or data", "video", "audio"};
		auto &L = x->L[c]; size_t p = x->pos[c]; nOut++;
		while(p < L.size() && !same(L[p], m, false) && !L[p].must) p++;
		bool ok = p < L.size() && same(L[p], m, true);
		CHECK(ok || nestedClose, "tc-stream-out", "stream %d: received a %s message %s, expected %s (message %zu of %zu, sync point %d)", x->idx, K[c], hex(m).c_str(), p < L.size() ? hex(L[p].raw).c_str() : "nothing", p, L.size(), p < L.size() ? L[p].sync : -1);
		if(ok) x->pos[c] = p + 1; ctx.stat("stream_messages_out");
	}
	bool onlySyncs(CF *f, const std::vector<Out> &L) { size_t p = 0; for(auto &m : f->held) { while(p < L.size() && !same(L[p], m, false) && !L[p].must) p++; if(p >= L.size() || !same(L[p], m, false)) return false; p++; } while(p < L.size()) if(L[p++].must) return false; return true; }
	void openSF(Rec *x)
	{
		if(x->srvDeleted || !scrx || sfs.size() > 20) return;
		bool net = r.chance(0.45); auto f = scrx->openReturnFlow(tcMeta(x->sid, net), r.chance(0.5) ? PRI_IMMEDIATE : PRI_ROUTINE); if(!f) return;
		auto s = std::make_unique<SF>(); s->rec = x; s->f = f; s->network = net; SF *p = s.get(); sfs.push_back(std::move(s));
		int n = int(r.range(1, 4)); double d = 0; while(n--) { later(d, [this, p] { burst(p); }); d += delay(); }
		if(r.chance(0.3)) later(d + delay(), [p] { if(!p->closed) { p->closed = true; p->f->close(); } });
	}
	void burst(SF *f)
	{
		if(f->closed || f->rec->srvDeleted) return;
		int n = int(r.range(1, 12));
		while(n--) {
			if(r.chance(0.05)) { barrier(f->rec); continue; }
			SM m; do m.ts = uint32_t(r.bits()); while(byTs.count(m.ts)); m.special = true; m.kind = -1; m.serial = serial++; size_t len = r.chance(0.05) ? r.u(30000) : r.chance(0.05) ? 0 : r.u(60);
			switch(r.u(10)) {
			case 0: case 1: case 2: m.type = 8; m.kind = 2; m.payload = r.bytes(len); if(len && r.chance(0.6)) m.payload[0] = uint8_t(r.pick({0xaf, 0x90, 0x91, 0x92, 0x94, 0x95, 0x20})); if(len > 1 && r.chance(0.6)) m.payload[1] = uint8_t(r.u(2)); m.special = audioSpecial(m.payload); break;
			case 3: case 4: case 5: m.type = 9; m.kind = 3; m.payload = r.bytes(len); if(len && r.chance(0.6)) m.payload[0] = uint8_t(r.pick({0x17, 0x27, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x22})); if(len > 1 && r.chance(0.6)) m.payload[1] = uint8_t(r.u(3)); m.special = videoSpecial(m.payload); break;
			case 6: { auto v = rvals(r); m.type = 18; m.kind = 1; m.payload = enc({Str("onD")}); Bytes t = enc(v); m.payload.insert(m.payload.end(), t.begin(), t.end()); m.sg = "onD|" + sig(v); if(r.chance(0.4)) { m.type = 15; m.payload.insert(m.payload.begin(), 0); if(r.chance(0.2)) { m.payload[0] = 1; m.kind = -1; } } break; }
			case 7: { m.type = 20; m.kind = 0; Val v = O(m.serial); m.payload = cmdPayload("onStatus", 0, {Z(), v}); m.sg = sig(v); if(r.chance(0.3)) { m.type = 17; m.payload.insert(m.payload.begin(), 0); } bySerial[m.serial] = {f, f->m.size()}; break; }
			case 8: { m.type = 20; m.payload = cmdPayload("onOther", 0, {Z(), N(3)}); break; }
			default: m.type = uint8_t(r.pick({1, 16, 18, 15, 22, 99, 4})); if(m.type == 18 || m.type == 15) m.payload = r.chance(0.4) ? Bytes() : m.type == 15 ? Bytes{0, 5} : Bytes{5, 5}; else m.payload = r.bytes(r.u(8)); if(m.type == 4 && m.payload.size() > 1) m.payload[0] = 1; break;
			}
			if(m.kind > 0) byTs[m.ts] = {f, f->m.size()};
			double sw = INFINITY, fw = INFINITY; if(r.chance(f->network && window > 1000 ? 0.35 : 0.1)) { m.may = true; (r.chance(0.5) ? sw : fw) = r.logreal(0.001, window > 1000 ? 0.2 : 1); }
			Bytes raw = tcm(m.type, m.ts, m.payload); if(!f->f->write(raw.data(), raw.size(), sw, fw)) { if(m.kind > 0) byTs.erase(m.ts); bySerial.erase(m.serial); return; }
			if(ctx.verbose) ctx.note("%.3Lf server: stream %d flow %p %s message %zu type %d kind %d may %d special %d %s", w.now, f->rec->idx, (void *)f, f->network ? "network" : "sequence", f->m.size(), m.type, m.kind, m.may, m.special, hex(raw).substr(0, 40).c_str());
			f->m.push_back(m);
		}
	}
	void barrier(Rec *x)
	{
		std::vector<SF *> v; for(auto &f : sfs) if(f->rec == x && !f->closed && r.chance(0.8)) v.push_back(f.get());
		if(v.empty()) return;
		Barrier bar; Bytes m{4, 0, 0, 0, 0, 0, 34}; uint32_t id = barrierId++; for(int i = 3; i >= 0; i--) m.push_back(uint8_t(id >> (8 * i))); for(int i = 0; i < 3; i++) m.push_back(0); m.push_back(uint8_t(v.size()));
		for(auto f : v) { if(!f->f->write(m.data(), m.size())) { x->srvDeleted = true; return; } SM s; s.type = 4; s.ts = 0; s.kind = -1; s.special = true; bar.at.push_back({f, f->m.size()}); f->m.push_back(s); }
		barriers.push_back(bar); ctx.stat("sync_points");
	}
	double baseKeep = 0; bool mayMiss = false; bool missed() { return mayMiss && (w.nLost || w.nCorrupt || w.nQueueDrop); } // the only word of it was lost

	// --- a hostile server

	void hostileReply(const CtlOut &c, double tid)
	{
		later(delay(), [this, c, tid] {
			double id = r.chance(0.6) ? double(r.range(1, 4)) : r.pick({0.5, 1e-300, -1.0, 0.0, double(NAN), double(INFINITY), 4294967296.0, 4294967295.0, 4294967295.5, 1.5, 1e308});
			double t = r.chance(0.85) ? tid : r.pick({double(NAN), 0.0, -0.0, 0.5, tid + 1, tid - 1, double(INFINITY)});
			std::vector<Val> v; int n = int(r.chance(0.8) ? 2 : r.u(4)); if(n) v.push_back(Z()); if(n > 1) v.push_back(c.kind == 3 && r.chance(0.9) ? N(id) : rval(r)); if(n > 2) v.push_back(rval(r));
			if(c.kind == 3 && n > 1 && v[1].k == 'n') bySid[uint32_t(r.range(1, 4))] = recs[c.key].get();
			Bytes p = cmdPayload(r.chance(0.9) ? "_result" : "_error", t, v);
			raw(sctl, tcm(20, 0, p)); if(r.chance(0.2)) raw(sctl, tcm(20, 0, p));
		});
	}
	Bytes garbage()
	{
		Bytes p; uint8_t type = uint8_t(r.chance(0.8) ? r.pick({20, 17, 18, 15, 8, 9, 4}) : r.u(256));
		switch(r.u(8)) {
		case 0: p = r.bytes(r.u(40)); break;
		case 1: break;
		case 2: p = cmdPayload(r.pick({"_result", "_error", "onStatus", "foo", ""}), r.pick({double(NAN), 1.0, 2.0, 3.0, 0.0, -5.0}), {Z(), rval(r)}); break;
		case 3: { Bytes h = enc({Str("onStatus")}); p = h; Bytes t = enc({rval(r), rval(r), rval(r)}); p.insert(p.end(), t.begin(), t.end()); break; }
		case 4: { p = {0, 41}; Bytes t = r.bytes(r.u(12)); p.insert(p.end(), t.begin(), t.end()); type = 4; break; }
		case 5: { p = {0, 34}; Bytes t = r.bytes(r.u(10)); p.insert(p.end(), t.begin(), t.end()); if(p.size() > 8) for(int i = 2; i < 9; i++) p[i] = 0; type = 4; break; }
		case 6: p = enc({rval(r), rval(r)}); break;
		case 7: for(int i = 0, n = int(r.range(20, 60)); i < n; i++) { p.push_back(uint8_t(r.pick({3, 8, 10}))); if(p.back() != 3) { p.push_back(0); p.push_back(0); p.push_back(0); p.push_back(1); } p.push_back(0); p.push_back(1); p.push_back('a'); } break; // deeply nested
		}
		if((type == 17 || type == 15) && r.chance(0.7) && r.chance(0.9)) p.insert(p.begin(), 0);
		if(!p.empty() && r.chance(0.3)) p[r.u(p.size())] = uint8_t(r.bits()); if(!p.empty() && r.chance(0.2)) p.resize(r.u(p.size()));
		Bytes m = tcm(type, uint32_t(r.bits()), p); if(r.chance(0.05)) m.resize(r.u(m.size())); return m;
	}
	void raw(const std::shared_ptr<SendFlow> &f, const Bytes &m) { if(f && !ended) { f->write(m.data(), m.size()); nHostile++; } }
	void hostilities()
	{
		if(r.chance(0.15)) { auto f = scrx->openReturnFlow(r.chance(0.5) ? tcMeta(uint32_t(r.range(1, 4)), r.chance(0.5)) : r.bytes(r.u(6)), PRI_IMMEDIATE); if(f) { extraS.push_back(f); raw(f, garbage()); } } // something else first
		int n = int(r.range(1, 40));
		while(n--) later(r.real(0, double(T)), [this] {
			int k = int(r.u(10)), m = int(r.range(1, 5));
			if(k < 3) while(m--) raw(sctl, r.chance(0.4) ? garbage() : tcm(20, 0, cmdPayload(r.pick({"onStatus", "rpc"}), 0, {Z(), rval(r)})));
			else if(k < 5) { Bytes meta = tcMeta(uint32_t(r.chance(0.7) ? r.u(5) : r.bits()), r.chance(0.5)); if(r.chance(0.15) && meta.size()) meta[r.u(meta.size())] ^= uint8_t(1 << r.u(8)); if(r.chance(0.1)) meta.resize(r.u(meta.size())); auto f = scrx->openReturnFlow(meta, PRI_ROUTINE); if(f) { extraS.push_back(f); while(m--) raw(f, garbage()); } }
			else if(k < 9) { if(extraS.empty()) return; auto f = r.pick(extraS); while(m--) raw(f, r.chance(0.5) ? garbage() : tcm(uint8_t(r.pick({8, 9, 18})), uint32_t(r.bits()), enc({Str("d"), N(1)}))); if(r.chance(0.1)) f->close(); }
			else if(r.chance(0.3)) end(int(r.range(1, 4)));
		});
	}
	void end(int how)
	{
		if(!scrx || !sctl || ended || serverEnded) return;
		serverEnded = true; ctx.note("%.3Lf the server ends it, way %d", w.now, how);
		switch(how) {
		case 1: { expectCode = appClosed ? expectCode : "N"; Val v = O(serial++); if(!hostile) { sendCommand("onStatus", 0, {v}); expect('S', "S:" + sig(v)); } sctl->close(); break; }
		case 2: expectCode = appClosed ? expectCode : "F"; scrx->close(); mayMiss = true; break;
		case 3: expectCode = appClosed ? expectCode : "F"; sctl->closeSession(); break;
		case 4: expectCode = appClosed ? expectCode : "F"; { bool now = r.chance(0.5); mayMiss = now; b->rtmfp->shutdown(now); ended = true; } break;
		case 6: { expectCode = appClosed ? expectCode : "F"; Bytes p; switch(r.u(5)) { case 0: enc(p, Z()); enc(p, N(1)); break; case 1: enc(p, Str("x")); enc(p, Str("1")); break; case 2: enc(p, Str("onStatus")); break; case 3: p = r.chance(0.5) ? Bytes{0x20, 1} : Bytes{2, 0, 9, 'a'}; break; case 4: enc(p, N(3)); enc(p, N(1)); enc(p, Z()); break; } if(r.chance(0.3)) { p.insert(p.begin(), 0); swrite(tcm(17, 0, p)); } else swrite(tcm(20, 0, p)); break; }
		case 5: expectCode = ""; a->rtmfp->shutdown(r.chance(0.5)); break;
		}
	}

	void outOfOrder() // on a network order flow, one lost message holds up what is behind it for no longer than the window
	{
		bool fine = w.run(w.now + 100, [this] { return ctx.failed || closing || (delivered(nullptr) && received(nullptr)); });
		if(!fine || ctx.failed || closing) return;
		for(auto &p : {std::make_pair(0, 1), std::make_pair(1, 0)}) { auto &q = w.path(p.first, p.second); q.loss = q.dup = q.corrupt = q.jitter = q.reorder = 0; q.rate = 0; q.ecnMark = 0; q.delay = std::min(q.delay, 0.1); }
		w.run(w.now + 20, [this] { return ctx.failed || closing; });
		if(closing || ctx.failed) return;
		SF *f = nullptr; for(auto &g : sfs) if(g->network && !g->closed && !g->rec->srvDeleted && !g->rec->deleted && !g->rec->cleared[2] && g->rec->opened) f = g.get();
		if(!f) return;
		size_t first = f->m.size(); int n = int(r.range(3, 8)), victim = int(r.u(n - 1)), drops = 0, reached = 0; std::vector<Bytes> marks;
		auto on = std::make_shared<bool>(true); double slack = w.path(1, 0).delay + window + 0.05; std::vector<bool> seen(n);
		w.onSend.push_back([&, this, on] (Pkt &p) {
			if(!*on || p.fromNode != 1 || p.data.size() < 20) return true;
			Wire x = decodeWire(p.data); bool drop = false;
			for(auto &c : x.chunks) for(size_t i = 0; i < marks.size(); i++) if(std::search(c.body.begin(), c.body.end(), marks[i].begin(), marks[i].end()) != c.body.end()) { if(int(i) == victim) drop = true; }
			if(drop) { drops++; return false; }
			for(auto &c : x.chunks) for(size_t i = 0; i < marks.size(); i++) if(!seen[i] && std::search(c.body.begin(), c.body.end(), marks[i].begin(), marks[i].end()) != c.body.end()) { seen[i] = true; w.after(slack, [&, this, on, i] { if(!*on || closing || ctx.failed) return; reached++; CHECK(f->m[first + i].got || skip(f, f->m[first + i]), "tc-network-order", "message %zu of %d on a network order flow still held up %g s after it arrived, by message %d; window %g", i, n, window + 0.05, victim, window); }); }
			return true;
		});
		for(int i = 0; i < n && !closing && !ctx.failed; i++) {
			SM m; do m.ts = uint32_t(r.bits()) | 1; while(byTs.count(m.ts)); m.type = 8; m.kind = 2; m.payload = Bytes{0x20, 1, 2, 3, uint8_t(i)}; m.special = false; m.serial = 0; Bytes b5 = tcm(m.type, m.ts, m.payload);
			marks.push_back(b5); byTs[m.ts] = {f, f->m.size()}; f->m.push_back(m); if(!f->f->write(b5.data(), b5.size())) { byTs.erase(m.ts); f->m.pop_back(); break; }
			w.run(w.now + 0.1, [this] { return ctx.failed || closing; });
		}
		w.run(w.now + slack + 3, [this] { return ctx.failed || closing; });
		if(!closing && !ctx.failed) { CHECK(drops, "harness", "the message was not lost"); ctx.stat("out_of_order_probes"); ctx.stat("out_of_order_messages", reached); }
		*on = false; w.run(w.now + 20, [this] { return ctx.failed || closing; });
	}

	// --- the case

	bool delivered(std::string *why)
	{
		if(closing) return true;
		size_t p = expPos; while(p < exp.size() && skippable(exp[p])) p++;
		if(p < exp.size()) { if(why) *why = "control '" + exp[p].ev.substr(0, 100) + "'"; return false; }
		for(auto &f : sfs) if(!f->rec->deleted) for(size_t i = 0; i < f->m.size(); i++) { auto &m = f->m[i]; if(!skip(f.get(), m) && (!f->network || m.special || window > 1000)) { if(why) *why = fmt("message %zu of type %d (ts %u, %zu bytes, special %d, may %d) to stream %d on a %s flow, window %g", i, m.type, m.ts, m.payload.size(), m.special, m.may, f->rec->idx, f->network ? "network order" : "sequence", window); return false; } }
		return true;
	}
	bool received(std::string *why)
	{
		if(serverEnded && !appClosed && closing) return true;
		if(!(closing && !closedAfterOpen)) if(ctlPos < ctl.size()) { if(why) *why = "command " + ctl[ctlPos].name; return false; }
		for(auto &x : recs) {
			for(int c = 0; c < 3; c++) for(size_t i = x->pos[c]; i < x->L[c].size(); i++) if(x->L[c][i].must) {
				bool held = false; if(x->L[c][i].sync >= 0 && !x->flow[c]) for(auto &f : cfs) if(f->rec == x.get() && f->cls < 0 && onlySyncs(f.get(), x->L[c])) held = true;
				if(!held) { if(why) *why = fmt("stream %d kind %d message %zu of %zu %s", x->idx, c, i, x->L[c].size(), hex(x->L[c][i].raw).c_str()); return false; } break; }
			if(x->deleted && x->sid && !x->deletes && !closing) { if(why) *why = fmt("deletion of stream %d", x->idx); return false; }
		}
		for(auto &f : cfs) if(f->rec && f->rec->srvDeleted && !f->done) { if(why) *why = fmt("the end of a flow (kind %d) of the deleted stream %d", f->cls, f->rec->idx); return false; }
		if(!closing) for(auto &g : strays) if(!g->second) { if(why) *why = "the rejection of a flow for a stream that is not active"; return false; }
		return true;
	}
	void go()
	{
		w.dflt = randomPath(r, int(r.u(2))); w.dflt.maxConsecLoss = 4;
		a = w.addNode("alice", {"10.0.0.1:1"}); b = w.addNode("bob", {"10.0.0.2:2"});
		for(auto &n : w.nodes) { n->platform->performDelay0 = r.chance(0.5) ? 0 : r.logreal(1e-5, 0.01); n->rtmfp->setDefaultSessionRetransmitLimit(100000); }
		baseKeep = r.chance(0.5) ? 3600 : 120; a->rtmfp->setDefaultSessionKeepalivePeriod(baseKeep);
		hostile = r.chance(0.33); ignoreKeep = r.chance(0.15); window = r.pick({0.01, 0.2, 1.0, 5000.0}); chaos = r.pick({0.0, 0.1, 0.3, 0.6}); T = r.logreal(1, 20); barrierId = uint32_t(r.bits());
		listen(); setup();
		int n = int(r.range(3, 25)); while(n--) w.after(r.real(0, double(T)), [this] { if(acting && conn && connectCalled && !closing) { double c = chaos; chaos = 1; budget++; act(); chaos = c; } });
		n = int(r.range(1, 4)); while(n--) w.after(r.real(0, double(T) / 2), [this] { if(acting && conn && connectCalled && !closing && recs.size() < 8) create(); });
		n = hostile ? 0 : int(r.u(12)); while(n--) w.after(r.real(0.1, double(T)), [this] { if(srvUp && !ended && acting) spontaneous(); });
		int how = int(r.u(8)); if(how && r.chance(0.3)) w.after(r.real(0, double(T)), [this, how] { if(how < 7) end(how); });
		w.run(w.now + T, [this] { return ctx.failed; });
		acting = false;
		if(!ctx.failed && !hostile) {
			if(window > 1000) { // after an abandoned message, what comes behind it waits for the window, or for another message
				w.run(w.now + 60, [this] { return ctx.failed || closing; });
				for(auto &f : sfs) if(f->network && !f->closed && !f->rec->srvDeleted && !ended) { if(r.chance(0.4)) { f->closed = true; f->f->close(); ctx.stat("window_flushes"); continue; } Bytes p = tcm(1, 0, {1}); SM m; m.type = 1; m.ts = 0; m.kind = -1; m.special = true; if(f->f->write(p.data(), p.size())) f->m.push_back(m); ctx.stat("window_nudges"); }
			}
			if(window < 1000 && !ctx.failed && !closing && !serverEnded && srvUp && !ended) outOfOrder();
			bool ok = w.run(w.now + 400, [this] { return ctx.failed || (serverEnded ? closing : delivered(nullptr) && received(nullptr) && (opens || closing) && (closing || answered())); });
			std::string why; if(!ok) { if(delivered(&why)) received(&why); }
			if(serverEnded) { if(!closing && !ok) w.run(w.now + 300, [this] { return closing; }); if(!closing && missed()) close(false); CHECK(closing || missed(), "tc-not-closed", "the server ended the connection, but it has not closed"); }
			else CHECK(ok, "tc-lost", "not delivered although the connection stayed up: %s (transport opened %d times)", why.empty() ? "an answer" : why.c_str(), opens);
		}
		if(!ctx.failed && !closing) { if(how == 0 || how == 7 || hostile || !scrx) close(r.chance(0.5)); else { end(how); bool ok = w.run(w.now + 300, [this] { return closing; }); CHECK(ok || missed(), "tc-not-closed", "the connection was ended (way %d), but it has not closed", how); if(!ok) close(false); } }
		if(!ctx.failed && appClosed && !serverEnded && !hostile) { std::string why; bool ok = w.run(w.now + 400, [&] { return ctx.failed || received(nullptr); }); if(!ok) { received(&why); ctx.fail("tc-lost-at-close", "sent before the application closed, never received: %s", why.c_str()); } for(auto &x : recs) if(x->opened && closedAfterOpen && !nestedClose) {} }
		if(!ctx.failed) {
			CHECK(closes == 1 && closing, "tc-close-report", "onClose %d times", closes);
			CHECK(statusCleared || nestedClose || closingStatus == 1, "tc-close-report", "closing reported %d times", closingStatus);
			for(auto &t : trans) CHECK(t.second.calls == 1, "tc-transaction-unanswered", "transaction %d was answered %d times by the time its connection closed", t.first, t.second.calls);
			CHECK(!conn || (!conn->isOpen() && !conn->isConnected() && !conn->createStream() && !conn->command("x") && !conn->transact(nullptr, "x")), "tc-state-closed", "closed, but answers as if it were open");
			for(auto &x : recs) if(x->s) CHECK(!x->s->isOpen() && !x->s->send("x") && !x->s->sendAudio(0, nullptr, 0), "tc-stream-state", "a stream still open after its connection closed");
			w.run(w.now + 3);
			if(r.chance(0.5)) { conn.reset(); for(auto &x : recs) { x->s.reset(); x->chained.clear(); } CHECK(gone, "tc-leak", "the connection still exists after it closed and everybody let go of it"); }
		}
		if(nIn + nOut > 4 && (nAns || hostile) && (!hostile || (nHostile && connOpen))) ctx.nontrivial = true;
		ctx.stat("events_at_client", double(nIn)); ctx.stat("messages_at_server", double(nOut)); ctx.stat("transactions_answered", double(nAns)); ctx.stat("hostile_messages", double(nHostile)); ctx.stat(hostile ? "hostile_cases" : "model_cases"); ctx.stat(fmt("ended_%s", appClosed ? "by_app" : "by_peer").c_str()); if(nestedClose) ctx.stat("closed_from_closing_status");
		statsFromWorld(w);
		ctx.sample(fmt("case %llu: hostile %d, %zu streams, %zu server flows, %llu events in, %llu messages out", (unsigned long long)ctx.caseIndex, hostile, recs.size(), sfs.size(), (unsigned long long)nIn, (unsigned long long)nOut));
		ended = true; acting = false;
	}
	bool answered() { for(auto &t : trans) if(!t.second.calls) return false; return true; }
	void shut() { bool f = ctx.failed; auto k = ctx.failKey, d = ctx.failDetail; if(conn) { auto h = conn; h->close(); } ctx.failed = f; ctx.failKey = k; ctx.failDetail = d; b->rtmfp->onRecvFlow = nullptr; for(auto &x : recs) x->s.reset(); conn.reset(); }
};

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	Run run(w, rng);
	run.go();
	run.shut();
	cleanup(w, nullptr);
}
}
