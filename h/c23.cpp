// C23: ReorderBuffer against an online checker, on a virtual clock, with hostile re-entrancy.
#include "base.hpp"
#include "rtmfp/ReorderBuffer.hpp"
using namespace com::zenomt;
using com::zenomt::rtmfp::ReorderBuffer;
namespace vf {
const char *driverRule() { return "one case = a random history of inserts (permuted, gapped, multi-fragment, from sequence numbers at both ends of the range), time advances, flushes, deliver-throughs, window changes and closes, half of them from inside the message callback; every release is judged online; non-trivial when at least one message was released out of insertion order, late, by age, or from inside a callback; distinct by the release sequence"; }
uint64_t driverCases(bool t) { return t ? 10000000 : 400000; }
void driverInit() {}
void driverDone() {}
struct Msg { uint64_t sn, last; size_t fc; Bytes data; Time rx = 0; bool inserted = false, out = false; };
struct Env; 
struct RB : public ReorderBuffer {
	RB(Duration p, Time *clock, TimerList *tl) : ReorderBuffer(p), clock(clock), tl(tl) {}
	RB(Time *clock, TimerList *tl) : clock(clock), tl(tl) {}
	~RB() { gone++; }
	Time getCurrentTime() const override { return *clock; }
	std::shared_ptr<Timer> scheduleTimer(Time when) override { return tl->schedule(when); }
	Time *clock; TimerList *tl; static int gone;
};
int RB::gone = 0;
struct Run {
	Rng &r; Time clock; std::shared_ptr<TimerList> tl = share_ref(new TimerList(), false); std::shared_ptr<RB> b;
	std::vector<Msg> m; std::map<uint64_t, int> bySn; Duration period; uint64_t csn = 0, may = 0, through = 0, seen = 0; bool closed = false, dropped = false, dropOnly = false; int depth = 0; int inserting = -1; uint64_t inProgress = 0; bool hasProgress = false; size_t next = 0; int reent;
	uint64_t released = 0; std::shared_ptr<int> canary = std::make_shared<int>(7); bool interesting = false;
	explicit Run(Rng &r) : r(r) {}
	uint64_t eff() { // the cumulative number, allowing for aged messages
		uint64_t c = std::max(std::max(csn, may), hasProgress ? inProgress : 0);
		for(auto &x : m) if(x.inserted && !x.out && x.rx + period <= clock) c = std::max(c, x.last);
		for(bool more = true; more;) { more = false; for(auto &x : m) if(x.inserted && !x.out && x.last > c && (x.sn <= c || x.sn - c == 1)) { c = x.last; more = true; } } // what is about to come out
		return c;
	}
	void onMessage(const uint8_t *p, size_t n, uint64_t sn, size_t fc, bool late) {
		CHECK(!closed || dropOnly, "reorder-after-close", "message %llu after close", (unsigned long long)sn);
		CHECK(depth > 0, "reorder-outside", "message %llu delivered spontaneously", (unsigned long long)sn);
		auto it = bySn.find(sn); CHECK(it != bySn.end(), "reorder-unknown", "sequence number %llu never inserted", (unsigned long long)sn); if(it == bySn.end()) return;
		Msg &x = m[it->second];
		CHECK(x.inserted && !x.out, "reorder-twice", "message %llu released twice", (unsigned long long)sn);
		CHECK(n == x.data.size() && (!n || !memcmp(p, x.data.data(), n)) && fc == x.fc, "reorder-altered", "message %llu: %zu bytes %zu fragments, expected %zu and %zu", (unsigned long long)sn, n, fc, x.data.size(), x.fc);
		uint64_t e = eff();
		CHECK(sn <= e || sn - e == 1, "reorder-early", "message %llu released while its predecessor is missing (through %llu) and nothing at or after it has waited %.3Lf s", (unsigned long long)sn, (unsigned long long)e, period);
		bool ex = x.last < through, ex2 = hasProgress ? x.last < std::max(through, inProgress) : ex;
		CHECK(late == ex || late == ex2, "reorder-late-flag", "message %llu marked late=%d, highest released %llu", (unsigned long long)sn, late, (unsigned long long)through);
		if(!late) for(auto &y : m) CHECK(!y.inserted || y.out || y.sn >= sn || &y == &x, "reorder-order", "message %llu released before waiting message %llu", (unsigned long long)sn, (unsigned long long)y.sn);
		if(late) CHECK(inserting == it->second || depth > 1 || ex == ex2, "reorder-late-held", "late message %llu was held", (unsigned long long)sn);
		if(late && depth == 1 && !hasProgress) CHECK(inserting == it->second, "reorder-late-held", "late message %llu did not come out of its own insert", (unsigned long long)sn);
		if(late) ctx.stat("late"); if(inserting != it->second) { ctx.stat("released_from_queue"); interesting = true; }
		if(late || depth > 1) interesting = true;
		may = std::max(may, e); // what aged out stays so when the window grows
		x.out = true; released++; ctx.h(sn); ctx.stat("released");
		ctx.note("  release %llu late=%d", (unsigned long long)sn, late);
		bool hp = hasProgress; uint64_t ip = inProgress; hasProgress = true; inProgress = std::max(hp ? ip : 0, x.last);
		std::shared_ptr<int> keep; Bytes copy = x.data; uint64_t last = x.last;
		if(depth < 6 && !closed) { int k = r.chance(reent / 10.0) ? int(r.range(1, 3)) : 0; while(k-- && !closed && !ctx.failed) op(true); }
		if(!closed) CHECK(n == copy.size() && (!n || !memcmp(p, copy.data(), n)), "reorder-bytes-changed", "bytes changed during the callback");
		else if(n) { volatile uint8_t q = p[0]; (void)q; } // the bytes must stay readable for the whole callback
		hasProgress = hp; inProgress = ip; csn = std::max(csn, last); through = std::max(through, last);
	}
	void setHook() { auto c = canary; b->onMessage = [this, c] (const uint8_t *p, size_t n, uintmax_t sn, size_t fc, bool late) { onMessage(p, n, sn, fc, late); if(*c != 7) abort(); }; }
	void settled(const char *op) {
		if(depth || closed) return;
		for(auto &x : m) if(x.inserted && !x.out) {
			CHECK(x.sn > csn && x.sn - csn > 1, "reorder-stuck", "after %s: message %llu is still held though everything through %llu is released or complete", op, (unsigned long long)x.sn, (unsigned long long)csn);
		}
	}
	void aged() { if(closed) return; for(auto &x : m) if(x.inserted && !x.out) CHECK(x.rx + period > clock, "reorder-overdue", "message %llu held %.6Lf s, window is %.6Lf", (unsigned long long)x.sn, clock - x.rx, period); }
	RB *raw() { return b.get(); }
	void op(bool nested) {
		if(closed || dropped) return;
		int k = int(r.u(nested ? 12 : 16)); const char *nm = "";
		RB *rb = raw();
		auto hold = nested ? std::shared_ptr<RB>() : b; if(nested && r.chance(0.3)) hold = b;
		depth++;
		if(k < 8 || (k >= 12 && k < 14)) {
			if(next >= m.size()) { depth--; return; }
			int i = int(next++), save = inserting; Msg &x = m[i]; x.inserted = true; x.rx = clock; seen = std::max(seen, x.last);
			ctx.note("%sinsert %llu..%llu at %.6Lf", nested ? "  nested " : "", (unsigned long long)x.sn, (unsigned long long)x.last, clock);
			bool mustNow = x.sn <= csn && depth == 1; inserting = i;
			uint8_t *p = new uint8_t[x.data.size()]; if(x.data.size()) memcpy(p, x.data.data(), x.data.size());
			rb->insert(p, x.data.size(), x.sn, x.fc);
			if(x.data.size()) memset(p, 0xee, x.data.size()); delete[] p;
			inserting = save; nm = "insert";
			if(mustNow && !closed) CHECK(m[i].out, "reorder-late-held", "message %llu at or before %llu did not come out immediately", (unsigned long long)m[i].sn, (unsigned long long)csn);
		}
		else if(k == 8) { ctx.note("%sflush", nested ? "  nested " : ""); csn = std::max(csn, seen); std::vector<int> had; for(size_t i = 0; i < m.size(); i++) if(m[i].inserted) had.push_back(int(i)); rb->flush(); nm = "flush"; if(!closed && !hasProgress) for(int i : had) { Msg &x = m[i]; CHECK(x.out, "reorder-flush-held", "message %llu still held after flush", (unsigned long long)x.sn); } }
		else if(k == 9) { uint64_t t; if(m.empty()) t = r.u(5); else { t = r.pick(m).sn + r.u(3) - 1; if(r.chance(0.02)) t = r.bits(); } ctx.note("%sthrough %llu", nested ? "  nested " : "", (unsigned long long)t); csn = std::max(csn, t); rb->deliverThrough(t); nm = "deliverThrough"; }
		else if(k == 10) { Duration d = r.chance(0.2) ? 0 : r.chance(0.1) ? -1 : r.chance(0.2) ? INFINITY : r.logreal(0.01, 10); ctx.note("%speriod %.4Lf", nested ? "  nested " : "", d); period = std::max(d, Duration(0)); rb->setReorderWindowPeriod(d); CHECK(rb->getReorderWindowPeriod() == period, "reorder-period", "%.4Lf", rb->getReorderWindowPeriod()); nm = "period"; }
		else if(k == 11) { if(r.chance(0.04)) { ctx.note("%sclose", nested ? "  nested " : ""); closed = true; rb->close(); if(nested && r.chance(0.5)) { b.reset(); dropped = true; ctx.stat("dropped_in_callback"); } } else if(nested && r.chance(0.01)) { ctx.note("  drop"); closed = true; dropOnly = true; b.reset(); dropped = true; ctx.stat("dropped_in_callback"); } }
		else {
			Time to = clock + (r.chance(0.2) ? 0 : r.logreal(0.001, 5));
			while(true) { Duration d = tl->howLongToNextFire(clock, INFINITY); if(clock + d > to) break; if(d > 0) clock += d; size_t before = released; Time c0 = clock; int spins = 0; tl->fireDueTimers(clock); if(released == before && ++stuck > 50) { CHECK(false, "reorder-timer-spins", "its timer fires again and again at %.9Lf without releasing anything", c0); break; } if(released != before) stuck = 0; (void)spins; aged(); if(closed || ctx.failed) break; }
			stuck = 0;
			if(clock < to && !closed) clock = to;
			nm = "time"; ctx.note("time %.6Lf", clock); aged();
		}
		depth--;
		hold.reset();
		settled(nm);
	}
	int stuck = 0;
	void run() {
		clock = r.chance(0.5) ? r.real(0, 100) : r.logreal(1e3, 1e7);
		bool defInf = r.chance(0.1); period = defInf ? INFINITY : r.chance(0.1) ? 0 : r.logreal(0.01, 10);
		int gone0 = RB::gone;
		b = share_ref(defInf ? new RB(&clock, tl.get()) : new RB(period, &clock, tl.get()), false);
		setHook(); reent = int(r.u(6));
		// messages
		size_t n = r.range(1, 40); uint64_t sn = r.chance(0.7) ? 1 : r.chance(0.5) ? r.bits() : UINT64_MAX - r.u(100); if(!sn) sn = 1;
		for(size_t i = 0; i < n; i++) { Msg x; x.fc = r.chance(0.7) ? 1 : r.range(1, 5); if(sn > UINT64_MAX - 12) { if(sn + x.fc - 1 < sn) x.fc = 1; } x.sn = sn; x.last = sn + x.fc - 1; x.data = r.bytes(r.chance(0.2) ? 0 : r.u(60)); m.push_back(x); if(x.last == UINT64_MAX) break; sn = x.last + 1; if(r.chance(0.12)) { uint64_t g = r.range(1, 4); if(sn + g < sn) break; sn += g; } }
		size_t disp = r.chance(0.3) ? 1 : r.range(2, 12);
		std::vector<std::pair<double, size_t>> o; for(size_t i = 0; i < m.size(); i++) o.push_back({i + (r.chance(0.4) ? r.real() * disp : 0), i}); std::sort(o.begin(), o.end());
		std::vector<Msg> mm; for(auto &p : o) mm.push_back(m[p.second]); m = mm;
		for(size_t i = 0; i < m.size(); i++) bySn[m[i].sn] = int(i);
		m.reserve(m.size());
		int steps = int(r.range(1, 80));
		for(int k = 0; k < steps && !ctx.failed && !closed; k++) op(false);
		if(!ctx.failed && !closed && r.chance(0.7)) { // everything comes out within the window, or at once with flush
			while(next < m.size() && !closed && !ctx.failed) op(false);
			if(!closed && !ctx.failed) { if(period == INFINITY || r.chance(0.3)) { depth++; csn = std::max(csn, seen); b->flush(); depth--; } else { clock += period + 1; depth++; tl->fireDueTimers(clock); depth--; aged(); } if(!closed && !dropped) for(auto &x : m) CHECK(x.out || !x.inserted, "reorder-lost", "message %llu never came out", (unsigned long long)x.sn); }
		}
		if(b && r.chance(0.5)) { b->close(); closed = true; if(r.chance(0.5)) { auto c = canary.use_count(); (void)c; if(r.chance(0.5)) { uint8_t z = 1; b->insert(&z, 1, 1, 1); b->deliverThrough(UINT64_MAX); b->flush(); } clock += 100; tl->fireDueTimers(clock); } }
		closed = true; b.reset();
		tl->fireDueTimers(clock + 1000);
		if(!ctx.failed) CHECK(RB::gone == gone0 + 1 && canary.use_count() == 1, "reorder-leak", "buffer destroyed %d times, callback copies left %ld", RB::gone - gone0, canary.use_count() - 1);
		if(interesting) ctx.nontrivial = true; ctx.stat("reorder_runs");
	}
};
void runCase(Rng &r, uint64_t) { Run x(r); x.run(); }
}
