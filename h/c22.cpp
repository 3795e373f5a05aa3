// C22: TimerList against an online model (dyadic times, so arithmetic is exact), and both run loops over real pipes.
#include "base.hpp"
#include "rtmfp/Timer.hpp"
#include "rtmfp/SelectRunLoop.hpp"
#include "rtmfp/EPollRunLoop.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
using namespace com::zenomt;
namespace vf {
const char *driverRule() { return "one case = a random history of timer operations (schedule, reschedule, cancel, change interval, remove, re-add, clear, destroy, from outside and from inside timer actions) with every firing checked online against a model, or runs of a select/epoll run loop over pipes; non-trivial when at least one timer or descriptor callback ran; distinct by the sequence of firings"; }
uint64_t driverCases(bool t) { return t ? 4000000 : 120000; }
void driverInit() { signal(SIGPIPE, SIG_IGN); }
void driverDone() {}

struct MT { // model of one timer
	std::shared_ptr<Timer> t; Time when = 0; Duration recur = 0; bool catchup = true, canceled = false, attached = true, in = false, firing = false, resched = false;
	std::weak_ptr<int> token; // captured by the action
	bool cycle = false;
};
struct TL {
	Rng &r; std::shared_ptr<TimerList> l = share_ref(new TimerList(), false);
	std::deque<MT> v; Time now = 100; bool inFire = false; int pending = -1; size_t fired = 0; int budget = 80; bool announced = false;
	explicit TL(Rng &r) : r(r) { l->onHowLongToSleepDidChange = [this] { announced = true; }; }
	Time rel(int lo, int hi) { return now + Time(int64_t(r.u(hi - lo + 1)) + lo) / 64; }
	Time first() { Time m = INFINITY; for(auto &x : v) if(x.in) m = std::min(m, x.when); return m; }
	void reclaimed(MT &x, const char *why) { CHECK(x.token.expired(), "timer-action-kept", "timer %s but its action is still held", why); }
	void finalize() { // the action of v[pending] has returned
		if(pending < 0) return;
		MT &x = v[pending]; pending = -1; x.firing = false;
		if(x.canceled) { x.in = false; reclaimed(x, "canceled in its own action"); return; }
		if(x.resched) { x.resched = false; return; }
		if(x.recur > 0) {
			if(now > x.when && x.catchup) x.when += std::ceil((now - x.when) / x.recur) * x.recur; else x.when += x.recur;
			x.in = x.attached;
		}
		else { x.canceled = true; x.in = x.attached = false; CHECK(x.t->isCanceled(), "timer-oneshot-not-ended", "one-shot timer not ended after firing"); reclaimed(x, "(one-shot) fired"); }
	}
	void onFire(int i, const std::shared_ptr<Timer> &sender, Time t) {
		finalize();
		MT &x = v[i];
		ctx.note("fire %d at %.3Lf (due %.3Lf)", i, t, x.when);
		CHECK(inFire, "timer-fired-outside", "timer %d fired outside fireDueTimers", i);
		CHECK(sender == x.t && t == now, "timer-args", "timer %d got sender %p time %Lf", i, (void *)sender.get(), t);
		CHECK(!x.canceled, "timer-fired-after-cancel", "timer %d", i);
		CHECK(x.canceled || x.in, "timer-fired-unscheduled", "timer %d fired but was not scheduled", i);
		CHECK(x.when <= now, "timer-fired-early", "timer %d due %.4Lf fired at %.4Lf", i, x.when, now);
		for(size_t k = 0; k < v.size(); k++) CHECK(!v[k].in || v[k].when >= x.when, "timer-order", "timer %d due %.4Lf fired before timer %zu due %.4Lf", i, x.when, k, v[k].when);
		x.in = false; x.firing = true; x.resched = false; pending = i; fired++;
		ctx.h(uint64_t(i) * 1000003 + uint64_t(now * 64)); ctx.nontrivial = true; ctx.stat("timer_fires");
		int n = int(r.u(4)) - 1;
		for(int k = 0; k < n && budget > 0; k++) { budget--; op(i); }
	}
	int pickTimer(int self) { return self >= 0 && r.chance(0.5) ? self : int(r.u(v.size())); }
	void op(int self) {
		if(ctx.failed) return;
		Time before = first(); announced = false;
		int kind = int(r.u(10)); if(v.empty()) kind = 0;
		switch(kind) {
		case 0: case 1: case 2: {
			int i = int(v.size()); v.emplace_back(); MT &x = v.back();
			x.when = self >= 0 ? rel(-20, 100) : rel(-50, 200); x.recur = r.chance(0.4) ? Time(r.range(1, 64)) / 64 : 0; x.catchup = r.chance(0.6); x.in = true;
			auto tok = std::make_shared<int>(i); x.token = tok; x.cycle = r.chance(0.4);
			auto cyc = std::make_shared<std::shared_ptr<Timer>>();
			Timer::Action a = [this, i, tok, cyc] (const std::shared_ptr<Timer> &s, Time t) { onFire(i, s, t); };
			if(r.chance(0.3)) { x.t = share_ref(new Timer(x.when, x.recur, x.catchup), false); x.t->action = a; l->addTimer(x.t); }
			else if(r.chance(0.3)) { x.t = l->schedule(x.when, x.recur, x.catchup); x.t->action = a; }
			else x.t = l->schedule(a, x.when, x.recur, x.catchup);
			if(x.cycle) *cyc = x.t;
			ctx.note("schedule %d at %.3Lf recur %.3Lf catchup %d", i, x.when, x.recur, x.catchup); break;
		}
		case 3: case 4: case 5: { int i = pickTimer(self); MT &x = v[i]; Time w = rel(-10, 150); ctx.note("reschedule %d to %.3Lf", i, w); x.t->setNextFireTime(w); if(x.canceled) break; x.when = w; x.resched = x.firing; if(x.attached) x.in = true; break; }
		case 6: case 7: { int i = pickTimer(self); MT &x = v[i]; ctx.note("cancel %d", i); x.t->cancel(); x.canceled = true; x.in = x.attached = false; if(!x.firing) reclaimed(x, "canceled"); break; }
		case 8: { int i = pickTimer(self); MT &x = v[i]; Duration d = r.chance(0.3) ? 0 : r.chance(0.1) ? -1 : Time(r.range(1, 64)) / 64; ctx.note("interval %d %.3Lf", i, d); x.t->setRecurInterval(d); x.recur = d; break; }
		default: {
			int i = pickTimer(self); MT &x = v[i]; if(x.firing || x.canceled) break;
			if(x.attached) { ctx.note("remove %d", i); l->removeTimer(x.t); x.attached = x.in = false; }
			else { ctx.note("add %d", i); l->addTimer(x.t); x.attached = x.in = true; }
		}
		}
		if(!inFire && first() < before) CHECK(announced, "timer-not-announced", "next fire time went from %.4Lf to %.4Lf without onHowLongToSleepDidChange", before, first());
		ctx.stat("timer_ops");
		query();
	}
	void query() {
		for(auto &x : v) {
			CHECK(x.t->isCanceled() == x.canceled, "timer-isCanceled", "answered %d", x.t->isCanceled());
			CHECK(x.t->doesRecur() == (x.recur > 0 && !x.canceled) && x.t->getRecurInterval() == x.recur, "timer-recur-query", "interval %.4Lf", x.t->getRecurInterval());
			if(!x.firing && x.in) CHECK(x.t->getNextFireTime() == x.when, "timer-when-query", "next fire time %.6Lf expected %.6Lf", x.t->getNextFireTime(), x.when);
			if(x.in) CHECK(x.t->isDue(now) == (x.when <= now), "timer-isDue", "due %.6Lf now %.6Lf", x.when, now);
		}
		if(inFire && pending >= 0) { /* the firing timer is between states */ }
		Duration mx = r.chance(0.5) ? 5 : Time(r.range(0, 300)) / 64, hl = l->howLongToNextFire(now, mx), ex = std::min(mx, first() - now);
		CHECK(hl == ex, "timer-how-long", "answered %.6Lf expected %.6Lf (max %.4Lf)", hl, ex, mx);
	}
	void run() {
		int steps = int(r.range(1, 40));
		for(int k = 0; k < steps && !ctx.failed; k++) {
			budget = 80;
			if(r.chance(0.55)) { op(-1); continue; }
			if(r.chance(0.03)) { ctx.note("clear"); l->clear(); for(auto &x : v) if(x.in) x.in = x.attached = false; query(); continue; }
			now += r.chance(0.1) ? 0 : Time(r.u(r.chance(0.1) ? 2000 : 60)) / 64;
			ctx.note("now %.3Lf", now);
			inFire = true; fired = 0; size_t n = l->fireDueTimers(now); inFire = false; finalize();
			CHECK(n == fired, "timer-fire-count", "answered %zu, fired %zu", n, fired);
			for(size_t i = 0; i < v.size(); i++) CHECK(!v[i].in || v[i].when > now, "timer-not-fired", "timer %zu due %.4Lf was not fired at %.4Lf", i, v[i].when, now);
			query();
		}
		if(ctx.failed) return;
		bool early = r.chance(0.5);
		if(early) l.reset();
		if(early) for(auto &x : v) if(x.in) { CHECK(x.t->isCanceled(), "timer-alive-after-list", "list destroyed but its timer is not canceled"); reclaimed(x, "list destroyed"); }
		for(auto &x : v) { if(r.chance(0.3)) x.t->setNextFireTime(now + 1); x.t->cancel(); reclaimed(x, "canceled at the end"); }
		l.reset();
	}
};

static void phases(Rng &r) // arbitrary real intervals: phase is kept within rounding, never early
{
	auto l = share_ref(new TimerList(), false);
	Time start = r.logreal(0.001, 1e6), now = start; Duration rec = r.logreal(1e-5, 100); int n = 0; Time t2 = 0; bool early = false;
	auto t = l->schedule([&] (const std::shared_ptr<Timer> &s, Time x) { n++; if(s->getNextFireTime() > x) early = true; t2 = x; }, start, rec, true);
	for(int i = 0; i < 8 && !ctx.failed; i++) {
		int n0 = n; now += rec * r.logreal(0.01, 1000);
		Time due = t->getNextFireTime();
		l->fireDueTimers(now);
		CHECK(!early, "timer-fired-early", "recurring timer"); CHECK((n > n0) == (due <= now), "timer-not-fired", "recurring due %.9Lf now %.9Lf fired %d", due, now, n - n0); CHECK(n - n0 <= 2, "timer-catchup-burst", "%d firings at one instant with catch-up on", n - n0);
		Time nx = t->getNextFireTime(), ph = (nx - start) / rec;
		CHECK(nx > now && nx <= now + rec * (1 + 1e-9L), "timer-recur-next", "next %.9Lf now %.9Lf interval %.9Lf", nx, now, rec);
		CHECK(std::fabs(ph - std::floor(ph + 0.5L)) < 1e-6L, "timer-phase", "phase drifted: %.9Lf intervals after start", ph);
	}
	t->setRecurInterval(1e-9L); CHECK(t->getRecurInterval() == Duration(0.000001), "timer-min-interval", "%.12Lf", t->getRecurInterval());
	t->cancel(); ctx.nontrivial = true; ctx.h(uint64_t(rec * 1e9)); ctx.stat("phase_runs");
}

struct RL {
	Rng &r; std::shared_ptr<RunLoop> l; bool ep;
	struct P { int rd = -1, wr = -1; int unread = 0; bool eof = false; int gen[2] = {0, 0}; bool reg[2] = {false, false}; bool drained = false; int waiting[2] = {0, 0}; };
	std::vector<P> p; int issued = 0, ran = 0; bool stopped = false; int callbacks = 0; Time lastNow = 0; bool cycleSinceStop = false; Time lastTimer = 0;
	int timersPending = 0; bool inRun = false;
	explicit RL(Rng &r) : r(r) { ep = r.chance(0.5); if(ep) l = share_ref(new EPollRunLoop(), false); else l = share_ref(new SelectRunLoop(), false); }
	const char *nm() { return ep ? "epoll" : "select"; }
	void entered(const char *what) {
		CHECK(inRun, "runloop-outside", "%s: %s called outside run()", nm(), what);
		CHECK(!stopped, "runloop-after-stop", "%s: %s called after stop()", nm(), what);
		CHECK(l->isRunningInThisThread(), "runloop-thread", "%s: isRunningInThisThread() false in %s", nm(), what);
		Time t = l->getCurrentTime(); CHECK(t >= lastNow, "runloop-time-backwards", "%s: %.9Lf after %.9Lf", nm(), t, lastNow); lastNow = t;
		callbacks++; ctx.nontrivial = true; ctx.stat("runloop_callbacks");
		if(callbacks < 400 && r.chance(0.3)) act();
	}
	void later() { int n = issued++; l->doLater([this, n] { CHECK(n == ran, "runloop-later-order", "%s: later-task %d ran when %d was next", nm(), n, ran); ran++; entered("later"); }); }
	void reg(int i, int c) {
		P &x = p[i]; int g = ++x.gen[c]; x.reg[c] = true; x.waiting[c] = 0; int fd = c ? x.wr : x.rd;
		l->registerDescriptor(fd, c ? RunLoop::WRITABLE : RunLoop::READABLE, [this, i, c, g, fd] (RunLoop *s, int f, RunLoop::Condition cond) {
			P &x = p[i];
			CHECK(s == l.get() && f == fd && cond == (c ? RunLoop::WRITABLE : RunLoop::READABLE), "runloop-args", "%s: descriptor callback arguments", nm());
			CHECK(x.reg[c] && x.gen[c] == g, "runloop-unregistered", "%s: callback of a descriptor that was unregistered or replaced", nm());
			x.waiting[c] = 0;
			if(!c) {
				CHECK(x.unread || x.eof || x.drained, "runloop-not-ready", "%s: nothing to read on the reported descriptor", nm());
				drain(i, r.chance(0.7) ? 64 : 1);
				if(x.eof && !x.unread) unreg(i, 0);
			} else if(r.chance(0.6)) unreg(i, 1);
			entered("descriptor");
		});
	}
	void unreg(int i, int c) { P &x = p[i]; x.reg[c] = false; x.gen[c]++; int fd = c ? x.wr : x.rd; if(r.chance(0.5)) l->unregisterDescriptor(fd); else l->unregisterDescriptor(fd, c ? RunLoop::WRITABLE : RunLoop::READABLE); }
	void drain(int i, int n) { P &x = p[i]; char b[64]; int k = int(::read(x.rd, b, n)); if(k > 0) x.unread -= k; x.drained = true; }
	void put(int i) { P &x = p[i]; if(x.wr < 0 || x.unread > 200) return; if(1 == ::write(x.wr, "x", 1)) x.unread++; }
	void timer() {
		Duration d = r.chance(0.3) ? 0 : r.real(0, 0.006); Time when = l->getCurrentTime() + d; timersPending++;
		auto t = r.chance(0.5) ? l->schedule(when) : l->scheduleRel(d);
		Time w2 = t->getNextFireTime();
		t->action = [this, w2] (const std::shared_ptr<Timer> &, Time now) { timersPending--; CHECK(now >= w2 && l->getCurrentTimeNoCache() >= w2, "timer-fired-early", "%s: due %.9Lf fired %.9Lf", nm(), w2, now); entered("timer"); };
	}
	void act() {
		int i = int(r.u(p.size()));
		switch(r.u(12)) {
		case 0: case 1: put(i); break;
		case 2: later(); if(r.chance(0.5)) later(); break;
		case 3: timer(); break;
		case 4: { int c = int(r.u(2)); if(c && p[i].wr < 0) break; if(!p[i].reg[c]) reg(i, c); break; }
		case 5: { int c = int(r.u(2)); if(p[i].reg[c]) unreg(i, c); break; }
		case 6: if(p[i].reg[0]) reg(i, 0); break; // replace
		case 7: drain(i, 64); break;
		case 8: if(r.chance(0.15) && p[i].wr >= 0) { if(p[i].reg[1]) unreg(i, 1); ::close(p[i].wr); p[i].wr = -1; p[i].eof = true; } break;
		case 9: if(inRun && r.chance(0.05)) { l->stop(); stopped = true; } break;
		default: break;
		}
	}
	void run() {
		p.resize(r.range(1, 5));
		for(auto &x : p) { int f[2]; if(pipe(f)) { ctx.stat("pipe_failed"); return; } x.rd = f[0]; x.wr = f[1]; fcntl(x.rd, F_SETFL, O_NONBLOCK); fcntl(x.wr, F_SETFL, O_NONBLOCK); }
		l->onEveryCycle = [this] {
			CHECK(!stopped, "runloop-after-stop", "%s: onEveryCycle called after stop()", nm());
			for(auto &x : p) {
				x.drained = false;
				bool ready[2] = { x.unread > 0 || x.eof, x.wr >= 0 };
				for(int c = 0; c < 2; c++) { x.waiting[c] = x.reg[c] && ready[c] ? x.waiting[c] + 1 : 0; CHECK(x.waiting[c] < 4, "runloop-ready-not-reported", "%s: a registered ready descriptor (%s%s) was not reported in 3 cycles", nm(), c ? "writable" : "readable", x.eof ? ", at end of file" : ""); }
			}
			ctx.stat("runloop_cycles");
		};
		int runs = int(r.range(1, 3));
		for(int k = 0; k < runs && !ctx.failed; k++) {
			int n = int(r.range(1, 14)); for(int q = 0; q < n; q++) act();
			Duration d = r.real(0.0005, 0.008);
			Time t0 = l->getCurrentTimeNoCache(); stopped = false; inRun = true; callbacks = 0;
			CHECK(!l->isRunningInThisThread(), "runloop-thread", "%s: running before run()", nm());
			l->run(d, 0);
			inRun = false; Time t1 = l->getCurrentTimeNoCache();
			CHECK(!l->isRunningInThisThread(), "runloop-thread", "%s: still running after run()", nm());
			CHECK(stopped || t1 - t0 >= d, "runloop-ended-early", "%s: run(%.6Lf) returned after %.6Lf", nm(), d, t1 - t0);
			CHECK(t1 - t0 < d + 10, "runloop-did-not-stop", "%s: run(%.6Lf) returned after %.6Lf", nm(), d, t1 - t0);
			ctx.h(uint64_t(callbacks) * 64 + ran); ctx.stat("runloop_runs");
		}
		// everything left comes out of one more run
		stopped = false; inRun = true; callbacks = 1000; for(auto &x : p) for(int c = 0; c < 2; c++) if(x.reg[c]) { x.reg[c] = false; x.gen[c]++; l->unregisterDescriptor(c ? x.wr : x.rd); }
		l->run(0.012, 0); inRun = false;
		CHECK(ran == issued, "runloop-later-lost", "%s: %d later-tasks given, %d ran", nm(), issued, ran);
		CHECK(timersPending == 0, "timer-not-fired", "%s: %d timers did not fire", nm(), timersPending);
		if(r.chance(0.5)) l->clear();
		for(auto &x : p) { ::close(x.rd); if(x.wr >= 0) ::close(x.wr); }
	}
};
void runCase(Rng &r, uint64_t)
{
	if(r.chance(0.015)) { RL x(r); x.run(); }
	else if(r.chance(0.2)) phases(r);
	else { TL x(r); x.run(); }
}
}
