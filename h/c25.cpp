// C25: performers, worker hand-over and whole sessions over real sockets with real threads, run under
// ThreadSanitizer (races, lock order) and AddressSanitizer, with ledgers of what ran where and when.
#include "base.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "rtmfp/RunLoops.hpp"
#include "rtmfp/Performer.hpp"
#include "rtmfp/PerformerPosixPlatformAdapter.hpp"
#include "rtmfp/PlainCryptoAdapter.hpp"
#include "rtmfp/FlashCryptoAdapter_OpenSSL.hpp"
namespace vf {
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
const char *driverRule() { return "one case = either 1-3 run loops in threads of their own and 1-5 calling threads handing each other tasks (waiting or not, from tasks, timers and outside, with a loop stopped or a performer closed meanwhile in some), or two or three RTMFP endpoints in threads of their own with plain or Flash-compatible crypto done by 0-3 worker threads, talking over real loopback sockets through a relay that drops, repeats and delays packets, shut down gracefully or closed abruptly at a random moment; under ThreadSanitizer or AddressSanitizer; non-trivial when tasks crossed threads; distinct by the hash of the script and of the order tasks were seen to run in"; }
uint64_t driverCases(bool t) { return t ? 60000 : 3000; }
void driverInit() {}
void driverDone() {}

namespace {
typedef std::chrono::steady_clock Clock;
bool waitFor(const std::function<bool()> &f, double s)
{
	auto end = Clock::now() + std::chrono::microseconds(int64_t(s * 1e6));
	int us = 50;
	while(!f()) { if(Clock::now() > end) return f(); usleep(us); if(us < 2000) us *= 2; }
	return true;
}
// failures seen by other threads
struct Faults { std::mutex m; std::vector<std::pair<std::string, std::string>> v; void add(const std::string &k, const std::string &d) { std::lock_guard<std::mutex> g(m); if(v.size() < 5) v.push_back({k, d}); } };
void pauseUs(Rng &r, int max) { switch(r.u(4)) { case 0: break; case 1: sched_yield(); break; case 2: usleep(useconds_t(r.u(20))); break; case 3: usleep(useconds_t(r.u(max + 1))); } }

struct Loop {
	std::shared_ptr<RunLoop> rl; std::shared_ptr<Performer> p;
	std::thread th; std::atomic<bool> ended{false};
	Loop(Rng &r) { if(r.chance(0.7)) rl = share_ref<RunLoop>(new PreferredRunLoop(true), false); else rl = share_ref<RunLoop>(new SelectRunLoop(true), false); p = share_ref(new Performer(rl.get()), false); }
	void start() { th = std::thread([this] { rl->run(); ended = true; }); }
};

// --- performers
struct Op; struct Seen { int caller; int seq; };
struct Target {
	Loop *loop; std::vector<Seen> log; // written only by tasks on this loop: any race on it is a race of the performer
	uint64_t plain = 0;
	std::atomic<int> ran{0};
	std::atomic<bool> closing{false}, closed{false};
};
struct World25 {
	std::vector<Loop *> loops; std::vector<Target *> targets; Faults faults;
	std::atomic<int> callersLeft{0}; std::atomic<int> nested{0};
	std::vector<std::vector<std::unique_ptr<std::atomic<int>>>> handed; // per caller and target
};

void callerRun(World25 *w, int me, uint64_t seed, int ops, int maxPause)
{
	Rng r(seed);
	std::vector<int> seq(w->targets.size(), 0);
	for(int i = 0; i < ops; i++) {
		int t = int(r.u(w->targets.size())); Target *T = w->targets[t]; bool wait = r.chance(0.4); int s = seq[t]++;
		auto local = std::make_shared<std::pair<int, int>>(0, 0); // plain memory: a waiter must see what its task wrote
		bool nest = r.chance(0.2); uint64_t ns = r.next();
		bool closedBefore = T->closed;
		Task task = [=] {
			if(!T->loop->rl->isRunningInThisThread()) w->faults.add("wrong-thread", fmt("task %d of caller %d ran outside its loop", s, me));
			T->log.push_back({me, s}); T->plain = mix64(T->plain + s); local->first = s + 1; local->second++;
			if(local->second != 1) w->faults.add("ran-twice", fmt("task %d of caller %d", s, me));
			if(nest) { Rng nr(ns); int kind = int(nr.u(4)); // from a task
				auto flag = std::make_shared<int>(0);
				if(kind == 0) { w->nested++; T->loop->p->perform([=] { *flag = 1; w->nested--; }, true); if(!*flag && !T->closing) w->faults.add("not-run", "a waiting perform from the loop's own thread returned before its task ran"); if(!*flag) w->nested--; }
				else if(kind == 3) { w->nested++; T->loop->p->perform([=] { *flag = 1; w->nested--; }); T->loop->p->perform([=] { if(!*flag && !T->closing) w->faults.add("order", "a waiting perform from the loop's own thread ran before the task that thread handed over earlier"); }, true); }
				else if(kind == 1) { w->nested++; T->loop->p->perform([=] { w->nested--; }); }
				else if(t + 1 < int(w->targets.size())) { Target *U = w->targets[t + 1]; w->nested++; U->loop->p->perform([=] { *flag = 1; w->nested--; }, true); if(!*flag) { if(!U->closing) w->faults.add("not-run", "a waiting perform returned before its task ran"); w->nested--; } }
			}
			T->ran++;
		};
		T->loop->p->perform(task, wait);
		if(wait && local->first != s + 1 && !T->closing) w->faults.add("not-run", fmt("a waiting perform returned before its task ran (caller %d task %d)", me, s));
		if(wait && closedBefore && local->first) w->faults.add("ran-closed", fmt("a task handed to a closed performer ran (caller %d task %d)", me, s));
		(*w->handed[me][t])++;
		pauseUs(r, maxPause);
	}
	w->callersLeft--;
}

void performers(Rng &r)
{
	World25 *w = new World25();
	int nl = int(r.range(1, 3)), nc = int(r.range(1, 5)), ops = int(r.range(5, 60)), maxPause = int(r.pick({0, 50, 300}));
	for(int i = 0; i < nl; i++) { w->loops.push_back(new Loop(r)); Target *t = new Target(); t->loop = w->loops.back(); w->targets.push_back(t); }
	bool early = r.chance(0.3); // callers before the loops run
	int closes = r.chance(0.5) ? int(r.u(nl)) : -1; int how = int(r.u(3)); double closeAt = r.logreal(0.00005, 0.01);
	ctx.note("%d loops %d callers %d tasks%s%s", nl, nc, ops, early ? ", callers first" : "", closes >= 0 ? fmt(", performer %d closed %s after %.2f ms", closes, how == 0 ? "by a task" : how == 1 ? "by a timer" : "once its loop stopped", closeAt * 1000).c_str() : "");
	w->callersLeft = nc; w->handed.resize(nc);
	for(auto &v : w->handed) for(int i = 0; i < nl; i++) v.emplace_back(new std::atomic<int>(0));
	if(closes >= 0 && how == 1) { Target *T = w->targets[closes]; Loop *L = T->loop; L->rl->scheduleRel(Timer::makeAction([=] { T->closing = true; L->p->close(); T->closed = true; L->rl->scheduleRel(Timer::makeAction([=] { if(w->callersLeft == 0) L->rl->stop(); }), 0.002, 0.002); }), closeAt); }
	if(!early) for(auto l : w->loops) l->start();
	std::vector<std::thread> cs;
	for(int i = 0; i < nc; i++) { uint64_t s = r.next(); cs.emplace_back(callerRun, w, i, s, ops, maxPause); }
	if(early) { usleep(useconds_t(r.u(2000))); for(auto l : w->loops) l->start(); }
	if(closes >= 0 && how != 1) {
		Target *T = w->targets[closes]; Loop *L = T->loop;
		usleep(useconds_t(closeAt * 1e6));
		if(how == 0) L->p->perform([=] { T->closing = true; L->p->close(); T->closed = true; L->rl->scheduleRel(Timer::makeAction([=] { if(w->callersLeft == 0) L->rl->stop(); }), 0.002, 0.002); }, r.chance(0.5));
		else { T->closing = true; L->p->perform([=] { L->rl->stop(); }); if(waitFor([&] { return L->ended.load(); }, 60)) { usleep(useconds_t(r.u(3000))); L->p->close(); T->closed = true; } else ctx.fail("lost-task", "a task that stops the run loop did not run within 60 s"); }
	}
	bool ok = waitFor([&] { return w->callersLeft == 0; }, 60);
	if(!ok) ctx.fail("stuck", "%d of %d callers were still waiting after 60 s though every task returns at once%s", w->callersLeft.load(), nc, closes >= 0 ? " (a performer was closed)" : "");
	if(ok) { // no further nudge: what was handed over must run by itself
		bool all = waitFor([&] { for(int t = 0; t < nl; t++) { if(t == closes || w->targets[t]->closing) continue; int n = 0; for(int c = 0; c < nc; c++) n += *w->handed[c][t]; if(w->targets[t]->ran < n) return false; } return true; }, 60);
		if(!all) ctx.fail("lost-task", "tasks handed over did not run within 60 s");
		ok = all;
	}
	if(!ok) { for(auto &t : cs) t.detach(); for(auto l : w->loops) if(l->th.joinable()) l->th.detach(); return; } // leave everything
	for(auto &t : cs) t.join();
	// stop the loops that still run
	for(int t = 0; t < nl && ok; t++) { Loop *L = w->loops[t]; if(!L->ended && !w->targets[t]->closing) L->p->perform([L] { L->rl->stop(); }); if(!waitFor([&] { return L->ended.load(); }, 60)) { ctx.fail("lost-task", "a task that stops the run loop did not run within 60 s"); ok = false; } }
	for(auto &f : w->faults.v) ctx.fail(f.first.c_str(), "%s", f.second.c_str());
	bool leak = !ok;
	for(int t = 0; t < nl; t++) { Loop *L = w->loops[t]; if(L->ended) L->th.join(); else { L->th.detach(); leak = true; } }
	int total = 0;
	for(int t = 0; t < nl; t++) { // order and counts
		Target *T = w->targets[t]; if(!w->loops[t]->ended) continue;
		std::vector<int> next(nc, 0);
		for(auto &s : T->log) { if(s.seq != next[s.caller]) { ctx.fail("order", "caller %d's task %d ran when task %d was due", s.caller, s.seq, next[s.caller]); } next[s.caller] = s.seq + 1; total++; ctx.h(s.caller); }
		if(!T->closing) for(int c = 0; c < nc; c++) CHECK(next[c] == *w->handed[c][t], "lost-task", "%d of %d tasks of caller %d ran", next[c], w->handed[c][t]->load(), c);
	}
	ctx.stat("tasks_run", total); if(total) ctx.nontrivial = true; if(closes >= 0) ctx.stat("performers_closed_amid_calls");
	if(!leak) { for(auto l : w->loops) { l->p.reset(); delete l; } for(auto t : w->targets) delete t; delete w; }
}

// one task at a time, the next handed over the moment the last ran: the loop is then just about to look for more or to go to sleep
void pingpong(Rng &r)
{
	Loop *L = new Loop(r); auto faults = std::make_shared<Faults>(); auto stop = std::make_shared<std::atomic<bool>>(false);
	int nc = r.chance(0.6) ? 1 : int(r.range(2, 3)), ops = int(r.range(200, 3000)); double waits = r.pick({0.0, 0.0, 0.2, 1.0}); int spin = int(r.pick({0, 0, 30, 300}));
	auto left = std::make_shared<std::atomic<int>>(nc); auto total = std::make_shared<std::atomic<int>>(0);
	ctx.note("ping-pong: %d callers %d tasks %.1f waiting, up to %d spins", nc, ops, waits, spin);
	L->start(); std::vector<std::thread> cs; auto p = L->p;
	for(int i = 0; i < nc; i++) { uint64_t seed = r.next(); cs.emplace_back([=] {
		Rng g(seed); auto done = std::make_shared<std::atomic<int>>(0); auto ends = Clock::now() + std::chrono::seconds(60);
		for(int k = 1; k <= ops && !*stop; k++) {
			bool w = g.chance(waits); p->perform([=] { if(done->load(std::memory_order_relaxed) != k - 1) faults->add("order", fmt("ping-pong task %d", k)); done->store(k); }, w);
			if(w && *done != k) faults->add("not-run", "a waiting perform returned before its task ran");
			for(int n = 0; *done != k; n++) { if((n & 0xfff) == 0xfff) { if(*stop) return; if(Clock::now() > ends) { faults->add("lost-task", fmt("task %d did not run within 60 s though nothing else was to be done", k)); return; } } }
			(*total)++; for(volatile int x = spin ? int(g.u(spin)) : 0; x > 0; x = x - 1) ;
		}
		(*left)--; }); }
	bool ok = waitFor([&] { if(*left == 0) return true; std::lock_guard<std::mutex> g(faults->m); return !faults->v.empty(); }, 80);
	if(!ok && faults->v.empty()) ctx.fail("stuck", "ping-pong callers still waiting after 80 s");
	*stop = true;
	bool bad; { std::lock_guard<std::mutex> g(faults->m); bad = !faults->v.empty(); for(auto &f : faults->v) ctx.fail(f.first.c_str(), "%s", f.second.c_str()); }
	if(bad || !ok) { for(auto &t : cs) t.detach(); L->th.detach(); return; }
	for(auto &t : cs) t.join();
	p->perform([L] { L->rl->stop(); });
	if(!waitFor([&] { return L->ended.load(); }, 60)) { ctx.fail("lost-task", "a task that stops the run loop did not run within 60 s"); L->th.detach(); return; }
	L->th.join(); ctx.h(*total); ctx.h(nc * 31 + spin); ctx.h(uint64_t(waits * 10)); ctx.nontrivial = true; ctx.stat("pingpong_tasks", *total);
	p.reset(); L->p.reset(); delete L;
}

// work handed through a PerformerPosixPlatformAdapter goes to the right thread, and none starts once the adapter is closed
void adapter(Rng &r)
{
	Loop *M = new Loop(r), *W = r.chance(0.8) ? new Loop(r) : nullptr; auto faults = std::make_shared<Faults>();
	auto pa = std::make_shared<PerformerPosixPlatformAdapter>(M->rl.get(), M->p.get(), W ? W->p.get() : nullptr);
	auto closed = std::make_shared<std::atomic<bool>>(false); auto ran = std::make_shared<std::atomic<int>>(0); auto handed = std::make_shared<std::atomic<int>>(0);
	int depth = int(r.range(0, 30)), rounds = int(r.range(1, 8)); bool close = r.chance(0.7); double closeAt = r.logreal(0.00005, 0.01); int slow = int(r.pick({0, 20, 400}));
	ctx.note("adapter: %s worker, %d rounds of %d hops%s", W ? "a" : "no", rounds, depth, close ? fmt(", closed after %.2f ms", closeAt * 1000).c_str() : "");
	auto hop = std::make_shared<std::function<void(unsigned long, int)>>();
	std::weak_ptr<std::function<void(unsigned long, int)>> weak = hop; auto apa = pa.get();
	*hop = [=] (unsigned long t, int n) {
		(*handed)++;
		bool inClosed = *closed; (void)inClosed;
		apa->perform(t, [=] {
			if(*closed) faults->add("ran-closed", "a task started after the platform adapter was closed");
			Loop *want = t && W ? W : M; if(!want->rl->isRunningInThisThread()) faults->add("wrong-thread", fmt("work for thread %lu ran elsewhere", t));
			if(slow && t) usleep(useconds_t(slow));
			(*ran)++; auto h = weak.lock(); if(n > 0 && h) (*h)(n % 2 ? 0 : t + 1, n - 1);
		});
	};
	M->start(); if(W) W->start();
	for(int i = 0; i < rounds; i++) { unsigned long t = (unsigned long)r.u(4); auto h = hop; M->p->perform([=] { (*h)(t, depth); }, r.chance(0.3)); }
	bool ok = true;
	if(close) {
		usleep(useconds_t(closeAt * 1e6));
		// work already begun on the worker may see the adapter close; it must not be mistaken for work begun later, so the worker is held still
		if(W) { auto m = std::make_shared<std::mutex>(); auto cv = std::make_shared<std::condition_variable>(); auto st = std::make_shared<int>(0);
			W->p->perform([=] { std::unique_lock<std::mutex> l(*m); *st = 1; cv->notify_all(); cv->wait_for(l, std::chrono::seconds(120), [=] { return *st == 2; }); });
			{ std::unique_lock<std::mutex> l(*m); ok = cv->wait_for(l, std::chrono::seconds(60), [=] { return *st == 1; }); }
			if(ok) M->p->perform([=] { apa->close(); *closed = true; }, true);
			{ std::unique_lock<std::mutex> l(*m); *st = 2; cv->notify_all(); } }
		else M->p->perform([=] { apa->close(); *closed = true; }, true);
		M->p->perform([=] { (*hop)(0, 0); if(W) (*hop)(1, 0); }, true);
		usleep(2000);
	} else ok = waitFor([&] { return *ran == rounds * (depth + 1); }, 60);
	if(!ok) ctx.fail("lost-task", "%d of %d pieces of work ran within 60 s", ran->load(), rounds * (depth + 1));
	for(auto l : {W, M}) if(l) { l->p->perform([l] { l->rl->stop(); }); if(!waitFor([&] { return l->ended.load(); }, 60)) { ctx.fail("lost-task", "a task that stops the run loop did not run within 60 s"); ok = false; } }
	if(!ok) { for(auto l : {W, M}) if(l) l->th.detach(); new std::shared_ptr<PerformerPosixPlatformAdapter>(pa); new std::shared_ptr<std::function<void(unsigned long, int)>>(hop); return; }
	for(auto l : {W, M}) if(l) l->th.join();
	for(auto &f : faults->v) ctx.fail(f.first.c_str(), "%s", f.second.c_str());
	ctx.h(*ran); ctx.h(depth); ctx.h(rounds * 2 + close); if(*ran) ctx.nontrivial = true; ctx.stat("adapter_tasks", *ran); if(close) ctx.stat("adapters_closed");
	for(auto l : {W, M}) if(l) l->p->close();
	pa.reset();
	for(auto l : {W, M}) if(l) { l->p.reset(); delete l; }
}

// --- sessions
struct SpreadAdapter : PosixPlatformAdapter { // any thread number may mean any worker
	Performer *mainP; std::vector<Performer *> workers; std::shared_ptr<std::atomic_bool> openFlag = std::make_shared<std::atomic_bool>(true); int slowUs;
	SpreadAdapter(RunLoop *rl, Performer *m, const std::vector<Performer *> &ws, int slow) : PosixPlatformAdapter(rl), mainP(m), workers(ws), slowUs(slow) {}
	bool perform(unsigned long thread, const Task &task) override
	{
		auto o = openFlag; int slow = thread ? slowUs : 0;
		(thread ? workers[thread % workers.size()] : mainP)->perform([o, task, slow] { if(slow) usleep(useconds_t(slow)); if(*o) task(); });
		return true;
	}
	void close() override { *openFlag = false; PosixPlatformAdapter::close(); }
};
struct Flow25 { int id, from, to; int count = 0; };
struct End {
	int idx; Loop *main; std::vector<Loop *> workers;
	std::unique_ptr<PosixPlatformAdapter> platform; std::unique_ptr<ICryptoAdapter> crypto; std::shared_ptr<RTMFP> rtmfp;
	Bytes epd; Address addr; int kind;
	// touched only on the main loop's thread
	std::map<int, std::shared_ptr<SendFlow>> tx; std::vector<std::shared_ptr<RecvFlow>> rx; std::map<int, int> got;
	std::atomic<int> received{0}, finished{0}, written{0}, failed{0}, completed{0}; std::atomic<bool> shut{false};
};
Bytes body(int flow, int n, size_t len) { Bytes b(len + 8); uint32_t x = uint32_t(flow), y = uint32_t(n); memcpy(&b[0], &x, 4); memcpy(&b[4], &y, 4); Rng g(flow * 1000003ull + n); for(size_t i = 8; i < b.size(); i++) b[i] = uint8_t(g.next()); return b; }
size_t lenOf(int flow, int n) { return size_t(mix64(flow * 77ull + n) % (n % 7 ? 200 : 4000)); }

struct Relay { // between every pair of endpoints: one socket per ordered peer, so addresses tell who is who
	std::vector<int> fds; std::vector<Address> addrs; std::vector<std::pair<int, int>> who; std::vector<Address> *ends; // fd k carries from who.first to who.second
	std::thread th; std::atomic<bool> stop{false}; std::atomic<int> passed{0}, dropped{0}, repeated{0}; double loss, dup, late; uint64_t seed; std::atomic<bool> clean{false};
	int at(int from, int to) { for(size_t i = 0; i < who.size(); i++) if(who[i].first == from && who[i].second == to) return int(i); return -1; }
	bool add(int from, int to) { int fd = socket(AF_INET, SOCK_DGRAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if(fd < 0 || bind(fd, (sockaddr *)&a, sizeof(a))) return false; socklen_t n = sizeof(a); getsockname(fd, (sockaddr *)&a, &n); fcntl(fd, F_SETFL, O_NONBLOCK); fds.push_back(fd); Address x; x.setSockaddr((sockaddr *)&a); addrs.push_back(x); who.push_back({from, to}); return true; }
	void run()
	{
		Rng r(seed); struct Held { Clock::time_point t; int out; Address to; Bytes b; }; std::vector<Held> held;
		while(!stop) {
			std::vector<pollfd> p; for(int f : fds) p.push_back({f, POLLIN, 0});
			poll(p.data(), p.size(), held.empty() ? 5 : 1);
			for(size_t i = 0; i < fds.size(); i++) for(;;) {
				uint8_t buf[9000]; ssize_t n = recv(fds[i], buf, sizeof(buf), 0); if(n < 0) break;
				// arrived at the socket 'from' uses to reach 'to': it leaves from the socket 'to' uses to reach 'from'
				int out = at(who[i].second, who[i].first); Address to = (*ends)[who[i].second];
				if(!clean && r.chance(loss)) { dropped++; continue; }
				int copies = !clean && r.chance(dup) ? int(r.range(2, 3)) : 1; if(copies > 1) repeated++;
				for(int c = 0; c < copies; c++) { double d = !clean && r.chance(late) ? r.logreal(0.0005, 0.05) : 0; if(d == 0) sendto(fds[out], buf, size_t(n), 0, to.getSockaddr(), to.getSockaddrLen()); else held.push_back({Clock::now() + std::chrono::microseconds(int(d * 1e6)), out, to, Bytes(buf, buf + n)}); }
				passed++;
			}
			for(size_t i = 0; i < held.size();) if(held[i].t <= Clock::now()) { sendto(fds[held[i].out], held[i].b.data(), held[i].b.size(), 0, held[i].to.getSockaddr(), held[i].to.getSockaddrLen()); held[i] = held.back(); held.pop_back(); } else i++;
		}
	}
	~Relay() { for(int f : fds) close(f); }
};

void on(End *e, const Task &t) { e->main->p->perform(t, true); }

void accept(End *e, Faults *faults, const std::shared_ptr<RecvFlow> &f)
{
	Bytes m = f->getMetadata(); int id = 0; if(m.size() != 4) { faults->add("metadata", "wrong"); return; } memcpy(&id, m.data(), 4);
	if(e->got.count(id)) faults->add("offered-twice", fmt("flow %d", id));
	e->got[id] = 0; e->rx.push_back(f);
	if(!e->main->rl->isRunningInThisThread()) faults->add("wrong-thread", "onRecvFlow outside the main loop");
	f->onMessage = [=] (const uint8_t *p, size_t n, uintmax_t, size_t) {
		if(!e->main->rl->isRunningInThisThread()) faults->add("wrong-thread", "onMessage outside the main loop");
		int &k = e->got[id]; Bytes want = body(id, k, lenOf(id, k)); if(Bytes(p, p + n) != want) faults->add("delivery", fmt("flow %d message %d differs", id, k));
		k++; e->received++;
	};
	f->onComplete = [=] (bool) { e->completed++; };
	f->accept();
}

void sessions(Rng &r)
{
	Faults *faults = new Faults(); int n = int(r.chance(0.8) ? 2 : 3);
	std::vector<End *> es; std::vector<Loop *> all; auto *ends = new std::vector<Address>(n); Relay *relay = new Relay(); relay->ends = ends;
	relay->loss = r.chance(0.5) ? 0 : r.real(0, 0.1); relay->dup = r.chance(0.3) ? 0 : r.real(0.1, 0.9); relay->late = r.chance(0.5) ? 0 : r.real(0, 0.4); relay->seed = r.next();
	bool up = true; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(i != j) up = up && relay->add(i, j);
	if(!up) { ctx.fail("setup", "no loopback sockets"); return; }
	bool flash = r.chance(0.7); Loop *sharedWorker = nullptr; if(r.chance(0.3)) { sharedWorker = new Loop(r); all.push_back(sharedWorker); }
	std::string d;
	for(int i = 0; i < n; i++) {
		End *e = new End(); e->idx = i; e->main = new Loop(r); all.push_back(e->main); es.push_back(e);
		int kind = e->kind = int(r.u(5)); // 0 plain adapter, 1 performer without worker, 2,3 one worker, 4 several
		int slow = r.chance(0.5) ? 0 : int(r.logreal(10, 5000));
		if(kind >= 2) { int k = kind == 4 ? int(r.range(2, 3)) : 1; for(int x = 0; x < k; x++) { if(kind < 4 && sharedWorker) e->workers.push_back(sharedWorker); else { Loop *l = new Loop(r); all.push_back(l); e->workers.push_back(l); } } }
		if(kind == 0) e->platform.reset(new PosixPlatformAdapter(e->main->rl.get()));
		else if(kind < 4) e->platform.reset(new PerformerPosixPlatformAdapter(e->main->rl.get(), e->main->p.get(), e->workers.empty() ? nullptr : e->workers[0]->p.get()));
		else { std::vector<Performer *> ps; for(auto l : e->workers) ps.push_back(l->p.get()); e->platform.reset(new SpreadAdapter(e->main->rl.get(), e->main->p.get(), ps, slow)); }
		if(flash) { struct G : FlashCryptoAdapter_OpenSSL { std::vector<int> getSupportedDHGroups() const override { return {2}; } }; G *g = new G(); g->setHMACRecvRequired(r.chance(0.5)); g->setSSeqSendAlways(r.chance(0.5)); g->setHMACSendAlways(r.chance(0.3)); g->init(r.chance(0.5), r.chance(0.5), nullptr); e->epd = g->getCanonicalEPD(); e->crypto.reset(g); }
		else { std::string nm = fmt("end%d", i); e->epd = Bytes(nm.begin(), nm.end()); e->crypto.reset(new PlainCryptoAdapter(nm.c_str())); }
		e->rtmfp = share_ref(new RTMFP(e->platform.get(), e->crypto.get()), false);
		e->platform->setRtmfp(e->rtmfp.get());
		e->platform->onShutdownCompleteCallback = [e] { e->shut = true; };
		sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		auto ad = e->platform->addUdpInterface((sockaddr *)&a);
		if(!ad) { ctx.fail("setup", "no UDP interface"); return; }
		(*ends)[i] = *ad;
		e->rtmfp->onRecvFlow = [e, faults] (std::shared_ptr<RecvFlow> f) { accept(e, faults, f); };
		d += fmt("%d:%s%s ", i, kind == 0 ? "posix" : kind == 1 ? "performer" : kind < 4 ? "worker" : "spread", slow && kind == 4 ? fmt(" slow %d us", slow).c_str() : "");
	}
	for(auto l : all) l->start();
	relay->th = std::thread([relay] { relay->run(); });
	int style = int(r.u(4)); // 0,1 complete and shut down; 2 closed abruptly; 3 shutdown amid traffic
	double stopAt = r.logreal(0.0005, 0.3);
	ctx.note("%s %s loss %.2f repeat %.2f late %.2f style %d%s", d.c_str(), flash ? "flash" : "plain", relay->loss, relay->dup, relay->late, style, style >= 2 ? fmt(" after %.1f ms", stopAt * 1000).c_str() : "");
	// flows
	struct Plan { int id, from, to, msgs; }; std::vector<Plan> plan; int k = int(r.range(1, 6)); int total = 0;
	for(int i = 0; i < k; i++) { int a = int(r.u(n)), b = (a + 1 + int(r.u(n - 1))) % n; plan.push_back({i + 1, a, b, int(r.range(1, 30))}); total += plan.back().msgs; }
	for(auto &p : plan) {
		End *e = es[p.from], *to = es[p.to]; Address via = relay->addrs[relay->at(p.from, p.to)];
		// all copies made here: the other endpoint's members belong to its thread
		Bytes epd = to->epd; Plan q = p;
		auto go = [e, epd, q, via, faults] {
			Bytes m(4); memcpy(m.data(), &q.id, 4);
			auto f = e->rtmfp->openFlow(epd.data(), epd.size(), m.data(), m.size(), PRI_ROUTINE); if(!f) return;
			f->addCandidateAddress(via); e->tx[q.id] = f; 
			f->onException = [e] (uintmax_t) { e->failed++; };
			auto left = std::make_shared<int>(0);
			f->onWritable = [e, q, left, faults] () -> bool {
				auto f = e->tx[q.id]; if(!f) return false;
				for(int c = 0; c < 5 && *left < q.msgs; c++) { Bytes b = body(q.id, *left, lenOf(q.id, *left)); (*left)++; auto rc = f->write(b.data(), b.size()); e->written++; if(rc) { rc->onFinished = [e, faults] (bool) { if(!e->main->rl->isRunningInThisThread()) faults->add("wrong-thread", "onFinished outside the main loop"); e->finished++; }; } else faults->add("write", "refused"); }
				return *left < q.msgs; };
			f->notifyWhenWritable();
		};
		if(e->kind == 0 && r.chance(0.2)) e->main->p->perform(go, true); else e->main->p->perform(go, r.chance(0.5));
		if(r.chance(0.3)) usleep(useconds_t(r.u(3000)));
	}
	auto got = [&] { int x = 0; for(auto e : es) x += e->received; return x; };
	auto failed = [&] { int x = 0; for(auto e : es) x += e->failed; return x; };
	if(style < 2) {
		if(r.chance(0.5)) relay->clean = true;
		bool ok = waitFor([&] { return got() >= total || failed(); }, 6); relay->clean = true;
		if(!ok) ok = waitFor([&] { return got() >= total || failed(); }, 90);
		if(!ok) ctx.fail("stuck", "%d of %d messages arrived within 96 s", got(), total);
		if(failed()) ctx.fail("flow-failed", "%d flows failed", failed());
		if(ok) { bool fin = waitFor([&] { int x = 0; for(auto e : es) x += e->finished; return x >= total; }, 60); if(!fin) ctx.fail("stuck", "receipts unfinished 60 s after everything arrived"); }
		ctx.stat("sessions_complete"); ctx.stat("messages", got());
	} else usleep(useconds_t(stopAt * 1e6));
	bool hung = false;
	if(style == 2) {
		for(auto e : es) if(r.chance(0.8)) e->main->p->perform([e] { e->platform->close(); }, r.chance(0.5));
		ctx.stat("closed_abruptly");
	} else {
		for(auto e : es) on(e, [e] { e->rtmfp->shutdown(false); });
		relay->clean = true;
		bool ok = waitFor([&] { for(auto e : es) if(!e->shut) return false; return true; }, 3); // a session only one end knows of says goodbye for 90 s: not waited for
		if(ok) ctx.stat("shutdowns_complete");
	}
	// stop every loop, join, then destroy
	for(auto l : all) l->p->perform([l] { l->rl->stop(); });
	for(auto l : all) if(!waitFor([&] { return l->ended.load(); }, 60)) { ctx.fail("lost-task", "a task that stops the run loop did not run within 60 s"); hung = true; }
	relay->stop = true; relay->th.join();
	if(hung) { for(auto l : all) l->th.detach(); return; }
	for(auto l : all) l->th.join();
	for(auto &f : faults->v) ctx.fail(f.first.c_str(), "%s", f.second.c_str());
	int mask = 0; for(auto e : es) { ctx.h(e->received); mask = mask * 31 + e->kind; if(e->kind >= 2) ctx.stat("worker_endpoints"); } ctx.h(mask); ctx.h(relay->seed);
	if(relay->passed) ctx.nontrivial = true;
	ctx.stat("packets_relayed", relay->passed); ctx.stat("packets_dropped", relay->dropped); ctx.stat("packets_repeated", relay->repeated);
	for(auto e : es) { e->tx.clear(); e->rx.clear(); e->platform->close(); }
	for(auto l : all) l->p->close();
	for(auto e : es) e->rtmfp.reset();
	for(auto l : all) { l->p.reset(); }
	for(auto l : all) { l->rl->clear(); l->rl.reset(); delete l; }
	for(auto e : es) delete e;
	delete relay; delete ends; delete faults;
}
} // namespace

void runCase(Rng &r, uint64_t)
{
	switch(r.u(20)) { case 0: case 1: case 2: case 3: case 4: case 5: performers(r); break; case 6: case 7: case 8: pingpong(r); break; case 9: case 10: adapter(r); break; default: sessions(r); break; }
}
}
