// C28: Retainer / share_ref / Object reference counts against a counting model, racing releases between threads, RateTracker against an independent model.
#include "base.hpp"
#include "rtmfp/Retainer.hpp"
#include "rtmfp/Object.hpp"
#include "rtmfp/RateTracker.hpp"
#include <thread>
#include <atomic>
using namespace com::zenomt;
namespace vf {
const char *driverRule() { return "one case = a random history of Retainer/shared_ptr operations over a small object graph with the exact set of live objects compared after each, or threads racing to drop references, or a random rate-tracker history; non-trivial when at least one object died or a non-zero rate was compared; distinct by the history of counts or rates"; }
uint64_t driverCases(bool t) { return t ? 3000000 : 60000; }
void driverInit() {}
void driverDone() {}

static std::map<int, int> *deaths;
struct Other { virtual ~Other() {} long pad = 3; };
struct O : public Object { int id; Retainer<O> link; explicit O(int i) : id(i) {} ~O() { if(deaths) (*deaths)[id]++; } };
struct D : public Other, public O { explicit D(int i) : O(i) {} long x = 5; }; // O is not at offset 0: conversions must adjust

struct Graph {
	Rng &r; std::map<int, int> dead; std::map<int, bool> isD; int nextId = 1;
	std::vector<Retainer<O>> o; std::vector<Retainer<D>> d; std::vector<std::shared_ptr<O>> s; // roots
	std::vector<int> mo, md, ms; std::map<int, int> link; std::map<int, O *> raw; std::map<int, int> manual; // model: ids, 0 = null
	explicit Graph(Rng &r) : r(r), o(4), d(3), s(3), mo(4), md(3), ms(3) { deaths = &dead; }
	~Graph() { o.clear(); d.clear(); s.clear(); deaths = nullptr; }
	std::set<int> alive() { // reachable from roots, following links; a cycle keeps itself alive, so links only point to younger ids
		std::map<int, int> rc; for(int i : mo) rc[i]++; for(int i : md) rc[i]++; for(int i : ms) rc[i]++; for(auto &p : manual) rc[p.first] += p.second;
		std::set<int> live; std::vector<int> todo; for(auto &p : rc) if(p.first && p.second > 0) todo.push_back(p.first);
		while(!todo.empty()) { int i = todo.back(); todo.pop_back(); if(!i || !live.insert(i).second) continue; auto l = link.find(i); if(l != link.end() && l->second) todo.push_back(l->second); }
		return live;
	}
	void check(const char *op) {
		auto live = alive();
		for(int i = 1; i < nextId; i++) { int ex = live.count(i) ? 0 : 1; CHECK(dead[i] == ex, "refcount-destroyed", "after %s: object %d destroyed %d times, expected %d", op, i, dead[i], ex); }
		for(size_t i = 0; i < o.size(); i++) { CHECK((o[i].get() ? o[i]->id : 0) == mo[i], "retainer-value", "after %s: slot %zu", op, i); CHECK(o[i].empty() == !mo[i] && bool(o[i]) == !!mo[i] && (o[i] == nullptr) == !mo[i] && (nullptr != o[i]) == !!mo[i], "retainer-null-query", "after %s", op); }
		for(size_t i = 0; i < d.size(); i++) { CHECK((d[i].get() ? d[i]->id : 0) == md[i], "retainer-value", "after %s: derived slot %zu", op, i); if(d[i]) CHECK(d[i]->x == 5 && (*d[i]).pad == 3, "retainer-conversion", "after %s", op); }
		for(size_t i = 0; i < s.size(); i++) CHECK((s[i] ? s[i]->id : 0) == ms[i], "share-value", "after %s", op);
		size_t a = r.u(o.size()), b = r.u(o.size()), c = r.u(d.size());
		CHECK((o[a] == o[b]) == (mo[a] == mo[b]) && (o[a] != o[b]) == (mo[a] != mo[b]) && (o[a] == d[c]) == (mo[a] == md[c]), "retainer-equality", "after %s", op);
		O *pa = o[a].get(), *pb = o[b].get();
		CHECK((o[a] < o[b]) == std::less<O *>()(pa, pb) && (o[a] > o[b]) == std::less<O *>()(pb, pa) && (o[a] <= o[b]) == !std::less<O *>()(pb, pa) && (o[a] >= o[b]) == !std::less<O *>()(pa, pb), "retainer-order", "after %s", op);
		CHECK((o[a] > nullptr) == !!pa && (o[a] < nullptr) == false && (nullptr < o[a]) == !!pa && (o[a] >= nullptr) && (o[a] <= nullptr) == !pa && (nullptr >= o[a]) == !pa && (nullptr <= o[a]) && !(nullptr > o[a]), "retainer-order-null", "after %s", op);
		for(int i : live) ctx.h(i); if(live.size() + 1 < size_t(nextId)) ctx.nontrivial = true;
	}
	void run() {
		int n = int(r.range(1, 60));
		for(int k = 0; k < n && !ctx.failed; k++) {
			size_t a = r.u(o.size()), b = r.u(o.size()), c = r.u(d.size()), e = r.u(d.size()), p = r.u(s.size()), q = r.u(s.size()); std::string op;
			switch(r.u(24)) {
			case 0: { op = "claim"; O *x = new O(nextId); raw[nextId] = x; o[a] = claim_ref(x); mo[a] = nextId++; break; }
			case 1: { op = "owning ctor"; D *x = new D(nextId); raw[nextId] = x; isD[nextId] = true; d[c] = Retainer<D>(x, false); md[c] = nextId++; break; }
			case 2: { op = "derived claim to base"; D *x = new D(nextId); raw[nextId] = x; isD[nextId] = true; o[a] = claim_ref(x); mo[a] = nextId++; break; }
			case 3: op = "copy assign"; o[a] = o[b]; mo[a] = mo[b]; break;
			case 4: op = "copy assign derived"; o[a] = d[c]; mo[a] = md[c]; break;
			case 5: op = "move assign"; if(a == b) { op = ""; break; } o[a] = std::move(o[b]); mo[a] = mo[b]; mo[b] = 0; break;
			case 6: op = "move assign derived"; o[a] = std::move(d[c]); mo[a] = md[c]; md[c] = 0; break;
			case 7: op = "self copy"; { auto &x = o[a]; o[a] = x; } break;
			case 8: { op = "self move"; auto &x = o[a]; o[a] = std::move(x); if(!o[a]) mo[a] = 0; break; } // may empty it, but consistently
			case 9: op = "swap"; o[a].swap(o[b]); std::swap(mo[a], mo[b]); break;
			case 10: op = "swap derived"; d[c].swap(d[e]); std::swap(md[c], md[e]); break;
			case 11: op = "reset"; o[a].reset(); mo[a] = 0; break;
			case 12: op = "reset derived"; d[c].reset(); md[c] = 0; break;
			case 13: op = "assign null"; o[a] = nullptr; mo[a] = 0; break;
			case 14: { op = "copy construct"; Retainer<O> x(o[a]), y(d[c]), z(std::move(x)), w2(y.get()), v(retain_ref(z.get())); CHECK(x.empty() && z == o[a] && w2 == d[c] && v == o[a], "retainer-construct", "values"); Retainer<D> m1(d[c]); Retainer<O> m2(std::move(m1)); CHECK(m1.empty() && m2 == d[c], "retainer-construct", "converting move"); break; }
			case 15: op = "raw assign"; o[a] = o[b].get(); mo[a] = mo[b]; break;
			case 16: op = "share_ref"; s[p] = share_ref(o[a].get()); ms[p] = mo[a]; break;
			case 17: { op = "share_ref owning"; O *x = new O(nextId); raw[nextId] = x; s[p] = share_ref(x, false); ms[p] = nextId++; break; }
			case 18: op = "shared copy"; s[p] = s[q]; ms[p] = ms[q]; break;
			case 19: op = "shared to retainer"; o[a] = s[p].get(); mo[a] = ms[p]; break;
			case 20: op = "shared reset"; s[p].reset(); ms[p] = 0; break;
			case 21: { // links to older objects only, so there are no cycles
				if(!mo[a] || mo[b] >= mo[a]) break; op = "link"; o[a]->link = o[b]; link[mo[a]] = mo[b]; break; }
			case 22: if(!mo[a]) break; if(r.chance(0.5)) { op = "follow link"; int l = link[mo[a]]; o[a] = o[a]->link; mo[a] = l; } else { op = "move out of link"; int self = mo[a], l = link[self]; link[self] = 0; o[a] = std::move(o[a]->link); mo[a] = l; } break;
			default: { int id = mo[a]; if(!id) break; if(r.chance(0.5)) { op = "retain"; if(r.chance(0.5)) o[a]->retain(); else Object::retain(o[a].get()); manual[id]++; } else if(!manual.empty()) { auto it = manual.begin(); std::advance(it, r.u(manual.size())); op = "release"; O *x = raw[it->first]; if(--it->second == 0) manual.erase(it); if(r.chance(0.5)) x->release(); else Object::release(x); } Object::retain(nullptr); Object::release(nullptr); }
			}
			if(op.empty()) continue;
			ctx.note("%s", op.c_str()); check(op.c_str()); ctx.stat("retainer_ops");
		}
		for(auto &p : manual) for(int i = 0; i < p.second; i++) raw[p.first]->release();
		manual.clear();
		for(size_t i = 0; i < o.size(); i++) { o[i].reset(); mo[i] = 0; } for(size_t i = 0; i < d.size(); i++) { d[i] = nullptr; md[i] = 0; } for(size_t i = 0; i < s.size(); i++) { s[i].reset(); ms[i] = 0; }
		if(!ctx.failed) check("dropping everything");
	}
};

// --- races
static std::atomic<int> rborn, rdead;
struct R : public Object { std::string s = "alive and well and long enough to be on the heap"; R() { rborn++; } ~R() { s.clear(); rdead++; } };
static void races(Rng &r)
{
	int nt = int(r.range(2, 4)), rounds = 60; rborn = rdead = 0;
	std::vector<R *> objs; for(int i = 0; i < rounds; i++) objs.push_back(new R());
	for(auto x : objs) for(int t = 1; t < nt; t++) x->retain(); // one reference per thread
	std::atomic<int> at{0}; std::atomic<long> reads{0}; std::vector<std::thread> th; uint64_t seed = r.next();
	std::vector<std::atomic<int>> gate(rounds); for(auto &g : gate) g = 0;
	for(int t = 0; t < nt; t++) th.emplace_back([&, t] {
		Rng q(seed + t);
		for(int i = 0; i < rounds; i++) {
			gate[i]++; for(int spin = 0; gate[i] < nt && spin < 100000; spin++) if(spin > 1000) std::this_thread::yield();
			R *x = objs[i]; int k = int(q.u(6));
			switch(q.u(4)) {
			case 0: { auto a = claim_ref(x); for(int j = 0; j < k; j++) { auto b = a; reads += b->s.size(); } break; }
			case 1: { auto a = share_ref(x, false); for(int j = 0; j < k; j++) { auto b = share_ref(x); reads += b->s.size(); } break; }
			case 2: { x->retain(); x->release(); reads += x->s.size(); x->release(); break; }
			default: { Retainer<Object> a = claim_ref(x); auto b = a; a.reset(); break; }
			}
		}
	});
	for(auto &t : th) t.join();
	CHECK(rborn == rounds && rdead == rounds, "refcount-race", "%d objects created, %d destroyed after %d threads dropped their references", rborn.load(), rdead.load(), nt);
	ctx.stat("raced_objects", rounds); ctx.nontrivial = true; ctx.h(seed);
}

// --- rates
static void rates(Rng &r)
{
	Duration w = r.chance(0.2) ? 1 : r.logreal(0.001, 100); bool dflt = r.chance(0.2); if(dflt) w = 1;
	auto t = dflt ? share_ref(new RateTracker(), false) : share_ref(new RateTracker(w), false);
	Time now = r.real(-10, 1000);
	// model: the window in progress and what the previous one left
	bool any = false; Time begin = 0; long double count = 0, prev = 0; std::vector<std::pair<Time, size_t>> log;
	auto model = [&] (Time n) -> long double {
		if(!any) return 0; Time d = std::max(Time(0), n - begin);
		if(d >= 2 * w) return 0; if(d >= w) return count / w * (2 - d / w);
		return count / w + prev * (1 - d / w);
	};
	CHECK(t->getWindowPeriod() == w, "rate-window", "%Lf", t->getWindowPeriod()); CHECK(t->getRate(now) == 0, "rate-initial", "%g", t->getRate(now));
	int n = int(r.range(1, 60));
	for(int i = 0; i < n && !ctx.failed; i++) {
		switch(r.u(10)) {
		case 0: case 1: case 2: case 3: case 4: {
			size_t c = r.chance(0.1) ? 0 : r.range(1, 100000); ctx.note("update %zu at %.6Lf", c, now);
			t->update(c, now);
			if(any && now < begin) break; // time went backwards: ignored
			if(!any || now - begin >= w) { prev = double(model(now)); begin = now; count = 0; any = true; }
			count += c; log.push_back({now, c}); break;
		}
		case 5: case 6: now += w * r.logreal(0.001, 0.9); break;
		case 7: now += w * r.logreal(0.5, 5); break;
		case 8: if(r.chance(0.3)) now -= w * r.real(0, 0.5); break;
		default: if(r.chance(0.2)) { t->reset(); any = false; prev = 0; count = 0; log.clear(); ctx.note("reset"); } else if(r.chance(0.3)) { w = r.chance(0.1) ? 0 : r.logreal(0.001, 100); t->setWindowPeriod(w); w = std::max(w, Duration(0.000001)); CHECK(t->getWindowPeriod() == w, "rate-window", "%Lf", t->getWindowPeriod()); log.clear(); ctx.note("window %.6Lf", w); }
		}
		Time q = now + (r.chance(0.5) ? 0 : w * r.real(0, 3)); double got = t->getRate(q); long double ex = model(q);
		CHECK(got == got && got >= 0 && std::isfinite(got), "rate-not-a-rate", "%g at %.6Lf", got, q);
		CHECK(std::fabs(got - ex) <= 1e-9L * (1 + ex), "rate-differs", "%.9g expected %.9Lg at %.6Lf (window %.6Lf began %.6Lf, %.0Lf bytes, before that %.6Lg)", got, ex, q, w, begin, count, prev);
		// independent bounds: nothing when nothing was counted in two windows, at most what was counted in three
		if(got > 0) ctx.nontrivial = true; ctx.h(uint64_t(got)); ctx.stat("rates_compared");
	}
	// steady traffic is measured within the granularity of its updates
	Duration w2 = r.logreal(0.01, 10), dt = w2 / r.range(20, 200); size_t c = r.range(1, 100000); RateTracker *p = new RateTracker(w2); Time z = 1000; double real = c / dt;
	for(int i = 0; i < 1000; i++) { p->update(c, z); z += dt; if(i > 450) { double g = p->getRate(z); CHECK(g > real * 0.88 && g < real * 1.12, "rate-steady", "steady %g measured as %g (window %Lg, step %Lg)", real, g, w2, dt); } }
	double g0 = p->getRate(z + 2 * w2); CHECK(g0 == 0, "rate-idle", "%g two windows after the last data", g0);
	p->release();
}
void runCase(Rng &r, uint64_t)
{
	const char *e = getenv("VF_RACES"); 
	if(e || ctx.prop == "races" || r.chance(0.05)) races(r);
	else if(r.chance(0.6)) { Graph g(r); g.run(); } else rates(r);
}
}
