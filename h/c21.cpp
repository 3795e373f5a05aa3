// C21: IndexSet against a run model over a compressed universe (windows at 0, in the middle and at the very top), List/SumList against std::list.
#include "base.hpp"
#include "rtmfp/IndexSet.hpp"
#include "rtmfp/List.hpp"
#include <list>
using namespace com::zenomt;
namespace vf {
const char *driverRule() { return "one case = a sequence of up to 120 operations on 3 index sets or 3 lists, the whole observable state compared with an independent model after every operation; non-trivial when at least one operation changed the state; distinct by the sequence of states reached"; }
uint64_t driverCases(bool t) { return t ? 3000000 : 60000; }
void driverInit() {}
void driverDone() {}

// --- index sets. Universe: 3 windows of W indices, each represented exactly, plus the gaps between them as one cell each.
static const int W = 20;
static const uint64_t BASES[3] = { 0, 0x8000000000000000ull - 7, UINT64_MAX - (W - 1) };
static const int CELLS = 3 * W + 2; // [w0][gap][w1][gap][w2]
static uint64_t cellLo(int c) { if(c < W) return c; if(c == W) return W; if(c < 2 * W + 1) return BASES[1] + (c - W - 1); if(c == 2 * W + 1) return BASES[1] + W; return BASES[2] + (c - 2 * W - 2); }
static uint64_t cellHi(int c) { if(c == W) return BASES[1] - 1; if(c == 2 * W + 1) return BASES[2] - 1; return cellLo(c); }
struct M {
	std::vector<bool> b = std::vector<bool>(CELLS, false);
	std::vector<std::pair<uint64_t, uint64_t>> runs() const {
		std::vector<std::pair<uint64_t, uint64_t>> r;
		for(int i = 0; i < CELLS; i++) if(b[i]) { if(i && b[i - 1]) r.back().second = cellHi(i); else r.push_back({cellLo(i), cellHi(i)}); }
		return r;
	}
};
static void compare(const IndexSet &s, const M &m, Rng &r, const char *op)
{
	auto runs = m.runs();
	std::vector<std::pair<uint64_t, uint64_t>> got;
	s.extentsDo([&] (uintmax_t a, uintmax_t b) { got.push_back({a, b}); return got.size() < 200; });
	std::string g, e;
	for(auto &x : got) g += fmt("[%llx,%llx]", (unsigned long long)x.first, (unsigned long long)x.second);
	for(auto &x : runs) e += fmt("[%llx,%llx]", (unsigned long long)x.first, (unsigned long long)x.second);
	CHECK(got == runs, "indexset-ranges", "after %s: %s expected %s", op, g.c_str(), e.c_str());
	uint64_t size = 0; bool full = false;
	for(auto &x : runs) { uint64_t n = x.second - x.first + 1; if(!n) { full = true; n = UINT64_MAX; } size += n; }
	CHECK(s.size() == size || full, "indexset-size", "after %s: %llu expected %llu for %s", op, (unsigned long long)s.size(), (unsigned long long)size, e.c_str());
	CHECK(!full || s.size() == UINT64_MAX, "indexset-full-size", "%llu", (unsigned long long)s.size());
	CHECK(s.countRanges() == runs.size() && s.empty() == runs.empty(), "indexset-count", "after %s: %zu ranges", op, s.countRanges());
	uint64_t lo = runs.empty() ? 0 : runs[0].first, hi = runs.empty() ? 0 : runs.back().second;
	CHECK(s.lowestIndex() == lo && s.highestIndex() == hi, "indexset-extremes", "after %s: %llx %llx expected %llx %llx", op, (unsigned long long)s.lowestIndex(), (unsigned long long)s.highestIndex(), (unsigned long long)lo, (unsigned long long)hi);
	if(!runs.empty()) CHECK(s.firstRange().start == lo && s.firstRange().end == runs[0].second && s.lastRange().start == runs.back().first && s.lastRange().end == hi, "indexset-first-last", "after %s", op);
	for(int i = 0; i < 12; i++) {
		int c = int(r.u(CELLS)); uint64_t v = r.chance(0.5) ? cellLo(c) : cellHi(c);
		CHECK(s.contains(v) == m.b[c], "indexset-contains", "after %s: contains(%llx) answered %d in %s", op, (unsigned long long)v, s.contains(v), e.c_str());
	}
	// iteration: first 40 indices, and the complete iteration when no gap cell is in the set
	bool all = !m.b[W] && !m.b[2 * W + 1];
	std::vector<uint64_t> ex, it;
	for(auto &x : runs) { uint64_t v = x.first; do ex.push_back(v); while(v++ < x.second && ex.size() < 41); if(!all && ex.size() >= 41) break; }
	if(all) { ex.clear(); for(auto &x : runs) { uint64_t v = x.first; do ex.push_back(v); while(v++ < x.second); } }
	size_t limit = all ? 100 : 40;
	bool rv = s.indicesDo([&] (uintmax_t v) { it.push_back(v); return it.size() < limit; });
	if(ex.size() > limit) ex.resize(limit);
	CHECK(it == ex && (rv || !all), "indexset-iterate", "after %s: %zu indices expected %zu in %s", op, it.size(), ex.size(), e.c_str());
	CHECK(rv == (all || it.size() < limit), "indexset-iterate-answer", "after %s answered %d", op, rv);
	for(auto &x : runs) ctx.h(x.first * 31 + x.second);
}
static void ranges(Rng &r)
{
	auto v = [&] () -> uint64_t { int c = int(r.u(CELLS)); return r.chance(0.5) ? cellLo(c) : cellHi(c); };
	uint64_t a = v(), b = v(), c = v(), d = v(); if(a > b) std::swap(a, b); if(c > d) std::swap(c, d);
	Range x(a, b), y(c, d);
	bool inter = !(b < c || d < a), cont = inter || (b != UINT64_MAX && b + 1 == c) || (d != UINT64_MAX && d + 1 == a), has = c >= a && d <= b;
	CHECK(x.intersects(y) == inter && x.intersects(c, d) == inter, "range-intersects", "%llx-%llx %llx-%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)d);
	CHECK(x.contiguousWith(y) == cont && x.contiguousWith(c, d) == cont, "range-contiguous", "%llx-%llx %llx-%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)d);
	CHECK(x.contains(y) == has && x.contains(c, d) == has && x.contains(c) == (c >= a && c <= b), "range-contains", "%llx-%llx %llx-%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)d);
	uint64_t n = b - a + 1; CHECK(x.size() == (n ? n : UINT64_MAX), "range-size", "%llx-%llx", (unsigned long long)a, (unsigned long long)b);
	Range z(x); z.extend(y); CHECK(z.start == std::min(a, c) && z.end == std::max(b, d), "range-extend", "%llx-%llx %llx-%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)d);
}
static void indexSets(Rng &r)
{
	std::vector<std::shared_ptr<IndexSet>> s; std::vector<M> m(3);
	for(int i = 0; i < 3; i++) s.push_back(share_ref(new IndexSet(), false));
	int n = int(r.range(1, 120));
	for(int k = 0; k < n && !ctx.failed; k++) {
		int i = int(r.u(3)), j = int(r.u(3));
		int c1 = int(r.u(CELLS)), len = int(r.chance(0.6) ? r.u(4) : r.u(25)), c2 = std::min(CELLS - 1, c1 + len);
		uint64_t a = cellLo(c1), b = cellHi(c2);
		std::string op; M before = m[i];
		switch(r.u(12)) {
		case 0: case 1: case 2: case 3: op = fmt("add %llx %llx", (unsigned long long)a, (unsigned long long)b); s[i]->add(a, b); for(int c = c1; c <= c2; c++) m[i].b[c] = true; break;
		case 4: case 5: case 6: op = fmt("remove %llx %llx", (unsigned long long)a, (unsigned long long)b); s[i]->remove(a, b); for(int c = c1; c <= c2; c++) m[i].b[c] = false; break;
		case 7: if(cellLo(c1) != cellHi(c1)) break; op = fmt("add1 %llx", (unsigned long long)a); s[i]->add(a); m[i].b[c1] = true; break;
		case 8: if(cellLo(c1) != cellHi(c1)) break; op = fmt("remove1 %llx", (unsigned long long)a); s[i]->remove(a); m[i].b[c1] = false; break;
		case 9: op = fmt("addset %d", j); s[i]->add(*s[j]); for(int c = 0; c < CELLS; c++) if(m[j].b[c]) m[i].b[c] = true; break;
		case 10: op = fmt("removeset %d", j); s[i]->remove(*s[j]); { M o = m[j]; for(int c = 0; c < CELLS; c++) if(o.b[c]) m[i].b[c] = false; } break;
		default:
			if(r.chance(0.2)) { op = "clear"; s[i]->clear(); m[i] = M(); }
			else if(r.chance(0.5)) { op = "copy"; s[i] = share_ref(new IndexSet(*s[j]), false); m[i] = m[j]; }
			else if(a != b) { op = "inverted"; s[i]->add(b, a); s[i]->remove(b, a); }
		}
		if(op.empty()) continue;
		ctx.note("set %d: %s", i, op.c_str());
		if(before.b != m[i].b) ctx.nontrivial = true;
		compare(*s[i], m[i], r, op.c_str());
		if(j != i) compare(*s[j], m[j], r, "other");
		ctx.stat("indexset_ops"); ctx.statmax("max_ranges", double(s[i]->countRanges()));
	}
	ranges(r);
}

// --- lists
struct Val { // a value that owns heap memory, to expose stale references
	std::unique_ptr<std::string> s;
	Val() : s(new std::string()) {}
	Val(const std::string &x) : s(new std::string(x)) {}
	Val(const Val &o) : s(new std::string(*o.s)) {}
	Val &operator=(const Val &o) { if(this != &o) s.reset(new std::string(*o.s)); return *this; }
	bool operator==(const Val &o) const { return *s == *o.s; }
};
using ML = std::list<std::pair<long, std::string>>;
struct L { std::shared_ptr<List<Val>> l; SumList<Val> *sum = nullptr; ML m; std::string blank; };
static ML::iterator at(ML &m, long name) { return std::find_if(m.begin(), m.end(), [=] (const std::pair<long, std::string> &p) { return p.first == name; }); }
static void compareList(L &x, Rng &r, const char *op)
{
	std::vector<std::pair<long, std::string>> fwd, back, ex(x.m.begin(), x.m.end());
	const List<Val> &cl = *x.l;
	for(long n = cl.first(); n > 0 && fwd.size() <= ex.size() + 1; n = cl.next(n)) fwd.push_back({n, *cl.at(n).s});
	for(long n = cl.last(); n > 0 && back.size() <= ex.size() + 1; n = cl.prev(n)) back.push_back({n, *cl.at(n).s});
	std::reverse(back.begin(), back.end());
	CHECK(fwd == ex, "list-forward", "after %s: %zu members expected %zu, or different members/order", op, fwd.size(), ex.size());
	CHECK(back == ex, "list-backward", "after %s: %zu members expected %zu, or different members/order", op, back.size(), ex.size());
	CHECK(cl.size() == ex.size() && cl.empty() == ex.empty(), "list-size", "after %s: %zu expected %zu", op, cl.size(), ex.size());
	if(!ex.empty()) CHECK(*cl.firstValue().s == ex[0].second && *cl.lastValue().s == ex.back().second, "list-ends", "after %s", op);
	std::vector<std::string> vals, exv; for(auto &p : ex) exv.push_back(p.second);
	x.l->valuesDo([&] (Val &v) { vals.push_back(*v.s); return true; });
	CHECK(vals == exv, "list-valuesDo", "after %s", op);
	for(int i = 0; i < 6; i++) {
		long n = long(r.u(60)) - 5; bool has = at(x.m, n) != x.m.end();
		CHECK(cl.has(n) == has && cl.isUsing(n) == (has || n == 0), "list-has", "after %s: has(%ld)=%d isUsing=%d expected %d", op, n, cl.has(n), cl.isUsing(n), has);
		bool threw = false; try { (void)cl.at(n); } catch(std::out_of_range &) { threw = true; }
		CHECK(threw == !has, "list-at-range", "after %s: at(%ld)", op, n);
		if(!has && n) CHECK(cl.next(n) == -1 && cl.prev(n) == -1, "list-next-bad", "after %s: %ld", op, n);
	}
	if(!ex.empty()) { const std::string &v = ex[r.u(ex.size())].second; long f = cl.find(Val(v)); auto it = std::find_if(ex.begin(), ex.end(), [&] (const std::pair<long, std::string> &p) { return p.second == v; }); CHECK(f == it->first, "list-find", "after %s: %ld expected %ld", op, f, it->first); }
	CHECK(cl.find(Val("absent")) == 0, "list-find-absent", "after %s", op);
	if(x.sum) { size_t s = 0; for(auto &p : ex) s += p.second.size(); CHECK(x.sum->sum() == s, "sumlist-sum", "after %s: %zu expected %zu", op, x.sum->sum(), s); }
	for(auto &p : ex) ctx.h(hash64(p.second.data(), p.second.size(), p.first));
}
static void lists(Rng &r)
{
	std::vector<L> v(3);
	for(auto &x : v) {
		if(r.chance(0.4)) { x.sum = new SumList<Val>([] (const Val &v) { return v.s->size(); }); x.l = share_ref((List<Val> *)x.sum, false); }
		else { x.blank = r.chance(0.3) ? "blank" : ""; x.l = share_ref(new List<Val>(Val(x.blank)), false); }
	}
	std::set<long> seen;
	int n = int(r.range(1, 120)), serial = 0;
	for(int k = 0; k < n && !ctx.failed; k++) {
		L &x = v[r.u(3)], &y = v[r.u(3)];
		auto anyName = [&] () -> long { if(!x.m.empty() && r.chance(0.75)) { auto it = x.m.begin(); std::advance(it, r.u(x.m.size())); return it->first; } return r.chance(0.3) ? 0 : long(r.u(60)) - 5; };
		auto fresh = [&] () { return fmt("%d-%s", serial++, std::string(r.u(20), 'x').c_str()); };
		auto expectNew = [&] (long name, const char *op) { CHECK(name > 1 && at(x.m, name) == x.m.end(), "list-name-unique", "%s gave name %ld which is in use", op, name); };
		std::string op, val = fresh(); size_t before = x.m.size();
		switch(r.u(16)) {
		case 0: case 1: { op = "append"; long nm = x.l->append(Val(val)); expectNew(nm, "append"); x.m.push_back({nm, val}); break; }
		case 2: { op = "prepend"; long nm = x.l->prepend(Val(val)); expectNew(nm, "prepend"); x.m.push_front({nm, val}); break; }
		case 3: case 4: {
			bool after = r.chance(0.5); long name = anyName(); op = fmt("add%s %ld", after ? "After" : "Before", name);
			bool ok = name == 0 || at(x.m, name) != x.m.end();
			bool noval = !x.sum && r.chance(0.2);
			long nm = -2; bool threw = false;
			try { if(noval) nm = after ? x.l->addAfter(name) : x.l->addBefore(name); else nm = after ? x.l->addAfter(Val(val), name) : x.l->addBefore(Val(val), name); } catch(std::out_of_range &) { threw = true; }
			if(!ok) { CHECK(noval ? nm == -1 : (threw || nm == -1), "list-add-bad-name", "%s answered %ld", op.c_str(), nm); break; }
			CHECK(!threw, "list-add-threw", "%s", op.c_str()); if(ctx.failed) break;
			expectNew(nm, op.c_str());
			if(noval) val = x.blank;
			auto it = name ? at(x.m, name) : (after ? x.m.begin() : x.m.end());
			if(name && after) it++;
			x.m.insert(it, {nm, val}); break;
		}
		case 5: case 6: case 7: { long name = anyName(); op = fmt("remove %ld", name); auto it = at(x.m, name); bool ok = x.l->remove(name); CHECK(ok == (it != x.m.end()), "list-remove-answer", "%s answered %d", op.c_str(), ok); if(it != x.m.end()) x.m.erase(it); break; }
		case 8: { bool first = r.chance(0.5); op = first ? "removeFirst" : "removeLast"; bool ok = first ? x.l->removeFirst() : x.l->removeLast(); CHECK(ok == !x.m.empty(), "list-remove-answer", "%s answered %d", op.c_str(), ok); if(!x.m.empty()) { if(first) x.m.pop_front(); else x.m.pop_back(); } break; }
		case 9: case 10: {
			long name = anyName(); int which = int(r.u(4)); auto it = at(x.m, name); bool ok = name == 0 || it != x.m.end(), got;
			switch(which) {
			case 0: op = fmt("rotateNameToHead %ld", name); got = x.l->rotateNameToHead(name); if(it != x.m.end()) std::rotate(x.m.begin(), it, x.m.end()); break;
			case 1: op = fmt("rotateNameToTail %ld", name); got = x.l->rotateNameToTail(name); if(it != x.m.end()) std::rotate(x.m.begin(), std::next(it), x.m.end()); break;
			case 2: op = fmt("moveNameToHead %ld", name); got = x.l->moveNameToHead(name); if(it != x.m.end()) x.m.splice(x.m.begin(), x.m, it); break;
			default: op = fmt("moveNameToTail %ld", name); got = x.l->moveNameToTail(name); if(it != x.m.end()) x.m.splice(x.m.end(), x.m, it); break;
			}
			CHECK(got == ok, "list-move-answer", "%s answered %d", op.c_str(), got); break;
		}
		case 11: { if(x.m.empty()) break; op = "append own member"; auto it = x.m.begin(); std::advance(it, r.u(x.m.size())); bool head = r.chance(0.5); long nm = head ? x.l->prepend(x.l->at(it->first)) : x.l->append(x.l->at(it->first)); expectNew(nm, "append own"); std::string s = it->second; if(head) x.m.push_front({nm, s}); else x.m.push_back({nm, s}); break; }
		case 12: {
			if(x.m.size() + y.m.size() > 60) break;
			op = "appendValuesFrom"; std::vector<std::string> add; for(auto &p : y.m) add.push_back(p.second);
			x.l->appendValuesFrom(*y.l);
			std::vector<long> names; size_t i = 0; for(long nm = x.l->first(); nm > 0 && i < 200; nm = x.l->next(nm), i++) if(i >= before) names.push_back(nm);
			CHECK(names.size() == add.size(), "list-append-values", "appended %zu of %zu", names.size(), add.size()); if(ctx.failed) break;
			for(size_t q = 0; q < add.size(); q++) { CHECK(at(x.m, names[q]) == x.m.end(), "list-name-unique", "appendValuesFrom reused %ld", names[q]); x.m.push_back({names[q], add[q]}); }
			break;
		}
		case 13: if(r.chance(0.1)) { op = "clear"; x.l->clear(); x.m.clear(); } break;
		case 14: {
			op = "safeValuesDo"; std::vector<std::string> ex, got; for(auto &p : x.m) ex.push_back(p.second);
			size_t stop = r.chance(0.3) ? r.u(10) : 1000;
			bool rv = x.l->safeValuesDo([&] (Val &val2) {
				got.push_back(*val2.s);
				if(r.chance(0.4) && !x.m.empty()) { auto it = x.m.begin(); std::advance(it, r.u(x.m.size())); x.l->remove(it->first); x.m.erase(it); }
				if(r.chance(0.4)) { std::string s = fresh(); long nm = x.l->append(Val(s)); x.m.push_back({nm, s}); }
				if(r.chance(0.05)) { x.l->clear(); x.m.clear(); }
				return got.size() <= stop;
			});
			bool stopped = ex.size() > stop; if(stopped) ex.resize(stop + 1);
			CHECK(got == ex && rv == !stopped, "list-safeValuesDo", "visited %zu members expected %zu, answered %d", got.size(), ex.size(), rv);
			ctx.stat("safe_iterations"); break;
		}
		default: { if(x.sum || x.m.empty()) break; op = "assign"; auto it = x.m.begin(); std::advance(it, r.u(x.m.size())); x.l->at(it->first) = Val(val); it->second = val; break; }
		}
		if(op.empty()) continue;
		ctx.note("%s -> %zu members", op.c_str(), x.m.size());
		if(x.m.size() != before) ctx.nontrivial = true;
		compareList(x, r, op.c_str());
		ctx.stat("list_ops"); ctx.statmax("max_list", double(x.m.size()));
	}
}
void runCase(Rng &r, uint64_t) { if(r.chance(0.5)) lists(r); else indexSets(r); }
}
