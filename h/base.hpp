#pragma once
// Shared base of every driver: deterministic PRNG, violation reporting, statistics, case loop.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <map>
#include <set>
#include <list>
#include <string>
#include <vector>
#include <deque>
#include <memory>
#include <functional>
#include <algorithm>
#include <unordered_set>

namespace vf {

using Bytes = std::vector<uint8_t>;

inline uint64_t mix64(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

struct Rng {
	uint64_t s = 1;
	explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	uint64_t u(uint64_t n) { return n ? next() % n : 0; }               // [0, n)
	uint64_t range(uint64_t a, uint64_t b) { return a + u(b - a + 1); }  // [a, b]
	double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double real(double a, double b) { return a + real() * (b - a); }
	bool chance(double p) { return real() < p; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[u(v.size())]; }
	template <class T> const T &pick(std::initializer_list<T> v) { return *(v.begin() + u(v.size())); }
	Bytes bytes(size_t n) { Bytes b(n); for(size_t i = 0; i < n; i++) b[i] = uint8_t(next()); return b; }
	double logreal(double a, double b) { return a * std::exp(real() * std::log(b / a)); }
	uint64_t bits() { return next() >> u(64); } // all magnitudes
};

uint64_t hash64(const void *p, size_t n, uint64_t seed = 0);
inline uint64_t hash64(const Bytes &b, uint64_t seed = 0) { return hash64(b.data(), b.size(), seed); }

std::string hex(const void *p, size_t n, size_t max = 48);
inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string jesc(const std::string &s);

// --- per-run context

struct Ctx {
	std::string prop;
	uint64_t seed = 1;
	bool thorough = false;
	bool verbose = false;
	uint64_t caseIndex = 0;
	bool failed = false;            // in the current case
	std::string failKey, failDetail;
	std::vector<std::string> trail;  // short narrative of the current case, printed with a violation
	std::map<std::string, double> stats;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
	uint64_t evaluations = 0;
	bool nontrivial = false;         // current case satisfied the rule
	uint64_t caseHash = 0;           // identity of the current case (what happened, not its index)

	void fail(const char *key, const char *f, ...) __attribute__((format(printf, 3, 4)));
	void note(const char *f, ...) __attribute__((format(printf, 2, 3)));
	void stat(const char *k, double v = 1) { stats[k] += v; }
	void statmax(const char *k, double v) { auto it = stats.find(k); if(it == stats.end() || it->second < v) stats[k] = v; }
	void h(uint64_t x) { caseHash = mix64(caseHash ^ x); }
	void sample(const std::string &s) { if(samples.size() < 4) samples.push_back(s); }
};

extern Ctx ctx;

#define CHECK(cond, key, ...) do { if(!(cond)) ::vf::ctx.fail(key, __VA_ARGS__); } while(0)

// Each driver defines these.
const char *driverRule();
void runCase(Rng &rng, uint64_t index); // one case
uint64_t driverCases(bool thorough);    // how many cases in total
void driverInit();
void driverDone();

} // namespace vf
