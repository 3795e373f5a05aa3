#include "base.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <time.h>
#include <exception>
#include <typeinfo>

namespace vf {

Ctx ctx;

uint64_t hash64(const void *p_, size_t n, uint64_t seed)
{
	const uint8_t *p = (const uint8_t *)p_;
	uint64_t h = mix64(seed ^ (n * 0x2545f4914f6cdd1dull));
	while(n >= 8) { uint64_t w; memcpy(&w, p, 8); h = mix64(h ^ w); p += 8; n -= 8; }
	uint64_t w = 0;
	if(n) memcpy(&w, p, n);
	return mix64(h ^ w ^ (uint64_t(n) << 56));
}

std::string fmt(const char *f, ...)
{
	char buf[2048];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	return buf;
}

std::string hex(const void *p_, size_t n, size_t max)
{
	const uint8_t *p = (const uint8_t *)p_;
	std::string s;
	for(size_t i = 0; i < n && i < max; i++) { char b[3]; snprintf(b, sizeof b, "%02x", p[i]); s += b; }
	if(n > max) s += fmt("..(%zu)", n);
	return s;
}

std::string jesc(const std::string &s)
{
	std::string o;
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += char(c); }
		else if(c == '\n') o += "\\n";
		else if(c < 32 || c > 126) o += fmt("\\u%04x", c);
		else o += char(c);
	}
	return o;
}

void Ctx::fail(const char *key, const char *f, ...)
{
	if(failed) return;
	failed = true;
	char buf[2048];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	failKey = key;
	failDetail = buf;
	if(verbose) fprintf(stderr, "FAIL %s: %s\n", key, buf);
}

void Ctx::note(const char *f, ...)
{
	if(!verbose && trail.size() > 60) return;
	char buf[1024];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	trail.push_back(buf);
	if(verbose) fprintf(stderr, "  %s\n", buf);
}

} // namespace vf

using namespace vf;

static double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv)
{
	uint64_t worker = 0, nworkers = 1, from = 0, only = UINT64_MAX, cases = 0;
	double budget = 1e9;
	std::string out, progress, skip;
	for(int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
		if(a == "--seed") ctx.seed = strtoull(val(), 0, 10);
		else if(a == "--worker") worker = strtoull(val(), 0, 10);
		else if(a == "--nworkers") nworkers = strtoull(val(), 0, 10);
		else if(a == "--from") from = strtoull(val(), 0, 10);
		else if(a == "--case") only = strtoull(val(), 0, 10);
		else if(a == "--cases") cases = strtoull(val(), 0, 10);
		else if(a == "--budget") budget = atof(val());
		else if(a == "--out") out = val();
		else if(a == "--progress") progress = val();
		else if(a == "--prop") ctx.prop = val();
		else if(a == "--thorough") ctx.thorough = true;
		else if(a == "-v") ctx.verbose = true;
	}
	rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	if(!cases) cases = driverCases(ctx.thorough);
	int pfd = progress.empty() ? -1 : open(progress.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
	double start = mono();
	uint64_t done = 0, failures = 0;
	std::map<std::string, int> keys;
	std::string viol;
	driverInit();
	uint64_t i;
	bool budgetHit = false;
	for(i = (only != UINT64_MAX) ? only : from + worker; i < cases || only != UINT64_MAX; i += nworkers) {
		if(only == UINT64_MAX && mono() - start > budget) { budgetHit = true; break; }
		if(pfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20llu\n", (unsigned long long)i); if(pwrite(pfd, b, n, 0) < 0) {} }
		ctx.caseIndex = i; ctx.failed = false; ctx.trail.clear(); ctx.nontrivial = false; ctx.caseHash = 0;
		Rng rng(ctx.seed * 0x9e3779b97f4a7c15ull ^ mix64(i + 77) ^ hash64(ctx.prop.data(), ctx.prop.size()));
		srand(unsigned(rng.next()));
		runCase(rng, i);
		done++;
		ctx.evaluations++;
		if(ctx.nontrivial) ctx.distinct.insert(ctx.caseHash);
		if(ctx.failed) {
			failures++;
			if(keys[ctx.failKey]++ < 2) {
				std::string t;
				for(auto &s : ctx.trail) t += s + "\n";
				viol += fmt("%s{\"case\":%llu,\"key\":\"%s\",\"detail\":\"%s\",\"trail\":\"", viol.empty() ? "" : ",", (unsigned long long)i, ctx.failKey.c_str(), jesc(ctx.failDetail).c_str());
				viol += jesc(t) + "\"}";
			}
			if(only != UINT64_MAX || ctx.verbose) {
				printf("case %llu FAILED %s: %s\n", (unsigned long long)i, ctx.failKey.c_str(), ctx.failDetail.c_str());
			}
			if(failures >= 20) break;
		}
		if(only != UINT64_MAX) break;
	}
	ctx.failed = false;
	driverDone();
	if(ctx.failed)
		viol += fmt("%s{\"case\":-1,\"key\":\"%s\",\"detail\":\"%s\",\"trail\":\"\"}", viol.empty() ? "" : ",", ctx.failKey.c_str(), jesc(ctx.failDetail).c_str());
	std::string js = fmt("{\"evaluations\":%llu,\"failures\":%llu,\"budget_hit\":%s,\"wall\":%.2f,\"rule\":\"", (unsigned long long)ctx.evaluations, (unsigned long long)failures, budgetHit ? "true" : "false", mono() - start);
	js += jesc(driverRule());
	js += "\",\"stats\":{";
	bool first = true;
	for(auto &kv : ctx.stats) { js += fmt("%s\"%s\":%.10g", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
	js += "},\"samples\":[";
	first = true;
	for(auto &s : ctx.samples) { js += (first ? "\"" : ",\"") + jesc(s) + "\""; first = false; }
	js += "],\"hashes\":[";
	first = true;
	for(auto h : ctx.distinct) { js += fmt("%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
	js += "],\"violations\":[" + viol + "]}\n";
	if(out.empty()) { if(only == UINT64_MAX) { size_t hp = js.find(",\"hashes\""); fputs(js.substr(0, hp).c_str(), stdout); printf("}\ndistinct=%zu\n", ctx.distinct.size()); if(!viol.empty()) printf("VIOLS [%s]\n", viol.c_str()); } }
	else {
		FILE *f = fopen((out + ".tmp").c_str(), "w");
		fwrite(js.data(), 1, js.size(), f); fclose(f);
		rename((out + ".tmp").c_str(), out.c_str());
	}
	return (failures || !viol.empty()) ? 3 : 0;
}
