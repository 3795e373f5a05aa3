// A tiny deterministic world for demonstrations: virtual clock, endpoints with plain crypto, a network that can be told what to do.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/PlainCryptoAdapter.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/params.hpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using Bytes_ = std::vector<uint8_t>;
struct Mini;
struct MiniPlatform : IPlatformAdapter {
	Mini *m; int idx; std::shared_ptr<RTMFP> rtmfp; Address addr; std::unique_ptr<PlainCryptoAdapter> crypto; uint64_t gen = 0; int shutdowns = 0; double skew = 0;
	Time getCurrentTime() override;
	void onHowLongToSleepDidChange() override { wake(); }
	bool notifyWhenInterfaceWritable(int, const std::function<bool(void)> &f) override;
	bool writePacket(const void *bytes, size_t len, int, const struct sockaddr *addr_, socklen_t, int tos) override;
	bool perform(unsigned long, const Task &task) override;
	void onShutdownComplete() override { shutdowns++; }
	void wake();
};
struct Mini {
	long double now = 1000; uint64_t seq = 0;
	std::map<std::pair<long double, uint64_t>, std::function<void()>> q;
	std::vector<std::unique_ptr<MiniPlatform>> nodes;
	// answers delays at which copies arrive; empty: lost
	std::function<std::vector<double>(int from, int to, Bytes_ &data, int &tos)> net;
	double delay = 0.02; uint64_t packets = 0;
	void at(long double t, std::function<void()> f) { if(t < now) t = now; q[std::make_pair(t, ++seq)] = f; }
	void after(double d, std::function<void()> f) { at(now + d, f); }
	bool run(double d, std::function<bool()> cond = nullptr) {
		long double until = now + d; size_t n = 0;
		while(not q.empty() and q.begin()->first.first <= until and n++ < 3000000) { auto it = q.begin(); now = it->first.first; auto f = it->second; q.erase(it); f(); if(cond and cond()) return true; }
		if(now < until) now = until;
		return cond ? cond() : true;
	}
	MiniPlatform *add(const char *name, const char *address) {
		std::unique_ptr<MiniPlatform> p(new MiniPlatform()); p->m = this; p->idx = int(nodes.size()); p->addr.setFromPresentation(address);
		p->crypto.reset(new PlainCryptoAdapter(name));
		p->rtmfp = share_ref(new RTMFP(p.get(), p->crypto.get()), false);
		p->rtmfp->addInterface(1);
		nodes.push_back(std::move(p)); return nodes.back().get();
	}
	MiniPlatform *who(const Address &a) { for(auto &n : nodes) if(n->addr == a) return n.get(); return nullptr; }
	void send(int from, const Address &src, const Address &dst, Bytes_ data, int tos) {
		packets++;
		MiniPlatform *to = who(dst); if(!to) return;
		std::vector<double> ds{delay}; if(net) ds = net(from, to->idx, data, tos);
		for(double d : ds) { Bytes_ copy = data; int t = tos; after(d, [this, to, src, copy, t] { if(to->rtmfp) { to->rtmfp->onReceivePacket(copy.data(), copy.size(), 1, src.getSockaddr(), t); to->wake(); } }); }
	}
};
inline Time MiniPlatform::getCurrentTime() { return m->now + skew; }
inline void MiniPlatform::wake() { if(!rtmfp) return; uint64_t g = ++gen; Duration d = std::min(rtmfp->howLongToSleep(), Duration(3600)); m->after(d < 0 ? 0 : double(d) + 1e-6, [this, g] { if(g == gen and rtmfp) { rtmfp->doTimerWork(); wake(); } }); }
inline bool MiniPlatform::notifyWhenInterfaceWritable(int, const std::function<bool(void)> &f) { auto g = std::make_shared<std::function<void()>>(); auto ff = f; Mini *mm = m; *g = [ff, g, mm] { if(ff()) mm->after(1e-5, *g); }; m->after(1e-6, *g); return true; }
inline bool MiniPlatform::writePacket(const void *bytes, size_t len, int, const struct sockaddr *a, socklen_t, int tos) { m->send(idx, addr, Address(a), Bytes_((const uint8_t *)bytes, (const uint8_t *)bytes + len), tos); return true; }
inline bool MiniPlatform::perform(unsigned long, const Task &task) { if(!rtmfp) return false; Task t = task; m->after(0, [t] { t(); }); return true; }
inline std::shared_ptr<SendFlow> openTo(MiniPlatform *a, MiniPlatform *b, const char *name, const char *meta, Priority pri = PRI_ROUTINE) {
	auto f = a->rtmfp->openFlow(name, strlen(name), meta, strlen(meta), pri); if(f) f->addCandidateAddress(b->addr); return f;
}
#define EXPECT(c, ...) do { if(!(c)) { printf("FAILED %s:%d: %s: ", __FILE__, __LINE__, #c); printf(__VA_ARGS__); printf("\n"); exit(1); } } while(0)
