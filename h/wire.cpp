#include "wire.hpp"
namespace vf {

bool FlowW::whole(uintmax_t seq, uintmax_t &from, uintmax_t &to) const
{
	auto it = buf.find(seq);
	if(it == buf.end()) return false;
	from = to = seq;
	auto f = it;
	while(f->second.fra != USERDATA_FRA_WHOLE && f->second.fra != USERDATA_FRA_BEGIN) {
		if(f == buf.begin()) return false;
		auto p = std::prev(f);
		if(p->first + 1 != f->first || p->second.fra == USERDATA_FRA_WHOLE || p->second.fra == USERDATA_FRA_END) return false;
		f = p;
	}
	from = f->first;
	f = it;
	while(f->second.fra != USERDATA_FRA_WHOLE && f->second.fra != USERDATA_FRA_END) {
		auto n = std::next(f);
		if(n == buf.end() || n->first != f->first + 1 || n->second.fra == USERDATA_FRA_WHOLE || n->second.fra == USERDATA_FRA_BEGIN) return false;
		f = n;
	}
	to = f->first;
	return true;
}

Bytes FlowW::assemble(uintmax_t from, uintmax_t to) const
{
	Bytes b;
	for(uintmax_t s = from; s <= to; s++) { auto &d = buf.at(s).data; b.insert(b.end(), d.begin(), d.end()); }
	return b;
}

WireMon::WireMon(World &world, App &a) : w(world), app(a)
{
	w.onSend.push_back([this] (Pkt &p) { sent(p); return true; });
	w.onArrive.push_back([this] (const Pkt &p) {
		bool junk = p.corrupted || (p.fromNode < 0 && !blessed.count(hash64(p.data)));
		sync();
		Wire k = decodeWire(p.data);
		if(junk) { // takes a place among the held ones
			auto it = k.sid && p.toNode >= 0 ? bySid.find({p.toNode, k.sid}) : bySid.end();
			if(it != bySid.end() && it->second.second == 1 && !iniIsOpen(*it->second.first) && !w.combined.count(it->second.first->key[1])) { auto &e = it->second.first->early; e.push_back({p, Wire()}); if(e.size() > MAX_EARLY_PACKETS) e.erase(e.begin()); }
			return;
		}
		int dir; Sess *s = find(p, k, dir);
		if(!s) return;
		if(dir == 1 && !iniIsOpen(*s)) { if(!w.combined.count(s->key[1])) s->early.push_back({p, k}); /* else: its key is ready, the session is not: lost */ if(s->early.size() > MAX_EARLY_PACKETS) s->early.erase(s->early.begin()); return; }
		auto pc = parse(k);
		if(onArrive) onArrive(*s, dir, p, k, pc);
		model(*s, dir, p, k, pc);
		if(onModel) onModel(*s, dir, p, k, pc);
	});
	w.onArrived.push_back([this] (const Pkt &p, bool) {
		if(p.corrupted || (p.fromNode < 0 && !blessed.count(hash64(p.data)))) return;
		sync();
		if(!onArrived) return;
		Wire k = decodeWire(p.data);
		int dir; Sess *s = find(p, k, dir);
		if(!s || (dir == 1 && !iniIsOpen(*s))) return;
		auto pc = parse(k);
		onArrived(*s, dir, p, k, pc);
	});
}

bool WireMon::iniIsOpen(Sess &s)
{
	if(s.iniOpen) return true;
	if(s.key[1] && w.opened.count(s.key[1])) return s.iniOpen = true;
	return s.iniOpen;
}

void WireMon::sync()
{
	for(auto &s : sessions) {
		if(s->iniOpen && s->early.empty()) continue;
		if(!iniIsOpen(*s)) continue;
		auto l = std::move(s->early);
		s->early.clear();
		for(auto &x : l) { if(!x.second.sid) continue; auto pc = parse(x.second); model(*s, 1, x.first, x.second, pc); if(onReplayed) onReplayed(*s, 1, x.first, x.second, pc); }
	}
}

Sess *WireMon::find(const Pkt &p, const Wire &k, int &dir)
{
	if(k.sid == 0 || p.toNode < 0) return nullptr;
	auto it = bySid.find({p.toNode, k.sid});
	if(it == bySid.end()) return nullptr;
	int m = k.mode();
	if(m != 1 && m != 2) return nullptr;
	dir = it->second.second;
	Sess *s = it->second.first;
	// an id may be used again while an earlier session with it still says goodbye: the key tells
	if(sealedBy(*s, dir, p.data)) return s;
	auto o = older.find({p.toNode, k.sid});
	if(o != older.end()) for(auto x : o->second) for(int d = 0; d < 2; d++) if(x->d[d].to == p.toNode && (d ? x->sidI : x->sidR) == k.sid && x->key[d] && sealedBy(*x, d, p.data)) { dir = d; return x; }
	return s;
}

bool WireMon::sealedBy(const Sess &s, int dir, const Bytes &p) const
{
	if(!s.key[dir] || p.size() < 13) return false;
	uint64_t m = hash64(p.data() + 4, p.size() - 12, s.key[dir]), have;
	memcpy(&have, p.data() + p.size() - 8, 8);
	return m == have;
}

std::vector<PChunk> WireMon::parse(const Wire &k)
{
	std::vector<PChunk> v;
	WUserData prev; bool havePrev = false;
	for(auto &c : k.chunks) {
		PChunk x; x.type = c.type; x.c = &c;
		if(c.type == CHUNK_USERDATA || c.type == CHUNK_NEXT_USERDATA) {
			x.ok = parseUserData(c, havePrev ? &prev : nullptr, x.ud);
			if(x.ok) { prev = x.ud; havePrev = true; }
		} else if(c.type == CHUNK_ACK_RANGES) x.ok = parseAck(c, x.ack);
		else x.ok = true;
		v.push_back(x);
	}
	return v;
}

Sess *WireMon::begin(int ini, int resp, uint32_t sidI)
{
	sessions.emplace_back(new Sess());
	Sess *s = sessions.back().get();
	s->ini = ini; s->resp = resp; s->sidI = sidI; s->openedAt = w.now;
	s->d[0].from = s->d[1].to = ini; s->d[0].to = s->d[1].from = resp;
	auto &b = bySid[{ini, sidI}];
	if(b.first) older[{ini, sidI}].push_back(b.first);
	b = {s, 1};
	return s;
}

void WireMon::sent(Pkt &p)
{
	sync();
	Wire k = decodeWire(p.data);
	if(p.toNode < 0) { auto it = w.where.find(p.dst); if(it != w.where.end()) p.toNode = it->second.first; }
	if(k.mode() == 3) {
		for(auto &c : k.chunks) if(c.type == CHUNK_IIKEYING && c.body.size() >= 4) {
			uint32_t si; memcpy(&si, c.body.data(), 4);
			size_t off = 4; uintmax_t n; Bytes comp;
			bool good = true;
			for(int i = 0; i < 3 && good; i++) { // cookie, certificate, component
				if(!vlu(c.body, off, n) || n > c.body.size() - off) { good = false; break; }
				comp.assign(c.body.begin() + off, c.body.begin() + off + n); off += n;
			}
			if(good) {
				auto &have = skic[{p.fromNode, si}];
				if(have != comp) { have = comp; auto b = bySid.find({p.fromNode, si}); if(b != bySid.end()) { older[b->first].push_back(b->second.first); bySid.erase(b); } } // a new session may use the id of an aborted one
			}
		}
		for(auto &c : k.chunks) if(c.type == CHUNK_RIKEYING && c.body.size() >= 4 && p.toNode >= 0) {
			uint32_t sr; memcpy(&sr, c.body.data(), 4);
			auto have = bySid.find({p.toNode, k.sid});
			if(have != bySid.end() && have->second.second == 1 && have->second.first->resp == p.fromNode && have->second.first->sidR == sr && have->second.first->rikeying == c.body) continue; // retransmitted
			Sess *s;
			if(have != bySid.end() && have->second.second == 1 && have->second.first->resp == p.fromNode && have->second.first->rikeying.empty()) s = have->second.first;
			else s = begin(p.toNode, p.fromNode, k.sid);
			s->sidR = sr; s->rikeying = c.body;
			size_t off = 4; uintmax_t n;
			auto ic = skic.find({p.toNode, k.sid});
			if(vlu(c.body, off, n) && n <= c.body.size() - off && ic != skic.end()) {
				Bytes rc(c.body.begin() + off, c.body.begin() + off + n);
				s->comp[0] = ic->second; s->comp[1] = rc;
				s->key[0] = hash64(ic->second, hash64(rc, 1)); s->key[1] = hash64(ic->second, hash64(rc, 2));
			}
			auto &b = bySid[{s->resp, sr}];
			if(b.first && b.first != s) older[{s->resp, sr}].push_back(b.first);
			b = {s, 0};
		}
		return;
	}
	int dir; Sess *s = find(p, k, dir);
	// a responder may use the session before its keying answer is on the wire
	if(s && k.mode() == 2 && s->key[1] && !sealedBy(*s, 1, p.data) && skic.count({p.toNode, k.sid})) { s = begin(p.toNode, p.fromNode, k.sid); dir = 1; }
	if(!s && k.mode() == 2 && k.sid && p.toNode >= 0 && !bySid.count({p.toNode, k.sid}) && skic.count({p.toNode, k.sid})) { s = begin(p.toNode, p.fromNode, k.sid); dir = 1; }
	if(!s) return;
	if(dir == 0 && !s->iniOpen) { s->iniOpen = true; sync(); } // it has no flow but uses the session
	nPkts++;
	auto pc = parse(k);
	if(badGrammarFails) {
		if(!k.ok) ctx.fail("packet-grammar", "packet of %zu bytes from node %d: %s", p.data.size(), p.fromNode, k.why.c_str());
		for(auto &x : pc) if(!x.ok) ctx.fail("chunk-grammar", "chunk %02x from node %d does not parse: %s", x.type, p.fromNode, hex(x.c->body).c_str());
	}
	Dir &D = s->d[dir];
	for(auto &x : pc) {
		if(x.ok && x.ud.hasMeta && x.ud.meta.size() >= 5 && x.ud.meta[0] == 'F' && (x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA)) {
			FlowW &f = D.flows[x.ud.flow];
			if(!f.tx) {
				uint32_t id; memcpy(&id, &x.ud.meta[1], 4);
				auto it = app.tx.find(id);
				if(it != app.tx.end()) { f.tx = it->second.get(); txFlow[f.tx] = {s, dir, x.ud.flow}; }
			}
		}
		if(x.type == CHUNK_CLOSE || x.type == CHUNK_CLOSE_ACK) s->closing = true;
	}
	if(onSend) onSend(*s, dir, p, k, pc);
	D.pkts++;
	bool any = false;
	for(auto &x : pc) {
		if(!x.ok) continue;
		if(x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA) {
			any = true;
			FlowW &f = D.flows[x.ud.flow];
			f.id = x.ud.flow;
			SFrag &g = f.frags[x.ud.seq];
			g.fra = x.ud.flags & USERDATA_FLAG_FRA_MASK;
			if(x.ud.flags & USERDATA_FLAG_FIN) { g.fin = true; f.finSent = true; f.finSeq = x.ud.seq; }
			if(x.ud.flags & USERDATA_FLAG_ABN) g.abn = true;
			else if(!g.data) { g.data = true; g.bytes = x.ud.data; }
			if(!g.sends) g.first = w.now; else nFragResends++;
			g.sends++; g.last = w.now; g.lastPkt = p.id; g.acksSince = 0;
			g.chunk = 3 + x.c->body.size();
			f.maxSeq = std::max(f.maxSeq, x.ud.seq);
			f.maxFsn = std::max(f.maxFsn, x.ud.fsn);
			nFragSends++;
		} else if(x.type == CHUNK_ACK_RANGES) {
			nAck++;
			FlowW &f = s->d[1 - dir].flows[x.ack.flow];
			f.told.add(0, x.ack.cum);
			for(auto &r : x.ack.ranges) f.told.add(r.first, r.second);
		}
	}
	if(any) { D.dataPkts++; nData++; }
	if(onSent) onSent(*s, dir, p, k, pc);
}

void WireMon::model(Sess &s, int dir, const Pkt &, const Wire &, std::vector<PChunk> &pc)
{
	bool acks = false;
	for(auto &x : pc) {
		if(!x.ok) continue;
		if(x.type == CHUNK_USERDATA || x.type == CHUNK_NEXT_USERDATA) {
			FlowW &f = s.d[dir].flows[x.ud.flow];
			f.rxSeen = true;
			bool fresh = !f.rx.has(x.ud.seq);
			Ranges pre = f.rx;
			f.rxFsn = std::max(f.rxFsn, x.ud.fsn);
			f.rx.add(0, x.ud.fsn);
			f.rx.add(x.ud.seq, x.ud.seq);
			if(fresh && !(x.ud.flags & USERDATA_FLAG_ABN)) f.buf[x.ud.seq] = RFrag{uint8_t(x.ud.flags & USERDATA_FLAG_FRA_MASK), x.ud.data};
			if(onRxData) onRxData(s, dir, f, x.ud, fresh, pre);
		} else if(x.type == CHUNK_ACK_RANGES) {
			FlowW &f = s.d[1 - dir].flows[x.ack.flow];
			acks = true;
			f.gotAck = true;
			f.rwnd = x.ack.blocks > SIZE_MAX / 1024 ? SIZE_MAX : x.ack.blocks * 1024; f.rwndAt = w.now;
			f.acked.add(0, x.ack.cum);
			for(auto &r : x.ack.ranges) f.acked.add(r.first, r.second);
			for(auto &kv : f.frags) if(!kv.second.acked && f.acked.has(kv.first)) kv.second.acked = true;
			if(onAckTaken) onAckTaken(s, 1 - dir, f, x.ack);
		}
	}
	if(acks) for(auto &kv : s.d[1 - dir].flows) for(auto &g : kv.second.frags) if(!g.second.acked) g.second.acksSince++;
}

FlowW *WireMon::flowOf(Tx *t, Sess **so, int *di)
{
	auto it = txFlow.find(t);
	if(it == txFlow.end()) return nullptr;
	if(so) *so = it->second.s;
	if(di) *di = it->second.dir;
	return &it->second.s->d[it->second.dir].flows[it->second.flow];
}
FlowW *WireMon::flowOf(Tx *t) { return flowOf(t, nullptr, nullptr); }

Tx *WireMon::rep(Sess &s, int dir)
{
	for(auto &kv : s.d[dir].flows) if(kv.second.tx && kv.second.tx->f && kv.second.tx->f->getCongestionWindow() > 0) return kv.second.tx;
	return nullptr;
}

Bytes WireMon::seal(const Sess &s, int dir, const Bytes &clear) const
{
	Bytes out(4);
	out.insert(out.end(), clear.begin(), clear.end());
	uint64_t m = hash64(clear, s.key[dir]);
	for(int i = 0; i < 8; i++) out.push_back(((uint8_t *)&m)[i]);
	uint32_t x[3] = {0, 0, 0};
	memcpy(x + 1, out.data() + 4, std::min<size_t>(8, out.size() - 4));
	x[0] = (dir == 0 ? s.sidR : s.sidI) ^ x[1] ^ x[2];
	memcpy(out.data(), x, 4);
	return out;
}

void WireMon::craft(const Sess &s, int dir, const Bytes &clear, double delay)
{
	Bytes b = seal(s, dir, clear);
	blessed.insert(hash64(b));
	w.inject(b, w.nodes[s.d[dir].from]->pub.begin()->second, w.nodes[s.d[dir].to]->pub.begin()->second, 0, delay);
}

} // namespace vf
