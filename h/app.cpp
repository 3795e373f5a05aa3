#include "app.hpp"

namespace vf {

Bytes App::payload(uint32_t flow, uint32_t idx, size_t len)
{
	Bytes b(len);
	Rng r((uint64_t(flow) << 32) | idx);
	size_t i = 0;
	while(i < len) { uint64_t v = r.next(); for(int k = 0; k < 8 && i < len; k++) b[i++] = uint8_t(v >> (8 * k)); }
	if(len >= 12) { memcpy(&b[0], &flow, 4); memcpy(&b[4], &idx, 4); uint32_t l = uint32_t(len); memcpy(&b[8], &l, 4); }
	return b;
}

App::~App()
{
	for(auto &kv : tx) {
		auto &f = kv.second->f;
		if(f) { f->onException = nullptr; f->onWritable = nullptr; f->onRecvFlow = nullptr; f->onFarAddressDidChange = nullptr; }
		for(auto &m : kv.second->msgs) if(m->r) m->r->onFinished = nullptr;
	}
	for(auto &kv : rx) {
		auto &f = kv.second->f;
		if(f) { f->onMessage = nullptr; f->onComplete = nullptr; f->onCumulativeAckDidMerge = nullptr; f->onFarAddressDidChange = nullptr; }
	}
	for(auto &n : w.nodes) if(n->rtmfp) n->rtmfp->onRecvFlow = nullptr;
}

Bytes App::makeMeta(uint32_t id)
{
	Bytes m; m.push_back('F');
	for(int i = 0; i < 4; i++) m.push_back(uint8_t(id >> (8 * i)));
	Bytes x = w.rng.bytes(w.rng.chance(0.1) ? w.rng.u(500) : w.rng.u(20));
	m.insert(m.end(), x.begin(), x.end());
	return m;
}

Msg *Tx::write(size_t len, Duration startWithin, Duration finishWithin) { return writeData(App::payload(id, uint32_t(msgs.size()), len), startWithin, finishWithin); }

Msg *Tx::writeData(const Bytes &data, Duration startWithin, Duration finishWithin)
{
	std::unique_ptr<Msg> m(new Msg());
	m->idx = uint32_t(msgs.size());
	m->data = data;
	m->writtenAt = app->w.now;
	Msg *p = m.get();
	msgs.push_back(std::move(m)); // before the call: the ledger must know it
	p->r = f->write(p->data.data(), p->data.size(), startWithin, finishWithin);
	if(!p->r) { msgs.pop_back(); return nullptr; }
	if(std::isfinite((double)startWithin) || std::isfinite((double)finishWithin)) p->plain = false;
	p->startBy = p->r->startBy; p->finishBy = p->r->finishBy;
	Tx *me = this;
	p->r->onFinished = [me, p] (bool abandoned) {
		p->finished++;
		p->finAbandoned = abandoned;
		p->finishedAt = me->app->w.now;
		if(p->finished > 1) ctx.fail("receipt-finished-twice", "flow %u message %u finished %d times", me->id, p->idx, p->finished);
		if(me->app->onFin) me->app->onFin(me, p, abandoned);
	};
	return p;
}

void Tx::close()
{
	closedByApp = true;
	closedAt = app->w.now;
	if(f) f->close();
}

Tx *App::adopt(uint32_t id, std::shared_ptr<SendFlow> f, Node *src, Node *dst, const Bytes &meta)
{
	std::unique_ptr<Tx> t(new Tx());
	t->app = this; t->id = id; t->f = f; t->src = src; t->dst = dst; t->meta = meta;
	Tx *p = t.get();
	tx[id] = std::move(t);
	f->onException = [p] (uintmax_t reason) {
		p->exceptions++; p->reason = reason; p->exceptionAt = p->app->w.now;
		if(p->closedByApp) { p->afterClose = true; ctx.fail("callback-after-close", "flow %u onException(%ju) after close()", p->id, reason); }
		if(p->app->onExc) p->app->onExc(p);
	};
	f->onFarAddressDidChange = [p] { p->farAddressChanges++; };
	f->onRecvFlow = [p] (std::shared_ptr<RecvFlow> flow) { p->onRecvOffers++; p->app->offer(p->src, flow, p); };
	return p;
}

Tx *App::open(Node *src, Node *dst, Priority pri, const std::string &epd_, bool candidates)
{
	uint32_t id = nextId++;
	Bytes meta = makeMeta(id);
	std::string epd = epd_.empty() ? dst->name : epd_;
	auto f = src->rtmfp->openFlow(epd.data(), epd.size(), meta.data(), meta.size(), pri);
	if(!f) return nullptr;
	Tx *t = adopt(id, f, src, dst, meta);
	if(candidates) for(auto &kv : dst->pub) f->addCandidateAddress(kv.second);
	return t;
}

Tx *App::openSame(Tx *t, Priority pri)
{
	uint32_t id = nextId++;
	Bytes meta = makeMeta(id);
	auto f = t->f->openFlow(meta, pri);
	if(!f) return nullptr;
	return adopt(id, f, t->src, t->dst, meta);
}

Tx *App::openReturn(Rx *r, Priority pri)
{
	uint32_t id = nextId++;
	Bytes meta = makeMeta(id);
	auto f = r->f->openReturnFlow(meta, pri);
	if(!f) return nullptr;
	Tx *t = adopt(id, f, r->node, r->tx->src, meta);
	t->via = r->tx;
	return t;
}

void App::listen(Node *n)
{
	n->rtmfp->onRecvFlow = [this, n] (std::shared_ptr<RecvFlow> flow) { offer(n, flow, nullptr); };
}

void App::offer(Node *n, std::shared_ptr<RecvFlow> flow, Tx *assoc)
{
	Bytes m = flow->getMetadata();
	uint32_t id = 0;
	if(identify) id = identify(n, m, assoc);
	else if(m.size() >= 5 && m[0] == 'F') memcpy(&id, &m[1], 4);
	auto it = tx.find(id);
	if(it == tx.end()) { ctx.fail("unknown-flow-offered", "node %s was offered a flow with metadata %s that nobody opened", n->name.c_str(), hex(m).c_str()); return; }
	Tx *t = it->second.get();
	CHECK(t->meta == m, "metadata-differs", "flow %u metadata sent %s got %s", id, hex(t->meta).c_str(), hex(m).c_str());
	CHECK(t->dst == n, "flow-at-wrong-node", "flow %u for %s offered to %s", id, t->dst->name.c_str(), n->name.c_str());
	CHECK(!rx.count(id), "flow-offered-twice", "flow %u offered a second time", id);
	if(rx.count(id)) return;
	std::unique_ptr<Rx> r(new Rx());
	r->app = this; r->id = id; r->node = n; r->f = flow; r->tx = t; r->keepAll = keepAll;
	t->rx = r.get();
	Rx *p = r.get();
	rx[id] = std::move(r);
	CHECK(flow->getAssociatedSendFlow() == (assoc ? assoc->f : nullptr), "wrong-association", "flow %u association differs", id);
	if(!onOffer || onOffer(n, p)) { flow->accept(); attach(p); if(onAccepted) onAccepted(p); }
}

void App::attach(Rx *p)
{
	auto flow = p->f;
	flow->onMessage = [p] (const uint8_t *bytes, size_t len, uintmax_t seq, size_t frags) {
		App *a = p->app;
		if(p->closedByApp) { p->afterClose = true; ctx.fail("callback-after-close", "flow %u onMessage after close()", p->id); return; }
		CHECK(p->completes == 0, "message-after-complete", "flow %u message seq %ju after onComplete", p->id, seq);
		CHECK(frags >= 1, "fragment-count", "flow %u seq %ju fragment count %zu", p->id, seq, frags);
		Rx::Got g; g.seq = seq; g.frags = frags; g.at = a->w.now;
		g.data.assign(bytes, bytes + len);
		if(a->checkOrder && p->order == RO_SEQUENCE) {
			Tx *t = p->tx;
			if(p->next >= t->msgs.size()) ctx.fail("extra-message", "flow %u got message #%zu (%zu bytes) but only %zu written", p->id, p->next, len, t->msgs.size());
			else {
				Msg *m = t->msgs[p->next].get();
				if(m->data != g.data) {
					std::string what = "other";
					for(auto &o : t->msgs) if(o->data == g.data && len >= 4) what = fmt("equals message %u", o->idx);
					ctx.fail("wrong-message", "flow %u expected message #%zu (%zu bytes) got %zu bytes seq %ju: %s", p->id, p->next, m->data.size(), len, seq, what.c_str());
				}
				m->delivered = true; m->deliveredAt = a->w.now; m->seq = seq; m->frags = frags;
			}
			if(p->any) CHECK(seq == p->lastSeq + p->lastFrags, "sequence-gap", "flow %u seq %ju after seq %ju with %zu fragments", p->id, seq, p->lastSeq, p->lastFrags);
			p->next++;
		}
		p->any = true; p->lastSeq = seq; p->lastFrags = frags;
		p->delivered++; p->bytes += len;
		uintmax_t cum = p->f->getCumulativeAckSequenceNumber(), fwd = p->f->getForwardSequenceNumber();
		CHECK(cum >= p->lastCum && fwd >= p->lastFwd, "receiver-numbers-went-back", "flow %u cumulative %ju->%ju forward %ju->%ju", p->id, p->lastCum, cum, p->lastFwd, fwd);
		p->lastCum = cum; p->lastFwd = fwd;
		if(a->onMsg) a->onMsg(p, g);
		if(p->keepAll) p->got.push_back(std::move(g));
	};
	flow->onComplete = [p] (bool error) {
		p->completes++; p->completeError = error; p->completeAt = p->app->w.now;
		CHECK(p->completes == 1, "completed-twice", "flow %u onComplete called %d times", p->id, p->completes);
		if(p->closedByApp) { p->afterClose = true; ctx.fail("callback-after-close", "flow %u onComplete after close()", p->id); }
		if(p->app->onDone) p->app->onDone(p);
	};
	flow->onFarAddressDidChange = [p] { p->farAddressChanges++; };
}

bool App::allDelivered() const
{
	for(auto &kv : tx) {
		Tx *t = kv.second.get();
		if(t->msgs.empty()) continue;
		if(!t->rx || t->rx->delivered < t->msgs.size()) return false;
	}
	return true;
}

bool App::allFinished() const
{
	for(auto &kv : tx) for(auto &m : kv.second->msgs) if(!m->finished) return false;
	return true;
}

bool App::allDrained() const
{
	for(auto &kv : tx) if(kv.second->f->getBufferedSize()) return false;
	return true;
}

std::string App::pending() const
{
	std::string s;
	for(auto &kv : tx) {
		Tx *t = kv.second.get();
		size_t fin = 0; for(auto &m : t->msgs) fin += m->finished ? 1 : 0;
		s += fmt("[flow %u%s %s->%s written %zu delivered %zu finished %zu buffered %zu outstanding %zu rwnd %zu exc %d complete %d]", t->id, t->via ? fmt(" (return of %u)", t->via->id).c_str() : "", t->src->name.c_str(), t->dst->name.c_str(),
			t->msgs.size(), t->rx ? t->rx->delivered : 0, fin, t->f->getBufferedSize(), t->f->getOutstandingBytes(), t->f->getRecvBufferBytesAvailable(), t->exceptions, t->rx ? t->rx->completes : -1);
	}
	return s;
}

size_t pickLen(Rng &r, int style)
{
	switch(style) {
	case 0: return r.u(200);
	case 1: return r.pick({size_t(0), size_t(1), size_t(7), size_t(1000)}) + r.u(3);
	case 2: return 1100 + r.u(100);                      // around one fragment
	case 3: return r.u(8000);
	case 4: return r.range(1, 6) * 1161 - r.u(3) + r.u(3); // around multiples of a fragment
	case 5: return r.chance(0.1) ? r.u(60000) : r.u(3000);
	default: return r.u(20000);
	}
}

PathCfg randomPath(Rng &r, int nasty)
{
	PathCfg p;
	p.delay = r.logreal(0.0005, 0.2);
	p.jitter = r.chance(0.5) ? 0 : p.delay * r.real(0, 1.0);
	p.maxConsecLoss = 6;
	if(nasty >= 1) { p.loss = r.chance(0.7) ? r.real(0, 0.08) : 0; p.dup = r.chance(0.4) ? r.real(0, 0.05) : 0; p.reorder = r.chance(0.5) ? r.real(0, 0.1) : 0; p.reorderDelay = r.real(0, 0.1); }
	if(nasty >= 2) { p.loss = r.real(0, 0.3); p.dup = r.real(0, 0.2); p.reorder = r.real(0, 0.4); p.reorderDelay = r.real(0, 0.5); p.corrupt = r.chance(0.5) ? r.real(0, 0.1) : 0; }
	if(r.chance(0.35)) { p.rate = r.logreal(20e3, 5e6); p.queueLimit = r.real(0.05, 1.0); if(r.chance(0.4)) p.ecnThresh = p.queueLimit / 3; }
	if(nasty >= 1 && r.chance(0.15)) p.ecnMark = r.real(0, 0.05);
	return p;
}

std::string describe(const PathCfg &p)
{
	return fmt("delay %.3g jitter %.3g loss %.2f dup %.2f corrupt %.2f reorder %.2f/%.2g rate %.0f ecn %.2f", p.delay, p.jitter, p.loss, p.dup, p.corrupt, p.reorder, p.reorderDelay, p.rate, p.ecnMark);
}

void cleanup(World &w, App *app)
{
	bool f = ctx.failed; // nothing that happens in here counts
	auto k = ctx.failKey, d = ctx.failDetail;
	w.stopped = false; w.maxEvents += 200000;
	w.onSend.clear(); w.onArrive.clear(); w.onArrived.clear();
	if(app) { app->onOffer = nullptr; app->onMsg = nullptr; app->onExc = nullptr; app->onDone = nullptr; app->onFin = nullptr; app->onAccepted = nullptr; }
	for(auto &n : w.nodes) if(n->rtmfp) { n->alive = true; n->rtmfp->shutdown(true); }
	ctx.failed = false;
	w.run(w.now + 2);
	ctx.failed = f; ctx.failKey = k; ctx.failDetail = d;
}

void statsFromWorld(World &w)
{
	ctx.stat("packets_sent", w.nSent); ctx.stat("packets_lost", w.nLost); ctx.stat("packets_duplicated", w.nDup);
	ctx.stat("packets_corrupted", w.nCorrupt); ctx.stat("packets_reordered", w.nReordered); ctx.stat("packets_delivered", w.nDelivered);
	ctx.stat("packets_ce_marked", w.nMarked); ctx.stat("events", w.processed);
	ctx.h(w.trace);
}

} // namespace vf
