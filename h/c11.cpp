// C11: however a session ends, every flow of it hears so exactly once and nothing afterwards; limits, keepalives, shutdown.
#include "wire.hpp"
namespace vf {
const char *driverRule() { return "one case = two or three endpoints whose sessions, with data on the way, idle or only just open, are closed by one or both sides, by orderly or immediate shutdown, by a peer vanishing (both ways or one way), by idleness, and opened again; any keepalive period, retransmission and idle limits, changed while running; run under AddressSanitizer and UBSan; non-trivial when a session side ended with a flow, a receiver and a receipt to tell; distinct by the hash of every packet and its fate"; }
uint64_t driverCases(bool t) { return t ? 300000 : 9000; }
void driverInit() {}
void driverDone() {}

namespace {
typedef long double LD;
struct Side {
	bool open = false; LD openedAt = 0;
	bool ended = false; LD at = -1; const char *how = ""; bool reported = false, overdue = false;
	LD proof = -1;           // last acknowledgement or ping reply that surely counted
	LD lastActive = -1;      // last packet of any kind sent in it
	LD keyed = -1;           // last packet counting against the keepalive period
	LD keyedPrev = -1;       // the last one before the current burst
	bool pingOut = false;    // keepalive ping surely without answer
	bool pingMaybe = false;  // or perhaps
	LD lastTx = -1;          // last transmission of data or a keepalive
	LD unanswered = -1;      // first transmission of data or a keepalive after the last answer
	LD firstTx = -1;         // first ever
	LD dropUnlock = -1;      // last time a flow was seen open
	LD K = INFINITY, L = INFINITY, I = INFINITY; LD kSet = 0, lSet = 0, iSet = 0; // settings and when they were last changed
	bool hadFlow = false, hadRx = false, hadReceipt = false;
	LD goneAt = -1;          // both sides' flows were all done since
};
}

void runCase(Rng &rng, uint64_t)
{
	World w(rng);
	int nn = rng.chance(0.25) ? 3 : 2;
	int nasty = int(rng.u(3));
	LD defK = rng.chance(0.5) ? 3600 : rng.logreal(1, 60), defL = rng.chance(0.3) ? 120 : rng.logreal(1, 100), defI = rng.chance(0.4) ? 300 : rng.logreal(1, 100);
	bool sameK = rng.chance(0.5);
	std::vector<LD> K, L, I;
	bool late = rng.chance(0.3);
	for(int i = 0; i < nn; i++) {
		Node *n = w.addNode(fmt("n%d", i), {fmt("10.0.0.%d:%d", i + 1, 1000 + i)});
		n->platform->performDelay0 = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.01); n->platform->performDelayN = rng.chance(0.5) ? 0 : rng.logreal(0.00001, 0.05);
		n->platform->lateTimers = late;
		K.push_back(sameK || rng.chance(0.5) ? defK : rng.chance(0.3) ? INFINITY : rng.logreal(1, 60)); L.push_back(rng.chance(0.7) ? defL : rng.logreal(1, 100)); I.push_back(rng.chance(0.7) ? defI : rng.logreal(1, 100));
		n->rtmfp->setDefaultSessionKeepalivePeriod(K[i]); n->rtmfp->setDefaultSessionRetransmitLimit(L[i]); n->rtmfp->setDefaultSessionIdleLimit(I[i]);
	}
	auto cfg = [&] { PathCfg p = randomPath(rng, nasty); p.loss = std::min(p.loss, 0.15); p.maxConsecLoss = 3; return p; };
	for(auto &a : w.nodes) for(auto &b : w.nodes) if(a != b) w.path(a->index, b->index) = cfg();
	App app(w);
	WireMon mon(w, app);
	for(auto &n : w.nodes) app.listen(n.get());
	std::map<std::pair<Sess *, int>, Side> sides;      // side 0: initiator
	std::map<Tx *, std::pair<Sess *, int>> bound;
	std::map<Rx *, std::pair<Sess *, int>> rbound;
	std::vector<LD> downAt(nn, -1);                     // shut down
	std::vector<int> complete(nn, 0); std::vector<bool> immediate(nn, false); std::vector<LD> completeAt(nn, -1);
	std::set<std::pair<int, int>> cut;                  // directions that carry nothing any more
	uint64_t endings = 0, toldTx = 0, toldRx = 0, toldReceipts = 0, timeouts = 0, idles = 0, keepalives = 0, closes = 0, both = 0, shutdowns = 0, overrides = 0, reopened = 0, quietKept = 0;
	std::map<std::string, uint64_t> hows;
	auto node = [&] (Sess *s, int side) { return side == 0 ? s->ini : s->resp; };
	auto who = [&] (Sess *s, int side) { return fmt("n%d (session with n%d, %s)", node(s, side), node(s, 1 - side), side ? "responder" : "initiator"); };
	bool over = false, releasing = false; uint64_t heldOver = 0;
	LD slackTimer = 0.05;

	auto sessOf = [&] (int n, const Bytes &near, int &side) -> Sess * {
		for(auto it = mon.sessions.rbegin(); it != mon.sessions.rend(); ++it) for(side = 0; side < 2; side++) if(node(it->get(), side) == n && (*it)->comp[side] == near) return it->get();
		return nullptr;
	};
	auto sideOpen = [&] (Sess *s, int side) -> Side & {
		Side &d = sides[{s, side}];
		if(!d.open) { d.open = true; d.openedAt = d.keyed = d.dropUnlock = w.now; int n = node(s, side); d.K = std::max<LD>(1, K[n]); d.L = std::max<LD>(1, L[n]); d.I = std::max<LD>(1, I[n]); d.kSet = d.lSet = d.iSet = w.now; d.lastActive = w.now; }
		return d;
	};
	// everything arrived and waits for the application: such a flow may outlive its session
	auto held = [] (Rx *r) { return r->order == RO_HOLD && r->tx->closedByApp; };
	auto note = [&] {
		for(auto &kv : app.tx) { Tx *t = kv.second.get(); if(bound.count(t) || !t->f || !t->bound()) continue; int side; Sess *s = sessOf(t->src->index, t->f->getNearNonce(), side); if(s) { bound[t] = {s, side}; sideOpen(s, side).hadFlow = true; } }
		for(auto &kv : app.rx) { Rx *r = kv.second.get(); if(rbound.count(r)) continue; int side; Sess *s = sessOf(r->node->index, r->f->getNearNonce(), side); if(s) { rbound[r] = {s, side}; sideOpen(s, side).hadRx = true; } }
		for(auto &s : mon.sessions) for(int d = 0; d < 2; d++) { auto it = sides.find({s.get(), d}); if(it == sides.end() || it->second.ended) continue;
			bool open = false;
			for(auto &kv : bound) if(kv.second == std::make_pair(s.get(), d) && !kv.first->closedByApp && !kv.first->exceptions) open = true;
			for(auto &kv : rbound) if(kv.second == std::make_pair(s.get(), d) && !kv.first->closedByApp && !kv.first->completes && !held(kv.first)) open = true;
			if(open) it->second.dropUnlock = w.now;
		}
	};
	// a moment after a side ended, all of its flows must know
	std::function<void(Sess *, int)> settle = [&] (Sess *s, int d) {
		if(over) return;
		Side &x = sides[{s, d}];
		x.reported = true;
		bool f = false, r = false, m = false;
		for(auto &kv : bound) if(kv.second == std::make_pair(s, d)) {
			Tx *t = kv.first;
			if(!t->closedByApp) { CHECK(t->exceptions == 1, "sender-not-told", "%s ended (%s) at %.3Lf, but flow %u has been told %d times of its end", who(s, d).c_str(), x.how, x.at, t->id, t->exceptions); f = true; toldTx++; }
			for(auto &g : t->msgs) { CHECK(g->finished == 1, "receipt-not-finished", "%s ended (%s) at %.3Lf, but message %u of flow %u is still unfinished", who(s, d).c_str(), x.how, x.at, g->idx, t->id); if(g->finAbandoned) { m = true; toldReceipts++; } }
			CHECK(!t->f->isOpen(), "open-after-session", "flow %u says it is open after its session ended", t->id);
			CHECK(t->f->getBufferedSize() == 0, "buffered-after-session", "flow %u holds %zu bytes after its session ended", t->id, t->f->getBufferedSize());
		}
		for(auto &kv : rbound) if(kv.second == std::make_pair(s, d)) {
			Rx *q = kv.first;
			if(!q->closedByApp && !held(q)) { CHECK(q->completes == 1, "receiver-not-told", "%s ended (%s) at %.3Lf, but the receiver of flow %u has been told %d times", who(s, d).c_str(), x.how, x.at, q->id, q->completes); r = true; toldRx++; }
		}
		if(f && r && m) endings++;
	};
	auto end = [&] (Sess *s, int d, const char *how) {
		Side &x = sideOpen(s, d);
		if(x.ended) return;
		note();
		x.ended = true; x.at = w.now; x.how = how; hows[how]++;
		w.after(0.3, [&, s, d] { settle(s, d); });
	};
	auto after = [&] (const char *what, std::pair<Sess *, int> p, uint32_t id) {
		auto it = sides.find(p);
		if(!releasing && it != sides.end() && it->second.ended && w.now > it->second.at + 0.3L) ctx.fail("callback-after-end", "%s of flow %u called %.3Lf s after %s ended (%s)", what, id, w.now - it->second.at, who(p.first, p.second).c_str(), it->second.how);
	};
	app.onMsg = [&] (Rx *r, const Rx::Got &) { note(); auto it = rbound.find(r); if(it != rbound.end()) { after("onMessage", it->second, r->id); } };
	app.onDone = [&] (Rx *r) {
		auto it = rbound.find(r);
		if(it != rbound.end()) after("onComplete", it->second, r->id);
		if(!r->completeError) CHECK(r->tx->closedByApp && r->delivered >= r->tx->msgs.size(), "completed-unfinished", "flow %u completed without error with %zu of %zu messages and the sender %s", r->id, r->delivered, r->tx->msgs.size(), r->tx->closedByApp ? "closed" : "open");
	};
	app.onExc = [&] (Tx *t) {
		CHECK(t->exceptions == 1, "told-twice", "flow %u was told of its end %d times", t->id, t->exceptions);
		auto it = bound.find(t); if(it != bound.end()) after("onException", it->second, t->id);
		CHECK(!t->f->write("x", 1), "write-after-end", "flow %u took a message after its end", t->id);
		CHECK(!t->f->isOpen(), "open-after-session", "flow %u says it is open when told of its end", t->id);
	};
	app.onFin = [&] (Tx *t, Msg *, bool ab) {
		auto it = bound.find(t);
		if(it == bound.end()) return;
		after("onFinished", it->second, t->id);
		Side &x = sides[it->second];
		if(x.ended && w.now > x.at + 0.05L) CHECK(ab, "finished-as-delivered", "a receipt of flow %u finished as delivered after its session ended", t->id);
	};

	// --- the wire
	mon.onSend = [&] (Sess &s, int dir, const Pkt &, const Wire &, std::vector<PChunk> &pc) {
		note();
		Side &x = sideOpen(&s, dir);
		int n = node(&s, dir);
		if(completeAt[n] >= 0) CHECK(false, "packet-after-shutdown", "n%d sends a session packet %.3Lf s after its shutdown completed", n, w.now - completeAt[n]);
		if(x.ended) CHECK(w.now <= x.at + 96 + slackTimer, "packet-after-close-period", "%s still sends %.1Lf s after it ended (%s)", who(&s, dir).c_str(), w.now - x.at, x.how);
		x.lastActive = w.now;
		for(auto &c : pc) {
			bool data = c.type == CHUNK_USERDATA || c.type == CHUNK_NEXT_USERDATA;
			if(x.ended && data && w.now > x.at + 0.03L) ctx.fail("data-after-end", "%s sends data %.3Lf s after it ended (%s)", who(&s, dir).c_str(), w.now - x.at, x.how);
			bool ping = c.type == CHUNK_PING && c.c->body.empty();
			if(ping) {
				keepalives++;
				if(!x.ended && !x.pingOut && !x.pingMaybe) CHECK(w.now >= (w.now < x.keyed + 0.01L && x.keyedPrev >= 0 ? x.keyedPrev : x.keyed) + x.K - 0.02L, "early-keepalive", "%s sends a keepalive %.4Lf s after its last transmission, its period is %.4Lf s", who(&s, dir).c_str(), w.now - x.keyed, x.K);
				x.pingOut = true;
			}
			if(data || ping || c.type == CHUNK_PING_REPLY) { if(w.now > x.keyed + 0.01L) x.keyedPrev = x.keyed; x.keyed = w.now; }
			if((data || ping) && x.unanswered < 0) x.unanswered = w.now;
			if((data || ping) && x.firstTx < 0) x.firstTx = w.now;
			if(data || ping) x.lastTx = w.now;
			if((c.type == CHUNK_CLOSE || c.type == CHUNK_CLOSE_ACK) && !x.ended) {
				// nobody asked for it: the session's own limits
				bool peer = sides[{&s, 1 - dir}].ended;
				bool flows = w.now - x.dropUnlock < 1e-9L;
				bool idle = !flows && w.now >= std::max(x.openedAt, x.dropUnlock) + x.I - (dir ? 0.2L : 0.02L);
				bool dead = x.firstTx >= 0 && w.now >= std::max(x.proof, x.firstTx) + x.L - 1e-6L;
				if(downAt[n] >= 0) end(&s, dir, "shut down while opening");
				else if(idle) { idles++; end(&s, dir, "idle"); }
				else if(dead) { timeouts++; end(&s, dir, "timeout"); }
				else { std::string l; for(auto &kv : bound) if(kv.second == std::make_pair(&s, dir)) l += fmt("[send %u closed %d told %d buffered %zu]", kv.first->id, kv.first->closedByApp, kv.first->exceptions, kv.first->f->getBufferedSize()); for(auto &kv : rbound) if(kv.second == std::make_pair(&s, dir)) l += fmt("[receive %u closed %d completed %d; sender closed %d told %d]", kv.first->id, kv.first->closedByApp, kv.first->completes, kv.first->tx->closedByApp, kv.first->tx->exceptions);
					ctx.fail("closed-without-reason", "%s closes at %.3Lf: open since %.3Lf, %s, last flow seen %.3Lf s ago (idle limit %.3Lf), last answer %.3Lf s ago, unanswered for %.3Lf s (limit %.3Lf); peer ended %d; %s", who(&s, dir).c_str(), w.now, x.openedAt, flows ? "has flows" : "no flows", w.now - x.dropUnlock, x.I, x.proof < 0 ? -1 : w.now - x.proof, x.unanswered < 0 ? -1 : w.now - x.unanswered, x.L, peer, l.c_str()); end(&s, dir, "?"); }
			}
		}
	};
	std::set<uintmax_t> dummy;
	auto taken = [&] (Sess &s, int dir, std::vector<PChunk> &pc) {
		note();
		int d = 1 - dir; auto it = sides.find({&s, d});
		if(it == sides.end() || it->second.ended) return;
		Side &x = it->second;
		for(auto &c : pc) {
			if(c.type == CHUNK_CLOSE || c.type == CHUNK_CLOSE_ACK) { end(&s, d, c.type == CHUNK_CLOSE ? "closed by peer" : "closed at once by peer"); return; }
			bool counts = c.type == CHUNK_PING_REPLY, clears = counts;
			if(c.type == CHUNK_ACK_RANGES || c.type == CHUNK_ACK_BITMAP) {
				clears = true;
				FlowW *f = nullptr; auto fi = s.d[d].flows.find(c.ack.flow); if(fi != s.d[d].flows.end()) f = &fi->second;
				if(f && f->tx && f->tx->f && !f->tx->exceptions && (!f->tx->closedByApp || f->tx->f->getBufferedSize())) counts = true;
			}
			if(counts) { x.proof = w.now; x.pingOut = x.pingMaybe = false; x.unanswered = w.now; }
			else if(clears) { x.pingMaybe = x.pingMaybe || x.pingOut; x.pingOut = false; x.unanswered = w.now; } // unsure: judged as if a ping may follow at any time
		}
	};
	mon.onArrive = [&] (Sess &s, int dir, const Pkt &, const Wire &, std::vector<PChunk> &pc) { taken(s, dir, pc); };
	mon.onReplayed = mon.onArrive;
	w.onArrive.push_back([&] (const Pkt &p) { // the initiator may be open from its first keying answer on
		if(p.corrupted || p.toNode < 0) return;
		Wire k = decodeWire(p.data);
		if(k.mode() != 3 || !k.sid) return;
		for(auto &c : k.chunks) if(c.type == CHUNK_RIKEYING) { auto it = mon.bySid.find({p.toNode, k.sid}); if(it != mon.bySid.end() && it->second.second == 1) sideOpen(it->second.first, 0); }
	});
	mon.onArrived = [&] (Sess &s, int dir, const Pkt &, const Wire &, std::vector<PChunk> &) {
		int d = 1 - dir; auto it = sides.find({&s, d});
		note();
		if(it == sides.end() || it->second.unanswered != w.now) return;
		bool out = it->second.pingOut || it->second.pingMaybe;
		for(auto &b : bound) if(b.second == it->first && b.first->f && b.first->f->getOutstandingBytes()) out = true;
		if(!out) it->second.unanswered = -1;
	};
	// what starts a new session over an older one of the same pair
	size_t seen = 0;
	w.onSend.push_back([&] (Pkt &) {
		for(; seen < mon.sessions.size(); seen++) {
			Sess *s = mon.sessions[seen].get();
			sideOpen(s, 1);
			for(auto &o : mon.sessions) if(o.get() != s) for(int d = 0; d < 2; d++) if(node(o.get(), d) == s->resp && node(o.get(), 1 - d) == s->ini) {
				auto it = sides.find({o.get(), d});
				if(it != sides.end() && !it->second.ended) { overrides++; end(o.get(), d, "overridden"); }
			}
		}
		return true;
	});

	// --- things that must happen in time
	std::function<void()> watch = [&] {
		if(over) return;
		note();
		for(auto &kv : sides) {
			Sess *s = kv.first.first; int d = kv.first.second; Side &x = kv.second;
			if(x.ended || !x.open || x.overdue) continue;
			int n = node(s, d);
			bool dead = cut.count({node(s, 1 - d), n}) || cut.count({n, node(s, 1 - d)}) || !w.nodes[node(s, 1 - d)]->alive;
			// an outage
			bool waiting = x.pingOut;
			bool window = false, open = false, live = false;
			LD erto = 0, mrto = 0;
			for(auto &b : bound) if(b.second == std::make_pair(s, d)) {
				Tx *t = b.first;
				if(!t->f || t->exceptions) continue;
				if(!t->f->getNearNonce().empty()) { erto = std::max<LD>(erto, t->f->getERTO()); mrto = std::max<LD>(mrto, t->f->getMRTO()); live = true; }
				if(t->f->getBufferedSize() && mon.flowOf(t)) waiting = true;
				if(t->f->getRecvBufferBytesAvailable() < 8192) window = true;
				if(!t->closedByApp) open = true;
			}
			for(auto &b : rbound) if(b.second == std::make_pair(s, d)) { Rx *r = b.first; if(!r->f->getNearNonce().empty()) { erto = std::max<LD>(erto, r->f->getERTO()); mrto = std::max<LD>(mrto, r->f->getMRTO()); live = true; } }
			if(!live) continue;
			erto = std::max<LD>(erto, 10); mrto = std::max<LD>(mrto, 10);
			(void)open;
			LD u = x.unanswered;
			if(waiting && u >= 0) {
				LD allowed = x.L + erto * 1.5L + (window ? 75 : 0) + 5;
				// every transmission puts the timeout off
				if(w.now > std::max(std::max(u + allowed, x.lastTx + erto * 1.5L + 3), x.lSet + erto * 2.5L + (window ? 75 : 0) + 5)) { x.overdue = true; ctx.fail("vanished-peer-unnoticed", "%s has had no answer for %.1Lf s with %s waiting, limit %.1Lf s (timeout period %.2Lf); peer unreachable %d", who(s, d).c_str(), w.now - u, x.pingOut ? "a keepalive" : "data", x.L, erto, dead); }
			}
			// keepalives
			LD quiet = std::max(std::max(x.lastActive, x.kSet), x.openedAt);
			if(w.now > quiet + x.K + mrto + erto + 3) { x.overdue = true; ctx.fail("no-keepalive", "%s has sent nothing for %.1Lf s, its keepalive period is %.1Lf s", who(s, d).c_str(), w.now - quiet, x.K); }
			if(w.now > x.lastActive + 0.5L * x.K) quietKept++;
		}
		// idle sessions: everything on them is over on both sides
		for(auto &s : mon.sessions) {
			auto a = sides.find({s.get(), 0}), b = sides.find({s.get(), 1});
			if(a == sides.end() || b == sides.end() || a->second.ended || b->second.ended) continue;
			bool done = true; bool any = false;
			for(auto &kv : bound) if(kv.second.first == s.get()) { any = true; Tx *t = kv.first; if(!t->closedByApp || t->f->getBufferedSize() || (!t->msgs.empty() && (!t->rx || !t->rx->completes))) done = false; }
			if(!any || !done) { a->second.goneAt = -1; continue; }
			if(a->second.goneAt < 0) a->second.goneAt = w.now;
			LD lim = std::max(b->second.I, b->second.iSet + b->second.I - b->second.goneAt);
			if(s->d[0].pkts) lim = std::min(lim, std::max(a->second.I, a->second.iSet + a->second.I - a->second.goneAt)); // else it may never have opened at the initiator
			if(w.now > a->second.goneAt + lim + 145 && cut.empty() && !a->second.overdue) { a->second.overdue = true; ctx.fail("idle-session-kept", "the session of n%d and n%d has had no flows for %.1Lf s, idle limits %.1Lf and %.1Lf", s->ini, s->resp, w.now - a->second.goneAt, a->second.I, b->second.I); }
		}
		for(int n = 0; n < nn; n++) if(downAt[n] >= 0) {
			LD lim = immediate[n] ? 1 : 97;
			if(!complete[n] && w.now > downAt[n] + lim + slackTimer * 4) { ctx.fail("shutdown-unfinished", "n%d was asked to shut down %s %.1Lf s ago and has not completed", n, immediate[n] ? "immediately" : "orderly", w.now - downAt[n]); downAt[n] = -1; }
		}
		w.after(0.5, watch);
	};
	w.after(0.5, watch);
	for(int i = 0; i < nn; i++) w.nodes[i]->onShutdownComplete = [&, i] {
		complete[i]++; completeAt[i] = w.now;
		CHECK(complete[i] == 1, "shutdown-completed-twice", "n%d", i);
		CHECK(downAt[i] >= 0 || over, "shutdown-completed-unasked", "n%d", i);
		if(over) return;
		note();
		for(auto &kv : bound) if(kv.first->src->index == i && !kv.first->closedByApp) CHECK(kv.first->exceptions == 1, "shutdown-complete-too-soon", "n%d signals completion of its shutdown while flow %u has not been told", i, kv.first->id);
		for(auto &kv : app.tx) if(kv.second->src->index == i && !kv.second->closedByApp) CHECK(kv.second->exceptions == 1, "shutdown-complete-too-soon", "n%d signals completion of its shutdown while flow %u, still opening, has not been told", i, kv.first);
	};

	// --- the application
	double T = rng.real(0.5, 20);
	bool stop = false;
	auto feed = [&] (Tx *t) {
		int style = int(rng.u(6));
		int k = int(rng.u(4));
		int n = k == 0 ? 0 : k == 1 ? 1 : int(rng.range(1, 30));
		for(int i = 0; i < n; i++) w.after(rng.chance(0.4) ? 0 : rng.real(0, T * 1.5), [&, t, style] { if(!t->closedByApp && !t->exceptions) t->write(pickLen(w.rng, style)); });
		if(k == 3) { // one message every so often, to the end
			double every = rng.logreal(0.3, 20);
			struct Tick { static void go(World *w, Tx *t, double every, bool *stop) { if(*stop || t->closedByApp || t->exceptions) return; t->write(50); w->after(every, [w, t, every, stop] { go(w, t, every, stop); }); } };
			Tick::go(&w, t, every, &stop);
		}
		if(rng.chance(0.3)) w.after(rng.real(0, T * 2), [&, t] { if(!t->closedByApp && !t->exceptions && !stop) t->close(); });
	};
	app.onAccepted = [&] (Rx *r) {
		if(rng.chance(0.3) && app.tx.size() < 20) if(auto t = app.openReturn(r)) feed(t);
		if(rng.chance(0.1)) r->f->setReceiveOrder(RO_HOLD), r->order = RO_HOLD;
		if(rng.chance(0.1)) r->f->setBufferCapacity(rng.u(3000));
		if(rng.chance(0.1)) w.after(rng.real(0, T), [r] { if(!r->completes && !r->closedByApp) { r->closedByApp = true; r->f->close(); } });
	};
	app.checkOrder = true;
	auto tune = [&] (Tx *t) { // change the session's settings
		auto it = bound.find(t);
		if(it == bound.end() || t->exceptions || t->closedByApp) return;
		Side &x = sides[it->second];
		if(x.ended) return;
		int k = int(rng.u(3));
		if(k == 0) { LD v = rng.chance(0.2) ? rng.real(0, 1) : rng.logreal(1, 60); t->f->setSessionKeepalivePeriod(v); x.K = std::max<LD>(1, v); x.kSet = w.now; CHECK(t->f->getSessionKeepalivePeriod() == x.K, "setting-not-kept", "keepalive period %.3Lf reads %.3Lf", v, (LD)t->f->getSessionKeepalivePeriod()); }
		else if(k == 1) { LD v = rng.chance(0.2) ? rng.real(0, 1) : rng.logreal(1, 100); t->f->setSessionRetransmitLimit(v); x.L = std::max<LD>(1, v); x.lSet = w.now; }
		else { LD v = rng.chance(0.2) ? rng.real(0, 1) : rng.logreal(1, 100); t->f->setSessionIdleLimit(v); x.I = std::max<LD>(1, v); x.iSet = w.now; }
	};
	auto openOne = [&] {
		int a = int(rng.u(nn)), b; do b = int(rng.u(nn)); while(b == a);
		if(downAt[a] >= 0) { CHECK(!w.nodes[a]->rtmfp->openFlow("x", 1, "y", 1), "open-after-shutdown", "n%d opens a flow after shutdown", a); return; }
		Tx *t = app.open(w.nodes[a].get(), w.nodes[b].get(), Priority(rng.u(NUM_PRIORITIES)));
		if(t) { feed(t); if(rng.chance(0.3)) for(int i = 0; i < 3; i++) w.after(rng.real(0, T * 2), [&, t] { note(); tune(t); }); }
	};
	auto closeAt = [&] (Tx *t) {
		note();
		auto it = bound.find(t);
		if(it == bound.end() || !t->bound()) return;
		auto p = it->second;
		closes++;
		if(!sides[p].ended) end(p.first, p.second, "closed");
		t->f->closeSession();
		if(rng.chance(0.2)) t->f->closeSession();
	};
	int nf = int(rng.range(1, 6));
	for(int i = 0; i < nf; i++) w.after(rng.chance(0.5) ? 0 : rng.real(0, T), openOne);
	// --- the endings
	int ends = int(rng.range(1, 3));
	for(int e = 0; e < ends; e++) {
		double at = rng.chance(0.2) ? rng.real(0, 0.5) : rng.real(0, T * 1.5);
		int kind = int(rng.u(8));
		if(kind == 0 || kind == 1) w.after(at, [&] { std::vector<Tx *> v; for(auto &kv : bound) v.push_back(kv.first); if(!v.empty()) closeAt(rng.pick(v)); if(rng.chance(0.5)) { reopened++; w.after(rng.real(0, 2), openOne); } });
		else if(kind == 2) w.after(at, [&] { // both sides, nearly at once
			note();
			std::vector<Tx *> v; for(auto &kv : bound) v.push_back(kv.first);
			if(v.empty()) return;
			both++;
			auto p = bound[rng.pick(v)];
			for(int d = 0; d < 2; d++) { for(auto &kv : bound) if(kv.second == std::make_pair(p.first, d)) { Tx *t = kv.first; w.after(d ? rng.logreal(0.0001, 0.3) : 0, [&, t] { closeAt(t); }); break; } }
		});
		else if(kind == 3) w.after(at, [&] { // vanish
			int a = int(rng.u(nn)), b; do b = int(rng.u(nn)); while(b == a);
			int how = int(rng.u(3));
			if(how != 1) { w.path(a, b).down = true; cut.insert({a, b}); }
			if(how != 0) { w.path(b, a).down = true; cut.insert({b, a}); }
		});
		else if(kind == 4) w.after(at, [&] { // an outage that ends
			int a = int(rng.u(nn)), b; do b = int(rng.u(nn)); while(b == a);
			if(cut.count({a, b})) return;
			w.path(a, b).down = true; cut.insert({a, b});
			w.after(rng.logreal(0.5, 100), [&, a, b] { w.path(a, b).down = false; cut.erase({a, b}); if(rng.chance(0.5)) openOne(); });
		});
		else if(kind == 5 || kind == 6) w.after(at, [&] {
			int n = int(rng.u(nn)); bool imm = rng.chance(0.5);
			shutdowns++;
			if(downAt[n] < 0) { downAt[n] = w.now; immediate[n] = imm; } else if(imm && !immediate[n]) { immediate[n] = true; downAt[n] = w.now; }
			note();
			for(auto &s : mon.sessions) for(int d = 0; d < 2; d++) if(node(s.get(), d) == n && sides.count({s.get(), d}) && !sides[{s.get(), d}].ended) end(s.get(), d, imm ? "shut down at once" : "shut down");
			w.nodes[n]->rtmfp->shutdown(imm);
			if(rng.chance(0.2)) w.after(rng.real(0, 3), [&, n] { if(!immediate[n]) { downAt[n] = w.now; immediate[n] = true; } w.nodes[n]->rtmfp->shutdown(true); });
		});
		else w.after(at, [&] { for(auto &kv : app.tx) { Tx *t = kv.second.get(); if(!t->closedByApp && !t->exceptions) t->close(); } stop = true; }); // nothing left: idle
	}
	// a session in which every flow is closed, or whose peer is gone, must be over by then
	w.run(w.now + T * 2);
	bool wait = rng.chance(0.6);
	if(wait && !ctx.failed) w.run(w.now + rng.real(10, 200));
	if(rng.chance(0.5)) { for(auto &kv : app.tx) if(!kv.second->closedByApp && !kv.second->exceptions && rng.chance(0.7)) kv.second->close(); stop = true; if(wait && !ctx.failed) w.run(w.now + rng.real(10, 500)); }
	stop = true;
	// --- everyone shuts down
	if(!ctx.failed) {
		note();
		for(int n = 0; n < nn; n++) if(downAt[n] < 0 && !complete[n]) { downAt[n] = w.now; immediate[n] = rng.chance(0.3);
			for(auto &s : mon.sessions) for(int d = 0; d < 2; d++) if(node(s.get(), d) == n && sides.count({s.get(), d}) && !sides[{s.get(), d}].ended) end(s.get(), d, "shut down");
			w.nodes[n]->rtmfp->shutdown(immediate[n]);
			if(rng.chance(0.3)) w.run(w.now + rng.real(0, 3)); }
		w.run(w.now + 100);
		for(int n = 0; n < nn; n++) CHECK(complete[n] == 1, "shutdown-unfinished", "n%d", n);
		w.run(w.now + rng.real(0, 150));
		note();
		for(auto &kv : app.tx) { Tx *t = kv.second.get();
			if(!t->closedByApp) CHECK(t->exceptions == 1, "sender-not-told", "flow %u (%s) was told %d times of its end though everyone has shut down", t->id, bound.count(t) ? "bound" : "never bound", t->exceptions);
			if(!t->closedByApp || bound.count(t)) for(auto &m : t->msgs) CHECK(m->finished == 1, "receipt-not-finished", "message %u of flow %u", m->idx, t->id); }
		for(auto &kv : app.rx) if(!kv.second->closedByApp && !kv.second->completes && held(kv.second.get())) { releasing = true; kv.second->order = RO_SEQUENCE; kv.second->f->setReceiveOrder(RO_SEQUENCE); heldOver++; }
		w.run(w.now + 1);
		for(auto &kv : app.rx) if(!kv.second->closedByApp) CHECK(kv.second->completes == 1, "receiver-not-told", "flow %u", kv.first);
	}
	over = true;
	statsFromWorld(w);
	uint64_t ended = 0; for(auto &kv : sides) if(kv.second.reported) ended++;
	ctx.stat("session_sides_ended", ended); ctx.stat("senders_told", toldTx); ctx.stat("receivers_told", toldRx); ctx.stat("receipts_abandoned", toldReceipts); ctx.stat("endings_with_all_kinds", endings); ctx.stat("timeouts", timeouts); ctx.stat("idle_closes", idles); ctx.stat("keepalives", keepalives); ctx.stat("simultaneous_closes", both); ctx.stat("shutdowns", shutdowns); ctx.stat("overridden", overrides); ctx.stat("held_flows_outliving_session", heldOver); ctx.stat("quiet_half_periods", quietKept);
	for(auto &h : hows) { std::string k = "ended_" + h.first; for(auto &c : k) if(c == ' ') c = '_'; ctx.stat(k.c_str(), h.second); }
	ctx.nontrivial = endings > 0;
	ctx.sample(fmt("case %llu: %zu flows, %zu sessions, %llu sides ended, %llu senders, %llu receivers and %llu receipts told", (unsigned long long)ctx.caseIndex, app.tx.size(), mon.sessions.size(), (unsigned long long)ended, (unsigned long long)toldTx, (unsigned long long)toldRx, (unsigned long long)toldReceipts));
	cleanup(w, &app);
}
}
