#pragma once
// Application layer used by the session/flow drivers: numbered flows carrying self-describing messages,
// with ledgers of what was written and what arrived.
#include "sim.hpp"

namespace vf {

struct App; struct Tx; struct Rx;

struct Msg {
	uint32_t idx = 0; Bytes data;
	std::shared_ptr<WriteReceipt> r;
	int finished = 0; bool finAbandoned = false;
	long double writtenAt = 0, finishedAt = 0;
	bool delivered = false; long double deliveredAt = 0;
	uintmax_t seq = 0; size_t frags = 0; // as seen by the receiver
	// reasons that can justify abandonment
	bool plain = true;     // nothing set: must be delivered
	bool appAbandoned = false; long double appAbandonedAt = 0;
	int parent = -1;
	long double startBy = INFINITY, finishBy = INFINITY;
	bool noRetransmit = false;
};

struct Tx {
	App *app; uint32_t id; Node *src, *dst;
	std::shared_ptr<SendFlow> f;
	Bytes meta;
	std::vector<std::unique_ptr<Msg>> msgs;
	int exceptions = 0; uintmax_t reason = 0; long double exceptionAt = -1;
	bool closedByApp = false; long double closedAt = -1;
	bool afterClose = false; // a callback came after the application closed it
	Rx *rx = nullptr;
	Tx *via = nullptr;         // the flow this one is a return flow of
	bool bound() const { return !f->getFarCanonicalEPD().empty(); }
	int writableCalls = 0;
	int farAddressChanges = 0;
	int onRecvOffers = 0;
	Msg *write(size_t len, Duration startWithin = INFINITY, Duration finishWithin = INFINITY);
	Msg *writeData(const Bytes &data, Duration startWithin = INFINITY, Duration finishWithin = INFINITY);
	void close();
};

struct Rx {
	App *app; uint32_t id; Node *node;
	Tx *tx = nullptr;
	std::shared_ptr<RecvFlow> f;
	ReceiveOrder order = RO_SEQUENCE;
	size_t next = 0;           // next message index expected (sequence order)
	struct Got { uintmax_t seq; size_t frags; Bytes data; long double at; };
	std::vector<Got> got;
	bool keepAll = false;
	uintmax_t lastSeq = 0; size_t lastFrags = 0; bool any = false;
	int completes = 0; bool completeError = false; long double completeAt = -1;
	int merges = 0;
	int farAddressChanges = 0;
	bool closedByApp = false; bool afterClose = false;
	uintmax_t lastCum = 0, lastFwd = 0;
	size_t delivered = 0, bytes = 0;
};

struct App {
	World &w;
	uint32_t nextId = 1;
	std::map<uint32_t, std::unique_ptr<Tx>> tx;
	std::map<uint32_t, std::unique_ptr<Rx>> rx;
	bool checkOrder = true;    // online oracle: RO_SEQUENCE flows with only reliable messages
	bool keepAll = false;
	std::function<uint32_t(Node *, const Bytes &, Tx *)> identify; // flow id by metadata; default reads it from the metadata
	std::function<bool(Node *, Rx *)> onOffer;      // answers true to accept; default accept
	std::function<void(Rx *)> onAccepted;
	std::function<void(Rx *, const Rx::Got &)> onMsg;
	std::function<void(Tx *)> onExc;
	std::function<void(Rx *)> onDone;
	std::function<void(Tx *, Msg *, bool)> onFin;
	explicit App(World &world) : w(world) {}
	~App();
	void listen(Node *n);
	Tx *adopt(uint32_t id, std::shared_ptr<SendFlow> f, Node *src, Node *dst, const Bytes &meta);
	Tx *open(Node *src, Node *dst, Priority pri = PRI_ROUTINE, const std::string &epd = "", bool candidates = true);
	Tx *openSame(Tx *t, Priority pri = PRI_ROUTINE);     // another flow in t's session (must be open)
	Tx *openReturn(Rx *r, Priority pri = PRI_ROUTINE);
	Bytes makeMeta(uint32_t id);
	void offer(Node *n, std::shared_ptr<RecvFlow> flow, Tx *assoc);
	void attach(Rx *r);
	bool allDelivered() const;
	bool allFinished() const;
	bool allDrained() const;
	std::string pending() const;
	static Bytes payload(uint32_t flow, uint32_t idx, size_t len);
};

// Message length distributions.
size_t pickLen(Rng &r, int style);
// Random path configuration of the given nastiness 0..3
PathCfg randomPath(Rng &r, int nasty);
std::string describe(const PathCfg &p);
void cleanup(World &w, App *app);
void statsFromWorld(World &w);

} // namespace vf
