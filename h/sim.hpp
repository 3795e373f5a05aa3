#pragma once
// Deterministic discrete-event world around real RTMFP endpoints: virtual clock, platform adapter,
// lossy network with taps, test crypto whose packets a monitor can read.
#include "base.hpp"
#include <queue>
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/PlainCryptoAdapter.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/params.hpp"
#include "rtmfp/PacketAssembler.hpp"
#include "rtmfp/Retainer.hpp"

namespace vf {

using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using vf::Bytes;

struct World; struct Node;

struct Pkt {
	Bytes data;
	Address src, dst;
	int tos = 0;
	int fromNode = -1;     // index, -1: injected
	int fromIf = 0;
	int toNode = -1;
	uint64_t id = 0;
	long double sentAt = 0;
	bool corrupted = false;
};

struct PathCfg {
	double delay = 0.02, jitter = 0, loss = 0, dup = 0, corrupt = 0, reorder = 0; // reorder: chance of an extra delay
	double reorderDelay = 0.05;
	double rate = 0;        // bytes/s, 0: infinite
	double queueLimit = 1.0; // seconds of queue
	double ecnThresh = -1;  // queue delay above which ECT packets are marked CE, <0: never
	double ecnMark = 0;     // random CE mark chance
	int maxConsecLoss = 1000000;
	bool down = false;
	// state
	long double busyUntil = 0;
	int consec = 0;
};

// --- crypto

struct CertInfo { std::string name; bool authentic; };

class SimCrypto : public ICryptoAdapter {
public:
	SimCrypto(World *w, const std::string &name, uint64_t seed);
	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override;
	Bytes getNearEncodedCertForEPD(const uint8_t *epd, size_t epdLen) override;
	bool isSelectedByEPD(const uint8_t *epd, size_t epdLen) override;
	Bytes sign(const uint8_t *msg, size_t msgLen, std::shared_ptr<CryptoCert> recipient) override;
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert> farCert) override;
	std::shared_ptr<CryptoCert> decodeCertificate(const uint8_t *bytes, size_t len) override;
	void pseudoRandomBytes(uint8_t *dst, size_t len) override;
	void cryptoHash256(uint8_t *dst, const uint8_t *msg, size_t len) override;

	World *world;
	std::string name;      // identity it claims in its certificate
	std::string signAs;    // whose secret it signs with (normally name)
	bool forgeEndorsement = false; // produce a certificate that is not authentic
	struct Node *home = nullptr; // the endpoint using it
	bool lateAuth = false;  // call authenticity/signature callbacks later from an event
	Rng rng;
	uint64_t signs = 0, checks = 0, keysMade = 0;

	static Bytes encodeCert(const std::string &name, bool good = true);
	static Bytes signBytes(const std::string &who, const uint8_t *msg, size_t len);
	static bool epdSelects(const std::string &name, const uint8_t *epd, size_t len);
	static const size_t MAC = 8;
};

// Encrypt a clear packet as the default (startup) key does, including session id scrambling.
Bytes sealDefault(const Bytes &clear, uint32_t sid);

// --- platform

class SimPlatform : public IPlatformAdapter {
public:
	SimPlatform(World *w, Node *n) : world(w), node(n) {}
	Time getCurrentTime() override;
	void onHowLongToSleepDidChange() override;
	bool notifyWhenInterfaceWritable(int interfaceID, const std::function<bool(void)> &onwritable) override;
	bool writePacket(const void *bytes, size_t len, int interfaceID, const struct sockaddr *addr, socklen_t addrLen, int tos) override;
	bool perform(unsigned long thread, const Task &task) override;
	void onShutdownComplete() override;
	void rewake();
	World *world; Node *node;
	uint64_t wakeGen = 0;
	long double wakeAt = INFINITY;
	std::map<unsigned long, long double> lastPerform;
	double performDelay0 = 0, performDelayN = 0; // max random delays
	double writableDelay = 0.00001, pace = 0.00001;
	int shutdownCompletes = 0;
	uint64_t performs = 0, writes = 0, timerRuns = 0;
	bool lateTimers = false;
};

struct Node {
	World *world;
	int index;
	std::string name;
	std::unique_ptr<SimPlatform> platform;
	std::unique_ptr<ICryptoAdapter> crypto;
	SimCrypto *sim = nullptr;
	std::shared_ptr<RTMFP> rtmfp;
	std::map<int, Address> pub;   // interface id -> current public address
	long double skew = 0;
	bool alive = true;            // false: packets to it vanish and its timers are not run
	bool destroyed = false;
	std::function<void()> onShutdownComplete;
	bool receive(const Pkt &p);   // deliver to the endpoint now
	void enter() {}
	void leave();
};

struct World {
	World(Rng &r);
	~World();
	Rng rng;
	long double now;
	struct Ev { long double t; uint64_t seq; std::function<void()> fn; };
	struct Cmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
	std::priority_queue<Ev *, std::vector<Ev *>, Cmp> q;
	uint64_t seq = 0, processed = 0, maxEvents = 4000000;
	uint64_t trace = 0;
	std::vector<std::unique_ptr<Node>> nodes;
	std::map<Address, std::pair<int, int>> where; // address -> node, interface
	std::map<std::pair<int, int>, PathCfg> paths;
	std::set<uint64_t> combined, opened; // receive keys an initiator has derived; and uses in an open session
	uint64_t justCombined = 0;
	PathCfg dflt;
	uint64_t pktId = 0;
	// taps: onSend answers false to swallow the packet
	std::vector<std::function<bool(Pkt &)>> onSend;
	std::vector<std::function<void(const Pkt &)>> onArrive;  // about to be given to the endpoint
	std::vector<std::function<void(const Pkt &, bool)>> onArrived; // after
	struct KeyRec { std::string who, peer; Bytes near, far; bool initiator; long double at; };
	std::vector<KeyRec> keys;  // keying components made, by whom and for whom
	bool bindRecipient = false; // signatures name who they are for
	uint64_t nSent = 0, nLost = 0, nDup = 0, nCorrupt = 0, nDelivered = 0, nMarked = 0, nReordered = 0, nQueueDrop = 0;
	bool stopped = false;

	void at(long double t, std::function<void()> fn);
	void after(long double d, std::function<void()> fn) { at(now + d, fn); }
	bool step();
	// Runs until time t, or until cond is true; answers whether cond became true.
	bool run(long double until, const std::function<bool()> &cond = nullptr);
	Node *addNode(const std::string &name, const std::vector<std::string> &addrs, std::unique_ptr<ICryptoAdapter> crypto = nullptr);
	PathCfg &path(int a, int b);
	void bind(Node *n, int ifid, const Address &a, bool makePublic = true);
	void transmit(Pkt p);
	void arrive(Pkt p);
	void inject(const Bytes &data, const Address &src, const Address &dst, int tos = 0, double delay = 0);
};

inline Address A(const std::string &s) { Address a; if(!a.setFromPresentation(s.c_str())) abort(); return a; }
inline std::string S(const Address &a) { return a.toPresentation(); }

// --- wire decoding (SimCrypto packets)

struct WChunk { uint8_t type; Bytes body; size_t off; };
struct Wire {
	bool ok = false;         // flags present and every chunk whole, nothing left over
	std::string why;
	uint32_t sid = 0;
	uint8_t flags = 0;
	long ts = -1, tse = -1;
	std::vector<WChunk> chunks;
	size_t clearLen = 0;
	int mode() const { return flags & 3; }
};
Wire decodeWire(const Bytes &pkt, size_t trailer = SimCrypto::MAC);

struct WUserData { uint8_t flags = 0; uintmax_t flow = 0, seq = 0, fsn = 0; bool hasOpt = false, hasMeta = false, hasAssoc = false; Bytes meta; uintmax_t assoc = 0; Bytes data; };
struct WAck { uintmax_t flow = 0, blocks = 0, cum = 0; std::vector<std::pair<uintmax_t, uintmax_t>> ranges; };
bool parseUserData(const WChunk &c, const WUserData *prev, WUserData &out);
bool parseAck(const WChunk &c, WAck &out);
bool vlu(const Bytes &b, size_t &off, uintmax_t &v);
void putVlu(Bytes &b, uintmax_t v);

} // namespace vf
