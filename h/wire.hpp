#pragma once
// Passive monitor of everything session endpoints put on the (simulated) wire. Pairs the two directions of a session by its
// keying answer, follows every fragment from its first transmission to its acknowledgement, and keeps a reference receiver.
#include "app.hpp"

namespace vf {

// Set of sequence numbers as ranges.
struct Ranges {
	std::map<uintmax_t, uintmax_t> m; // from -> to
	bool has(uintmax_t v) const { auto it = m.upper_bound(v); if(it == m.begin()) return false; --it; return v <= it->second; }
	void add(uintmax_t a, uintmax_t b)
	{
		auto it = m.upper_bound(a);
		if(it != m.begin()) { auto p = std::prev(it); if(p->second == UINTMAX_MAX || p->second + 1 >= a) it = p; }
		while(it != m.end() && (b == UINTMAX_MAX || it->first <= b + 1)) { a = std::min(a, it->first); b = std::max(b, it->second); it = m.erase(it); }
		m[a] = b;
	}
	size_t count() const { return m.size(); }
	uintmax_t cum() const { auto it = m.find(0); return it == m.end() ? 0 : it->second; } // end of the range starting at 0
};

struct SFrag {
	uint8_t fra = 0; bool fin = false, data = false, abn = false, acked = false;
	Bytes bytes;
	int sends = 0; long double first = 0, last = 0; uint64_t lastPkt = 0;
	size_t chunk = 0;       // bytes of the latest transmission's chunk, with its header
	int acksSince = 0;      // acknowledging packets that reached the sender since the latest transmission
};

struct RFrag { uint8_t fra; Bytes data; };

struct FlowW {
	uintmax_t id = 0; Tx *tx = nullptr;
	// sender
	std::map<uintmax_t, SFrag> frags;
	uintmax_t maxSeq = 0, maxFsn = 0;
	bool finSent = false; uintmax_t finSeq = 0;
	Ranges acked;            // acknowledged to the sender so far
	bool gotAck = false;
	size_t rwnd = 65536;     // latest advertisement the sender received
	long double rwndAt = 0;
	// reference receiver
	bool rxSeen = false;
	Ranges rx; uintmax_t rxFsn = 0;
	std::map<uintmax_t, RFrag> buf; // fragments with data received and not consumed by take()
	Ranges told;             // sequence numbers in acknowledgements the receiver has sent
	FlowW() { rx.add(0, 0); acked.add(0, 0); told.add(0, 0); }
	// Whole message around seq, if complete in buf: from, to
	bool whole(uintmax_t seq, uintmax_t &from, uintmax_t &to) const;
	Bytes assemble(uintmax_t from, uintmax_t to) const;
};

struct Dir {
	int from = -1, to = -1;
	std::map<uintmax_t, FlowW> flows;
	uint64_t pkts = 0, dataPkts = 0;
};

struct Sess {
	int ini = -1, resp = -1; uint32_t sidI = 0, sidR = 0;
	Dir d[2]; // 0: from initiator, 1: from responder
	std::vector<std::pair<Pkt, Wire>> early; // waiting for the initiator to open
	bool iniOpen = false;
	long double openedAt = 0;
	Bytes rikeying;
	Bytes comp[2];              // keying components, which SimCrypto uses as nonces: initiator's, responder's
	uint64_t key[2] = {0, 0};   // of packets in direction 0, 1
	bool closing = false;       // a close was seen on the wire
};

struct PChunk { uint8_t type; const WChunk *c; bool ok = false; WUserData ud; WAck ack; };

struct WireMon {
	World &w; App &app;
	std::vector<std::unique_ptr<Sess>> sessions;
	std::map<std::pair<int, uint32_t>, std::pair<Sess *, int>> bySid; // (receiving node, sid) -> session, direction
	WireMon(World &w, App &a);
	std::function<void(Sess &, int dir, const Pkt &, const Wire &, std::vector<PChunk> &)> onSend;    // before the sender-side state changes
	std::function<void(Sess &, int dir, const Pkt &, const Wire &, std::vector<PChunk> &)> onSent;    // after
	std::function<void(Sess &, int dir, const Pkt &, const Wire &, std::vector<PChunk> &)> onArrive;  // before the receiver-side state changes and the endpoint sees it
	std::function<void(Sess &, int dir, const Pkt &, const Wire &, std::vector<PChunk> &)> onModel;   // after the receiver-side state changed, before the endpoint sees it
	std::function<void(Sess &, int dir, const Pkt &, const Wire &, std::vector<PChunk> &)> onArrived; // after the endpoint saw it
	std::function<void(Sess &, int dir, FlowW &, const WUserData &, bool fresh, const Ranges &pre)> onRxData; // reference receiver took one user data chunk
	std::function<void(Sess &, int dir, FlowW &, const WAck &)> onAckTaken; // the sender was given an acknowledgement (dir: of the data)
	std::function<void(Sess &, int dir, const Pkt &, const Wire &, std::vector<PChunk> &)> onReplayed; // a packet held until the initiator opened took effect
	uint64_t nPkts = 0, nData = 0, nAck = 0, nFragSends = 0, nFragResends = 0;
	bool badGrammarFails = true;
	std::set<uint64_t> blessed;  // crafted packets (hash64) the receiver is going to take as authentic
	void craft(const Sess &s, int dir, const Bytes &clear, double delay = 0); // inject an authentic packet from the sender's address
	FlowW *flowOf(Tx *t);  // wire state of an application flow, null if never seen on the wire
	FlowW *flowOf(Tx *t, Sess **s, int *dir);
	Tx *rep(Sess &s, int dir); // a live sending flow of that direction's sender in this session, for its getters
	Bytes seal(const Sess &s, int dir, const Bytes &clear) const; // an authentic packet in that direction
	bool sealedBy(const Sess &s, int dir, const Bytes &packet) const;
	void sync();           // let packets held until the initiator opened take effect
	std::vector<PChunk> parse(const Wire &k);
private:
	void sent(Pkt &p);
	void model(Sess &s, int dir, const Pkt &p, const Wire &k, std::vector<PChunk> &pc);
	struct Where { Sess *s; int dir; uintmax_t flow; };
	std::map<Tx *, Where> txFlow;
	std::map<std::pair<int, uint32_t>, Bytes> skic; // initiator, its session id -> its keying component
	Sess *find(const Pkt &p, const Wire &k, int &dir);
	std::map<std::pair<int, uint32_t>, std::vector<Sess *>> older; // sessions that had (receiving node, sid) before
	bool iniIsOpen(Sess &s);
	Sess *begin(int ini, int resp, uint32_t sidI);
};

} // namespace vf
