#pragma once
// Shared workload for the wire-level drivers: several endpoints, several flows of different writing styles over faulty paths,
// with windows, holds, priorities, deadlines, outages and rejections as asked for.
#include "wire.hpp"

namespace vf {

struct TrafOpt {
	int nodes = 2;
	int nasty = 1;             // 0..2
	int minFlows = 1, maxFlows = 4; // per sending pair
	bool duplex = false;       // flows in both directions
	double pReturn = 0;        // chance that the receiver opens a return flow
	bool priorities = false; double pPriChange = 0;
	double pDeadline = 0;      // chance that a message has deadlines
	bool windows = false;      // receive buffer sizes and window limits, changing
	bool holds = false;
	int outages = 0;
	double pReject = 0, pClose = 0;
	double pBulk = 0.5;        // chance that a flow keeps its buffer full
	double T = 5;
	size_t budget = 300000;    // bytes in all
	int style = 0;             // message lengths
	bool rateLimited = false;
	bool idleGaps = false;
};

struct Traffic {
	World &w; App &app; WireMon &mon; TrafOpt o;
	std::vector<Tx *> flows;
	size_t left = 0;
	long double t0 = 0, tEnd = 0;
	bool stop = false;
	uint64_t closedInFin = 0;
	std::map<Rx *, size_t> capMax;       // largest buffer capacity ever set
	std::function<void(Tx *)> onOpened, onPriChange;
	uint64_t priChanges = 0, capChanges = 0, holdsOn = 0;
	Traffic(World &w, App &app, WireMon &mon, TrafOpt o);
	void addNodes();
	void start();                        // schedule everything
	void heal();                         // network works, buffers and orders restored; nothing more is disturbed
	bool settled() const;                // every message of every live flow finished, and delivered if plain
	std::function<void(Rx *, size_t)> setCap; // hook for changing capacity (default does it)
private:
	Tx *openOne(int a, int b);
	void feed(Tx *t);
	bool writeOne(Tx *t, size_t len);
};

TrafOpt randomTraffic(Rng &r);

} // namespace vf
