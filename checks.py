# Which drivers decide which property. Each part: driver sources in h/, sanitizer flavor, seconds per worker (quick, thorough).
SIM = ["base.cpp", "sim.cpp", "app.cpp"]
WIRE = SIM + ["wire.cpp"]
TRAF = WIRE + ["traffic.cpp"]
def part(driver, flavor="asan", srcs=None, quick=35, thorough=900, leaks=False, workers=8, args=(), case_s=60):
	return dict(driver=driver, flavor=flavor, srcs=(srcs if srcs is not None else SIM) + [driver + ".cpp"], quick=quick, thorough=thorough, leaks=leaks, workers=workers, args=list(args), case_s=case_s)
def base(driver, **kw):
	return part(driver, srcs=["base.cpp"], **kw)
PROPS = {
	"C01": dict(parts=[part("c01")], technique="runtime monitoring: ASan/UBSan simulation of faulty networks with an online in-order exactly-once delivery ledger", level="exploration",
		note="Every execution explored is the real library in a deterministic simulated network; the ledger oracle compares every delivered message with what was written. Trusted: the simulator, test crypto."),
	"C02": dict(parts=[part("c02")], technique="runtime monitoring: ASan/UBSan simulation of disturbances followed by healing, with a bounded-time progress oracle", level="exploration",
		note="Liveness judged in virtual time: everything must drain within a bound computed from the path and what is left once the network works again."),
	"C03": dict(parts=[part("c03", srcs=WIRE)], technique="runtime monitoring: ASan/UBSan simulation with an online reference receiver fed from the wire", level="exploration",
		note="A reference receiver sees the same packets; what must be delivered, withheld or notified after each packet is compared at once."),
	"C04": dict(parts=[part("c04", srcs=WIRE)], technique="runtime monitoring: ASan/UBSan simulation with online checkers of receipt callbacks against the wire and the receiver", level="exploration",
		note="Every receipt callback must have a reason visible in deadlines, parents, the application or the wire; every data fragment sent is judged against its message's deadlines and settings at that moment."),
	"C05": dict(parts=[part("c05", srcs=WIRE, quick=50)], technique="runtime monitoring: ASan/UBSan simulation with a hostile third party and an online oracle on answers, addresses, acceptance and the honest sessions", level="exploration",
		note="The third party has no keys: it sends garbage, altered and replayed genuine packets and any startup chunk from any address; genuine sessions must not notice."),
	"C06": dict(parts=[part("c06", srcs=TRAF, quick=60)], technique="runtime monitoring: ASan/UBSan simulation with a hostile authenticated peer and an online oracle on deliveries, honest bystanders and conclusions", level="exploration",
		note="The hostile peer holds the session's real keys and injects whatever chunks it likes; every message delivered must be explained by fragments it really sent."),
	"C07": dict(parts=[part("c07", quick=45, leaks=True)], technique="runtime monitoring: ASan/UBSan/LSan simulation in which every callback makes random API calls, with a ledger of callbacks, receipts and captures", level="exploration",
		note="One thread; worker threads are C25. RTMFP itself is released only from onShutdownComplete or later."),
	"C08": dict(parts=[part("c08", quick=40)], technique="runtime monitoring: ASan/UBSan simulation with hostile openers, responders and an on-path third party and an online oracle on identities, cookies and answers", level="exploration",
		note="What each session is bound to is compared with the certificate selected and proven; every answer of a responder is judged against the hello or cookie that earned it. Trusted: test crypto's signatures."),
	"C09": dict(parts=[part("c09", quick=40)], technique="runtime monitoring: ASan/UBSan simulation of simultaneous, redirected, introduced and hindered opens with an online oracle on convergence, delivery and failures", level="exploration",
		note="All flows between two endpoints must share one session, carry their data, or fail once within the handshake time."),
	"C10": dict(parts=[part("c10", quick=40)], technique="runtime monitoring: ASan/UBSan simulation with an online oracle on offers, associations, rejections and reasons", level="exploration",
		note="Every offer is compared with the open that caused it, every rejection told with the reason its receiver gave, every flow not rejected with full delivery."),
	"C11": dict(parts=[part("c11", srcs=WIRE, quick=50)], technique="runtime monitoring: ASan/UBSan simulation of every way a session can end with an online oracle on callbacks, limits, keepalives and shutdown", level="exploration",
		note="Each session side's end is inferred from requests and the wire; every flow, receiver and receipt on it must hear once and then nothing; limits and keepalive times are judged in virtual time."),
	"C12": dict(parts=[part("c12", srcs=TRAF)], technique="runtime monitoring: ASan/UBSan simulation with an online wire monitor of windows, advertisements and probes", level="exploration",
		note="Every data packet is judged against the advertisement its sender last received, every advertisement against the receiver's buffer, every closed window against the probe schedule."),
	"C13": dict(parts=[part("c13", srcs=TRAF)], technique="runtime monitoring: ASan/UBSan simulation with an online in-flight model fed from the wire judging every change of window, estimates and timeouts", level="exploration",
		note="A model of what is in flight, missing, lost and timed out is fed from the wire alone; the sender's own counts and every change of its congestion state are compared at the packet that caused it."),
	"C14": dict(parts=[part("c14", srcs=TRAF, quick=45)], technique="runtime monitoring: ASan/UBSan simulation with an online wire monitor judging every packet's form and truthfulness", level="exploration",
		note="Every packet sent is parsed by an independent parser; timestamps, echoes, acknowledgements, sequence numbers, marks and bytes are compared with what really happened."),
	"C15": dict(parts=[part("c15", quick=45)], technique="runtime monitoring: ASan/UBSan simulation of moving endpoints and address attackers with an online model of probes and verified addresses", level="exploration",
		note="A model fed from the wire says where each side of a session sends; every packet, far address and callback must agree with it."),
	"C16": dict(parts=[part("c16", quick=45)], technique="runtime monitoring: ASan/UBSan on keyed pairs, an independent implementation of the crypto profile, hostile packets and components, and simulated sessions with a ledger of every packet protected", level="exploration",
		note="Refusals and acceptances are decided by a reference written from RFC 7425 with OpenSSL primitives only. Packets without authentication are only guarded by a 16 bit checksum and are not claimed against alteration. Trusted: OpenSSL."),
	"C17": dict(parts=[base("c17")], technique="runtime monitoring: ASan/UBSan on generated inputs with a reference codec and a shadow packet buffer", level="exploration",
		note="Every call's result is compared with an independent reference; buffers are exact-size heap blocks so any stray access is an ASan report."),
	"C18": dict(parts=[base("c18", leaks=True)], technique="runtime monitoring: ASan/UBSan/LSan on generated AMF0 trees and hostile byte strings with a structural round-trip oracle", level="exploration",
		note="Trees, truncations, mutations and raw bytes; an independent encoder and walker decide what each input means."),
	"C19": dict(parts=[base("c19")], technique="runtime monitoring: ASan/UBSan on generated addresses and hostile text/bytes with a reference model (inet_pton and own parser)", level="exploration",
		note="Every conversion compared with the system's own parser and a reference order."),
	"C20": dict(parts=[base("c20")], technique="runtime monitoring: ASan/UBSan on generated values, URIs and hostile bytes with reference codecs", level="exploration",
		note="Reference implementations of every format, written from the protocol documents."),
	"C21": dict(parts=[base("c21", leaks=True)], technique="runtime monitoring: ASan/UBSan on operation histories with online reference collections", level="exploration",
		note="std::set/std::vector style references compared after every operation, at numeric extremes and during iteration."),
	"C22": dict(parts=[base("c22", leaks=True)], technique="runtime monitoring: ASan/UBSan on timer and run loop histories with an online trace checker", level="exploration",
		note="Virtual time for the timer list; the real select and epoll loops with an injected clock and pipes."),
	"C23": dict(parts=[base("c23")], technique="runtime monitoring: ASan/UBSan on arrival histories with an online reference reorder buffer", level="exploration",
		note="Virtual time; calls from within the callback included."),
	"C24": dict(parts=[part("c24")], technique="runtime monitoring: ASan/UBSan simulation of flows over faulty networks with an online sync-point trace checker", level="exploration",
		note="Real flows in the simulated network, sync commands in and out of order, with an observer per flow."),
	"C25": dict(parts=[base("c25", flavor="tsan", quick=45, case_s=300), base("c25", quick=15, case_s=300)], technique="runtime monitoring: ThreadSanitizer (and ASan/UBSan) on performers, worker hand-over and whole sessions over loopback sockets in many threads, with ledgers of which task ran where, when and in what order", level="exploration",
		note="Real schedules only, varied by pauses, slow workers, contention and a relay that drops, repeats and delays packets; no schedule is enumerated. An RTMFP object outlives its late worker tasks in every case."),
	"C26": dict(parts=[part("c26", quick=50, leaks=True)], technique="runtime monitoring: ASan/UBSan/LSan simulation of a connection against a model server (faithful or hostile) over a faulty network, with online oracles of every command, answer, message and state and applications that close, delete and drop from inside callbacks", level="exploration",
		note="One connection per case; the server side is a model written from the protocol, since the library has no server class of its own."),
	"C27": dict(parts=[part("c27", quick=35, leaks=True)], technique="runtime monitoring: ASan/UBSan/LSan simulation of redirector clients against model redirectors over faulty networks, with online oracles of status, authentication, settings, load factor, reports, reconnection times and closing from inside callbacks", level="exploration",
		note="The redirector is a model written from the header's description and the reference server in test/. Session keys are simulated; the far nonce is the session's."),
	"C28": dict(parts=[base("c28", leaks=True), base("c28", flavor="tsan", quick=20)], technique="runtime monitoring: ASan/LSan and ThreadSanitizer on reference histories with a birth/death ledger; reference rate model", level="exploration",
		note="Ledger of constructions and destructions against a reference count model, threads racing on the same objects under TSan."),
	"C29": dict(parts=[part("c29", srcs=TRAF), part("c13", srcs=TRAF, quick=20)], technique="runtime monitoring: ASan/UBSan simulation with an online wire monitor of scheduling order and time-critical marks", level="exploration",
		note="At every data packet the flow it came from is compared with every other flow of the session that was surely able to send; reduced growth under foreign time-critical traffic is judged with the congestion model."),
}
