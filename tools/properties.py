import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
NT="No existing test instantiates a session or flow at all: the unit tests only call utility classes, "
p("C01","Reliable flows deliver every message intact, in order, exactly once",
 "On a flow received in original queuing order, the receiver's message callback gets exactly the messages written by the sender without deadline or abandonment: byte-identical, each once, in the order written, and with the sequence numbers and fragment counts strictly advancing. This holds for any message sizes (empty to many fragments), any number of flows and directions, and whatever the network drops, duplicates, reorders, delays or corrupts. When the sender closes the flow, completion is reported once, without error, and only after the last message was delivered.",
 ["inputs","schedules","fault_sequences"],"all message sequences and sizes, all packet loss/duplication/reorder/corruption/delay patterns short of a session timeout, all callback and timer interleavings",
 NT+"so neither a lossy network nor fragmentation and reassembly is ever executed.",
 ["src/SendFlow.cpp","src/RecvFlow.cpp","src/Session.cpp","src/SendFrag.hpp"],
 [("fragmentation and sequence numbers","SendFlow::basicWrite"),("reassembly and in-order delivery","RecvFlow::onData/insertFragment/tryDelivery/deliverMessage"),("loss detection and retransmission","Session::onPacketAfterChunks, Session::onTimeoutAlarm, SendFlow::onLoss")],
 ["RecvFlow::onMessage","RecvFlow::onComplete","SendFlow::write"])
p("C02","Transfers finish in bounded time once the network lets packets through",
 "If packets between two endpoints get through again before the session's retransmission limit runs out, everything written is delivered, acknowledged and drained from the sender's buffer within bounded time, whatever happened before: blackouts, bursts of loss, a receive window that went to zero and reopened, delivery held and resumed, priorities changed. A sender waiting to be told its flow is writable is called back while the flow has room, and no sleeping timer or unscheduled transmission is needed to be nudged by the application.",
 ["schedules","fault_sequences","histories"],"all finite disturbance patterns followed by a working network",
 NT+"and liveness after a fault pattern cannot be sampled by a unit test.",
 ["src/Session.cpp","src/SendFlow.cpp","src/RecvFlow.cpp","src/Interface.cpp","src/Timer.cpp"],
 [("timeout alarm and backoff","Session::rescheduleTimeoutAlarm/onTimeoutAlarm"),("persist probe","SendFlow::setPersistTimer/onPersistTimer"),("delayed ack alarm","Session::scheduleAck/ackNow"),("write scheduling","Interface::scheduleWrite/onWritable"),("writable notification","SendFlow::queueWritableNotify/doWritable")],
 ["RecvFlow::onMessage","SendFlow::onWritable","WriteReceipt::onFinished","SendFlow::getBufferedSize"])
p("C03","Network-order and held delivery lose, repeat and alter nothing",
 "With delivery in network arrival order each complete message is delivered exactly once, intact, as soon as its last missing fragment arrives (never waiting for earlier messages), and with its true sequence number, so that sorting by sequence number gives the written order. While delivery is on hold no message is delivered, and after leaving hold everything received meanwhile is. The receiver's forward and cumulative sequence numbers never go backwards and the gap-closed notification fires when, and only when, the cumulative number advances across a received-ahead gap in network order.",
 ["inputs","schedules","histories"],"all arrival orders, all switches between the receive orders while data flows",
 NT+"and testreorder covers only the separate reorder buffer.",
 ["src/RecvFlow.cpp","src/Session.cpp"],
 [("immediate delivery by hint","RecvFlow::tryDelivery/insertFragment"),("hold","RecvFlow::setReceiveOrder"),("gap closed notification","RecvFlow::onData")],
 ["RecvFlow::onMessage","RecvFlow::onCumulativeAckDidMerge","RecvFlow::getCumulativeAckSequenceNumber"])
p("C04","Write receipts tell the truth and deadlines are honoured",
 "Every message accepted by an open, connected flow ends exactly once: finished as delivered only after all its fragments reached the receiver, or finished as abandoned because its start or finish deadline passed, its parent was abandoned, it was lost with retransmission off, the application abandoned it, or the flow or session failed; never because of anything else. An abandoned message that the receiver has not completely received is never delivered, not even in part, does not block later messages, and no message data is (re)transmitted after its deadline passed or, with retransmission off, more than once. The receipt's state queries agree with its callback at all times.",
 ["inputs","schedules","histories","fault_sequences"],"all mixes of deadlines, parents, retransmit settings and manual abandons under all loss patterns",
 NT+"and receipts only act through flows.",
 ["src/WriteReceipt.cpp","src/SendFlow.cpp","src/RecvFlow.cpp"],
 [("use counting","IssuerWriteReceipt::useCountUp/useCountDown"),("deadlines and parents","WriteReceipt::abandonIfNeeded"),("abandoned fragments and forward sequence number","SendFlow::assembleData/trimSendQueue/findForwardSequenceNumber")],
 ["WriteReceipt::onFinished","RecvFlow::onMessage","IPlatformAdapter::writePacket"])
p("C05","Packets from strangers can neither crash nor change established state",
 "No byte string delivered to an endpoint by a party without the session key (garbage, truncations, mutations and replays of genuine packets, any startup chunk with any field lengths, from any address) causes a memory error, undefined behaviour, uncaught exception, unbounded loop, or a packet larger than the protocol allows in response. Established sessions, their data and their far address are unaffected by it, and a datagram that is not for this endpoint is answered as not recognised.",
 ["inputs","histories"],"all packet byte strings, interleaved with genuine traffic at any point of any session's life",
 "The tests feed packets to no parser above VLU and options; hostile inputs are unbounded.",
 ["src/RTMFP.cpp","src/Session.cpp","src/VLU.cpp","src/Address.cpp"],
 [("session id demux","RTMFP::onReceivePacket"),("packet and chunk framing","ISession::onReceivePacket"),("startup chunk parsers","StartupSession::on*Chunk")],
 ["RTMFP::onReceivePacket result","IPlatformAdapter::writePacket","sanitizer reports","flow callbacks of concurrent sessions"])
p("C06","A malicious session peer cannot crash or corrupt its counterpart",
 "Whatever chunks an authenticated peer sends inside an open session (malformed, out of range, contradictory or out of order user data, acknowledgements of things never sent, exceptions, pings, probes, forwarded hellos, close requests), the endpoint has no memory error, undefined behaviour, uncaught exception or unbounded loop. Messages delivered to the application are only ever made of fragments actually received for that flow, from one begin to its end with consecutive sequence numbers, and each sequence number is delivered at most once. Other sessions on the same endpoint keep working and closing the session still concludes all of its flows.",
 ["inputs","histories"],"all chunk sequences by an authenticated peer against all states of the endpoint's flows",
 NT+"much less one with a lying peer.",
 ["src/Session.cpp","src/RecvFlow.cpp","src/SendFlow.cpp","src/IndexSet.cpp"],
 [("chunk parsers","Session::on*Chunk"),("fragment linking","RecvFlow::insertFragment"),("acknowledgement processing","SendFlow::onAck/ackRange")],
 ["sanitizer reports","RecvFlow::onMessage","IPlatformAdapter::writePacket"])
p("C07","The API may be used from inside its own callbacks",
 "Calling any public method on flows, receipts and the endpoint from within any of its callbacks (write, close, close session, accept or reject, open flows, change settings, abandon, shut down, drop the last reference) has no memory error, undefined behaviour, uncaught exception or unbounded loop. After an application closes a flow, none of that flow's callbacks is called any more. Once the endpoint has shut down and all references are dropped, every flow, session, receipt, timer and captured callback is reclaimed.",
 ["histories","schedules","programs"],"all placements of API calls in callbacks, at all points of flow and session lifetimes",
 NT+"and no test calls back into an object from its own callback.",
 ["src/Flow.cpp","src/SendFlow.cpp","src/RecvFlow.cpp","src/WriteReceipt.cpp","src/Session.cpp","src/Timer.cpp","include/rtmfp/List.hpp"],
 [("self retention","retain/release and share_ref(this) around callbacks"),("callback clearing on close","SendFlow::close, RecvFlow::close"),("safe iteration","List::safeValuesDo")],
 ["sanitizer and leak reports","all callbacks"])
p("C08","Sessions open only with the proven owner of the requested identity",
 "A flow opened to an endpoint discriminator is bound only to a session whose far certificate is authentic, is selected by that discriminator, and whose owner signed this very key exchange; both ends then agree on nonces and on who the peer is. A responder creates no session, callback or flow state, and answers no keying, unless the initiator returned an unexpired cookie that this responder issued to that initiator's own address and signed its keying; a cookie presented from another address yields only a cookie change. Replies to hellos go only to the hello's source (or the forwarded reply address when forwarding is enabled) and only if the discriminator selects this endpoint.",
 ["inputs","histories","schedules"],"all forged, replayed, delayed and mutated handshakes by any third party, any order and timing of crypto completion",
 "No test performs a handshake.",
 ["src/RTMFP.cpp","src/Session.cpp"],
 [("cookies","RTMFP::makeCookie/checkCookie/sendCookieChange"),("responder checks","RTMFP::onIIKeying"),("initiator checks","Session::onRHello/onRIKeying/onCookieChange")],
 ["RTMFP::onRecvFlow","Flow::getFarCanonicalEPD/getNearNonce/getFarNonce","IPlatformAdapter::writePacket"])
p("C09","Simultaneous, duplicate and redirected opens converge to one session",
 "When endpoints open flows to each other at the same time, open many flows to the same endpoint under several candidate addresses, names, redirects or introductions, or have handshake packets duplicated, reordered and delayed, all flows to that endpoint end up in one single shared session per pair and all of them carry their data. An address or redirect that does not answer never prevents opening through one that does, and an attempt which cannot complete ends with exactly one exception report per flow within the handshake time limit.",
 ["schedules","histories","fault_sequences"],"all interleavings of handshakes between a pair (glare), all candidate sets, redirect and forwarding paths, all loss patterns",
 "No test performs a handshake.",
 ["src/RTMFP.cpp","src/Session.cpp","src/SendFlow.cpp"],
 [("glare resolution","RTMFP::onIIKeying"),("session sharing","RTMFP::openFlow, Session::onRHello, RTMFP::onSessionDidOpen/onSessionWillOpen"),("redirects and forwarding","RTMFP::onRedirect, Session::onFIHelloChunk, Session::addCandidateAddress"),("retransmitted keying","RTMFP::tryRIKeyingRetransmit")],
 ["RTMFP::onRecvFlow","SendFlow::onException","flow nonces on both ends"])
p("C10","Flow setup: metadata, association, acceptance and rejection are faithful",
 "A new flow is offered to the receiving application once, with exactly the sender's metadata: to the endpoint's callback if unassociated, or to the callback of exactly the sending flow it was opened in return to. A flow not accepted during the offer, or closed by the receiver at any time with a reason code, delivers nothing further, and its sender is told exactly that reason exactly once (0 by default) and can no longer write; flows that are accepted are unaffected by other flows' rejections.",
 ["inputs","schedules","histories"],"all metadata, flow trees, accept/reject decisions and reason codes under all loss patterns",
 NT+"so flow setup is never executed.",
 ["src/Session.cpp","src/RecvFlow.cpp","src/SendFlow.cpp","src/Flow.cpp"],
 [("user data options","Session::onUserDataChunk/onUserData"),("startup options","SendFlow::SendFlow/assembleData"),("exception reports","RecvFlow::assembleAck, SendFlow::onExceptionReport")],
 ["RTMFP::onRecvFlow","SendFlow::onRecvFlow","SendFlow::onException","RecvFlow::getMetadata/getAssociatedSendFlow"])
p("C11","Sessions end cleanly and every flow hears about it exactly once",
 "However a session ends (closed by either side, both at once, far end vanished, shut down orderly or immediately), each still-open sending flow gets one exception, each open accepted receiving flow one error completion, all unfinished receipts finish as abandoned, and nothing is called afterwards. With data or a keepalive unanswered, a vanished peer is detected no earlier than the retransmission limit allows and no later than the first retransmission timeout after it (a timeout runs from the latest transmission), an idle session closes after its idle limit and not while it has flows, keepalives go out on schedule, an orderly close ends within its close timeout, and shutdown completion is signalled exactly once, when all sessions are gone.",
 ["histories","schedules","fault_sequences","configurations"],"all close/shutdown/timeout/loss combinations at any point of a session's life, all limit settings",
 "No test opens or closes a session.",
 ["src/Session.cpp","src/RTMFP.cpp","src/Flow.cpp"],
 [("close handshake","Session::close/setNearclose/setFarcloseLinger/onCloseChunk/onCloseAckChunk"),("limits","Session::onKeepaliveAlarm/onIdleAlarm/onTimeoutAlarm"),("shutdown","RTMFP::shutdown/checkShutdownComplete"),("teardown","Session::abortFlowsAndTimers")],
 ["SendFlow::onException","RecvFlow::onComplete","WriteReceipt::onFinished","IPlatformAdapter::onShutdownComplete"])
p("C12","Senders respect the receiver's advertised window",
 "A sender never has more unacknowledged bytes outstanding on a flow than the receiver's latest advertisement it has received, by more than one packet; the advertisement is the free part of the receiver's configured buffer, capped by its window limit, in whole kilobytes, and at least one kilobyte unless delivery is on hold or the buffer is configured to zero. When the window is zero the sender probes, with growing intervals between one second and one minute, and resumes when it opens; while delivery is on hold the receiver's buffered bytes therefore stay within capacity plus one in-flight window.",
 ["schedules","inputs","histories"],"all buffer sizes, window limits, hold/resume patterns and loss patterns",
 NT+"so no window is ever advertised.",
 ["src/SendFlow.cpp","src/RecvFlow.cpp","src/Session.cpp"],
 [("window check","SendFlow::isMaybeReadyForTransmission/assembleData"),("advertisement","RecvFlow::assembleAck"),("probing","SendFlow::onPersistTimer, Session::onBufferProbe")],
 ["IPlatformAdapter::writePacket","RecvFlow::getBufferedSize","SendFlow::getOutstandingBytes"])
p("C13","Congestion control never overruns its window and reacts to congestion",
 "New data is sent only while the session's outstanding bytes (exactly those sent and neither acknowledged, reported lost, nor timed out) are below the congestion window, and, on paths with a round trip of 4.5 ms or more, never more than a burst of six segments plus the window's pace between acknowledgements; the window never falls below its timed-out minimum of two segments. A session starts at the initial window of three segments; a loss (three later acknowledgements) or an ECN congestion mark reduces the window once per round trip (by an eighth to a half of what was in use, or by one and a half times what was lost if that is more, never below the initial window), a retransmission timeout drops it to the minimum and backs the timer off up to its cap, and growth per acknowledgement is bounded by one segment and by what was acknowledged, and happens only when the window is in use and nothing is missing. Marks that arrive are counted and reported with acknowledgements. Round-trip measurements and timeouts follow the timestamps echoed on the wire.",
 ["schedules","fault_sequences","inputs"],"all acknowledgement, loss, mark and delay histories",
 NT+"so no congestion state exists in them.",
 ["src/Session.cpp","src/SendFlow.cpp"],
 [("window and recovery","Session::updateCWND/onTimeoutAlarm"),("burst limit","Session::onInterfaceWritable/scheduleBurstAlarm"),("round trip","Session::onPacketHeader"),("ECN","Session::onEcnReportChunk")],
 ["IPlatformAdapter::writePacket","Flow::getCongestionWindow/getSRTT/getERTO/getOutstandingBytes"])
p("C14","Everything an endpoint puts on the wire is well formed and truthful",
 "Every packet sent in a session parses completely under the protocol grammar, stays within the session packet size limit, carries the sender's role and truthful timestamps and echoes, and contains whole chunks only. Acknowledgements claim only sequence numbers actually received or declared not coming and, within the delayed-ack time, all of them that fit; user data uses consecutive sequence numbers per flow, sends the same bytes every time a fragment is retransmitted, never retransmits what has been acknowledged, and its forward sequence number never covers anything not yet acknowledged and not abandoned. Pings up to the maximum ping size are answered with their exact content. An acknowledgement may be cut short only for lack of room in its packet.",
 ["schedules","inputs","histories"],"all traffic mixes and loss patterns",
 NT+"so no packet is ever emitted.",
 ["src/Session.cpp","src/SendFlow.cpp","src/RecvFlow.cpp","src/PacketAssembler.cpp"],
 [("packet assembly","PacketAssembler, Session::onInterfaceWritable, SendFlow::assembleData"),("acknowledgements","RecvFlow::assembleAck, Session::sendAcks"),("timestamps","Session::getTimestampIfNew/getTimestampEcho")],
 ["IPlatformAdapter::writePacket"])
p("C15","Sessions follow the peer to a new address, and only the real peer",
 "When a peer's address changes, the session moves to it after (and only after) the peer returned, from that very address, a fresh probe the endpoint sent there; each open flow's address-change callback fires once per change, data keeps flowing and nothing is lost or repeated. Replayed, spoofed or forged packets from other addresses, including replays of old probe answers, never move a session, and data is never sent to an address that has not been verified.",
 ["schedules","inputs","histories"],"all rebinding times and counts, all replays and spoofed sources, with loss of any probe",
 "No test has an address change.",
 ["src/Session.cpp","src/RTMFP.cpp"],
 [("address verification","Session::onPacketAfterChunks/sendMobilityCheck/onMobilityCheckReply")],
 ["Flow::getFarAddress","Flow::onFarAddressDidChange","IPlatformAdapter::writePacket"])
p("C16","Encrypted sessions agree on keys and reject everything not from the peer",
 "With the Flash-compatible crypto, two endpoints that complete a handshake can decrypt each other's packets to exactly the plaintext sent, hold mirrored nonces, and in each direction use packet authentication and sequence numbering exactly when the sender is set to always send it or the receiver requires it, however often handshake messages are repeated or refused ones preceded them; endpoints with conflicting requirements, no common key group, or weak or malformed public keys do not complete one. With authentication in use any modified, truncated, extended, forged, reflected or foreign packet is rejected, and with sequence numbering each packet is accepted at most once while a fresh one that is less than 32 behind the newest is accepted. Certificates, endpoint discriminators and keying components decode safely from arbitrary bytes, and a certificate is selected by exactly the discriminators naming its fingerprint (or its requested hostname or ancillary data).",
 ["inputs","configurations","histories"],"all option combinations of both sides, all packet lengths, all byte-level modifications, replays and malformed certificates or keying components",
 "No test touches the crypto adapter.",
 ["src/FlashCryptoAdapter.cpp","src/FlashCryptoAdapter_OpenSSL.cpp"],
 [("packet protection","FlashCryptoKey::encrypt/decrypt"),("negotiation","initiatorCombineResponderKeyingComponent/generateResponderKeyingComponent"),("certificate and EPD parsing","FlashCryptoCert")],
 ["SessionCryptoKey interface","CryptoCert interface","sanitizer reports"])
p("C17","Variable-length numbers, options and packet assembly are exact and bounded",
 "Every unsigned number encodes to at most ten bytes and decodes back to itself consuming exactly what was written; decoding any bytes never reads outside the given limits, refuses truncated numbers, reports numbers too large for 64 bits as the maximum instead of a wrapped value, and fields and options decode only when entirely contained. Assembling a packet never writes outside its buffer, a push that does not fit changes nothing and says so, and rolling back a chunk restores the packet exactly to before that chunk was started.",
 ["inputs"],"all integers, byte strings, buffer sizes and call sequences",
 "testvlu samples about a dozen numbers and no packet assembler.",
 ["src/VLU.cpp","src/PacketAssembler.cpp"],
 [("codec","VLU::append/parse/parseField, Option::append/parse"),("assembly","PacketAssembler::push*/startChunk/commitChunk/rollbackChunk")],
 ["VLU, Option, PacketAssembler public functions","sanitizer reports"])
p("C18","AMF0 values survive encoding and no input breaks the decoder",
 "Encoding any AMF0 value tree of the supported kinds (numbers of every bit pattern, booleans, strings of any length, null, undefined, nested objects, ECMA arrays and strict arrays, no deeper than the decoder's limit) and decoding it gives an equal tree and consumes exactly the encoded bytes; decoding arbitrary or truncated bytes either yields values from bytes inside the input or fails cleanly, with no memory error, undefined behaviour, unbounded recursion or endless loop. Copies are independent of what they were copied from, and the printed form shows numbers to at least fifteen digits and strings unambiguously.",
 ["inputs"],"all value trees and all byte strings",
 "testamf encodes one fixed tree.",
 ["src/AMF.cpp","include/rtmfp/AMF.hpp"],
 [("encode/decode","AMF0::decode, AMF0*::encode"),("printing","AMF0*::repr, numeric conversion")],
 ["AMF0 public functions","sanitizer reports"])
p("C19","Addresses convert between all their forms without change",
 "Every IPv4 and IPv6 address with any port and origin survives conversion to its wire encoding, socket address, presentation string and raw bytes and back; equality and ordering are consistent total orders over address and port. Parsing never reads beyond its input, never yields an address from malformed text or bytes (bad family, wrong length, trailing garbage, ports out of range), and IPv4-mapped conversion between families preserves the address exactly when it is possible.",
 ["inputs"],"all addresses, ports, origins and arbitrary strings and bytes",
 "testaddress samples a handful of addresses.",
 ["src/Address.cpp","include/rtmfp/Address.hpp"],
 [("codecs","Address::encode/setFromEncoding/toPresentation/setFromPresentation/setFamily"),("ordering","Address::operator</==")],
 ["Address public functions","sanitizer reports"])
p("C20","Media, metadata, URI, hex and checksum helpers are exact inverses or references",
 "Messages, metadata, stream headers and user-control commands built by the helper functions parse back to the same type, timestamp, stream and payload for all values they can represent; URIs split into parts that recompose to the original and follow RFC 3986 for scheme, authority, path, query and fragment; hex output reads back as the same bytes and checksums equal their definitions for all inputs. Parsing any malformed or truncated input fails or is bounded by the input without memory errors or undefined behaviour.",
 ["inputs"],"all values and byte strings",
 "testtcmsg, testmedia, testuriparse, testhex and testchecksums sample fixed vectors.",
 ["src/TCMessage.cpp","src/Media.cpp","src/URIParse.cpp","src/Hex.cpp","src/Checksums.cpp"],
 [("codecs","TCMessage::*, TCMetadata::*, Media, URIParse, Hex, Checksums")],
 ["public functions","sanitizer reports"])
p("C21","Index sets and lists behave as the collections they claim to be",
 "After any sequence of operations an index set contains exactly the indices added and not since removed, as minimal, sorted, non-touching ranges over the whole unsigned range, and reports sizes, extremes, membership and iteration accordingly. A list holds exactly the values added and not removed, in the order implied by the insert positions, with names staying valid and unique until removal, a summing list's running sum equal to the sum of the members added by value, and safe iteration tolerating any modification during the iteration.",
 ["inputs","histories"],"all operation sequences, including at the numeric extremes and modification during iteration",
 "testlist, testcollect and tis run one fixed sequence each.",
 ["src/IndexSet.cpp","include/rtmfp/List.hpp","include/rtmfp/IndexSet.hpp"],
 [("ranges","IndexSet::add/remove"),("linked vector","List::append/prepend/addBefore/addAfter/remove/moveName*/safeValuesDo, SumList")],
 ["IndexSet and List public functions","sanitizer reports"])
p("C22","Timers fire when due, in order, as often as asked, and never after cancel",
 "A timer fires at the first opportunity at or after its time and never before; timers due together fire in time order; a recurring timer that is behind skips the missed times and keeps its phase when catching up, and otherwise fires once for every period missed; a rescheduled timer fires at its new time only, and a cancelled one never again, also when cancelled or rescheduled from inside its own or another timer's action. The time-to-sleep answer is never later than the next fire time and the list announces when it gets earlier. The run loops fire timers, run later-tasks once and in order, report only registered ready descriptors and stop when asked.",
 ["histories","schedules","inputs"],"all schedules of schedule/cancel/reschedule/clock-advance including from callbacks",
 "No test drives timers deterministically; tis only waits in real time.",
 ["src/Timer.cpp","src/RunLoop.cpp","src/SelectRunLoop.cpp","src/EPollRunLoop.cpp"],
 [("timer list","TimerList::fireDueTimers/addTimer/removeTimer, Timer::basicFire"),("loops","RunLoop::doLater, SelectRunLoop::run, EPollRunLoop::run")],
 ["Timer::action","TimerList::howLongToNextFire/onHowLongToSleepDidChange","RunLoop callbacks"])
p("C23","The reorder buffer releases messages once, in order, within its deadline",
 "Messages handed to a reorder buffer in any order come out once each with unchanged bytes, in sequence order except that one arriving after a later one was already released comes out immediately and is marked late; a message waits only for a missing predecessor, at most for the configured period, and flushing or declaring predecessors complete releases everything it should at once. Closing it, also from inside its own callback, stops all output, and no sequence of calls makes it misbehave.",
 ["inputs","histories","schedules"],"all arrival orders and timings, all window settings, calls from inside the callback",
 "testreorder runs one arrival order.",
 ["src/ReorderBuffer.cpp","include/rtmfp/ReorderBuffer.hpp"],
 [("ordering","ReorderBuffer::insert/deliverThrough/tryDeliver/flush"),("deadline","RunLoopReorderBuffer / RTMFPReorderBuffer alarm")],
 ["ReorderBuffer::onMessage","sanitizer reports"])
p("C24","Synchronised flows wait for exactly each other and always resume",
 "When flows are told to synchronise on a sync point shared by a stated number of flows, each flow received in original order that reaches the point holds delivery until the stated number of flows have reached it, then all of them resume, at once and only then; messages after the point on any member are delivered only after the messages before the point on the others. Resetting a flow or dropping the manager releases the flows it held, and malformed sync commands are ignored.",
 ["schedules","inputs","histories"],"all arrival orders of sync commands across flows, counts, identifiers, closings",
 "testflowsync parses payloads only.",
 ["src/FlowSyncManager.cpp","include/rtmfp/FlowSyncManager.hpp"],
 [("sync points","FlowSyncManager::sync/reset/parse")],
 ["RecvFlow::onMessage across flows","RecvFlow::getReceiveOrder"])
p("C25","Cross-thread use is race free and tasks run once, in order",
 "Tasks handed to a performer from any number of threads each run exactly once on its run loop, in order per caller, and a caller that waits is released after its task ran (also when the performer is closed). Reference counts, receipts of work handed between crypto worker threads and the main thread, and complete multi-threaded sessions over real sockets have no data race, deadlock or lost task.",
 ["schedules"],"all interleavings of threads",
 "testperform runs one fixed pattern without a race detector.",
 ["src/Performer.cpp","src/PerformerPosixPlatformAdapter.cpp","src/PosixPlatformAdapter.cpp","src/Object.cpp","src/RTMFP.cpp"],
 [("task queue","Performer::perform/onSignaled/close"),("worker hand-over","PerformerPosixPlatformAdapter::perform, RTMFP::onIIKeying, Session::onRHello/onRIKeying"),("atomic reference counts","Object::retain/release")],
 ["ThreadSanitizer reports","task execution log"])
p("C26","Connections and streams deliver commands, media and status faithfully",
 "Over an RTMFP connection every command, data, audio and video message sent on a stream reaches the peer's handler for that stream with its type, timestamp and content unchanged and in order for reliable ones, transactions are answered to exactly the caller that made them, and stream creation, publish, play, close and deletion follow the connection's state. Malformed or unexpected messages from the peer have no memory error or undefined behaviour, and closing a connection or stream from any of its callbacks is safe and reports status exactly once.",
 ["inputs","schedules","histories"],"all message mixes, peers' replies (valid and hostile), close times",
 "No test opens a connection.",
 ["src/TCConnection.cpp","src/TCMessage.cpp","include/rtmfp/TCConnection.hpp"],
 [("connection and transactions","TCConnection::onCommandMessage/transact"),("streams","TCStream::on*/send*"),("transport","RTMFPTCConnection")],
 ["TCConnection/TCStream callbacks","sanitizer reports"])
p("C27","A redirector client registers, stays registered and reports faithfully",
 "Once told to connect, a redirector client reports CONNECTING, then CONNECTED when its redirector answers at any of its configured addresses, and DISCONNECTED (or DISCONNECTED_BAD_AUTH exactly when the redirector ended the connection with that code) when the redirector refuses, ends the connection or stays silent for longer than the keepalive period and retransmission limit allow; after every disconnection it tries again by itself, at its minimum interval (at least five seconds) after the previous attempt began, or at once if that time is past, until it is closed. On every connection it sends first one correct authentication per configured key, and then, in order and exactly once, its current settings (or draining when inactive), load factor, every later change of settings and every user data message; load factors no more often than the update interval, ending with the latest. Reports from the redirector reach the application in order with the reflexive address and its validity; only the first return flow with proper metadata is accepted. Closing, also from inside any callback or by dropping the last reference there, delivers what was sent before, ends the flows and makes no further callback, with no memory error or leak.",
 ["schedules","fault_sequences","histories"],"all connect/disconnect/failure/reconfiguration/report patterns, on all networks",
 "No test runs a redirector client.",
 ["src/RedirectorClient.cpp","include/rtmfp/RedirectorClient.hpp"],
 [("connection upkeep","RedirectorClient::doConnect/onConnected/onException"),("settings, load factor, authentication","RedirectorClient::sendSettingsIfActive/sendLoadFactor/sendAuth"),("reports","RedirectorClient::onRecvFlow/onMessage")],
 ["messages seen by the redirector","RedirectorClient callbacks","sanitizer reports"])
p("C28","Reference counts free objects exactly once; rates match what was counted",
 "Objects managed through shared references and retainers (copied, moved, swapped, assigned to themselves, converted between base and derived, created owning or borrowing) are destroyed exactly once, when and only when the last reference goes, on any thread. A rate tracker's answer is zero with no recent data, never negative or not-a-number, and equals the bytes of the current window plus a linearly decaying share of the previous window's, per window length, returning to zero after two idle windows.",
 ["histories","schedules","inputs"],"all sequences of reference operations and of counts and clock advances",
 "testretainer and testratetracker run fixed sequences.",
 ["src/Object.cpp","include/rtmfp/Object.hpp","include/rtmfp/Retainer.hpp","src/RateTracker.cpp"],
 [("counts","Object::retain/release, Retainer, share_ref"),("rate","RateTracker::update/getRate")],
 ["destructor calls","RateTracker::getRate","sanitizer reports"])
p("C29","Higher priority data goes first and time-critical traffic is signalled",
 "When several flows of a session have data to send, a packet's data always comes from a flow of the highest priority that is able to send, flows of equal priority take turns, and a priority change takes effect for the next packet. Packets carry the time-critical mark exactly when their data is from a flow above routine priority; an endpoint that receives time-critical traffic in one session tells its other peers so within the stated time, and those reduce their growth, while the session itself is not told about its own traffic.",
 ["schedules","histories"],"all mixes of priorities, writers and priority changes across sessions",
 NT+"so no scheduling happens.",
 ["src/Interface.cpp","src/Session.cpp","src/SendFlow.cpp","src/RTMFP.cpp"],
 [("priority queues","Interface::onWritable, Session::onInterfaceWritable"),("time critical flags","RTMFP::onSessionReceivedTC/shouldSessionReportTCR, SendFlow::assembleData")],
 ["IPlatformAdapter::writePacket"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
