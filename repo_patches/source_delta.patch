From 54726fa482210e90043065757e44efd61bec7621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 01/39] fix: SendFlow::setPriority() on a flow that has data
 queued but no session must not dereference null

---
 src/SendFlow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index cbc86aa..eabe452 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -327,7 +327,7 @@ void SendFlow::doWritable()
 
 void SendFlow::scheduleForTransmission()
 {
-	if(isMaybeReadyForTransmission())
+	if(m_session and isMaybeReadyForTransmission())
 		m_session->scheduleFlowForTransmission(share_ref(this), m_priority);
 }
 
-- 
2.43.0


From 5a5dbd0bd5e43e8dd0bbe7aa8b06a9d5dd912328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 02/39] fix: a late IIKeying from the loser of a session glare
 must not abort the open session that won

---
 src/RTMFP.cpp   | 10 ++++++++++
 src/Session.cpp |  2 ++
 src/Session.hpp |  1 +
 3 files changed, 13 insertions(+)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 9a54dae..827f5f5 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -658,6 +658,16 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 						if(not state->m_cryptoCert->doesCertOverrideSession(overrideSession->m_cryptoCert))
 							return;
 
+						// if our opening session won the glare and is now open, then an IIKeying made with
+						// a cookie from before it opened is a late loser, not evidence of a new far end.
+						uintmax_t cookieTime = 0;
+						VLU::parse(state->m_cookie.data(), state->m_cookie.data() + state->m_cookie.size(), &cookieTime);
+						if( (HEADER_MODE_INITIATOR == overrideSession->m_role)
+						 and (cookieTime <= overrideSession->m_opened_age)
+						 and myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert)
+						)
+							return;
+
 						overrideSession->abort(); // this session is (hopefully) stale
 					}
 
diff --git a/src/Session.cpp b/src/Session.cpp
index f2a7e56..ef53834 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -336,6 +336,7 @@ Session::Session(RTMFP *rtmfp, std::shared_ptr<SessionCryptoKey> cryptoKey) :
 	ISession(rtmfp, cryptoKey),
 	m_state(S_UNKNOWN),
 	m_role(0),
+	m_opened_age(0),
 	m_rxSessionID(0),
 	m_txSessionID(0),
 	m_resp_cookieChanged(false),
@@ -546,6 +547,7 @@ void Session::setOpen(std::shared_ptr<Session> myself, uint32_t txSessionID)
 	m_epd = m_cryptoCert->getCanonicalEPD();
 	m_txSessionID = txSessionID;
 	m_last_keepalive_tx_time = m_last_idle_time = m_rtmfp->getCurrentTime();
+	m_opened_age = uintmax_t(m_rtmfp->getInstanceAge());
 	m_retransmit_deadline_epoch = INFINITY;
 	setKeepalivePeriod(m_rtmfp->getDefaultSessionKeepalivePeriod());
 	setRetransmitLimit(m_rtmfp->getDefaultSessionRetransmitLimit());
diff --git a/src/Session.hpp b/src/Session.hpp
index 5592b5f..adede19 100644
--- a/src/Session.hpp
+++ b/src/Session.hpp
@@ -157,6 +157,7 @@ public:
 
 	State    m_state;
 	unsigned m_role; // one of HEADER_MODE_INITIATOR or HEADER_MODE_RESPONDER
+	uintmax_t m_opened_age; // instance age in seconds when this session became S_OPEN
 	uint32_t m_rxSessionID;
 	uint32_t m_txSessionID;
 	bool     m_resp_cookieChanged;
-- 
2.43.0


From c274ccff55505bd26133ff0d4f2ba1865651c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 03/39] fix: Address::setFromPresentation() must refuse
 malformed ports and trailing garbage

---
 src/Address.cpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/Address.cpp b/src/Address.cpp
index 256a347..630d252 100644
--- a/src/Address.cpp
+++ b/src/Address.cpp
@@ -339,10 +339,28 @@ static size_t _count_colons(const char *src)
 	return rv;
 }
 
+// answer true and the port if src is entirely a decimal port number
+static bool _parse_port(const char *src, unsigned *port)
+{
+	unsigned rv = 0;
+	const char *cursor = src;
+
+	while((*cursor >= '0') and (*cursor <= '9'))
+	{
+		rv = (rv * 10) + (*cursor++ - '0');
+		if(rv > 65535)
+			return false;
+	}
+
+	*port = rv;
+	return (cursor != src) and not *cursor;
+}
+
 bool Address::setFromPresentation(const char *src, bool withPort)
 {
 	char ip[45+1]; // INET6_ADDRSTRLEN is 46, explicit here to match sscanf use below
-	int port = 0;
+	unsigned port = 0;
+	int parsed = 0;
 	int family = _count_colons(src) > 1 ? AF_INET6 : AF_INET;
 
 	if(withPort)
@@ -351,18 +369,24 @@ bool Address::setFromPresentation(const char *src, bool withPort)
 		// conversions specify a maximum field width that fits in the destination
 		// array including the terminating NUL.
 
-		if(2 != sscanf(src, "[%45[0-9a-fA-F:.]]:%d", ip, &port))
+		if((1 != sscanf(src, "[%45[0-9a-fA-F:.]]:%n", ip, &parsed)) or not parsed)
 		{
 			if(AF_INET6 == family)
 				return false;
 
-			if(2 != sscanf(src, "%45[0-9.]:%d", ip, &port))
+			if((1 != sscanf(src, "%45[0-9.]:%n", ip, &parsed)) or not parsed)
 				return false;
 		}
+
+		if(not _parse_port(src + parsed, &port))
+			return false;
 	}
 	else
 	{
-		if((1 != sscanf(src, "[%45[^]]]", ip)) and (1 != sscanf(src, "%45s", ip)))
+		if(((1 != sscanf(src, "[%45[0-9a-fA-F:.]]%n", ip, &parsed)) or not parsed) and (1 != sscanf(src, "%45[0-9a-fA-F:.]%n", ip, &parsed)))
+			return false;
+
+		if(src[parsed])
 			return false;
 	}
 
-- 
2.43.0


From f1982fa4e95af2dd379e3be9e5029b8cd4a92528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 04/39] fix: URIParse must not exhaust the stack on a long URI

---
 src/URIParse.cpp | 103 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 31 deletions(-)

diff --git a/src/URIParse.cpp b/src/URIParse.cpp
index a3a201a..cbc6169 100644
--- a/src/URIParse.cpp
+++ b/src/URIParse.cpp
@@ -1,16 +1,26 @@
 // Copyright © 2022 Michael Thornburgh
 // SPDX-License-Identifier: MIT
 
+#include <algorithm>
 #include <cctype>
 #include <cstring>
 
-#include <regex>
-
 #include "../include/rtmfp/Hex.hpp"
 #include "../include/rtmfp/URIParse.hpp"
 
 namespace com { namespace zenomt {
 
+static bool _isAlpha(char c)
+{
+	return ((c >= 'a') and (c <= 'z')) or ((c >= 'A') and (c <= 'Z'));
+}
+
+// answer the characters of s at positions [from, to), empty if from is beyond the end
+static std::string _slice(const std::string &s, size_t from, size_t to = std::string::npos)
+{
+	return from < s.size() ? s.substr(from, (std::string::npos == to) ? to : to - from) : std::string();
+}
+
 URIParse::URIParse(const std::string &uri_)
 {
 	parse(uri_);
@@ -20,36 +30,67 @@ void URIParse::parse(const std::string &uri_)
 {
 	uri = uri_;
 
-	std::smatch parts;
-	std::regex_match(uri_, parts, std::regex("^(([a-zA-Z][^:/?#]*):)?([^?#]*)?(\\?([^#]*))?(#(.*))?"));
-	schemePart = parts[1];
-	scheme = parts[2];
+	// this is the RFC 3986 Appendix B decomposition. it's done by hand because
+	// std::regex_match can recurse once for each character of a (perhaps
+	// very long) input and exhaust the stack.
+
+	size_t cursor = 0;
+	size_t mark;
+
+	schemePart.clear();
+	scheme.clear();
+	mark = uri.find_first_of(":/?#");
+	if((std::string::npos != mark) and (':' == uri[mark]) and _isAlpha(uri[0]))
+	{
+		cursor = mark + 1;
+		schemePart = uri.substr(0, cursor);
+		scheme = uri.substr(0, mark);
+	}
 	canonicalScheme = lowercase(scheme);
-	hierpart = parts[3];
-	queryPart = parts[4];
-	query = parts[5];
-	fragmentPart = parts[6];
-	fragment = parts[7];
-
-	std::smatch hierparts;
-	std::regex_match(hierpart, hierparts, std::regex("^(//([^/]*))?(.*)"));
-	authorityPart = hierparts[1];
-	authority = hierparts[2];
-	path = hierparts[3];
-
-	std::smatch authparts;
-	std::regex_match(authority, authparts, std::regex("^((([^:@]*)(:([^@]*))?)@)?(.*)"));
-	userinfoPart = authparts[1];
-	userinfo = authparts[2];
-	user = authparts[3];
-	passwordPart = authparts[4];
-	password = authparts[5];
-	hostinfo = authparts[6];
-
-	std::smatch hostparts;
-	std::regex_match(hostinfo, hostparts, std::regex("^((\\[([^\\]]*)?\\]))?([^:]*)?(:([0-9]+))?"));
-	host = std::string(hostparts[3]).empty() ? hostparts[4] : hostparts[3];
-	port = hostparts[6];
+
+	mark = uri.find_first_of("?#", cursor);
+	hierpart = _slice(uri, cursor, mark);
+	cursor = std::min(mark, uri.size());
+
+	mark = uri.find('#', cursor);
+	queryPart = _slice(uri, cursor, mark);
+	query = _slice(queryPart, 1);
+	fragmentPart = _slice(uri, mark);
+	fragment = _slice(fragmentPart, 1);
+
+	mark = (0 == hierpart.compare(0, 2, "//")) ? hierpart.find('/', 2) : 0;
+	authorityPart = hierpart.substr(0, mark);
+	authority = _slice(authorityPart, 2);
+	path = _slice(hierpart, mark);
+
+	mark = authority.find('@');
+	userinfoPart = (std::string::npos == mark) ? std::string() : authority.substr(0, mark + 1);
+	userinfo = (std::string::npos == mark) ? std::string() : authority.substr(0, mark);
+	hostinfo = authority.substr(userinfoPart.size());
+	mark = userinfo.find(':');
+	user = userinfo.substr(0, mark);
+	passwordPart = _slice(userinfo, mark);
+	password = _slice(passwordPart, 1);
+
+	host.clear();
+	port.clear();
+	std::string literal;
+	cursor = 0;
+	if((not hostinfo.empty()) and ('[' == hostinfo[0]) and (std::string::npos != (mark = hostinfo.find(']'))))
+	{
+		literal = hostinfo.substr(1, mark - 1);
+		cursor = mark + 1;
+	}
+	mark = hostinfo.find(':', cursor);
+	if( (std::string::npos == mark)
+	 or ((mark + 1 < hostinfo.size()) and (std::string::npos == hostinfo.find_first_not_of("0123456789", mark + 1)))
+	)
+	{
+		host = literal.empty() ? _slice(hostinfo, cursor, mark) : literal;
+		if(std::string::npos != mark)
+			port = hostinfo.substr(mark + 1);
+	}
+
 	effectivePort = port;
 
 	if((not scheme.empty()) and not hostinfo.empty())
-- 
2.43.0


From 4316e53a63069380056a15b705901b7155f5cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 05/39] fix: IndexSet::indicesDo() must end at UINTMAX_MAX and
 remove() must tolerate itself

---
 src/IndexSet.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/IndexSet.cpp b/src/IndexSet.cpp
index 07a87cc..88bf140 100644
--- a/src/IndexSet.cpp
+++ b/src/IndexSet.cpp
@@ -152,11 +152,12 @@ bool IndexSet::extentsDo(const std::function<bool(uintmax_t fromIndex, uintmax_t
 bool IndexSet::indicesDo(const std::function<bool(uintmax_t eachIndex)> &each_f) const
 {
 	return extentsDo([&] (uintmax_t fromIndex, uintmax_t toIndex) {
-		for(uintmax_t eachIndex = fromIndex; eachIndex <= toIndex; eachIndex++)
+		uintmax_t eachIndex = fromIndex;
+		do
 		{
 			if(not each_f(eachIndex))
 				return false;
-		}
+		} while(eachIndex++ < toIndex); // toIndex can be UINTMAX_MAX
 		return true;
 	});
 }
@@ -268,6 +269,9 @@ void IndexSet::remove(uintmax_t anIndex)
 
 void IndexSet::remove(const IndexSet& other)
 {
+	if(this == &other)
+		return clear();
+
 	other.extentsDo([&] (uintmax_t fromIndex, uintmax_t toIndex) { remove(fromIndex, toIndex); return true; });
 }
 
-- 
2.43.0


From 25eabe985b87f84a74ddc3ac277013d88abe64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 06/39] fix: List must tolerate being given its own members or
 itself

---
 include/rtmfp/List.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/rtmfp/List.hpp b/include/rtmfp/List.hpp
index 9ff8e72..3db7e92 100644
--- a/include/rtmfp/List.hpp
+++ b/include/rtmfp/List.hpp
@@ -326,8 +326,13 @@ template <class T> void List<T>::clear()
 
 template <class T> void List<T>::appendValuesFrom(const List<T>& other)
 {
+	const long end = other.last(); // other can be this
 	for(long name = other.first(); name > SENTINEL; name = other.next(name))
+	{
 		append(other.at(name));
+		if(end == name)
+			break;
+	}
 }
 
 template <class T> bool List<T>::valuesDo(const std::function<bool(T& value)> &pred)
@@ -438,8 +443,9 @@ template <class T> long List<T>::basicAddBeforeOrAfter(long name, bool after)
 
 template <class T> long List<T>::addValueBeforeOrAfter(const T& val, long name, bool after)
 {
+	const T tmp(val); // val can be a member of this list, which can move when growing
 	long rv = basicAddBeforeOrAfter(name, after);
-	at(rv) = val;
+	at(rv) = tmp;
 	return rv;
 }
 
@@ -469,7 +475,7 @@ template <class T> size_t SumList<T>::sum() const
 template <class T> long SumList<T>::addValueBeforeOrAfter(const T& val, long name, bool after)
 {
 	long rv = List<T>::addValueBeforeOrAfter(val, name, after);
-	m_sum += m_size_f(val);
+	m_sum += m_size_f(this->at(rv)); // val can have been a member of this list, which can have moved
 	return rv;
 }
 
-- 
2.43.0


From 736363822543bd9b625854b79b70e77dfe597a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 07/39] fix: a timer canceled after being rescheduled in its
 own action must drop it, and a cleared timer must forget its list

---
 src/Timer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index 0a2d79a..f176f01 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -128,7 +128,7 @@ void Timer::basicFire(const std::shared_ptr<Timer> &myself, Time now)
 		action(myself, now);
 	m_firing = false;
 
-	if(doesRecur() or m_rescheduled)
+	if((doesRecur() or m_rescheduled) and not isCanceled())
 	{
 		if(not m_rescheduled)
 		{
@@ -244,6 +244,9 @@ void TimerList::removeTimer(const std::shared_ptr<Timer> &timer)
 
 void TimerList::clear()
 {
+	for(auto it = m_timers.begin(); it != m_timers.end(); it++)
+		(*it)->setTimerList(nullptr); // they can outlive this list
+
 	m_timers.clear();
 }
 
-- 
2.43.0


From 573d1ebfc5aefd2fdd9192670161df675e6164da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 08/39] fix: EPollRunLoop must report a hangup as readable
 instead of spinning

---
 src/EPollRunLoop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EPollRunLoop.cpp b/src/EPollRunLoop.cpp
index 083bfb6..1cf4e01 100644
--- a/src/EPollRunLoop.cpp
+++ b/src/EPollRunLoop.cpp
@@ -152,7 +152,7 @@ void EPollRunLoop::run(Duration runInterval, Duration minSleep)
 			for(int x = 0; x < rv; x++)
 			{
 				Descriptor *descriptor = (Descriptor *)events[x].data.ptr;
-				if(events[x].events & EPOLLIN)
+				if(events[x].events & (EPOLLIN | EPOLLHUP)) // a hangup might not come with EPOLLIN, and read() doesn't block
 					activatedReads.push(descriptor->m_items[READABLE]);
 				if(events[x].events & EPOLLOUT)
 					activatedWrites.push(descriptor->m_items[WRITABLE]);
-- 
2.43.0


From fcf0d2138e3ac6e93035116054bf0bcecee69774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 09/39] fix: ReorderBuffer must tolerate calls from its own
 callback and release messages when their time comes

---
 src/ReorderBuffer.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 591f309..925be24 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -21,7 +21,8 @@ ReorderBuffer::Message::Message(const uint8_t *payload, size_t len, uintmax_t se
 
 ReorderBuffer::ReorderBuffer(Duration windowPeriod) :
 	m_csn(0),
-	m_deliveredThrough(0)
+	m_deliveredThrough(0),
+	m_highestSeen(0)
 {
 	m_reorderPeriod = std::max(windowPeriod, Duration(0));
 }
@@ -64,9 +65,14 @@ Duration ReorderBuffer::getReorderWindowPeriod() const
 
 void ReorderBuffer::insert(const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount)
 {
+	auto myself = share_ref(this); // onMessage can drop the last reference
+
 	m_highestSeen = std::max(m_highestSeen, _lastSN(sequenceNumber, fragmentCount));
 
-	if(shouldDeliverNow(sequenceNumber))
+	// if onMessage is inserting then earlier messages can be about to be delivered
+	bool isFirst = m_messagesBySequence.empty() or (sequenceNumber < m_messagesBySequence.begin()->first);
+
+	if(isFirst and shouldDeliverNow(sequenceNumber))
 	{
 		deliverMessage(bytes, len, sequenceNumber, fragmentCount);
 		tryDeliver();
@@ -79,6 +85,8 @@ void ReorderBuffer::deliverThrough(uintmax_t sequenceNumber)
 {
 	if(sequenceNumber > m_csn)
 	{
+		auto myself = share_ref(this);
+
 		m_csn = sequenceNumber;
 		tryDeliver();
 	}
@@ -100,7 +108,7 @@ void ReorderBuffer::clearTimer()
 
 bool ReorderBuffer::shouldDeliverNow(uintmax_t sequenceNumber) const
 {
-	return sequenceNumber <= m_csn + 1;
+	return (sequenceNumber <= m_csn) or (1 == sequenceNumber - m_csn); // m_csn can be UINTMAX_MAX
 }
 
 bool ReorderBuffer::isLate(uintmax_t sequenceNumber) const
@@ -112,8 +120,9 @@ void ReorderBuffer::deliverMessage(const uint8_t *payload, size_t len, uintmax_t
 {
 	uintmax_t lastSequenceNumber = _lastSN(sequenceNumber, fragmentCount);
 
-	if(onMessage)
-		onMessage(payload, len, sequenceNumber, fragmentCount, isLate(lastSequenceNumber));
+	auto onMessage_f = onMessage; // it can be replaced or cleared while it's running
+	if(onMessage_f)
+		onMessage_f(payload, len, sequenceNumber, fragmentCount, isLate(lastSequenceNumber));
 
 	m_csn = std::max(m_csn, lastSequenceNumber);
 	m_deliveredThrough = std::max(m_deliveredThrough, lastSequenceNumber);
@@ -121,24 +130,22 @@ void ReorderBuffer::deliverMessage(const uint8_t *payload, size_t len, uintmax_t
 
 void ReorderBuffer::tryDeliver()
 {
-	Time now = getCurrentTime();
-	findCSN(now); // advance m_csn for old messages
-	
+	findCSN(getCurrentTime()); // advance m_csn for old messages
+
 	while(not m_messagesBySequence.empty())
 	{
 		auto it = m_messagesBySequence.begin();
 		if(shouldDeliverNow(it->first))
 		{
-			auto &message_ptr = it->second;
+			auto message_ptr = it->second;
+			m_messagesBySequence.erase(it); // before delivering, since onMessage can change m_messagesBySequence
 			deliverMessage(message_ptr->m_payload.data(), message_ptr->m_payload.size(), message_ptr->m_sequenceNumber, message_ptr->m_fragmentCount);
-			m_messagesBySequence.erase(it);
+			findCSN(getCurrentTime()); // also trim delivered ones from m_messagesByTime
 		}
 		else
 			break;
 	}
 
-	findCSN(now); // also trim delivered ones from m_messagesByTime
-
 	scheduleDelivery();
 
 	assert(m_messagesBySequence.empty() == m_messagesByTime.empty());
@@ -158,6 +165,7 @@ void ReorderBuffer::scheduleDelivery()
 	{
 		m_deliveryTimer = scheduleTimer(m_messagesByTime.firstValue()->m_rxTime + m_reorderPeriod);
 		m_deliveryTimer->action = [this] (const std::shared_ptr<Timer> &sender, Time now) {
+			auto myself = share_ref(this);
 			clearTimer();
 			tryDeliver();
 		};
@@ -167,12 +175,10 @@ void ReorderBuffer::scheduleDelivery()
 // advance the CSN to the highest sequence number seen in the reorder period
 void ReorderBuffer::findCSN(Time now)
 {
-	Time deadline = now - m_reorderPeriod;
-
 	while(not m_messagesByTime.empty())
 	{
 		auto &first = m_messagesByTime.firstValue();
-		if(shouldDeliverNow(first->m_sequenceNumber) or (first->m_rxTime <= deadline))
+		if(shouldDeliverNow(first->m_sequenceNumber) or (first->m_rxTime + m_reorderPeriod <= now))
 		{
 			m_csn = std::max(m_csn, _lastSN(first->m_sequenceNumber, first->m_fragmentCount));
 			m_messagesByTime.removeFirst();
-- 
2.43.0


From 20410fc2383111b73f507d3d5c84b0bb667fdf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 10/39] fix: FlowSyncManager must not sign-extend a large count

---
 src/FlowSyncManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FlowSyncManager.cpp b/src/FlowSyncManager.cpp
index 0d8c2e0..4e49699 100644
--- a/src/FlowSyncManager.cpp
+++ b/src/FlowSyncManager.cpp
@@ -89,8 +89,8 @@ size_t FlowSyncManager::parseUserCommandPayload(const uint8_t *payload, const ui
 	if((limit - payload) < 8)
 		return 0;
 
-	syncID = (payload[0] << 24) | (payload[1] << 16) | (payload[2] << 8) | payload[3];
-	count = (payload[4] << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
+	syncID = (uint32_t(payload[0]) << 24) | (payload[1] << 16) | (payload[2] << 8) | payload[3];
+	count = (uint32_t(payload[4]) << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
 
 	return 8;
 }
-- 
2.43.0


From a78e3d3cd2786e882ae6de801d6a7ee262781d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:24 +0000
Subject: [PATCH 11/39] fix: a fragment that closes a gap with its forward
 sequence number and starts a new range must still report the merge

---
 src/RecvFlow.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index db091f0..904f143 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -225,9 +225,13 @@ void RecvFlow::onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, co
 	if(fsn > m_forward_sn)
 		m_forward_sn = fsn;
 
-	uintmax_t preCSN = getCumulativeAckSequenceNumber();
-
 	m_sequence_set.add(0, fsn);
+
+	// the forward sequence number and the new fragment can each close a gap, and at the
+	// same time the new fragment can start a new range, so count separately.
+	size_t midRangeCount = m_sequence_set.countRanges();
+	uintmax_t midCSN = getCumulativeAckSequenceNumber();
+
 	m_sequence_set.add(sequenceNumber);
 
 	size_t postRangeCount = m_sequence_set.countRanges();
@@ -252,20 +256,19 @@ void RecvFlow::onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, co
 		});
 	}
 
+	bool didMerge = (midRangeCount < preRangeCount) or ((postRangeCount < midRangeCount) and (midCSN < getCumulativeAckSequenceNumber()));
+
 	tryDelivery(deliveryHint);
 
 	if(preRangeCount != postRangeCount)
-	{
 		ack_now = true;
 
-		if(  (postRangeCount < preRangeCount)
-		 and (RO_NETWORK == m_rxOrder)
-		 and (RF_OPEN == m_state)
-		 and (preCSN < getCumulativeAckSequenceNumber())
-		 and onCumulativeAckDidMerge
-		)
-			onCumulativeAckDidMerge();
-	}
+	if(  didMerge
+	 and (RO_NETWORK == m_rxOrder)
+	 and (RF_OPEN == m_state)
+	 and onCumulativeAckDidMerge
+	)
+		onCumulativeAckDidMerge();
 
 	if(RF_OPEN != m_state)
 		ack_now = true;
-- 
2.43.0


From 02eba744c1e3574973e3d9b040ecfca787dc228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:06 +0000
Subject: [PATCH 12/39] fix: an abandoned fragment must not be dropped while
 nothing later is sure to tell the receiver

---
 src/SendFlow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index eabe452..c65c48f 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -349,6 +349,8 @@ void SendFlow::trimSendQueue(Time now)
 		auto &first = m_send_queue.firstValue();
 		if(first->m_in_flight)
 			break;
+		if(m_send_queue.lastValue()->m_ever_sent)
+			break; // nothing later is sure to carry the forward sequence number update, so this one must
 		first->m_receipt->abandonIfNeeded(now);
 		if(not first->m_receipt->isAbandoned())
 			break;
-- 
2.43.0


From 08db3835b8c3d4b7aa7691b466ef3c66633476f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:09 +0000
Subject: [PATCH 13/39] fix: a forwarded hello must leave room for the packet
 header

---
 src/Flow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Flow.cpp b/src/Flow.cpp
index 5c4462b..c2ae0b3 100644
--- a/src/Flow.cpp
+++ b/src/Flow.cpp
@@ -156,7 +156,8 @@ bool Flow::forwardIHello(const void *epd, size_t epdLen, const Address &replyAdd
 	if((not m_session) or (m_session->m_state != Session::S_OPEN))
 		return false;
 
-	uint8_t buf[MAX_SESSION_PACKET_LENGTH];
+	// leave room for the packet header (flags, timestamp, timestamp echo)
+	uint8_t buf[MAX_SESSION_PACKET_LENGTH - 5];
 	PacketAssembler fihello;
 	fihello.init(buf, 0, sizeof(buf));
 
-- 
2.43.0


From d82a04e0dc3af323fe93553e1c5c06106afb82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:13 +0000
Subject: [PATCH 14/39] fix: fragments of different messages must not be linked
 into one segment

---
 src/RecvFlow.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index 904f143..9cb6e24 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -302,14 +302,18 @@ long RecvFlow::insertFragment(uintmax_t sequenceNumber, uint8_t flags, const uin
 	if((USERDATA_FRA_BEGIN != fra) and ((prevName = m_recv_buffer.prev(name)) > 0))
 	{
 		auto prevFragment = m_recv_buffer.at(prevName);
-		if(prevFragment->m_sequence_number == sequenceNumber - 1)
+		if(  (prevFragment->m_sequence_number == sequenceNumber - 1)
+		 and ((USERDATA_FRA_BEGIN == prevFragment->m_fra) or (USERDATA_FRA_MIDDLE == prevFragment->m_fra))
+		)
 			fragment->m_segmentStart = prevFragment->m_segmentStart;
 	}
 
 	if((USERDATA_FRA_END != fra) and ((nextName = m_recv_buffer.next(name)) > 0))
 	{
 		auto nextFragment = m_recv_buffer.at(nextName);
-		if(nextFragment->m_sequence_number == sequenceNumber + 1)
+		if(  (nextFragment->m_sequence_number == sequenceNumber + 1)
+		 and ((USERDATA_FRA_END == nextFragment->m_fra) or (USERDATA_FRA_MIDDLE == nextFragment->m_fra))
+		)
 			fragment->m_segmentEnd = nextFragment->m_segmentEnd;
 	}
 
-- 
2.43.0


From 3459a8c90d09c5a9add4e8ae37acbe217aaf38a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 15/39] fix: an incomplete last message must not keep a
 finished flow from completing

---
 src/RecvFlow.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index 9cb6e24..8a5928c 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -407,8 +407,8 @@ void RecvFlow::tryDelivery(long hint)
 			auto endFrag = m_recv_buffer.at(fragment->m_segmentEnd);
 			if(USERDATA_FRA_END == endFrag->m_fra)
 				deliverMessage(name);
-			else if(endFrag->m_sequence_number < csn)
-				m_recv_buffer.remove(name);
+			else if((endFrag->m_sequence_number < csn) or (m_final_sn_seen and (m_final_sn <= csn)))
+				m_recv_buffer.remove(name); // can never be completed
 			else
 				break; // in progress
 		}
-- 
2.43.0


From 18e51de446932e791052e3f015cec876ff53a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 16/39] fix: a replayed or late IIKeying from before the open
 session's keying must not abort that session

---
 src/RTMFP.cpp   | 11 +++++++++--
 src/Session.cpp |  2 ++
 src/Session.hpp |  1 +
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 827f5f5..9520eb9 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -652,16 +652,22 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 					if(myself->tryRIKeyingRetransmit(state->m_interfaceID, state->m_addr, state->m_isid, state->m_skic))
 						return;
 
+					uintmax_t cookieTime = 0;
+					VLU::parse(state->m_cookie.data(), state->m_cookie.data() + state->m_cookie.size(), &cookieTime);
+
 					auto overrideSession = myself->findOpenSessionByAddress(state->m_addr);
 					if(overrideSession)
 					{
 						if(not state->m_cryptoCert->doesCertOverrideSession(overrideSession->m_cryptoCert))
 							return;
 
+						// an IIKeying made with a cookie from before the open session's keying started is
+						// a late copy or a replay, not evidence of a new far end.
+						if(cookieTime < overrideSession->m_keying_age)
+							return;
+
 						// if our opening session won the glare and is now open, then an IIKeying made with
 						// a cookie from before it opened is a late loser, not evidence of a new far end.
-						uintmax_t cookieTime = 0;
-						VLU::parse(state->m_cookie.data(), state->m_cookie.data() + state->m_cookie.size(), &cookieTime);
 						if( (HEADER_MODE_INITIATOR == overrideSession->m_role)
 						 and (cookieTime <= overrideSession->m_opened_age)
 						 and myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert)
@@ -687,6 +693,7 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 
 					auto session = myself->makeSession(state->m_key, HEADER_MODE_RESPONDER);
 
+					session->m_keying_age = cookieTime;
 					session->m_skic = state->m_skic;
 					session->m_destInterfaceID = state->m_interfaceID;
 					session->m_destAddr = state->m_addr;
diff --git a/src/Session.cpp b/src/Session.cpp
index ef53834..d6b235d 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -337,6 +337,7 @@ Session::Session(RTMFP *rtmfp, std::shared_ptr<SessionCryptoKey> cryptoKey) :
 	m_state(S_UNKNOWN),
 	m_role(0),
 	m_opened_age(0),
+	m_keying_age(0),
 	m_rxSessionID(0),
 	m_txSessionID(0),
 	m_resp_cookieChanged(false),
@@ -1294,6 +1295,7 @@ void Session::onRHello(std::shared_ptr<Session> myself, const uint8_t *cookie, s
 			}
 
 			myself->m_state = S_KEYING_SENT;
+			myself->m_keying_age = uintmax_t(myself->m_rtmfp->getInstanceAge());
 			myself->m_destInterfaceID = state->m_interfaceID;
 			myself->m_destAddr = state->m_addr;
 			myself->m_resp_cookie = state->m_cookie;
diff --git a/src/Session.hpp b/src/Session.hpp
index adede19..134e11b 100644
--- a/src/Session.hpp
+++ b/src/Session.hpp
@@ -158,6 +158,7 @@ public:
 	State    m_state;
 	unsigned m_role; // one of HEADER_MODE_INITIATOR or HEADER_MODE_RESPONDER
 	uintmax_t m_opened_age; // instance age in seconds when this session became S_OPEN
+	uintmax_t m_keying_age; // instance age in seconds when keying started (responder: when the cookie was issued)
 	uint32_t m_rxSessionID;
 	uint32_t m_txSessionID;
 	bool     m_resp_cookieChanged;
-- 
2.43.0


From 9d7813027c8fe3e8872a8823e6d250823047c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 17/39] fix: flows waiting for one endpoint must not be moved
 to the opening session of another

---
 src/SendFlow.cpp | 1 +
 src/Session.cpp  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index c65c48f..e0988a1 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -290,6 +290,7 @@ void SendFlow::onSessionWillOpen(std::shared_ptr<Session> session)
 	if(  (m_openingSession)
 	 and (session != m_openingSession)
 	 and (Session::S_IHELLO_SENT == m_openingSession->m_state)
+	 and (session->m_cryptoCert->isSelectedByEPD(m_epd.data(), m_epd.size()))
 	)
 	{
 		std::shared_ptr<Session> previousSession = m_openingSession;
diff --git a/src/Session.cpp b/src/Session.cpp
index d6b235d..a18f2a8 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1287,7 +1287,7 @@ void Session::onRHello(std::shared_ptr<Session> myself, const uint8_t *cookie, s
 			}
 
 			existingSession = myself->m_rtmfp->findOpeningSessionByEPD(state->m_canonicalEPD, myself.get());
-			if(existingSession)
+			if(existingSession and existingSession->m_cryptoCert->isSelectedByEPD(myself->m_epd.data(), myself->m_epd.size()))
 			{
 				myself->m_rtmfp->onSessionWillOpen(existingSession);
 				myself->abort();
-- 
2.43.0


From 8e5bdcdc9c2e7426a7f17752d72a3c47b645eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 18/39] fix: recognize glare by the far endpoint's identity,
 not only by its address

---
 include/rtmfp/rtmfp.hpp |  2 +-
 src/RTMFP.cpp           | 57 ++++++++++++++++++++++-------------------
 src/Session.cpp         |  7 ++---
 src/Session.hpp         |  2 +-
 4 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index f0c8e3d..460e239 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -120,7 +120,7 @@ protected:
 	CookieCheck checkCookie(const uint8_t *cookie, size_t cookieLen, const struct sockaddr *addr) const;
 	void sendCookieChange(uint32_t sessionID, const uint8_t *cookie, size_t cookieLen, int interfaceID, const struct sockaddr *addr);
 	std::shared_ptr<Session> makeSession(std::shared_ptr<SessionCryptoKey>, unsigned role);
-	std::shared_ptr<Session> findOpeningSessionByAddress(const Address &addr);
+	std::vector<std::shared_ptr<Session>> findGlareSessions(const Address &addr, const std::shared_ptr<CryptoCert> &cert);
 	std::shared_ptr<Session> findOpeningSessionByEPD(const Bytes &epd, const Session *exclude);
 	std::shared_ptr<Session> findOpeningSessionByTag(const Bytes &epd);
 	std::shared_ptr<Session> findOpenSessionByAddress(const Address &addr);
diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 9520eb9..0dbb24c 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -349,15 +349,16 @@ std::shared_ptr<Session> RTMFP::makeSession(std::shared_ptr<SessionCryptoKey> ke
 	return rv;
 }
 
-std::shared_ptr<Session> RTMFP::findOpeningSessionByAddress(const Address &addr)
+std::vector<std::shared_ptr<Session>> RTMFP::findGlareSessions(const Address &addr, const std::shared_ptr<CryptoCert> &cert)
 {
+	std::vector<std::shared_ptr<Session>> rv;
 	for(long name = m_openingSessions.first(); name > m_openingSessions.SENTINEL; name = m_openingSessions.next(name))
 	{
 		auto &each = m_openingSessions.at(name);
-		if(each->isOpeningToAddress(addr))
-			return each;
+		if(each->isGlareWith(addr, cert))
+			rv.push_back(each);
 	}
-	return std::shared_ptr<Session> (nullptr);
+	return rv;
 }
 
 std::shared_ptr<Session> RTMFP::findOpeningSessionByEPD(const Bytes &epd, const Session *exclude)
@@ -666,30 +667,26 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 						if(cookieTime < overrideSession->m_keying_age)
 							return;
 
-						// if our opening session won the glare and is now open, then an IIKeying made with
-						// a cookie from before it opened is a late loser, not evidence of a new far end.
-						if( (HEADER_MODE_INITIATOR == overrideSession->m_role)
-						 and (cookieTime <= overrideSession->m_opened_age)
-						 and myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert)
-						)
-							return;
+					}
+
+					// if our opening session won the glare and is now open (perhaps to another address of
+					// the far end), then an IIKeying made with a cookie from before it opened is a late
+					// loser, not evidence of a new far end.
+					auto glareWinner = overrideSession ? overrideSession : myself->findOpenSessionByEPD(state->m_cryptoCert->getCanonicalEPD());
+					if( glareWinner
+					 and (HEADER_MODE_INITIATOR == glareWinner->m_role)
+					 and (cookieTime <= glareWinner->m_opened_age)
+					 and myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert)
+					)
+						return;
 
+					if(overrideSession)
 						overrideSession->abort(); // this session is (hopefully) stale
-					}
 
-					auto glareSession = myself->findOpeningSessionByAddress(state->m_addr);
-					bool abortGlareSession = false;
-					if(glareSession)
-					{
-						if(myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert))
-							return; // ignore this IIKeying.
-							// TODO: should we check that glareSession's epd is selected by IIKeying's cert too?
-
-						// they win. per RFC 7016 §3.5.1.3 abort our opening session if the IIKeying cert
-						// overrides the opening session cert, which we only know in S_KEYING_SENT.
-						if((Session::S_KEYING_SENT == glareSession->m_state) and state->m_cryptoCert->doesCertOverrideSession(glareSession->m_cryptoCert))
-							abortGlareSession = true; // we'll wait until after the new session opens so waiting flows can bind to it
-					}
+					// these are our opening sessions to the same far end that this IIKeying is from.
+					auto glareSessions = myself->findGlareSessions(state->m_addr, state->m_cryptoCert);
+					if((not glareSessions.empty()) and myself->m_crypto->checkNearWinsGlare(state->m_cryptoCert))
+						return; // ignore this IIKeying.
 
 					auto session = myself->makeSession(state->m_key, HEADER_MODE_RESPONDER);
 
@@ -702,8 +699,14 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 
 					session->setOpen(session, state->m_isid);
 
-					if(abortGlareSession)
-						glareSession->abort();
+					// they win. per RFC 7016 §3.5.1.3 abort our opening sessions if the IIKeying cert
+					// overrides the opening session cert, which we only know in S_KEYING_SENT. do it
+					// after the new session opens so waiting flows can bind to it.
+					for(auto it = glareSessions.begin(); it != glareSessions.end(); it++)
+					{
+						if((Session::S_KEYING_SENT == (*it)->m_state) and state->m_cryptoCert->doesCertOverrideSession((*it)->m_cryptoCert))
+							(*it)->abort();
+					}
 
 					myself->m_platform->perform(state->m_threadNum, [myself, state] {
 						myself->makeRIKeyingChunk(state->m_rikeying, state->m_session->m_rxSessionID, state->m_skrc, state->m_skic, state->m_cryptoCert);
diff --git a/src/Session.cpp b/src/Session.cpp
index a18f2a8..fd0c045 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -429,14 +429,15 @@ void Session::initiateToEPD(std::shared_ptr<Session> myself, const Bytes &epd)
 	});
 }
 
-bool Session::isOpeningToAddress(const Address &addr) const
+bool Session::isGlareWith(const Address &addr, const std::shared_ptr<CryptoCert> &cert) const
 {
 	switch(m_state)
 	{
 	case S_IHELLO_SENT:
-		return m_openingAddresses.count(addr);
+		return m_openingAddresses.count(addr) and cert->isSelectedByEPD(m_epd.data(), m_epd.size());
 	case S_KEYING_SENT:
-		return addr == m_destAddr;
+		return cert->doesCertOverrideSession(m_cryptoCert)
+		    or ((addr == m_destAddr) and cert->isSelectedByEPD(m_epd.data(), m_epd.size()));
 	default:
 		break;
 	}
diff --git a/src/Session.hpp b/src/Session.hpp
index 134e11b..c2d954c 100644
--- a/src/Session.hpp
+++ b/src/Session.hpp
@@ -72,7 +72,7 @@ public:
 	~Session();
 
 	static void initiateToEPD(std::shared_ptr<Session> myself, const Bytes &epd);
-	bool isOpeningToAddress(const Address &addr) const;
+	bool isGlareWith(const Address &addr, const std::shared_ptr<CryptoCert> &cert) const;
 	void sendClose(bool closeAck);
 	void close(bool orderly);
 	void abortFlowsAndTimers();
-- 
2.43.0


From 395d8e491055f614cfedaf50deb7f0278f4c4703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 19/39] fix: a second answer to the checks of one far address
 must not be reported as another address change

---
 src/Session.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Session.cpp b/src/Session.cpp
index fd0c045..36be4e5 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1453,10 +1453,13 @@ void Session::onMobilityCheckReply(const uint8_t *chunk, const uint8_t *limit, u
 	if(Bytes(chunk, limit) != makeMobilityCheck(ts, interfaceID, addr))
 		return;
 
-	resetBaseRTT();
-
 	m_mob_rx_ts = ts;
 
+	if((interfaceID == m_destInterfaceID) and (Address(addr) == m_destAddr))
+		return; // an answer to another check of the address we already moved to
+
+	resetBaseRTT();
+
 	Address oldAddr(m_destAddr);
 
 	m_destInterfaceID = interfaceID;
-- 
2.43.0


From dab220084c2020583ac9b2fb5a415dc918552a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:54 +0000
Subject: [PATCH 20/39] fix: a write receipt may be released by its own
 onFinished

---
 include/rtmfp/WriteReceipt.hpp |  2 ++
 src/WriteReceipt.cpp           | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/rtmfp/WriteReceipt.hpp b/include/rtmfp/WriteReceipt.hpp
index 4638b8f..936af0c 100644
--- a/include/rtmfp/WriteReceipt.hpp
+++ b/include/rtmfp/WriteReceipt.hpp
@@ -45,6 +45,8 @@ public:
 protected:
 	WriteReceipt() = delete;
 
+	void notifyFinished(bool wasAbandoned);
+
 	Time   m_origin;
 	bool   m_started;
 	bool   m_abandoned;
diff --git a/src/WriteReceipt.cpp b/src/WriteReceipt.cpp
index 1eb61d9..885949b 100644
--- a/src/WriteReceipt.cpp
+++ b/src/WriteReceipt.cpp
@@ -24,12 +24,19 @@ void WriteReceipt::abandon()
 	{
 		m_abandoned = true;
 		parent.reset();
-		if(onFinished)
-			onFinished(true);
-		onFinished = nullptr;
+		notifyFinished(true);
 	}
 }
 
+void WriteReceipt::notifyFinished(bool abandoned)
+{
+	// onFinished can drop the last reference to this receipt, or set a new onFinished.
+	std::function<void(bool abandoned)> onFinished_f;
+	swap(onFinished_f, onFinished);
+	if(onFinished_f)
+		onFinished_f(abandoned);
+}
+
 void WriteReceipt::abandonIfNeeded(Time now)
 {
 	if(m_abandoned)
@@ -89,9 +96,8 @@ void IssuerWriteReceipt::useCountDown()
 	if(0 == --m_useCount)
 	{
 		parent.reset();
-		if(onFinished)
-			onFinished(false);
-		onFinished = nullptr;
+		if(not m_abandoned)
+			notifyFinished(false);
 	}
 }
 
-- 
2.43.0


From 3bdbb37f120b829d89586e2c8f245f655e3785c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:57 +0000
Subject: [PATCH 21/39] fix: write receipts' onFinished may close the flow or
 the session that is assembling, acknowledging or abandoning its messages

---
 src/SendFlow.cpp | 31 ++++++++++++++++++++++---------
 src/Session.cpp  |  8 +++++++-
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index e0988a1..e8aca71 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -304,6 +304,7 @@ void SendFlow::onSessionDidClose(std::shared_ptr<Session> session)
 {
 	if((m_session == session) or ((not m_session) and (m_openingSession == session)))
 	{
+		auto myself = share_ref(this);
 		onExceptionReport(0);
 		m_send_queue.clear();
 	}
@@ -347,16 +348,18 @@ void SendFlow::trimSendQueue(Time now)
 	{
 		if(m_send_queue.size() < 2)
 			break;
-		auto &first = m_send_queue.firstValue();
+		auto first = m_send_queue.firstValue();
 		if(first->m_in_flight)
 			break;
 		if(m_send_queue.lastValue()->m_ever_sent)
 			break; // nothing later is sure to carry the forward sequence number update, so this one must
 		first->m_receipt->abandonIfNeeded(now);
+		if(m_send_queue.empty())
+			break; // onFinished closed the session
 		if(not first->m_receipt->isAbandoned())
 			break;
-		first->m_receipt->useCountDown();
 		m_send_queue.removeFirst();
+		first->m_receipt->useCountDown();
 		anyTrimmed = true;
 	}
 
@@ -379,7 +382,7 @@ void SendFlow::scheduleTrimSendQueue()
 
 uintmax_t SendFlow::findForwardSequenceNumber(Time now)
 {
-	auto &first = m_send_queue.firstValue();
+	auto first = m_send_queue.firstValue();
 
 	if(not first->m_in_flight)
 		first->m_receipt->abandonIfNeeded(now);
@@ -400,8 +403,12 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		return false;
 
 	Time now = m_rtmfp->getCurrentTime();
-	trimSendQueue(now);
+	trimSendQueue(now); // write receipts' onFinished can do anything, including close this flow or its session
+	if(m_send_queue.empty())
+		return false;
 	uintmax_t fsn = findForwardSequenceNumber(now);
+	if(m_send_queue.empty())
+		return false;
 	bool firstChunk = true;
 	uintmax_t previousSN = 0;
 
@@ -431,7 +438,7 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(m_outstanding_bytes >= m_rx_buffer_size)
 			break;
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name);
 		if(frag->m_in_flight)
 			continue;
 
@@ -440,6 +447,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
+		if((not m_session) or (Session::S_OPEN != m_session->m_state))
+			return false; // onFinished closed the session
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
@@ -520,7 +529,7 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 	{
 		long next = m_send_queue.next(name);
 
-		auto &frag = m_send_queue.at(name);
+		auto frag = m_send_queue.at(name);
 
 		if(frag->m_sequence_number < ackFrom)
 		{
@@ -539,9 +548,12 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 			m_outstanding_bytes -= frag->m_transmit_size;
 		}
 
+		m_send_queue.remove(name);
+
 		frag->m_receipt->useCountDown();
 
-		m_send_queue.remove(name);
+		if(m_send_queue.empty())
+			next = m_send_queue.SENTINEL; // everything was acknowledged, or onFinished closed the session
 
 		name = next;
 	}
@@ -558,6 +570,8 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 		m_tmp_association.reset();
 	}
 
+	auto myself = share_ref(this); // write receipts' onFinished can do anything, including close this flow or its session
+
 	m_rx_buffer_size = bufferBytesAvailable;
 
 	if(0 == m_rx_buffer_size)
@@ -605,7 +619,6 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 	if((F_CLOSING == m_state) and m_send_queue.empty())
 	{
 		m_state = F_COMPLETE_LINGER;
-		auto myself = retain_ref(this);
 		m_rtmfp->scheduleRel(F_COMPLETE_LINGER_PERIOD)->action = Timer::makeAction([myself] { myself->gotoStateClosed(); });
 	}
 	else
@@ -627,7 +640,7 @@ void SendFlow::onExceptionReport(uintmax_t exceptionCode)
 	if(exception_f)
 		exception_f(exceptionCode);
 
-	m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+	m_send_queue.safeValuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
 
 	release();
 }
diff --git a/src/Session.cpp b/src/Session.cpp
index 36be4e5..cc4e1f8 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1515,7 +1515,13 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 			List<std::shared_ptr<SendFlow> > &flows = m_readyFlows[priority];
 			while(not flows.empty())
 			{
-				if(flows.firstValue()->assembleData(&packet, priority))
+				auto flow = flows.firstValue();
+				bool assembled = flow->assembleData(&packet, priority);
+
+				if(S_OPEN != m_state)
+					return true; // a callback closed the session, and that might have scheduled more important writes
+
+				if(assembled)
 				{
 					flows.moveNameToTail(flows.first());
 					m_next_tsn++;
-- 
2.43.0


From 925edefedf4e4f4a9f24f134f7fea14f5d69224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 22/39] fix: a flow closed by onFinished of its last message
 must still mark that message as final

---
 src/SendFlow.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index e8aca71..5ad9847 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -442,13 +442,12 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		if(frag->m_in_flight)
 			continue;
 
-		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0;
-
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
 			frag->m_receipt->abandon();
 		frag->m_receipt->abandonIfNeeded(now);
 		if((not m_session) or (Session::S_OPEN != m_session->m_state))
 			return false; // onFinished closed the session
+		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0;
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
-- 
2.43.0


From fa0034d744cfdd51335f68473d194fdb3972c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:14 +0000
Subject: [PATCH 23/39] fix: closing a flow from inside one of its callbacks
 must not destroy the callback that is running

---
 include/rtmfp/rtmfp.hpp | 14 ++++++++++++++
 src/Flow.cpp            | 23 +++++++++++++++++++++--
 src/RecvFlow.cpp        | 18 ++++++++++++++----
 src/SendFlow.cpp        | 18 +++++++++++++-----
 src/Session.cpp         |  9 ++++++---
 5 files changed, 68 insertions(+), 14 deletions(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index 460e239..832c717 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -222,11 +222,23 @@ protected:
 	Flow(RTMFP *rtmfp);
 	Flow() = delete;
 
+	friend class Session;
+
+	// Hold one of these around calling a callback: a callback that's running mustn't be
+	// destroyed by closing the flow, so that has to wait until it's done.
+	struct CallbackScope {
+		CallbackScope(Flow *flow);
+		~CallbackScope();
+		Flow *m_flow;
+	};
+
 	std::shared_ptr<SendFlow> basicOpenFlow(const Bytes &metadata, RecvFlow *assoc, Priority pri);
+	virtual void clearCallbacks();
 
 	RTMFP *m_rtmfp; // weak ref
 	std::shared_ptr<Session> m_session;
 	bool m_base_isOpen;
+	size_t m_runningCallbacks;
 };
 
 class SendFlow : public Flow {
@@ -302,6 +314,7 @@ protected:
 	void onPersistTimer(const std::shared_ptr<Timer> &sender, Time now);
 	void onLoss(size_t amount);
 	void gotoStateClosed();
+	void clearCallbacks() override;
 
 	enum State { F_OPEN, F_CLOSING, F_COMPLETE_LINGER, F_CLOSED };
 
@@ -382,6 +395,7 @@ protected:
 	void tryDelivery(long hint);
 	void scheduleAck(bool now);
 	bool assembleAck(PacketAssembler *packet, bool truncateAllowed, bool sendEcnReport);
+	void clearCallbacks() override;
 
 	enum State { RF_OPEN, RF_REJECTED, RF_COMPLETE_LINGER, RF_CLOSED };
 
diff --git a/src/Flow.cpp b/src/Flow.cpp
index c2ae0b3..ce8e6a7 100644
--- a/src/Flow.cpp
+++ b/src/Flow.cpp
@@ -9,7 +9,7 @@
 
 namespace com { namespace zenomt { namespace rtmfp {
 
-Flow::Flow(RTMFP *rtmfp) : m_rtmfp(rtmfp), m_base_isOpen(true)
+Flow::Flow(RTMFP *rtmfp) : m_rtmfp(rtmfp), m_base_isOpen(true), m_runningCallbacks(0)
 {
 }
 
@@ -32,7 +32,8 @@ bool Flow::isOpen() const
 void Flow::close()
 {
 	m_base_isOpen = false;
-	onFarAddressDidChange = nullptr;
+	if(0 == m_runningCallbacks)
+		clearCallbacks();
 }
 
 void Flow::closeSession()
@@ -199,6 +200,24 @@ Duration Flow::getSessionCongestionDelay() const
 
 // ---
 
+Flow::CallbackScope::CallbackScope(Flow *flow) : m_flow(flow)
+{
+	m_flow->retain();
+	m_flow->m_runningCallbacks++;
+}
+
+Flow::CallbackScope::~CallbackScope()
+{
+	if((0 == --m_flow->m_runningCallbacks) and not m_flow->m_base_isOpen)
+		m_flow->clearCallbacks();
+	m_flow->release();
+}
+
+void Flow::clearCallbacks()
+{
+	onFarAddressDidChange = nullptr;
+}
+
 std::shared_ptr<SendFlow> Flow::basicOpenFlow(const Bytes &metadata, RecvFlow *assoc, Priority pri)
 {
 	std::shared_ptr<SendFlow> rv;
diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index 8a5928c..0117d0e 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -80,10 +80,6 @@ void RecvFlow::close()
 
 	m_recv_buffer.clear();
 
-	onMessage = nullptr;
-	onComplete = nullptr;
-	onCumulativeAckDidMerge = nullptr;
-
 	Flow::close();
 
 	release();
@@ -176,6 +172,15 @@ std::shared_ptr<SendFlow> RecvFlow::openReturnFlow(const Bytes &metadata, Priori
 
 // ---
 
+void RecvFlow::clearCallbacks()
+{
+	onMessage = nullptr;
+	onComplete = nullptr;
+	onCumulativeAckDidMerge = nullptr;
+
+	Flow::clearCallbacks();
+}
+
 void RecvFlow::abort()
 {
 	closeAndNotify(true);
@@ -268,7 +273,10 @@ void RecvFlow::onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, co
 	 and (RF_OPEN == m_state)
 	 and onCumulativeAckDidMerge
 	)
+	{
+		CallbackScope scope(this);
 		onCumulativeAckDidMerge();
+	}
 
 	if(RF_OPEN != m_state)
 		ack_now = true;
@@ -339,6 +347,8 @@ void RecvFlow::deliverMessage(long start)
 	if(m_prev_rwnd < 2)
 		scheduleAck(true);
 
+	CallbackScope scope(this);
+
 	auto fragment = m_recv_buffer.at(start);
 	uintmax_t sequenceNumber = fragment->m_sequence_number;
 	if(USERDATA_FRA_WHOLE == fragment->m_fra)
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 5ad9847..0e8ae9c 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -168,10 +168,6 @@ void SendFlow::close()
 {
 	auto myself = share_ref(this);
 
-	onWritable = nullptr;
-	onException = nullptr;
-	onRecvFlow = nullptr;
-
 	Flow::close();
 
 	if(F_OPEN == m_state)
@@ -310,6 +306,15 @@ void SendFlow::onSessionDidClose(std::shared_ptr<Session> session)
 	}
 }
 
+void SendFlow::clearCallbacks()
+{
+	onWritable = nullptr;
+	onException = nullptr;
+	onRecvFlow = nullptr;
+
+	Flow::clearCallbacks();
+}
+
 void SendFlow::queueWritableNotify()
 {
 	if(m_shouldNotifyWhenWritable and not m_writablePending)
@@ -322,6 +327,8 @@ void SendFlow::queueWritableNotify()
 
 void SendFlow::doWritable()
 {
+	CallbackScope scope(this);
+
 	m_writablePending = false;
 	while(m_shouldNotifyWhenWritable and isWritable())
 		m_shouldNotifyWhenWritable = onWritable ? onWritable() : false;
@@ -632,11 +639,12 @@ void SendFlow::onExceptionReport(uintmax_t exceptionCode)
 	retain();
 
 	m_exception = true;
+	bool wasOpen = isOpen();
 
 	std::function<void(uintmax_t reason)> exception_f;
 	swap(exception_f, onException);
 	close();
-	if(exception_f)
+	if(wasOpen and exception_f)
 		exception_f(exceptionCode);
 
 	m_send_queue.safeValuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
diff --git a/src/Session.cpp b/src/Session.cpp
index cc4e1f8..180ff75 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1470,7 +1470,8 @@ void Session::onMobilityCheckReply(const uint8_t *chunk, const uint8_t *limit, u
 	rescheduleTransmission();
 
 	m_sendFlows.safeValuesDo([] (std::shared_ptr<SendFlow> flow) {
-		if(flow->onFarAddressDidChange)
+		Flow::CallbackScope scope(flow.get());
+		if(flow->isOpen() and flow->onFarAddressDidChange)
 			flow->onFarAddressDidChange();
 		return true;
 	});
@@ -1478,8 +1479,10 @@ void Session::onMobilityCheckReply(const uint8_t *chunk, const uint8_t *limit, u
 	auto recvFlowsCopy = m_recvFlows;
 	for(auto it = recvFlowsCopy.begin(); it != recvFlowsCopy.end(); it++)
 	{
-		if(it->second->onFarAddressDidChange)
-			it->second->onFarAddressDidChange();
+		auto &flow = it->second;
+		Flow::CallbackScope scope(flow.get());
+		if(flow->isOpen() and flow->onFarAddressDidChange)
+			flow->onFarAddressDidChange();
 	}
 }
 
-- 
2.43.0


From bd7210a26df7a8aeb1782fc5cf25566e055dff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:27 +0000
Subject: [PATCH 24/39] fix: messages of a flow that closes before they can be
 sent must finish as abandoned

---
 include/rtmfp/rtmfp.hpp |  2 ++
 src/SendFlow.cpp        | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index 832c717..616cc2e 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -314,6 +314,8 @@ protected:
 	void onPersistTimer(const std::shared_ptr<Timer> &sender, Time now);
 	void onLoss(size_t amount);
 	void gotoStateClosed();
+	void abandonMessages();
+	void abandonSendQueue();
 	void clearCallbacks() override;
 
 	enum State { F_OPEN, F_CLOSING, F_COMPLETE_LINGER, F_CLOSED };
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 0e8ae9c..106db6c 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -192,6 +192,9 @@ void SendFlow::close()
 		gotoStateClosed();
 
 	m_rtmfp->sendFlowIsNotOpening(myself);
+
+	if((F_CLOSED == m_state) and not m_exception)
+		abandonSendQueue(); // nothing queued is going to be sent
 }
 
 Priority SendFlow::getPriority() const
@@ -647,11 +650,23 @@ void SendFlow::onExceptionReport(uintmax_t exceptionCode)
 	if(wasOpen and exception_f)
 		exception_f(exceptionCode);
 
-	m_send_queue.safeValuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+	abandonMessages();
 
 	release();
 }
 
+void SendFlow::abandonMessages()
+{
+	// write receipts' onFinished can do anything, including change m_send_queue
+	m_send_queue.safeValuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+}
+
+void SendFlow::abandonSendQueue()
+{
+	abandonMessages();
+	m_send_queue.clear();
+}
+
 void SendFlow::setPersistTimer()
 {
 	if(m_persistTimer)
-- 
2.43.0


From 8c27c5190f04acddccb9ad62b6091a32347ca74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:30 +0000
Subject: [PATCH 25/39] fix: a flow opened while a session's flows are told of
 its closing must not bind to that session

---
 src/RTMFP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 0dbb24c..5dbd030 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -88,7 +88,7 @@ std::shared_ptr<SendFlow> RTMFP::openFlow(const Bytes &epd, const Bytes &metadat
 
 	rv = share_ref(new SendFlow(this, epd, metadata, nullptr, pri), false);
 	auto session = findOpenSessionByEPD(epd);
-	if(session)
+	if(session and (Session::S_OPEN == session->m_state)) // it's not if a callback is reacting to it closing
 	{
 		rv->onSessionDidOpen(rv, session);
 		return rv;
-- 
2.43.0


From e3d63fd2697ef47e61142f3e4a152b43f521fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:39 +0000
Subject: [PATCH 26/39] fix: a repeated responder keying component must not
 replace the keys of a finished session key

---
 src/FlashCryptoAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 4dae557..1e1f8a3 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -734,6 +734,9 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 {
 	const uint8_t *componentLimit = responderComponent + len;
 
+	if(m_complete)
+		return false; // this is a duplicate: the keys are in use and the shared secret is gone
+
 	// try to fail on cheaper stuff first
 
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-- 
2.43.0


From e7a49db1b59decfa6155ff9a3431333d8f6df662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:39 +0000
Subject: [PATCH 27/39] fix: what a refused responder keying component asked
 for must not be remembered

---
 src/FlashCryptoAdapter.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 1e1f8a3..1946506 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -739,20 +739,22 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 
 	// try to fail on cheaper stuff first
 
+	// don't remember what was negotiated unless everything succeeds; there might be another response
+	bool sseqSendAlways = m_sseqSendAlways;
+	bool sseqRecvRequired = m_sseqRecvRequired;
+	bool hmacSendAlways = m_hmacSendAlways;
+	bool hmacRecvRequired = m_hmacRecvRequired;
+
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-	if(not negotiateFlags(sseqFlags, m_sseqSendAlways, m_sseqRecvRequired))
+	if(not negotiateFlags(sseqFlags, sseqSendAlways, sseqRecvRequired))
 		return false;
 
 	uintmax_t hmacRxLen = 0; // an illegal value if receive is required
 	uint8_t hmacFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_HMAC_NEGOTIATION, &hmacRxLen);
-	if(not negotiateFlags(hmacFlags, m_hmacSendAlways, m_hmacRecvRequired))
+	if(not negotiateFlags(hmacFlags, hmacSendAlways, hmacRecvRequired))
+		return false;
+	if(hmacRecvRequired and ((hmacRxLen < FlashCryptoAdapter::MIN_HMAC_LENGTH) or (hmacRxLen > FlashCryptoAdapter::MAX_HMAC_LENGTH)))
 		return false;
-	if(m_hmacRecvRequired)
-	{
-		if((hmacRxLen < FlashCryptoAdapter::MIN_HMAC_LENGTH) or (hmacRxLen > FlashCryptoAdapter::MAX_HMAC_LENGTH))
-			return false;
-		m_rxHMACLength = hmacRxLen;
-	}
 
 	if(m_publicKeyNeeded)
 	{
@@ -772,6 +774,12 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 	}
 	// else we already computed the DH shared secret from a public key in their certificate
 
+	m_sseqSendAlways = sseqSendAlways;
+	m_sseqRecvRequired = sseqRecvRequired;
+	m_hmacSendAlways = hmacSendAlways;
+	m_hmacRecvRequired = hmacRecvRequired;
+	m_rxHMACLength = hmacRecvRequired ? hmacRxLen : 0;
+
 	// this should always succeeed unless something terrible is happening
 	if(not computeKeysAndNonces(m_sknc.data(), m_sknc.size(), responderComponent, len))
 		return false;
-- 
2.43.0


From 543859e79b0e45236a8d212b8dbe84ec680441fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:09 +0000
Subject: [PATCH 28/39] fix: closing a performer must release waiting performs
 and must not race with perform()

---
 src/Performer.cpp | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/Performer.cpp b/src/Performer.cpp
index b0e7f7e..248f9df 100644
--- a/src/Performer.cpp
+++ b/src/Performer.cpp
@@ -28,9 +28,9 @@ struct Performer::Item {
 		}
 	}
 
-	void fire()
+	void fire(bool canceled)
 	{
-		if(m_task)
+		if(m_task and not canceled)
 			m_task();
 		if(m_cond)
 		{
@@ -68,8 +68,11 @@ Performer::~Performer()
 
 void Performer::close()
 {
-	if(not m_closed)
 	{
+		std::unique_lock<std::mutex> locked(m_mutex); // perform() could be in progress in another thread
+
+		if(m_closed)
+			return;
 		m_closed = true;
 
 		if(m_runLoop)
@@ -77,17 +80,22 @@ void Performer::close()
 		m_runLoop = nullptr;
 		::close(m_pipe[READ_PIPE_IDX]);
 		::close(m_pipe[WRITE_PIPE_IDX]);
-
-		fireItems();
 	}
+
+	fireItems(); // release any waiters
 }
 
 void Performer::perform(const Task &task, bool wait)
 {
-	if(m_closed)
-		return;
+	bool performNow = false;
+	{
+		std::unique_lock<std::mutex> locked(m_mutex);
+		if(m_closed)
+			return;
+		performNow = wait and m_runLoop->isRunningInThisThread();
+	}
 
-	if(wait and m_runLoop->isRunningInThisThread())
+	if(performNow)
 	{
 		fireItems();
 		if(task)
@@ -98,14 +106,16 @@ void Performer::perform(const Task &task, bool wait)
 	std::shared_ptr<Item> item = std::make_shared<Item>(task, wait);
 	{
 		std::unique_lock<std::mutex> locked(m_mutex);
+		if(m_closed)
+			return;
 		m_items.push(item);
-	}
 
-	if(not m_signaled)
-	{
-		uint8_t buf[1] {};
-		m_signaled = true;
-		(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+		if(not m_signaled)
+		{
+			uint8_t buf[1] {};
+			m_signaled = true;
+			(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+		}
 	}
 
 	if(wait)
@@ -138,8 +148,7 @@ void Performer::fireItems()
 			m_items.pop();
 		}
 
-		if(not m_closed)
-			each->fire();
+		each->fire(m_closed);
 	}
 }
 
-- 
2.43.0


From 3467b28aa70e5dd3c5314402e951b94b643bfc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:48 +0000
Subject: [PATCH 29/39] fix: only one thread at a time may use a session key
 while keying, and not after the session opens

---
 src/Session.cpp | 27 +++++++++++++++++++--------
 src/Session.hpp |  1 +
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/Session.cpp b/src/Session.cpp
index 180ff75..ff75fe5 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -341,6 +341,7 @@ Session::Session(RTMFP *rtmfp, std::shared_ptr<SessionCryptoKey> cryptoKey) :
 	m_rxSessionID(0),
 	m_txSessionID(0),
 	m_resp_cookieChanged(false),
+	m_keyingBusy(false),
 	m_destInterfaceID(-1),
 	m_interestCount(0),
 	m_fihelloMode(FI_IGNORE),
@@ -1296,6 +1297,7 @@ void Session::onRHello(std::shared_ptr<Session> myself, const uint8_t *cookie, s
 			}
 
 			myself->m_state = S_KEYING_SENT;
+			myself->m_keyingBusy = true;
 			myself->m_keying_age = uintmax_t(myself->m_rtmfp->getInstanceAge());
 			myself->m_destInterfaceID = state->m_interfaceID;
 			myself->m_destAddr = state->m_addr;
@@ -1313,6 +1315,7 @@ void Session::onRHello(std::shared_ptr<Session> myself, const uint8_t *cookie, s
 
 				myself->m_rtmfp->m_platform->perform(0, [myself, state] {
 					myself->m_skic = state->m_skic;
+					myself->m_keyingBusy = false;
 					myself->startIIKeying(state->m_iikeying);
 				});
 			});
@@ -1325,6 +1328,7 @@ void Session::onCookieChange(const uint8_t *oldCookie_, size_t oldCookieLen, con
 	Bytes oldCookie(oldCookie_, oldCookie_ + oldCookieLen);
 
 	if( (S_KEYING_SENT != m_state)
+	 or (m_keyingBusy)
 	 or (m_resp_cookieChanged)
 	 or (oldCookie != m_resp_cookie)
 	)
@@ -1368,7 +1372,7 @@ struct RIKeyingState {
 
 void Session::onRIKeying(uint32_t responderSessionID, const uint8_t *skrc, size_t skrcLen, const uint8_t *signedParameters, size_t signedParametersLen, const uint8_t *sig, size_t sigLen, int interfaceID, const struct sockaddr *addr)
 {
-	if(S_KEYING_SENT != m_state)
+	if((S_KEYING_SENT != m_state) or m_keyingBusy)
 		return;
 
 	auto myself = share_ref(this);
@@ -1378,15 +1382,21 @@ void Session::onRIKeying(uint32_t responderSessionID, const uint8_t *skrc, size_
 	state->m_signedParameters.insert(state->m_signedParameters.end(), m_skic.begin(), m_skic.end());
 
 	m_rtmfp->m_platform->perform(state->m_threadNum, [myself, state] {
-		myself->m_cryptoCert->checkSignature(state->m_signedParameters.data(), state->m_signedParameters.size(), state->m_signature.data(), state->m_signature.size(), [myself, state] { myself->m_rtmfp->m_platform->perform(state->m_threadNum, [myself, state] {
-			if(not myself->m_cryptoKey->initiatorCombineResponderKeyingComponent(state->m_skrc.data(), state->m_skrc.size()))
+		myself->m_cryptoCert->checkSignature(state->m_signedParameters.data(), state->m_signedParameters.size(), state->m_signature.data(), state->m_signature.size(), [myself, state] { myself->m_rtmfp->m_platform->perform(0, [myself, state] {
+			if((S_KEYING_SENT != myself->m_state) or myself->m_keyingBusy) // still, and only one thread at a time can use the key
 				return;
 
-			myself->m_rtmfp->m_platform->perform(0, [myself, state] {
-				if(S_KEYING_SENT != myself->m_state)
-					return;
+			myself->m_keyingBusy = true;
+
+			myself->m_rtmfp->m_platform->perform(state->m_threadNum, [myself, state] {
+				bool success = myself->m_cryptoKey->initiatorCombineResponderKeyingComponent(state->m_skrc.data(), state->m_skrc.size());
+
+				myself->m_rtmfp->m_platform->perform(0, [myself, state, success] {
+					myself->m_keyingBusy = false;
 
-				myself->setOpen(myself, state->m_responderSessionID);
+					if((S_KEYING_SENT == myself->m_state) and success)
+						myself->setOpen(myself, state->m_responderSessionID);
+				});
 			});
 		}); });
 	});
@@ -1573,7 +1583,8 @@ bool Session::onInterfaceWritable(int interfaceID, int priority)
 
 bool Session::onReceivePacket(const uint8_t *bytes, size_t len, int interfaceID, const struct sockaddr *addr, int tos, uint8_t *decryptBuf)
 {
-	bool rv = ISession::onReceivePacket(bytes, len, interfaceID, addr, tos, decryptBuf);
+	// another thread could be using the key
+	bool rv = (not m_keyingBusy) and ISession::onReceivePacket(bytes, len, interfaceID, addr, tos, decryptBuf);
 
 	if((not rv) and (S_KEYING_SENT == m_state))
 	{
diff --git a/src/Session.hpp b/src/Session.hpp
index c2d954c..ce8ff64 100644
--- a/src/Session.hpp
+++ b/src/Session.hpp
@@ -162,6 +162,7 @@ public:
 	uint32_t m_rxSessionID;
 	uint32_t m_txSessionID;
 	bool     m_resp_cookieChanged;
+	bool     m_keyingBusy;
 	Bytes    m_skic;
 	Bytes    m_resp_cookie;
 	Bytes    m_skrc;
-- 
2.43.0


From 1efccde909563f86f45487c1502a5bae8d804fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 30/39] fix: TCStream::send() with a timestamp sent 0 instead

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 9e5ec4a..cf74236 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -420,7 +420,7 @@ std::shared_ptr<WriteReceipt> TCStream::send(uint32_t timestamp, const std::stri
 	Bytes msg;
 	AMF0String(command).encode(msg);
 	AMF0::encode(args, msg);
-	return m_owner->write(m_streamID, TCMSG_DATA, 0, msg, INFINITY, INFINITY);
+	return m_owner->write(m_streamID, TCMSG_DATA, timestamp, msg, INFINITY, INFINITY);
 }
 
 std::shared_ptr<WriteReceipt> TCStream::sendAudio(uint32_t timestamp, const void *bytes, size_t len, Duration startWithin, Duration finishWithin)
-- 
2.43.0


From 49c5e99d20d3583aeb2c33e9c9eef09f39c838fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 31/39] fix: the Set Keepalive command used the server period
 for peers too

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index cf74236..bcaca97 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -828,7 +828,7 @@ void RTMFPTCConnection::onSetKeepaliveUserCommand(const uint8_t *payload, size_t
 	uint32_t peerPeriodMsec = (payload[6] << 24) + (payload[7] << 16) + (payload[8] << 8) + payload[9];
 
 	serverPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
-	peerPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
+	peerPeriodMsec = std::max(peerPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
 
 	m_controlRecv->setSessionKeepalivePeriod(serverPeriodMsec / 1000.0);
 	m_rtmfp->setDefaultSessionKeepalivePeriod(peerPeriodMsec / 1000.0);
-- 
2.43.0


From 7929b5a360661e1bdd52e0bea9132ebe1f3555a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 32/39] fix: an empty DATA_EX message was read past its end

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index bcaca97..f4e565a 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -529,7 +529,7 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 	const uint8_t *cursor = payload;
 	const uint8_t *limit = cursor + len;
 
-	if((TCMSG_DATA_EX == messageType) and (0 != *cursor++))
+	if((TCMSG_DATA_EX == messageType) and ((0 == len) or (0 != *cursor++)))
 		return; // only format 0 is defined
 
 	auto command = AMF0::decode(&cursor, limit);
-- 
2.43.0


From 4f36bce13dcd483519da88b4718780d7bbd28628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 33/39] fix: a createStream result between 0 and 1 made a
 stream with ID 0 and an assertion failure at close

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index f4e565a..0caa599 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -93,7 +93,7 @@ std::shared_ptr<TCStream> TCConnection::createStream()
 	basicTransact([this, netStream] (bool success, std::shared_ptr<AMF0> result) {
 		if(  (success)
 		 and (result)
-		 and (result->doubleValue() > 0)
+		 and (result->doubleValue() >= 1)
 		 and (result->doubleValue() <= double(UINT32_MAX))
 		 and (0 == m_netStreams.count(uint32_t(result->doubleValue())))
 		)
-- 
2.43.0


From 49a09e36df77ba46768f83f14dad4c3d10c79b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 34/39] fix: a response with transaction ID NaN answered
 somebody else's transaction

---
 src/TCConnection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 0caa599..febe4bc 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 
 #include <cassert>
+#include <cmath>
 
 #include "../include/rtmfp/TCConnection.hpp"
 #include "../include/rtmfp/URIParse.hpp"
@@ -299,6 +300,9 @@ bool TCConnection::basicTransact(const Handler &onResult, const std::string &com
 
 void TCConnection::onTransactionResponse(bool success, double transactionID, const Args &args)
 {
+	if(std::isnan(transactionID))
+		return; // would compare equivalent to any transaction
+
 	auto it = m_transactions.find(transactionID);
 	if(it != m_transactions.end())
 	{
-- 
2.43.0


From 106c8217fc4e261e8238350b68c3de00ba3e7537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 35/39] fix: data sent from a stream's onOpen overtook the
 commands queued before it

---
 src/TCConnection.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index febe4bc..341d162 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -484,13 +484,12 @@ bool TCStream::setStreamID(uint32_t streamID)
 	if(m_userOpen)
 	{
 		m_streamID = streamID;
+		flushCommands(); // before anything the application sends from onOpen
 
 		Task tmpOnOpen;
 		swap(tmpOnOpen, onOpen);
 		if(tmpOnOpen)
 			tmpOnOpen();
-
-		flushCommands();
 	}
 	return m_userOpen;
 }
-- 
2.43.0


From d639f8dd6e8f2649a0fb866af18f7f9689dd8327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 36/39] fix: closing or deleting from a connection or stream
 callback destroyed the callback, stream or connection while in use

---
 include/rtmfp/TCConnection.hpp |  2 +-
 src/TCConnection.cpp           | 59 +++++++++++++++++++++++++---------
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/include/rtmfp/TCConnection.hpp b/include/rtmfp/TCConnection.hpp
index 2ba1482..536becb 100644
--- a/include/rtmfp/TCConnection.hpp
+++ b/include/rtmfp/TCConnection.hpp
@@ -216,7 +216,7 @@ protected:
 		std::shared_ptr<SendFlow> m_video;
 		std::shared_ptr<SendFlow> m_audio;
 		std::shared_ptr<SendFlow> m_data;
-		std::set<std::shared_ptr<RecvFlow>> m_recvFlows;
+		std::map<std::shared_ptr<RecvFlow>, std::shared_ptr<ReorderBuffer>> m_recvFlows;
 	};
 
 	using rtmp::TCConnection::write;
diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 341d162..8683c3a 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -207,27 +207,37 @@ void TCConnection::onControlCommand(const std::string &command, double transacti
 	else if(command == "onStatus")
 		onControlStatusMessage(safeFirstArg(args));
 	else if(onCommand)
-		onCommand(command, args);
+	{
+		auto tmpOnCommand = onCommand; // can be cleared during the call
+		tmpOnCommand(command, args);
+	}
 }
 
 void TCConnection::onControlStatusMessage(std::shared_ptr<AMF0> info)
 {
-	if(onStatus)
-		onStatus(info);
+	auto tmpOnStatus = onStatus; // can be cleared during the call
+	if(tmpOnStatus)
+		tmpOnStatus(info);
 }
 
 void TCConnection::onStreamCommand(uint32_t streamID, const std::string &command, const Args &args)
 {
 	auto it = m_netStreams.find(streamID);
 	if(it != m_netStreams.end())
-		it->second->onCommandMessage(command, args);
+	{
+		auto stream = it->second; // can be deleted during the call
+		stream->onCommandMessage(command, args);
+	}
 }
 
 void TCConnection::onStreamMessage(uint32_t streamID, uint8_t messageType, uint32_t timestamp, const uint8_t *payload, size_t len)
 {
 	auto it = m_netStreams.find(streamID);
 	if(it != m_netStreams.end())
-		it->second->onStreamMessage(messageType, timestamp, payload, len);
+	{
+		auto stream = it->second; // can be deleted during the call
+		stream->onStreamMessage(messageType, timestamp, payload, len);
+	}
 }
 
 void TCConnection::onUserControlMessage(const uint8_t *payload, size_t len)
@@ -371,6 +381,7 @@ bool TCStream::isOpen() const
 
 void TCStream::deleteStream()
 {
+	auto myself = share_ref(this); // the owner might have the last reference
 	m_userOpen = false;
 
 	onOpen = nullptr;
@@ -498,8 +509,9 @@ void TCStream::onCommandMessage(const std::string &command, const Args &args)
 {
 	if(command == "onStatus")
 	{
-		if(onStatus)
-			onStatus(TCConnection::safeFirstArg(args));
+		auto tmpOnStatus = onStatus; // can be cleared during the call
+		if(tmpOnStatus)
+			tmpOnStatus(TCConnection::safeFirstArg(args));
 	}
 }
 
@@ -509,12 +521,18 @@ void TCStream::onStreamMessage(uint8_t messageType, uint32_t timestamp, const ui
 	{
 	case TCMSG_AUDIO:
 		if(onAudio)
-			onAudio(timestamp, payload, len);
+		{
+			auto tmpOnAudio = onAudio; // can be cleared during the call
+			tmpOnAudio(timestamp, payload, len);
+		}
 		break;
 
 	case TCMSG_VIDEO:
 		if(onVideo)
-			onVideo(timestamp, payload, len);
+		{
+			auto tmpOnVideo = onVideo; // can be cleared during the call
+			tmpOnVideo(timestamp, payload, len);
+		}
 		break;
 
 	case TCMSG_DATA_EX:
@@ -548,8 +566,9 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 				printf("  %s\n", (*it)->repr().c_str());
 		}
 
-		if(onData)
-			onData(timestamp, command->stringValue(), args);
+		auto tmpOnData = onData; // can be cleared during the call
+		if(tmpOnData)
+			tmpOnData(timestamp, command->stringValue(), args);
 	}
 }
 
@@ -612,8 +631,9 @@ bool RTMFPTCConnection::init(RTMFP *rtmfp, const Bytes &epd)
 		if(m_userOpen)
 		{
 			m_sessionOptFlow = m_controlSend->openFlow({});
-			if(onTransportOpen)
-				onTransportOpen();
+			auto tmpOnTransportOpen = onTransportOpen; // can be cleared during the call
+			if(tmpOnTransportOpen)
+				tmpOnTransportOpen();
 		}
 		return false;
 	};
@@ -714,6 +734,7 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 		reorderBuffer = reorderBufferFactory(reorderWindowPeriod);
 
 	flow->onComplete = [this, flow, reorderBuffer, streamID] (bool error) {
+		auto myself = share_ref(this); // delivery can release the application's last reference
 		if(reorderBuffer)
 			reorderBuffer->flush();
 		m_netStreamTransports[streamID].m_recvFlows.erase(flow);
@@ -721,7 +742,7 @@ void RTMFPTCConnection::acceptFlow(std::shared_ptr<RecvFlow> flow)
 
 	setOnMessage(flow, streamID, reorderBuffer);
 	flow->accept();
-	m_netStreamTransports[streamID].m_recvFlows.insert(flow);
+	m_netStreamTransports[streamID].m_recvFlows[flow] = reorderBuffer;
 }
 
 void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t streamID, std::shared_ptr<ReorderBuffer> reorderBuffer)
@@ -735,6 +756,7 @@ void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t st
 	}
 
 	flow->onMessage = [this, streamID, flow, reorderBuffer] (const uint8_t *bytes, size_t len, uintmax_t sequenceNumber, size_t fragmentCount) {
+		auto myself = share_ref(this); // delivery can release the application's last reference
 		uint32_t syncID = 0;
 		size_t count = 0;
 		if(FlowSyncManager::parse(bytes, len, syncID, count))
@@ -755,6 +777,7 @@ void RTMFPTCConnection::setOnMessage(std::shared_ptr<RecvFlow> flow, uint32_t st
 
 void RTMFPTCConnection::deliverMessage(uint32_t streamID, const uint8_t *bytes, size_t len)
 {
+	auto myself = share_ref(this); // callbacks can release the application's last reference
 	uint8_t messageType = 0;
 	uint32_t timestamp = 0;
 	size_t rv = TCMessage::parseHeader(bytes, bytes + len, &messageType, &timestamp);
@@ -779,6 +802,8 @@ bool RTMFPTCConnection::shouldAlwaysDeliver(const uint8_t *bytes, size_t len)
 
 void RTMFPTCConnection::basicClose(bool isError)
 {
+	auto myself = share_ref(this); // onClose can release the application's last reference
+
 	TCConnection::basicClose(isError);
 
 	if(m_controlSend) m_controlSend->close();
@@ -846,7 +871,11 @@ RTMFPTCConnection::NetStreamTransport::~NetStreamTransport()
 	if(m_data) m_data->close();
 
 	for(auto it = m_recvFlows.begin(); it != m_recvFlows.end(); it++)
-		(*it)->close();
+	{
+		it->first->close();
+		if(it->second)
+			it->second->close(); // it can be in the middle of delivering
+	}
 }
 
 SendFlow * RTMFPTCConnection::NetStreamTransport::openFlowForType(const std::shared_ptr<RecvFlow> &control, uint32_t streamID, uint8_t messageType)
-- 
2.43.0


From faba2de79a3b31e8c235679481f3b60ffdcc91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:17 +0000
Subject: [PATCH 37/39] fix: RedirectorClient::getKeepalivePeriod was declared
 but never defined

---
 src/RedirectorClient.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 66ee433..1ccc6ef 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -71,6 +71,11 @@ void RedirectorClient::setKeepalivePeriod(Duration t)
 		m_send->setSessionKeepalivePeriod(m_keepalivePeriod);
 }
 
+Duration RedirectorClient::getKeepalivePeriod() const
+{
+	return m_keepalivePeriod;
+}
+
 void RedirectorClient::setActive(bool active)
 {
 	bool update = active != m_active;
-- 
2.43.0


From fb1b54601aa65d543570be0133522b7d229eabdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:17 +0000
Subject: [PATCH 38/39] fix: settings and user data sent from
 onStatus(CONNECTED) reached the redirector before authentication

---
 src/RedirectorClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 1ccc6ef..e2bb59d 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -353,13 +353,13 @@ void RedirectorClient::sendLoadFactor()
 
 void RedirectorClient::onConnected()
 {
+	sendAuth(); // before anything that could be sent from the onStatus callback
 	setStatus(STATUS_CONNECTED);
 	if(isConnected()) // still, could have changed during callback
 	{
 		m_send->setSessionKeepalivePeriod(m_keepalivePeriod);
 		m_send->setSessionRetransmitLimit(m_retransmitLimit);
 		m_send->setSessionFIHelloMode(m_responseMode);
-		sendAuth();
 		sendSettingsIfActive();
 		sendDrainingIfInactive();
 		sendLoadFactor();
-- 
2.43.0


From ed96b87da7549c22659dd11999f74f26bb3d1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:17 +0000
Subject: [PATCH 39/39] fix: closing or dropping a redirector client from its
 callbacks destroyed the callback or client while in use

---
 src/RedirectorClient.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index e2bb59d..cad5909 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -256,12 +256,15 @@ void RedirectorClient::closeFlows()
 void RedirectorClient::setStatus(Status status)
 {
 	m_status = status;
-	if(onStatus)
-		onStatus(m_status);
+	auto onStatus_f = onStatus; // hold, could be cleared by calling close() in the callback
+	if(onStatus_f)
+		onStatus_f(m_status);
 }
 
 void RedirectorClient::doConnect()
 {
+	auto myself = share_ref(this); // could be released during the onStatus callback
+
 	m_lastConnectAttempt = m_rtmfp->getCurrentTime();
 
 	m_send = m_rtmfp->openFlow(m_epd, makeFlowMetadata());
@@ -353,6 +356,8 @@ void RedirectorClient::sendLoadFactor()
 
 void RedirectorClient::onConnected()
 {
+	auto myself = share_ref(this); // could be released during the onStatus callback
+
 	sendAuth(); // before anything that could be sent from the onStatus callback
 	setStatus(STATUS_CONNECTED);
 	if(isConnected()) // still, could have changed during callback
@@ -368,6 +373,8 @@ void RedirectorClient::onConnected()
 
 void RedirectorClient::onException(uintmax_t reason)
 {
+	auto myself = share_ref(this); // could be released during the onStatus callback
+
 	closeFlows();
 
 	setStatus(EXCEPTION_BAD_AUTH == reason ? STATUS_DISCONNECTED_BAD_AUTH : STATUS_DISCONNECTED);
@@ -396,6 +403,11 @@ void RedirectorClient::onMessage(const uint8_t *bytes, size_t len)
 {
 	const uint8_t *cursor = bytes;
 	const uint8_t *limit = cursor + len;
+	auto myself = share_ref(this); // could be released during a callback
+
+	// hold, could be cleared by calling close() in the callback
+	auto onReflexiveAddress_f = onReflexiveAddress;
+	auto onUserData_f = onUserData;
 
 	if(len)
 	{
@@ -403,13 +415,13 @@ void RedirectorClient::onMessage(const uint8_t *bytes, size_t len)
 		{
 		case CMD_REFLEXIVE_ADDR_REPORT:
 			m_reflexiveAddressValid = m_reflexiveAddress.setFromEncoding(cursor, limit);
-			if(m_reflexiveAddressValid and onReflexiveAddress)
-				onReflexiveAddress(m_reflexiveAddress);
+			if(m_reflexiveAddressValid and onReflexiveAddress_f)
+				onReflexiveAddress_f(Address(m_reflexiveAddress));
 			break;
 
 		case CMD_USER_DATA:
-			if(onUserData)
-				onUserData(cursor, limit - cursor);
+			if(onUserData_f)
+				onUserData_f(cursor, limit - cursor);
 			break;
 
 		default:
-- 
2.43.0

