From 5f3f16b30025120f20d8274bbb85df5e0044cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:40 +0000
Subject: [PATCH 01/65] fix: apply the filters of a SUBSCRIBE packet in order

---
 mqttpacket.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d48228e..7808ef4 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1778,7 +1778,8 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
 
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::forward_list<SubscriptionTuple> deferredSubscribes;
+    // In the order of the packet: when a filter occurs more than once, the last one must win, like its SUBACK code says.
+    std::list<SubscriptionTuple> deferredSubscribes;
 
     std::list<ReasonCodes> subs_reponse_codes;
     while (remainingAfterPos() > 0)
@@ -1869,7 +1870,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
         if (authResult == AuthResult::success || authResult == AuthResult::success_without_retained_delivery || authResult == AuthResult::success_but_drop)
         {
             const uint32_t subscr_id = settings->subscriptionIdentifierEnabled ? subscription_identifier : 0;
-            deferredSubscribes.emplace_front(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
+            deferredSubscribes.emplace_back(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
             subs_reponse_codes.push_back(static_cast<ReasonCodes>(qos));
         }
         else
-- 
2.43.0


From dbacc78ce067cd901dab0c19bf61542c92a50f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 02/65] fix: keep the subscription identifier of queued wills
 and retained messages

---
 publishcopyfactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/publishcopyfactory.cpp b/publishcopyfactory.cpp
index 80d96fe..d17a7ac 100644
--- a/publishcopyfactory.cpp
+++ b/publishcopyfactory.cpp
@@ -162,6 +162,7 @@ Publish PublishCopyFactory::getNewPublish(uint8_t new_max_qos, bool retainAsPubl
     Publish p(*publish);
     p.qos = actualQos;
     p.retain = getEffectiveRetain(retainAsPublished);
+    p.subscriptionIdentifier = subscriptionIdentifier;
     return p;
 }
 
-- 
2.43.0


From 29bf962584c5a7448757a620978507f12a185710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:52 +0000
Subject: [PATCH 03/65] fix: set the DUP flag on redelivered messages

A message sent again after a reconnect did not have the DUP flag.
---
 client.cpp         |  5 ++++-
 client.h           |  2 +-
 mqttpacket.cpp     |  5 +++--
 mqttpacket.h       |  2 +-
 qospacketqueue.cpp |  4 +++-
 qospacketqueue.h   |  7 ++++++-
 session.cpp        | 11 ++++++-----
 7 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/client.cpp b/client.cpp
index 840fda6..948a80c 100644
--- a/client.cpp
+++ b/client.cpp
@@ -433,7 +433,7 @@ PacketDropReason Client::writeMqttPacket(const MqttPacket &packet)
 
 PacketDropReason Client::writeMqttPacketAndBlameThisClient(
     PublishCopyFactory &copyFactory, uint8_t max_qos, uint16_t packet_id, bool retain, uint32_t subscriptionIdentifier,
-    const std::optional<std::string> &topic_override)
+    const std::optional<std::string> &topic_override, bool duplicate)
 {
     assert(max_qos == 0 || packet_id > 0);
 
@@ -487,6 +487,9 @@ PacketDropReason Client::writeMqttPacketAndBlameThisClient(
         // that should be fine.
         p->setPacketId(packet_id);
         p->setQos(copyFactory.getEffectiveQos(max_qos));
+
+        // The DUP flag of the incoming packet must not be propagated. It's only about our own (re)delivery.
+        p->setDuplicate(duplicate);
     }
 
     p->setRetain(retain);
diff --git a/client.h b/client.h
index a27230b..e55c683 100644
--- a/client.h
+++ b/client.h
@@ -243,7 +243,7 @@ public:
     PacketDropReason writeMqttPacket(const MqttPacket &packet);
     PacketDropReason writeMqttPacketAndBlameThisClient(
         PublishCopyFactory &copyFactory, uint8_t max_qos, uint16_t packet_id, bool retain, uint32_t subscriptionIdentifier,
-        const std::optional<std::string> &topic_override);
+        const std::optional<std::string> &topic_override, bool duplicate = false);
     PacketDropReason writeMqttPacketAndBlameThisClient(const MqttPacket &packet);
     void writeBufIntoFd();
     DisconnectStage getDisconnectStage() const { return disconnectStage; }
diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 7808ef4..a3a3b47 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2577,13 +2577,14 @@ uint16_t MqttPacket::getPacketId() const
 }
 
 // If I read the specs correctly, the DUP flag is merely for show. It doesn't control anything?
-void MqttPacket::setDuplicate()
+void MqttPacket::setDuplicate(bool val)
 {
     assert(packetType == PacketType::PUBLISH);
     assert(publishData.qos > 0);
     assert(fixed_header_length == 0 || first_byte == bites[0]);
 
-    first_byte |= 0b00001000;
+    first_byte &= 0b11110111;
+    first_byte |= (static_cast<uint8_t>(val) << 3);
 
     if (fixed_header_length > 0)
     {
diff --git a/mqttpacket.h b/mqttpacket.h
index a868296..3dda32d 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -173,7 +173,7 @@ public:
     bool containsFixedHeader() const;
     void setPacketId(uint16_t packet_id);
     uint16_t getPacketId() const;
-    void setDuplicate();
+    void setDuplicate(bool val);
     void readIntoBuf(CirBuf &buf) const;
     std::string getPayloadCopy() const;
     std::string_view getPayloadView() const;
diff --git a/qospacketqueue.cpp b/qospacketqueue.cpp
index 61981d8..62ac96b 100644
--- a/qospacketqueue.cpp
+++ b/qospacketqueue.cpp
@@ -177,13 +177,15 @@ void QoSPublishQueue::subtractQoSBytes(const QueuedPublish *p)
  */
 void QoSPublishQueue::queuePublish(
     PublishCopyFactory &copyFactory, uint16_t id, uint8_t new_max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier,
-    const std::optional<std::string> &topic_override)
+    const std::optional<std::string> &topic_override, bool sendAttempted)
 {
     assert(new_max_qos > 0);
     assert(id > 0);
 
     Publish pub = copyFactory.getNewPublish(new_max_qos, retainAsPublished, subscriptionIdentifier);
     std::shared_ptr<QueuedPublish> qp = std::make_shared<QueuedPublish>(std::move(pub), id, topic_override);
+    if (sendAttempted)
+        qp->setSendAttempted();
     addToHeadOfLinkedList(qp);
     qosQueueBytes += qp->getApproximateMemoryFootprint();
     addToExpirationQueue(qp);
diff --git a/qospacketqueue.h b/qospacketqueue.h
index bb4e272..a9a0114 100644
--- a/qospacketqueue.h
+++ b/qospacketqueue.h
@@ -28,6 +28,9 @@ class QueuedPublish
 
     // We store this separately because because we need to retain the original publish path for ACL checking upon resending.
     std::optional<std::string> topic_override;
+
+    // When it has been given to a connected client before, sending it again needs the DUP flag.
+    bool sendAttempted = false;
 public:
     QueuedPublish(Publish &&publish, uint16_t packet_id, const std::optional<std::string> &topic_override);
     QueuedPublish(const QueuedPublish &other) = delete;
@@ -43,6 +46,8 @@ public:
     uint16_t getPacketId() const;
     Publish &getPublish();
     const std::optional<std::string> &getTopicOverride() const;
+    bool getSendAttempted() const { return sendAttempted; }
+    void setSendAttempted() { sendAttempted = true; }
 };
 
 class QoSPublishQueue
@@ -76,7 +81,7 @@ public:
     size_t getByteSize() const;
     void queuePublish(
         PublishCopyFactory &copyFactory, uint16_t id, uint8_t new_max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier,
-        const std::optional<std::string> &topic_override);
+        const std::optional<std::string> &topic_override, bool sendAttempted = false);
     void queuePublish(Publish &&pub, uint16_t id, const std::optional<std::string> &topic_override);
     std::vector<uint16_t> clearExpiredMessages();
     const std::shared_ptr<QueuedPublish> &getTail() const;
diff --git a/session.cpp b/session.cpp
index 29310b8..7fed044 100644
--- a/session.cpp
+++ b/session.cpp
@@ -291,7 +291,7 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         }
 
         if (!destroyOnDisconnect)
-            qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override);
+            qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override, static_cast<bool>(c));
     }
 
     if (!c)
@@ -354,7 +354,7 @@ void Session::sendAllPendingQosData()
     std::shared_ptr<Client> c = makeSharedClient();
     if (c)
     {
-        std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t>> copiedPublishes;
+        std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t, bool>> copiedPublishes;
         std::vector<uint16_t> copiedQoS2Ids;
 
         {
@@ -385,7 +385,8 @@ void Session::sendAllPendingQosData()
 
                 qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
 
-                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId());
+                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId(), qp->getSendAttempted());
+                qp->setSendAttempted();
             }
 
             for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
@@ -394,12 +395,12 @@ void Session::sendAllPendingQosData()
             }
         }
 
-        for(std::tuple<Publish, std::optional<std::string>, uint16_t> &p : copiedPublishes)
+        for(std::tuple<Publish, std::optional<std::string>, uint16_t, bool> &p : copiedPublishes)
         {
             Publish &pub = std::get<Publish>(p);
             PublishCopyFactory fac(&pub);
             const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));
+            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p), std::get<bool>(p));
         }
 
         for(uint16_t id : copiedQoS2Ids)
-- 
2.43.0


From ce54cac41e175f3f8b17dc23a55ff7359e43b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:18 +0000
Subject: [PATCH 04/65] fix: ignore acknowledgements of packet identifiers that
 are not in use

A PUBACK or PUBREC for an unknown identifier, followed by PUBCOMP, freed a place in the receive maximum of the session.
---
 mqttpacket.cpp |  4 +++-
 session.cpp    | 11 ++++++++++-
 session.h      |  1 +
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index a3a3b47..039b474 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2416,7 +2416,9 @@ void MqttPacket::handlePubRec(std::shared_ptr<Client> &sender)
     // that contains that Packet Identifier as being a new Application Message."
     if (!publishTerminatesHere)
     {
-        sender->getSession()->addOutgoingQoS2MessageId(packet_id);
+        // Don't start waiting for a PUBCOMP of something we never sent.
+        if (foundAndRemoved)
+            sender->getSession()->addOutgoingQoS2MessageId(packet_id);
 
         // MQTT5: "[The sender] MUST send a PUBREL packet when it receives a PUBREC packet from the receiver with a Reason Code value less than 0x80"
         const ReasonCodes reason = foundAndRemoved ? ReasonCodes::Success : ReasonCodes::PacketIdentifierNotFound;
diff --git a/session.cpp b/session.cpp
index 7fed044..761fbd5 100644
--- a/session.cpp
+++ b/session.cpp
@@ -157,6 +157,14 @@ void Session::QoSData::releasePacketId(const uint16_t id)
     usedIds.erase(id);
 }
 
+/**
+ * @brief Session::QoSData::isAwaitingFirstAck says whether an ID is of a publish we sent that had no PUBACK or PUBREC yet.
+ */
+bool Session::QoSData::isAwaitingFirstAck(const uint16_t id)
+{
+    return usedIds.contains(id) && outgoingQoS2MessageIds.find(id) == outgoingQoS2MessageIds.end();
+}
+
 Session::~Session()
 {
     logger->log(LOG_DEBUG) << "Session destructor of session with client ID '" << this->client_id << "'.";
@@ -322,7 +330,8 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
         result = qos_locked->eraseQueuedPublish(packet_id);
     else
     {
-        result = true;
+        // Sessions that won't persist have no queue, but the IDs that are in use tell whether we're waiting for this one.
+        result = qos_locked->isAwaitingFirstAck(packet_id);
     }
 
     if (qosHandshakeEnds && result)
diff --git a/session.h b/session.h
index 6dbcbac..4984447 100644
--- a/session.h
+++ b/session.h
@@ -80,6 +80,7 @@ class Session
         std::optional<uint16_t> getNextPacketId();
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
+        bool isAwaitingFirstAck(const uint16_t id);
     };
 
     friend class SessionsAndSubscriptionsDB;
-- 
2.43.0


From 92db8b62edb030645c71b2a91d4a45901e4c5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 05/65] fix: release the packet identifier of a refused MQTT 5
 QoS 2 publish

The PUBREC with an error ends the handshake, but the identifier was kept as in flight, so the next message using it was acknowledged but silently dropped.
---
 mqttpacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 039b474..0a49395 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2329,6 +2329,10 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
         else
         {
             ackSender.setAckCode(ReasonCodes::NotAuthorized);
+
+            // The handshake ends with an error in PUBREC, so there will be no PUBREL and the ID can be used for a new message right away.
+            if (qos_org == 2 && this->protocolVersion >= ProtocolVersion::Mqtt5)
+                sender->getSession()->removeIncomingQoS2MessageId(_packet_id);
         }
     }
 
-- 
2.43.0


From ce52b142e6bd7e90ec6298cb4acd11903cc5379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 06/65] fix: don't remove a session that has been taken over by
 a new connection

When a client took over a session and set its expiry interval to 0, the disconnect of the old connection removed the session of the new connection. The new client then no longer received anything, and a next client with the same ID did not take over.
---
 subscriptionstore.cpp | 16 +++++++++++-----
 subscriptionstore.h   |  2 +-
 threaddata.cpp        |  3 ++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 2be5635..6c4ea59 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -366,9 +366,10 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
             sessionsById[client->getClientId()] = session;
         }
-    }
 
-    session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
+        // Do this while still holding the lock, so that the session can't be removed for not having a client.
+        session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
+    }
 }
 
 /**
@@ -1222,7 +1223,12 @@ bool SubscriptionNode::empty() const
     return children.empty() && subscribers.empty() && sharedSubscribers.empty() && !childrenPlus && !childrenPound;
 }
 
-void SubscriptionStore::removeSession(const std::shared_ptr<Session> &session)
+/**
+ * @brief SubscriptionStore::removeSession
+ * @param onlyWhenInactive for when the removal is a consequence of the client being gone, in which case a new client may have
+ *        picked up the session in the mean time.
+ */
+void SubscriptionStore::removeSession(const std::shared_ptr<Session> &session, bool onlyWhenInactive)
 {
     if (!session)
         return;
@@ -1237,7 +1243,7 @@ void SubscriptionStore::removeSession(const std::shared_ptr<Session> &session)
         std::unique_lock session_locker(sessions_lock);
 
         auto session_it = sessionsById.find(clientid);
-        if (session_it != sessionsById.end() && session_it->second == session)
+        if (session_it != sessionsById.end() && session_it->second == session && !(onlyWhenInactive && session->hasActiveClient()))
         {
             sessionsToRemove.push_back(session_it->second);
             sessionsById.erase(session_it);
@@ -1313,7 +1319,7 @@ void SubscriptionStore::removeExpiredSessionsClients()
 
     for(std::shared_ptr<Session> &session : sessionsToRemove)
     {
-        removeSession(session);
+        removeSession(session, true);
         removedSessions++;
     }
 
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 9ea3fcb..6d5eff7 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -233,7 +233,7 @@ public:
     void trySetRetainedMessages(const Publish &publish, const std::vector<std::string> &subtopics);
     bool setRetainedMessage(const Publish &publish, const std::vector<std::string> &subtopics, bool try_lock_fail=false);
 
-    void removeSession(const std::shared_ptr<Session> &session);
+    void removeSession(const std::shared_ptr<Session> &session, bool onlyWhenInactive = false);
     void removeExpiredSessionsClients();
     bool hasDeferredSubscriptionTreeNodesForPurging();
     bool purgeSubscriptionTree();
diff --git a/threaddata.cpp b/threaddata.cpp
index c1916ab..2cb0900 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -439,7 +439,8 @@ void ThreadData::clientDisconnectActions(
 
     if (session && session->getDestroyOnDisconnect())
     {
-        store->removeSession(session);
+        // A taken over session belongs to the new client, who may have made it a session to be destroyed.
+        store->removeSession(session, true);
     }
     else
     {
-- 
2.43.0


From c01a15993d9ed6ac4986a0c2095551244d66a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:49 +0000
Subject: [PATCH 07/65] fix: don't let an outdated queued removal end a session
 early

A session that was picked up and disconnected again was removed at the time calculated for its first disconnect.
---
 session.cpp           | 13 +++++++++++--
 session.h             |  3 ++-
 subscriptionstore.cpp | 10 +++++-----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/session.cpp b/session.cpp
index 761fbd5..cf45bc6 100644
--- a/session.cpp
+++ b/session.cpp
@@ -568,12 +568,21 @@ void Session::setSessionExpiryInterval(uint32_t newVal)
     this->sessionExpiryInterval = newVal;
 }
 
-void Session::setQueuedRemovalAt()
+void Session::setQueuedRemovalAt(const std::chrono::time_point<std::chrono::steady_clock> &at)
 {
-    this->removalQueuedAt = std::chrono::steady_clock::now();
+    this->removalQueuedAt = at;
     this->removalQueued = true;
 }
 
+/**
+ * @brief Session::getRemovalDueAt is the time slot of the most recently queued removal, in (steady clock) seconds since epoch.
+ */
+std::chrono::seconds Session::getRemovalDueAt() const
+{
+    const auto removeAt = this->removalQueuedAt + std::chrono::seconds(this->sessionExpiryInterval);
+    return std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
+}
+
 uint32_t Session::getSessionExpiryInterval() const
 {
     return this->sessionExpiryInterval;
diff --git a/session.h b/session.h
index 4984447..a697e0a 100644
--- a/session.h
+++ b/session.h
@@ -149,7 +149,8 @@ public:
 
     void setSessionProperties(uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version);
     void setSessionExpiryInterval(uint32_t newVal);
-    void setQueuedRemovalAt();
+    void setQueuedRemovalAt(const std::chrono::time_point<std::chrono::steady_clock> &at);
+    std::chrono::seconds getRemovalDueAt() const;
     uint32_t getSessionExpiryInterval() const;
     uint32_t getCurrentSessionExpiryInterval();
 
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 6c4ea59..23dd164 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1303,8 +1303,9 @@ void SubscriptionStore::removeExpiredSessionsClients()
             {
                 std::shared_ptr<Session> lockedSession = ses.lock();
 
-                // A session could have been picked up again, so we have to verify its expiration status.
-                if (lockedSession && !lockedSession->hasActiveClient())
+                // A session could have been picked up again, so we have to verify its expiration status. It may even have been picked up
+                // and disconnected again, in which case there's a later removal queued.
+                if (lockedSession && !lockedSession->hasActiveClient() && lockedSession->getRemovalDueAt() <= secondsSinceEpoch)
                 {
                     sessionsToRemove.push_back(lockedSession);
                 }
@@ -1446,9 +1447,8 @@ void SubscriptionStore::queueSessionRemoval(const std::shared_ptr<Session> &sess
     if (!session)
         return;
 
-    std::chrono::time_point<std::chrono::steady_clock> removeAt = std::chrono::steady_clock::now() + std::chrono::seconds(session->getSessionExpiryInterval());
-    std::chrono::seconds secondsSinceEpoch = std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
-    session->setQueuedRemovalAt();
+    session->setQueuedRemovalAt(std::chrono::steady_clock::now());
+    const std::chrono::seconds secondsSinceEpoch = session->getRemovalDueAt();
 
     std::lock_guard<std::mutex> locker(this->queuedSessionRemovalsMutex);
     queuedSessionRemovals[secondsSinceEpoch].push_back(session);
-- 
2.43.0


From 3ccb71e24d2ff8716357ba3221e7aa7d323ab591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:51 +0000
Subject: [PATCH 08/65] fix: end the session when a client disconnects with
 session expiry interval 0

It lingered until the next periodic removal of expired sessions, so a client that came back before that still had it.
---
 session.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/session.cpp b/session.cpp
index cf45bc6..915cf44 100644
--- a/session.cpp
+++ b/session.cpp
@@ -566,6 +566,10 @@ void Session::setSessionExpiryInterval(uint32_t newVal)
     }
 
     this->sessionExpiryInterval = newVal;
+
+    // A disconnect with expiry 0 means the session ends with the connection.
+    if (newVal == 0)
+        this->destroyOnDisconnect = true;
 }
 
 void Session::setQueuedRemovalAt(const std::chrono::time_point<std::chrono::steady_clock> &at)
-- 
2.43.0


From db4e23d028fb4e256d23629b0760a3fa60c7a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 09/65] fix: keep the will of the new client when sending that
 of a taken over one

Sending the immediate will of the old client cleared the will of the session, which is the new client's. Its delayed will was then never sent.
---
 lockedsharedptr.h     | 7 +++++++
 session.cpp           | 8 ++++++++
 session.h             | 1 +
 subscriptionstore.cpp | 4 +++-
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/lockedsharedptr.h b/lockedsharedptr.h
index b38ddd5..95cc804 100644
--- a/lockedsharedptr.h
+++ b/lockedsharedptr.h
@@ -25,6 +25,13 @@ public:
         p.reset();
     }
 
+    void resetIfEqual(const std::shared_ptr<T> &r) noexcept
+    {
+        std::lock_guard<std::mutex> l(m);
+        if (p == r)
+            p.reset();
+    }
+
     std::shared_ptr<T> getCopy()
     {
         std::lock_guard<std::mutex> l(m);
diff --git a/session.cpp b/session.cpp
index 915cf44..3d52732 100644
--- a/session.cpp
+++ b/session.cpp
@@ -431,6 +431,14 @@ void Session::clearWill()
     this->willPublish.reset();
 }
 
+/**
+ * @brief Session::clearWill clears the will when it's still the one specified.
+ */
+void Session::clearWill(const std::shared_ptr<WillPublish> &will)
+{
+    this->willPublish.resetIfEqual(will);
+}
+
 std::shared_ptr<WillPublish> Session::getWill()
 {
     return this->willPublish.getCopy();
diff --git a/session.h b/session.h
index a697e0a..8b83cf9 100644
--- a/session.h
+++ b/session.h
@@ -131,6 +131,7 @@ public:
     void sendAllPendingQosData();
     bool hasActiveClient();
     void clearWill();
+    void clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
     void setWill(WillPublish &&pub);
     ClientType getClientType() const { return clientType; }
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 23dd164..d697854 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -399,8 +399,10 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      * Avoid sending two immediate wills when a session is destroyed with the client disconnect.
      * Session is null when you're destroying a client before a session is assigned, or
      * when an old client has no session anymore after a client with the same ID connects.
+     *
+     * When the session was taken over, it has the will of the new client, which must stay.
      */
-    session->clearWill();
+    session->clearWill(will);
 
     const Settings *settings = ThreadGlobals::getSettings();
 
-- 
2.43.0


From 5710a540244df5b2af90cda00d7491ddcd36b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:08 +0000
Subject: [PATCH 10/65] fix: send the delayed will of a session that's replaced
 by a clean start

A delayed will of an offline session, or of a kicked client, was lost when a client connected with the same ID and clean start, which ends the session and therefore makes the will due.
---
 session.h             |  1 +
 subscriptionstore.cpp | 12 ++++++++++++
 threaddata.cpp        | 22 ++++++++++++++++------
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/session.h b/session.h
index 8b83cf9..7357c7f 100644
--- a/session.h
+++ b/session.h
@@ -152,6 +152,7 @@ public:
     void setSessionExpiryInterval(uint32_t newVal);
     void setQueuedRemovalAt(const std::chrono::time_point<std::chrono::steady_clock> &at);
     std::chrono::seconds getRemovalDueAt() const;
+    bool getRemovalQueued() const { return removalQueued; }
     uint32_t getSessionExpiryInterval() const;
     uint32_t getCurrentSessionExpiryInterval();
 
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index d697854..cb95046 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -327,6 +327,7 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
     // These destructors need to be called outside the sessions lock, so placing here.
     std::shared_ptr<Session> session;
+    std::shared_ptr<Session> endedSession;
 
     if (client->getClientId().empty())
         throw ProtocolError("Trying to store client without an ID.", ReasonCodes::ProtocolError);
@@ -361,6 +362,8 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
         if (!session || session->getDestroyOnDisconnect() || clean_start)
         {
+            endedSession = std::move(session);
+
             // Don't use sdt::make_shared to avoid the weak pointers from retaining the size of session in the control block.
             session = std::shared_ptr<Session>(new Session(client->getClientId(), client->getUsername(), client->getFmqClientGroupId()));
 
@@ -370,6 +373,15 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
         // Do this while still holding the lock, so that the session can't be removed for not having a client.
         session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
     }
+
+    // Delayed wills are to be sent when the session ends. If the disconnect actions of the old client are still to come, those will do it.
+    if (endedSession && endedSession->getRemovalQueued() && !endedSession->hasActiveClient())
+    {
+        const std::shared_ptr<WillPublish> will = endedSession->getWill();
+
+        if (will && will->will_delay > 0)
+            queueOrSendWillMessage(will, endedSession, true);
+    }
 }
 
 /**
diff --git a/threaddata.cpp b/threaddata.cpp
index 2cb0900..4c1b65a 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -432,20 +432,30 @@ void ThreadData::clientDisconnectActions(
 
     publishBridgeState(bridgeState.lock(), false, disconnect_reason);
 
+    const bool destroySession = session && session->getDestroyOnDisconnect();
+
+    if (!destroySession)
+        store->queueSessionRemoval(session);
+
     if (willPublish)
     {
-        store->queueOrSendWillMessage(willPublish, session);
+        if (willPublish->will_delay == 0)
+        {
+            store->queueOrSendWillMessage(willPublish, session);
+        }
+        else if (session && session->getWill() == willPublish)
+        {
+            // When the session was replaced by that of a new client, it has ended, and there's nothing to wait for.
+            const bool sessionEnded = store->lockSession(clientid) != session;
+            store->queueOrSendWillMessage(willPublish, session, sessionEnded);
+        }
     }
 
-    if (session && session->getDestroyOnDisconnect())
+    if (destroySession)
     {
         // A taken over session belongs to the new client, who may have made it a session to be destroyed.
         store->removeSession(session, true);
     }
-    else
-    {
-        store->queueSessionRemoval(session);
-    }
 
     if (authenticated)
         clientDisconnectEvent(clientid);
-- 
2.43.0


From f26baf38d7e4d44c9abcc54ff249b5b5b8e47d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:59 +0000
Subject: [PATCH 11/65] fix: don't loop forever when all packet identifiers of
 a client are in use

---
 session.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/session.cpp b/session.cpp
index 3d52732..eb17542 100644
--- a/session.cpp
+++ b/session.cpp
@@ -9,6 +9,7 @@ See LICENSE for license details.
 */
 
 #include <cassert>
+#include <limits>
 
 #include "session.h"
 #include "client.h"
@@ -124,8 +125,8 @@ std::optional<uint16_t> Session::QoSData::getNextPacketId()
     if (flowControlQuota == 0)
         return {};
 
-    const uint16_t end = nextPacketId;
-    for(;;)
+    // Trying every ID once, because they can all be in use.
+    for(int i = 0; i <= std::numeric_limits<uint16_t>::max(); i++)
     {
         nextPacketId++;
 
@@ -135,15 +136,12 @@ std::optional<uint16_t> Session::QoSData::getNextPacketId()
         if (usedIds.contains(nextPacketId))
             continue;
 
-        if (nextPacketId == end)
-            return {};
-
-        break;
+        flowControlQuota--;
+        usedIds.insert(nextPacketId);
+        return nextPacketId;
     }
 
-    flowControlQuota--;
-    usedIds.insert(nextPacketId);
-    return nextPacketId;
+    return {};
 }
 
 uint16_t Session::QoSData::getInternalNextPacketId() const
-- 
2.43.0


From ada124d05ee8a1aff83956341e5931d5860f9cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:37 +0000
Subject: [PATCH 12/65] fix: start the message expiry interval of a will when
 it is published

---
 sessionsandsubscriptionsdb.cpp | 5 ++++-
 subscriptionstore.cpp          | 8 ++++++--
 types.cpp                      | 9 +++++++++
 types.h                        | 1 +
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0ef33e5..82cd2a2 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -413,7 +413,10 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
 
             if (hasWillThatShouldSurviveRestart)
             {
-                MqttPacket willpacket(ProtocolVersion::Mqtt5, *will);
+                // The expiry interval only starts when the will is published, so it's saved in full.
+                Publish willCopy(*will);
+                willCopy.restartExpiration();
+                MqttPacket willpacket(ProtocolVersion::Mqtt5, willCopy);
 
                 // Dummy, to please the parser on reading.
                 if (will->qos > 0)
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index cb95046..a11f246 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -428,14 +428,18 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
 
     if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)
     {
-        PublishCopyFactory factory(will.get());
+        // The expiry interval starts when the will is published, not when the client connected.
+        Publish publish(*will);
+        publish.restartExpiration();
+
+        PublishCopyFactory factory(&publish);
 
         // Not having a stored fmq_client_group_id to pass. Theoretically, it should not be needed,
         // because a client cannot get its own will.
         queuePacketAtSubscribers(factory, will->client_id, {});
 
         if (will->retain && authResult == AuthResult::success)
-            setRetainedMessage(*will, will->getSubtopics());
+            setRetainedMessage(publish, publish.getSubtopics());
     }
 }
 
diff --git a/types.cpp b/types.cpp
index bac5fa9..6eec34d 100644
--- a/types.cpp
+++ b/types.cpp
@@ -292,6 +292,15 @@ void Publish::setExpireAfter(uint32_t s)
     this->expireInfo->expiresAfter = std::chrono::seconds(s);
 }
 
+/**
+ * @brief Publish::restartExpiration makes the full interval count from now, like for wills, for which the time before they are sent doesn't count.
+ */
+void Publish::restartExpiration()
+{
+    if (expireInfo)
+        expireInfo->createdAt = std::chrono::steady_clock::now();
+}
+
 void Publish::setExpireAfterToCeiling(std::chrono::seconds ceiling)
 {
     if (expireInfo)
diff --git a/types.h b/types.h
index 1044692..7393565 100644
--- a/types.h
+++ b/types.h
@@ -277,6 +277,7 @@ public:
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
 
     void setExpireAfter(uint32_t s);
+    void restartExpiration();
     void setExpireAfterToCeiling(std::chrono::seconds s);
 
     const std::vector<std::string> &getSubtopics();
-- 
2.43.0


From 746f2d2ae5905ef2a3e513a8f0cfa092c965272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 13/65] fix: don't subtract the age of saved messages from
 their expiry interval twice

---
 retainedmessagesdb.cpp         |  3 +--
 sessionsandsubscriptionsdb.cpp |  3 +--
 types.cpp                      | 15 +++++++++++++++
 types.h                        |  1 +
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 7755667..4863ebc 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -221,8 +221,7 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         pub.client_id = client_id;
         pub.username = username;
 
-        if (pub.expireInfo)
-            pub.expireInfo.value().createdAt = timepointFromAge(newPubAge);
+        pub.setExpireInfoAge(originalPubAge, newPubAge);
 
         RetainedMessage msg(pub);
         if (logger->wouldLog(LOG_DEBUG))
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 82cd2a2..563991f 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -189,8 +189,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     pub.username = sender_username;
 
                     const uint32_t newPubAge = persistence_state_age + originalPubAge;
-                    if (pub.expireInfo)
-                        pub.expireInfo->createdAt = timepointFromAge(newPubAge);
+                    pub.setExpireInfoAge(originalPubAge, newPubAge);
 
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
diff --git a/types.cpp b/types.cpp
index 6eec34d..1f78fff 100644
--- a/types.cpp
+++ b/types.cpp
@@ -301,6 +301,21 @@ void Publish::restartExpiration()
         expireInfo->createdAt = std::chrono::steady_clock::now();
 }
 
+/**
+ * @brief Publish::setExpireInfoAge restores the age of a publish made from a saved packet. That packet has the interval
+ *        that remained at the time of saving, so the age it had then has to be added again.
+ * @param ageWhenSaved in seconds.
+ * @param age in seconds, as of now, so including 'ageWhenSaved'.
+ */
+void Publish::setExpireInfoAge(uint32_t ageWhenSaved, uint32_t age)
+{
+    if (!expireInfo)
+        return;
+
+    expireInfo->expiresAfter += std::chrono::seconds(ageWhenSaved);
+    expireInfo->createdAt = timepointFromAge(age);
+}
+
 void Publish::setExpireAfterToCeiling(std::chrono::seconds ceiling)
 {
     if (expireInfo)
diff --git a/types.h b/types.h
index 7393565..c24fcc6 100644
--- a/types.h
+++ b/types.h
@@ -278,6 +278,7 @@ public:
 
     void setExpireAfter(uint32_t s);
     void restartExpiration();
+    void setExpireInfoAge(uint32_t ageWhenSaved, uint32_t age);
     void setExpireAfterToCeiling(std::chrono::seconds s);
 
     const std::vector<std::string> &getSubtopics();
-- 
2.43.0


From 8256a38d53bd9ecf2a9f94ddc2ad283dac1ee4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:03 +0000
Subject: [PATCH 14/65] fix: don't let a message too large for the client
 occupy a packet identifier and place

---
 session.cpp | 27 +++++++++++++++++++++++++--
 session.h   |  1 +
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/session.cpp b/session.cpp
index eb17542..9903fb2 100644
--- a/session.cpp
+++ b/session.cpp
@@ -306,7 +306,26 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     if (!c->isRetainedAvailable())
         effectiveRetain = false;
 
-    return c->writeMqttPacketAndBlameThisClient(copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+    const PacketDropReason dropReason = c->writeMqttPacketAndBlameThisClient(
+        copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+
+    if (pack_id && dropReason == PacketDropReason::BiggerThanPacketLimit)
+        completeUnsendablePublish(*pack_id);
+
+    return dropReason;
+}
+
+/**
+ * @brief Session::completeUnsendablePublish behaves as if the publish was completed, for when it's bigger than the client accepts [MQTT-3.1.2-25].
+ * @param packet_id
+ *
+ * The client will never acknowledge it, so it would otherwise keep using a place and packet ID.
+ */
+void Session::completeUnsendablePublish(uint16_t packet_id)
+{
+    MutexLocked<QoSData> qos_locked = qos.lock();
+    qos_locked->eraseQueuedPublish(packet_id);
+    qos_locked->increaseFlowControlQuota(packet_id);
 }
 
 /**
@@ -407,7 +426,11 @@ void Session::sendAllPendingQosData()
             Publish &pub = std::get<Publish>(p);
             PublishCopyFactory fac(&pub);
             const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p), std::get<bool>(p));
+            const PacketDropReason dropReason = c->writeMqttPacketAndBlameThisClient(
+                fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p), std::get<bool>(p));
+
+            if (dropReason == PacketDropReason::BiggerThanPacketLimit)
+                completeUnsendablePublish(std::get<uint16_t>(p));
         }
 
         for(uint16_t id : copiedQoS2Ids)
diff --git a/session.h b/session.h
index 7357c7f..ec118c3 100644
--- a/session.h
+++ b/session.h
@@ -127,6 +127,7 @@ public:
     void assignActiveConnection(const std::shared_ptr<Session> &thisSession, const std::shared_ptr<Client> &client,
                                 uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start);
     PacketDropReason writePacket(PublishCopyFactory &copyFactory, const uint8_t max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier);
+    void completeUnsendablePublish(uint16_t packet_id);
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
     void sendAllPendingQosData();
     bool hasActiveClient();
-- 
2.43.0


From b4341ee2c00c32f1001068bb6b3651d02f84baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 15/65] fix: make room for the biggest allowed packet in the
 read buffer

---
 client.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index 948a80c..b6d4498 100644
--- a/client.cpp
+++ b/client.cpp
@@ -346,7 +346,8 @@ DisconnectStage Client::readFdIntoBuffer()
             const uint32_t maxBufOrBigPacketSize= std::max<uint32_t>(this->maxIncomingPacketSize, maxBufSize);
 
             // We always grow for another iteration when there are still decoded websocket/SSL bytes, because epoll doesn't tell us that buffer has data.
-            if (readbuf.getCapacity() * 2 <= maxBufOrBigPacketSize || error == IoWrapResult::WantRead || ioWrapper.hasProcessedBufferedBytesToRead())
+            // The biggest allowed packet has to fit, also when that size is not just below a power of two.
+            if (readbuf.getCapacity() * 2 <= maxBufOrBigPacketSize || readbuf.getCapacity() <= this->maxIncomingPacketSize || error == IoWrapResult::WantRead || ioWrapper.hasProcessedBufferedBytesToRead())
             {
                 readbuf.doubleCapacity();
             }
-- 
2.43.0


From e6b5af6a4b7084955dedb4d46f6fdfdef4e42c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:00 +0000
Subject: [PATCH 16/65] fix: refuse control characters in the same block as a
 multi-byte character

---
 threadlocalutils.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index a66ab66..f7412e7 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -92,6 +92,15 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
         int index = _mm_cmpestri(non_ascii_mask, 1, loaded_AND_non_ascii, len_left, 0);
         n += index;
 
+        // The bytes before the first multi-byte char, or all of them, are ASCII. Control chars are not allowed.
+        const int ascii_bytes = (1 << index) - 1;
+
+        if (_mm_movemask_epi8(_mm_cmplt_epi8(loaded, lowerBound)) & ascii_bytes)
+            return false;
+
+        if (_mm_movemask_epi8(_mm_cmpgt_epi8(loaded, lastAsciiChar)) & ascii_bytes)
+            return false;
+
         // Checking multi-byte chars one by one. With some effort, this may be done using SIMD too, but the majority of uses will
         // have a minimum of multi byte chars.
         if (index < 16)
@@ -157,15 +166,6 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
             if (plane <= 16 && (last_16_bit == 0xFFFE || last_16_bit == 0xFFFF))
                 return false;
         }
-        else
-        {
-            if (_mm_movemask_epi8(_mm_cmplt_epi8(loaded, lowerBound)))
-                return false;
-
-            if (_mm_movemask_epi8(_mm_cmpgt_epi8(loaded, lastAsciiChar)))
-                return false;
-        }
-
     }
 
     return true;
-- 
2.43.0


From 0cf992261b1e67e4eb7abe8f92f76a341675c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:00 +0000
Subject: [PATCH 17/65] fix: refuse UTF-8 code points beyond U+10FFFF

---
 threadlocalutils.cpp | 2 +-
 utils.h              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index f7412e7..8b86f88 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -148,7 +148,7 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
                 return false;
             else if (total_char_len == 3 && cur_code_point < 0x800)
                 return false;
-            else if (total_char_len == 4 && cur_code_point < 0x10000)
+            else if (total_char_len == 4 && (cur_code_point < 0x10000 || cur_code_point > 0x10FFFF))
                 return false;
 
             if (cur_code_point >= 0xD800 && cur_code_point <= 0xDFFF) // Dec 55296-57343
diff --git a/utils.h b/utils.h
index 2de4ab5..4e1d613 100644
--- a/utils.h
+++ b/utils.h
@@ -124,7 +124,7 @@ bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
                 return false;
             else if (total_char_len == 3 && cur_code_point < 0x800)
                 return false;
-            else if (total_char_len == 4 && cur_code_point < 0x10000)
+            else if (total_char_len == 4 && (cur_code_point < 0x10000 || cur_code_point > 0x10FFFF))
                 return false;
 
             if (cur_code_point <= 0x001F)
-- 
2.43.0


From 09848815ea7d78f5bd60dc88a0feff2ff7a3c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:12 +0000
Subject: [PATCH 18/65] fix: keep checking connections that never authenticate

---
 threaddata.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 4c1b65a..2e6504d 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -1299,7 +1299,7 @@ void ThreadData::doKeepAliveCheck()
                         {
                             clientsToRemove.push_back(client);
                         }
-                        else if (k.recheck)
+                        else if (k.recheck || !client->getAuthenticated()) // Those who sent something, but not a whole CONNECT, need another check.
                         {
                             clientsToRecheck.push_back(client);
                         }
-- 
2.43.0


From 1e7393eea26191c6b4f4cd90c0ea06ddb9474406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 19/65] fix: wait for the last line feed of an HTTP request
 header

---
 http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http.cpp b/http.cpp
index bbf5141..acda642 100644
--- a/http.cpp
+++ b/http.cpp
@@ -101,6 +101,10 @@ std::optional<HttpRequest> parseHttpHeader(CirBuf &buf)
         std::istringstream is(s);
         for (std::string line; std::getline(is, line);)
         {
+            // The rest of this line, including its line ending, still has to arrive.
+            if (is.eof())
+                break;
+
             trim(line);
 
             if (line.empty())
-- 
2.43.0


From 572f33b2896f76ed8d61eafde57ab742b83c3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 20/65] fix: end the HTTP response about the websocket version
 with an empty line

---
 http.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/http.cpp b/http.cpp
index acda642..7feaf14 100644
--- a/http.cpp
+++ b/http.cpp
@@ -33,6 +33,7 @@ std::string generateInvalidWebsocketVersionHttpHeaders(const int wantedVersion)
     oss << "HTTP/1.1 400 Bad Request\r\n";
     oss << "Sec-WebSocket-Version: " << wantedVersion;
     oss << "\r\n";
+    oss << "\r\n";
     oss.flush();
     return oss.str();
 }
-- 
2.43.0


From 1c14f394364185804da083cdf5512b2efc01d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:28 +0000
Subject: [PATCH 21/65] fix: send all of the websocket handshake answer
 unframed

---
 iowrapper.cpp | 14 +++++++++++++-
 iowrapper.h   |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index c2e7cfa..ec530f8 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -738,6 +738,7 @@ ssize_t IoWrapper::readWebsocketAndOrSsl(int fd, void *buf, size_t nbytes, IoWra
             std::string answer = generateWebsocketAnswer(acceptString, req_data.subprotocol.value());
             parentClient->writeText(answer);
             websocketState = WebsocketState::Upgrading;
+            websocketAnswerBytesLeft = answer.size();
             websocketPendingBytes.reset();
             websocketPendingBytes.resetCapacity(initialBufferSize);
             *error = IoWrapResult::Success;
@@ -1071,7 +1072,18 @@ ssize_t IoWrapper::writeWebsocketAndOrSsl(int fd, const void *buf, size_t nbytes
     if (websocketState != WebsocketState::Upgraded)
     {
         if (connectionProtocol == ConnectionProtocol::WebsocketMqtt && websocketState == WebsocketState::Upgrading)
-            websocketState = WebsocketState::Upgraded;
+        {
+            // The HTTP answer may need several writes, and all of it has to go out unframed.
+            const ssize_t n = writeOrSslWrite(fd, buf, std::min(nbytes, websocketAnswerBytesLeft), error);
+
+            if (n > 0)
+                websocketAnswerBytesLeft -= n;
+
+            if (websocketAnswerBytesLeft == 0)
+                websocketState = WebsocketState::Upgraded;
+
+            return n;
+        }
 
         return writeOrSslWrite(fd, buf, nbytes, error);
     }
diff --git a/iowrapper.h b/iowrapper.h
index 62c4ac4..d5e8d48 100644
--- a/iowrapper.h
+++ b/iowrapper.h
@@ -117,6 +117,7 @@ class IoWrapper
 
     ConnectionProtocol connectionProtocol;
     WebsocketState websocketState = WebsocketState::NotUpgraded;
+    size_t websocketAnswerBytesLeft = 0;
     CirBuf websocketPendingBytes;
     IncompleteWebsocketRead incompleteWebsocketRead;
     CirBuf websocketWriteRemainder;
-- 
2.43.0


From 08e5a2f26693c4c409a01de258ada796fcea6a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:28 +0000
Subject: [PATCH 22/65] fix: accept fragmented websocket messages

---
 iowrapper.cpp | 8 ++++++++
 iowrapper.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index ec530f8..d669873 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -866,6 +866,14 @@ ssize_t IoWrapper::websocketBytesToReadBuffer(void *buf, const size_t nbytes, Io
             assert(headerLength <= websocketPendingBytes.usedBytes());
             websocketPendingBytes.advanceTail(headerLength);
 
+            // A message can be divided into fragments: a data frame without FIN, followed by continuation frames. We're
+            // only interested in the stream of bytes.
+            if (opcode == WebsocketOpcode::Continuation && websocketFragmentedMessage)
+                opcode = WebsocketOpcode::Binary;
+
+            if (opcode == WebsocketOpcode::Binary)
+                websocketFragmentedMessage = !(byte1 & 0b10000000);
+
             incompleteWebsocketRead.frame_bytes_left = realPayloadLength;
             incompleteWebsocketRead.opcode = opcode;
         }
diff --git a/iowrapper.h b/iowrapper.h
index d5e8d48..65bd067 100644
--- a/iowrapper.h
+++ b/iowrapper.h
@@ -120,6 +120,7 @@ class IoWrapper
     size_t websocketAnswerBytesLeft = 0;
     CirBuf websocketPendingBytes;
     IncompleteWebsocketRead incompleteWebsocketRead;
+    bool websocketFragmentedMessage = false;
     CirBuf websocketWriteRemainder;
 
     uint16_t mHaProxyAdditionalBytesLeft = 0;
-- 
2.43.0


From 9c865db95fef7f0e269bf8d083a3c6940db678a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 23/65] fix: make room in the read buffer also when a websocket
 read just filled it

---
 client.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index b6d4498..0d918c4 100644
--- a/client.cpp
+++ b/client.cpp
@@ -334,7 +334,7 @@ DisconnectStage Client::readFdIntoBuffer()
 
         if (error == IoWrapResult::Interrupted)
             continue;
-        if (error == IoWrapResult::Wouldblock || error == IoWrapResult::Disconnected)
+        if (error == IoWrapResult::Disconnected)
             break;
 
         // Make sure we either always have enough space for a next call of this method, or stop reading the fd.
@@ -357,6 +357,10 @@ DisconnectStage Client::readFdIntoBuffer()
                 break;
             }
         }
+
+        // Not before making sure there is space, because reading websockets can do this on the read that fills the buffer.
+        if (error == IoWrapResult::Wouldblock)
+            break;
     }
 
     if (error == IoWrapResult::Disconnected)
-- 
2.43.0


From b2e5f7bc119a29919b6f59d8a471a2ebed015c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:34 +0000
Subject: [PATCH 24/65] fix: count delivering a deferred retained message as
 progress

---
 subscriptionstore.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index a11f246..528187f 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -857,6 +857,7 @@ void SubscriptionStore::giveClientRetainedMessagesInitiateDeferred(const std::we
     const std::chrono::time_point<std::chrono::steady_clock> new_limit = std::chrono::steady_clock::now() + std::chrono::milliseconds(10);
     int drop_count = 0;
     int processed_nodes = 0;
+    bool progress = false;
 
     for (; !deferred->empty(); deferred->pop_front())
     {
@@ -876,11 +877,15 @@ void SubscriptionStore::giveClientRetainedMessagesInitiateDeferred(const std::we
         RWLockGuard locker(&retainedMessagesRwlock);
         locker.rdlock();
         giveClientRetainedMessagesRecursively(d.cur, d.end, node, d.poundMode, session, max_qos, subscription_identifier, new_limit, *deferred, drop_count, processed_nodes);
+
+        // Deferred nodes without children don't count as processed nodes, but are progress nevertheless.
+        if (drop_count == 0)
+            progress = true;
     }
 
     total_node_count += processed_nodes;
 
-    if (processed_nodes > 0)
+    if (processed_nodes > 0 || progress)
     {
         requeue_count = 0;
     }
-- 
2.43.0


From 784fb73b2e9c003ab11a3dbdcfd466d5215cbd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:26 +0000
Subject: [PATCH 25/65] fix: keep the subscription identifier of queued
 messages over a restart

Loading a saved session with a queued message that was for a subscription with an identifier failed, because the parser
refuses identifiers in incoming publishes. The server then didn't start.
---
 mqttpacket.cpp                 | 15 ++++++++++++++-
 mqttpacket.h                   |  2 +-
 sessionsandsubscriptionsdb.cpp |  2 +-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 0a49395..24f53dd 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2028,7 +2028,10 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
     sender->writeMqttPacket(response);
 }
 
-void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
+/**
+ * @param loadedFromStorage should be true when this is one of our own outgoing packets, that we saved to disk.
+ */
+void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, const bool loadedFromStorage)
 {
     assert(externallyReceived);
 
@@ -2154,6 +2157,16 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
 
                 dontReuseBites = true;
 
+                // A queued message for a subscription with an identifier; the subscriber still has to get it.
+                if (loadedFromStorage)
+                {
+                    publishData.subscriptionIdentifier = decodeVariableByteIntAtPos();
+#ifdef TESTING
+                    publishData.subscriptionIdentifierTesting = publishData.subscriptionIdentifier;
+#endif
+                    break;
+                }
+
 #ifndef TESTING
                 if (sender->getClientType() != ClientType::LocalBridge)
                     throw ProtocolError("Subscription identifiers cannot be sent to servers.", ReasonCodes::ProtocolError);
diff --git a/mqttpacket.h b/mqttpacket.h
index 3dda32d..7dff644 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -151,7 +151,7 @@ public:
     void handleSubAck(std::shared_ptr<Client> &sender);
     void handleUnsubscribe(std::shared_ptr<Client> &sender);
     void handlePing(std::shared_ptr<Client> &sender);
-    void parsePublishData(std::shared_ptr<Client> &sender);
+    void parsePublishData(std::shared_ptr<Client> &sender, const bool loadedFromStorage=false);
     void handlePublish(std::shared_ptr<Client> &sender);
     void parsePubAckData();
     void handlePubAck(std::shared_ptr<Client> &sender);
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 563991f..e4c1991 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -182,7 +182,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     cirbuf.advanceHead(packlen);
                     MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
 
-                    pack.parsePublishData(dummyClient);
+                    pack.parsePublishData(dummyClient, true);
                     Publish pub(pack.getPublishData());
 
                     pub.client_id = sender_clientid;
-- 
2.43.0


From f525f7a180c08996fcb9733898577f2725176e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:26 +0000
Subject: [PATCH 26/65] fix: don't reuse packet identifiers of messages loaded
 from disk

The identifiers of queued messages and of QoS 2 handshakes in progress weren't registered as being in use when loading
sessions, so when the identifiers wrapped around, new messages replaced them.
---
 session.cpp                    | 8 ++++++++
 session.h                      | 1 +
 sessionsandsubscriptionsdb.cpp | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/session.cpp b/session.cpp
index 9903fb2..0c1fd92 100644
--- a/session.cpp
+++ b/session.cpp
@@ -91,6 +91,14 @@ void Session::QoSData::loadNextPacketId(const uint16_t id)
     this->nextPacketId = id;
 }
 
+/**
+ * @brief Session::QoSData::loadUsedPacketId claims the ID of a message of which the handshake was still ongoing when it was saved.
+ */
+void Session::QoSData::loadUsedPacketId(const uint16_t id)
+{
+    this->usedIds.insert(id);
+}
+
 void Session::QoSData::clearExpiredMessagesFromQueue()
 {
     const auto now = std::chrono::steady_clock::now();
diff --git a/session.h b/session.h
index ec118c3..6b57dd1 100644
--- a/session.h
+++ b/session.h
@@ -72,6 +72,7 @@ class Session
         void markQoSLogPrinted();
         bool currentPackedIdLogPrinted() const;
         void loadNextPacketId(const uint16_t id);
+        void loadUsedPacketId(const uint16_t id);
         void clearExpiredMessagesFromQueue();
         void decreaseFlowControlQuotaAgain(const uint16_t packet_id);
         void increaseFlowControlQuota(const uint16_t packet_id);
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index e4c1991..8e6a522 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -194,6 +194,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
                     qos_locked->queuePublish(std::move(pub), id, topic_override);
+                    qos_locked->loadUsedPacketId(id);
                 }
 
                 const uint32_t nrOfIncomingPacketIds = readUint32(eofFound);
@@ -214,6 +215,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded outgoing QoS2 message id %d.", id);
                     qos_locked->outgoingQoS2MessageIds.insert(id);
+                    qos_locked->loadUsedPacketId(id);
                 }
 
                 const uint16_t nextPacketId = readUint16(eofFound);
-- 
2.43.0


From d3abf77cb66daadeb17fff9bde2a4b3527e2d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 27/65] fix: save subscriptions to topics that start with a $

They are kept in a separate tree, which wasn't included when saving the subscriptions, so persistent sessions lost their
subscriptions to $SYS topics at a restart.
---
 subscriptionstore.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 528187f..03ee4c5 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1597,9 +1597,8 @@ std::unordered_map<std::string, std::list<SubscriptionForSerializing>> Subscript
     std::deque<DeferredGetSubscription> deferred;
     std::unordered_map<std::string, std::list<SubscriptionForSerializing>> subscriptionCopies;
 
-    DeferredGetSubscription start(root, "", true);
-
-    deferred.push_front(std::move(start));
+    deferred.emplace_back(root, "", true);
+    deferred.emplace_back(rootDollar, "", true);
 
     for (; !deferred.empty(); deferred.pop_front())
     {
-- 
2.43.0


From 6fd67d7a90e2d46ec11259c3491be4da761a401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:35 +0000
Subject: [PATCH 28/65] fix: keep the saved state when writing its replacement
 fails

A failed write, seek, flush or sync still had the incomplete temp file renamed
over the last good one, and an error when saving retained messages made a
destructor throw, which terminated the server.
---
 persistencefile.cpp    | 58 ++++++++++++++++++++++++++++++++++--------
 persistencefile.h      |  1 +
 retainedmessagesdb.cpp | 11 ++++++--
 3 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 8cd3494..2c826c0 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -66,10 +66,24 @@ void PersistenceFile::writeCheck(const void *ptr, size_t size, size_t n, FILE *s
 {
     if (fwrite(ptr, size, n, s) != n)
     {
+        // Make sure closing doesn't replace the existing file with an incomplete one.
+        this->discard = true;
         throw std::runtime_error(formatString("Error writing: %s", strerror(errno)));
     }
 }
 
+/**
+ * @brief Seeking flushes what was written before, so it can fail like writing can.
+ */
+void PersistenceFile::seekCheck(long offset, int whence)
+{
+    if (fseek(f, offset, whence) != 0)
+    {
+        this->discard = true;
+        throw std::runtime_error(formatString("Error seeking in '%s': %s", filePath.c_str(), strerror(errno)));
+    }
+}
+
 ssize_t PersistenceFile::readCheck(void *ptr, size_t size, size_t n, FILE *stream)
 {
     size_t nread = fread(ptr, size, n, stream);
@@ -89,7 +103,7 @@ void PersistenceFile::hashFile()
 {
     logger->logf(LOG_DEBUG, "Calculating and saving hash of '%s'.", filePath.c_str());
 
-    fseek(f, TOTAL_HEADER_SIZE, SEEK_SET);
+    seekCheck(TOTAL_HEADER_SIZE, SEEK_SET);
 
     unsigned int output_len = 0;
     unsigned char md_value[EVP_MAX_MD_SIZE];
@@ -101,6 +115,8 @@ void PersistenceFile::hashFile()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading '%s' for hashing: %s", filePath.c_str(), strerror(errno)));
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -109,7 +125,7 @@ void PersistenceFile::hashFile()
     if (output_len != HASH_SIZE)
         throw std::runtime_error("Impossible: calculated hash size wrong length");
 
-    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);
+    seekCheck(MAGIC_STRING_LENGH, SEEK_SET);
 
     writeCheck(md_value, output_len, 1, f);
 }
@@ -138,6 +154,8 @@ void PersistenceFile::verifyHash()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading '%s' for hashing: %s", filePath.c_str(), strerror(errno)));
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -341,9 +359,9 @@ void PersistenceFile::openWrite(const std::string &versionString)
     openMode = FileMode::write;
 
     writeCheck(buf.data(), 1, MAGIC_STRING_LENGH, f);
-    rewind(f);
+    seekCheck(0, SEEK_SET);
     writeCheck(versionString.c_str(), 1, versionString.length(), f);
-    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);
+    seekCheck(MAGIC_STRING_LENGH, SEEK_SET);
     writeCheck(buf.data(), 1, HASH_SIZE, f);
 }
 
@@ -421,18 +439,33 @@ void PersistenceFile::closeFile()
     if (!f)
         return;
 
-    if (openMode == FileMode::write)
+    std::string error;
+
+    if (openMode == FileMode::write && !discard)
     {
-        if (!discard)
+        // As long as we don't know for sure that everything is on disk, the temp file must not replace the existing file.
+        discard = true;
+
+        try
+        {
+            // Errors of earlier flushes. The data concerned is not in the file.
+            if (ferror(f))
+                throw std::runtime_error(formatString("Writing '%s' failed.", this->filePathTemp.c_str()));
+
             hashFile();
 
-        if (fflush(f) != 0)
+            if (fflush(f) != 0 || ferror(f))
+                throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), strerror(errno)));
+
+            if (fsync(f->_fileno) != 0)
+                throw std::runtime_error(formatString("Sync of '%s' failed: %s.", this->filePathTemp.c_str(), strerror(errno)));
+
+            discard = false;
+        }
+        catch (std::exception &ex)
         {
-            std::string msg(strerror(errno));
-            throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+            error = ex.what();
         }
-
-        fsync(f->_fileno);
     }
 
     if (f != nullptr)
@@ -452,6 +485,9 @@ void PersistenceFile::closeFile()
         if (discard)
         {
             unlink(filePathTemp.c_str());
+
+            if (!error.empty())
+                throw std::runtime_error(error);
         }
         else
         {
diff --git a/persistencefile.h b/persistencefile.h
index d297a71..48b6cda 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -68,6 +68,7 @@ protected:
     void makeSureBufSize(size_t n);
 
     void writeCheck(const void *__restrict __ptr, size_t __size, size_t __n, FILE *__restrict __s);
+    void seekCheck(long offset, int whence);
     ssize_t readCheck(void *__restrict ptr, size_t size, size_t n, FILE *__restrict stream);
 
     void writeInt64(const int64_t val);
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 4863ebc..c1a21a1 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -32,7 +32,14 @@ RetainedMessagesDB::RetainedMessagesDB(const std::string &filePath) : Persistenc
 
 RetainedMessagesDB::~RetainedMessagesDB()
 {
-    closeFile();
+    try
+    {
+        closeFile();
+    }
+    catch (std::exception &ex)
+    {
+        logger->logf(LOG_WARNING, "%s", ex.what());
+    }
 }
 
 void RetainedMessagesDB::openWrite()
@@ -97,7 +104,7 @@ void RetainedMessagesDB::closeFile()
 
     if (openMode == FileMode::write && length_pos > 0 && written_count > 0)
     {
-        fseek(f, length_pos, SEEK_SET);
+        seekCheck(length_pos, SEEK_SET);
         writeUint32(written_count);
     }
 
-- 
2.43.0


From a7f5545f000e4fcda4bf19567b66c4d6ec66dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:50 +0000
Subject: [PATCH 29/65] fix: notice a password or ACL file that changes twice
 within a second

---
 plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin.cpp b/plugin.cpp
index cc678da..8dbb37d 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -711,7 +711,7 @@ void Authentication::loadMosquittoPasswordFile()
     check<std::runtime_error>(stat(mosquittoPasswordFile.c_str(), &statbuf));
     struct timespec ctime = statbuf.st_ctim;
 
-    if (ctime.tv_sec == this->mosquittoPasswordFileLastLoad.tv_sec)
+    if (ctime.tv_sec == this->mosquittoPasswordFileLastLoad.tv_sec && ctime.tv_nsec == this->mosquittoPasswordFileLastLoad.tv_nsec)
         return;
 
     logger->logf(LOG_NOTICE, "Change detected in '%s'. Reloading.", this->mosquittoPasswordFile.c_str());
@@ -812,7 +812,7 @@ void Authentication::loadMosquittoAclFile()
     check<std::runtime_error>(stat(mosquittoAclFile.c_str(), &statbuf));
     struct timespec ctime = statbuf.st_ctim;
 
-    if (ctime.tv_sec == this->mosquittoAclFileLastChange.tv_sec)
+    if (ctime.tv_sec == this->mosquittoAclFileLastChange.tv_sec && ctime.tv_nsec == this->mosquittoAclFileLastChange.tv_nsec)
         return;
 
     logger->logf(LOG_NOTICE, "Change detected in '%s'. Reloading.", this->mosquittoAclFile.c_str());
-- 
2.43.0


From 131b67e6f4ea228750077df0bf8e427774aae07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:04 +0000
Subject: [PATCH 30/65] fix: don't match %u and %c of ACL patterns literally,
 or with an empty name

---
 acltree.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/acltree.cpp b/acltree.cpp
index d0952b9..22ba5fb 100644
--- a/acltree.cpp
+++ b/acltree.cpp
@@ -195,19 +195,22 @@ void AclTree::findPermissionRecursive(std::vector<std::string>::const_iterator c
 
     const auto next_subtopic_it = ++cur_published_subtopic_it;
 
-    if (this_node->hasChild(cur_published_subtop))
+    // The place holders in patterns are not subtopics themselves.
+    const bool isPlaceHolder = (this_node->hasUserWildcard() && cur_published_subtop == "%u") || (this_node->hasClientidWildcard() && cur_published_subtop == "%c");
+
+    if (!isPlaceHolder && this_node->hasChild(cur_published_subtop))
     {
         const AclNode *sub_node = this_node->getChildren(cur_published_subtop);
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
     }
 
-    if (this_node->hasUserWildcard() && cur_published_subtop == username)
+    if (this_node->hasUserWildcard() && !username.empty() && cur_published_subtop == username)
     {
         const AclNode *sub_node = this_node->getChildren("%u");
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
     }
 
-    if (this_node->hasClientidWildcard() && cur_published_subtop == clientid)
+    if (this_node->hasClientidWildcard() && !clientid.empty() && cur_published_subtop == clientid)
     {
         const AclNode *sub_node = this_node->getChildren("%c");
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
-- 
2.43.0


From d55624ab6958a2549d81569fe85d80ab95a02747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:13 +0000
Subject: [PATCH 31/65] fix: check the write permission for registering a will
 with an ACL file

---
 plugin.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin.cpp b/plugin.cpp
index 8dbb37d..49d304f 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -894,7 +894,9 @@ AuthResult Authentication::aclCheckFromMosquittoAclFile(const std::string &clien
     if (access == AclAccess::subscribe)
         return AuthResult::success;
 
-    AclGrant ag = access == AclAccess::write ? AclGrant::Write : AclGrant::Read;
+    // Wills are publishes.
+    const bool writing = access == AclAccess::write || access == AclAccess::register_will;
+    AclGrant ag = writing ? AclGrant::Write : AclGrant::Read;
     AuthResult result = aclTree.findPermission(subtopics, ag, username, clientid);
     return result;
 }
-- 
2.43.0


From 509110d72235cfdd3e0d1978d71151f73a24fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 32/65] fix: send the CONNACK before the session can send, with
 its actual session present flag

---
 client.cpp            | 12 ++++++++----
 client.h              |  2 +-
 mqttpacket.cpp        | 14 +-------------
 subscriptionstore.cpp |  9 +++++++++
 threaddata.cpp        |  1 -
 5 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/client.cpp b/client.cpp
index 0d918c4..786f364 100644
--- a/client.cpp
+++ b/client.cpp
@@ -784,14 +784,18 @@ void Client::stageConnack(std::unique_ptr<ConnAck> &&c)
     this->stagedConnack = std::move(c);
 }
 
-void Client::sendConnackSuccess()
+/**
+ * @brief Client::sendConnackSuccess sends the prepared CONNACK.
+ * @param sessionPresent is only known once the session is assigned; it can change during (asynchronous) authentication.
+ */
+void Client::sendConnackSuccess(bool sessionPresent)
 {
+    // Only clients that sent a CONNECT have one.
     if (!stagedConnack)
-    {
-        throw ProtocolError("Programming bug: trying to send a prepared connack when there is none.", ReasonCodes::ProtocolError);
-    }
+        return;
 
     ConnAck &connAck = *this->stagedConnack.get();
+    connAck.session_present = sessionPresent && protocolVersion >= ProtocolVersion::Mqtt311;
     MqttPacket response(connAck);
     writeMqttPacket(response);
     logger->logf(LOG_NOTICE, "Client '%s' logged in successfully", repr().c_str());
diff --git a/client.h b/client.h
index e55c683..96caa69 100644
--- a/client.h
+++ b/client.h
@@ -268,7 +268,7 @@ public:
     void clearRegistrationData();
 
     void stageConnack(std::unique_ptr<ConnAck> &&c);
-    void sendConnackSuccess();
+    void sendConnackSuccess(bool sessionPresent);
     void sendConnackDeny(ReasonCodes reason);
     void addAuthReturnDataToStagedConnAck(const std::string &authData);
 
diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 24f53dd..f94a357 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1181,8 +1181,6 @@ void MqttPacket::handleConnect(std::shared_ptr<Client> &sender)
     if (sender->hasConnectPacketSeen())
         throw ProtocolError("Client already sent a CONNECT.", ReasonCodes::ProtocolError);
 
-    std::shared_ptr<SubscriptionStore> subscriptionStore = globals->subscriptionStore;
-
     auto &threadData = ThreadGlobals::getThreadData();
     Authentication &authentication = threadData->authentication;
 
@@ -1298,17 +1296,7 @@ void MqttPacket::handleConnect(std::shared_ptr<Client> &sender)
 
     // Stage connack, for immediate or delayed use when auth succeeds.
     {
-        bool sessionPresent = false;
-        std::shared_ptr<Session> existingSession;
-
-        if (protocolVersion >= ProtocolVersion::Mqtt311 && !connectData.clean_start)
-        {
-            existingSession = subscriptionStore->lockSession(connectData.client_id);
-            if (existingSession && !existingSession->getDestroyOnDisconnect())
-                sessionPresent = true;
-        }
-
-        std::unique_ptr<ConnAck> connAck = std::make_unique<ConnAck>(protocolVersion, ReasonCodes::Success, sessionPresent);
+        std::unique_ptr<ConnAck> connAck = std::make_unique<ConnAck>(protocolVersion, ReasonCodes::Success);
 
         if (protocolVersion >= ProtocolVersion::Mqtt5)
         {
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 03ee4c5..5771eb7 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -329,6 +329,8 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
     std::shared_ptr<Session> session;
     std::shared_ptr<Session> endedSession;
 
+    bool sessionPresent = false;
+
     if (client->getClientId().empty())
         throw ProtocolError("Trying to store client without an ID.", ReasonCodes::ProtocolError);
 
@@ -369,6 +371,13 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
             sessionsById[client->getClientId()] = session;
         }
+        else
+        {
+            sessionPresent = true;
+        }
+
+        // Before others can find the client and send to it, because the CONNACK has to be the first packet.
+        client->sendConnackSuccess(sessionPresent);
 
         // Do this while still holding the lock, so that the session can't be removed for not having a client.
         session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
diff --git a/threaddata.cpp b/threaddata.cpp
index 2e6504d..d35e575 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -220,7 +220,6 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
             }
 
             subscriptionStore->registerClientAndKickExistingOne(client);
-            client->sendConnackSuccess();
             client->setAuthenticated(true);
             client->getSession()->sendAllPendingQosData();
             client->handleAfterAsyncQueue(client);
-- 
2.43.0


From c503c28e7f15b7ab139c0005a1b22dc5ac9824b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:25 +0000
Subject: [PATCH 33/65] fix: don't run a delayed task that another task removed

---
 queuedtasks.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/queuedtasks.cpp b/queuedtasks.cpp
index 35bdf2c..2f4a3fa 100644
--- a/queuedtasks.cpp
+++ b/queuedtasks.cpp
@@ -66,7 +66,14 @@ void QueuedTasks::performAll()
 {
     const auto now = std::chrono::steady_clock::now();
 
-    std::vector<std::shared_ptr<std::function<void()>>> functions;
+    struct DueTask
+    {
+        uint32_t id = 0;
+        bool repeat = false;
+        std::shared_ptr<std::function<void()>> f;
+    };
+
+    std::vector<DueTask> functions;
 
     for (auto pos = queuedTasks.begin(); pos != queuedTasks.end(); )
     {
@@ -80,7 +87,7 @@ void QueuedTasks::performAll()
         const auto tpos = tasks.find(cur->id);
         if (tpos != tasks.end() && cur->f.lock() == tpos->second)
         {
-            functions.push_back(tpos->second);
+            functions.push_back(DueTask{cur->id, cur->repeat, tpos->second});
 
             if (cur->repeat)
             {
@@ -88,23 +95,27 @@ void QueuedTasks::performAll()
                 requeue.when = std::chrono::steady_clock::now() + requeue.interval;
                 queuedTasks.insert(requeue);
             }
-            else
-            {
-                tasks.erase(tpos);
-            }
         }
 
         queuedTasks.erase(cur);
     }
 
-    for(const std::shared_ptr<std::function<void()>> &f : functions)
+    for(const DueTask &t : functions)
     {
+        // It may have been erased by a task that ran just before it.
+        const auto tpos = tasks.find(t.id);
+        if (tpos == tasks.end() || tpos->second != t.f)
+            continue;
+
+        if (!t.repeat)
+            tasks.erase(tpos);
+
         try
         {
-            if (!f || !*f)
+            if (!t.f || !*t.f)
                 continue;
 
-            f->operator()();
+            t.f->operator()();
         }
         catch (std::exception &ex)
         {
-- 
2.43.0


From 6d56911bf9b54d46bec76a6adbe470cc17d0477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:35 +0000
Subject: [PATCH 34/65] fix: keep the leading slash of the topic filter of a
 shared subscription

---
 utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 3b1c55c..6e788b3 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -666,11 +666,12 @@ void parseSubscriptionShare(std::vector<std::string> &subtopics, std::string &sh
 
     topic.clear();
 
-    for(const std::string &s : subtopics)
+    for(size_t i = 0; i < subtopics.size(); i++)
     {
-        if (!topic.empty())
+        // Don't base this on 'topic' being empty, because the first level can be empty.
+        if (i > 0)
             topic.append("/");
-        topic.append(s);
+        topic.append(subtopics[i]);
     }
 
     shareName = _shareName;
-- 
2.43.0


From 11e5d8557ac2522925ec34cc3bbc0d98bde7b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:35 +0000
Subject: [PATCH 35/65] fix: keep queued messages when a plugin allows them
 without setting them as retained

---
 session.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/session.cpp b/session.cpp
index 0c1fd92..dd2723e 100644
--- a/session.cpp
+++ b/session.cpp
@@ -402,7 +402,10 @@ void Session::sendAllPendingQosData()
 
                 Publish &pub = qp->getPublish();
 
-                if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
+                const AuthResult aclResult = authentication.aclCheck(pub, pub.payload);
+                const bool allowed = aclResult == AuthResult::success || aclResult == AuthResult::success_without_setting_retained;
+
+                if (pub.hasExpired() || !allowed)
                 {
                     qos_locked->eraseQueuedPublish(qp->getPacketId());
                     qos_locked->releasePacketId(qp->getPacketId());
-- 
2.43.0


From edb197d0f5af5f020eaea80d1c23f0cb3e2f9511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:08 +0000
Subject: [PATCH 36/65] fix: don't lose a subscription that's made while the
 subscription tree is purged

---
 subscriptionstore.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 5771eb7..09c3f4e 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1180,7 +1180,11 @@ int SubscriptionNode::cleanSubscriptions(std::deque<std::weak_ptr<SubscriptionNo
             continue;
         }
 
-        int n = node->cleanSubscriptions(defferedLeafs, real_subscriber_count);
+        // Someone (about to make a subscription) got the node before we locked the tree, and a node
+        // that's not in the tree anymore never gets messages. Needs to be seen before looking for subscribers.
+        const bool in_use = node.use_count() > 1;
+
+        int n = node->cleanSubscriptions(defferedLeafs, real_subscriber_count) + static_cast<int>(in_use);
         subscribersLeftInChildren += n;
 
         if (n > 0)
@@ -1199,7 +1203,10 @@ int SubscriptionNode::cleanSubscriptions(std::deque<std::weak_ptr<SubscriptionNo
 
         if (!node_)
             continue;
-        int n = node_->cleanSubscriptions(defferedLeafs, real_subscriber_count);
+
+        const bool in_use = node_.use_count() > 1; // See above.
+
+        int n = node_->cleanSubscriptions(defferedLeafs, real_subscriber_count) + static_cast<int>(in_use);
         subscribersLeftInChildren += n;
 
         if (n == 0)
-- 
2.43.0


From feaf6795ef56a750bb8c96de60b7007959137ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:20 +0000
Subject: [PATCH 37/65] fix: lock the subscription nodes when purging and
 saving

---
 subscriptionstore.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 09c3f4e..322c970 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1217,6 +1217,8 @@ int SubscriptionNode::cleanSubscriptions(std::deque<std::weak_ptr<SubscriptionNo
         }
     }
 
+    std::unique_lock locker(lock);
+
     {
         // This is not particularlly fast when it's many items. But we don't do it often, so is probably okay.
         auto it = subscribers.begin();
@@ -1562,21 +1564,25 @@ void SubscriptionStore::getSubscriptions(SubscriptionNode *this_node, const std:
     if (!this_node)
         return;
 
-    for (auto &pair : this_node->getSubscribers())
     {
-        const Subscription &node = pair.second;
-        std::shared_ptr<Session> ses = node.session.lock();
-        if (ses)
+        std::shared_lock node_locker(this_node->lock);
+
+        for (auto &pair : this_node->getSubscribers())
         {
-            SubscriptionForSerializing sub(ses->getClientId(), node.qos, node.noLocal, node.retainAsPublished, node.subscriptionIdentifier);
-            outputList[composedTopic].push_back(sub);
+            const Subscription &node = pair.second;
+            std::shared_ptr<Session> ses = node.session.lock();
+            if (ses)
+            {
+                SubscriptionForSerializing sub(ses->getClientId(), node.qos, node.noLocal, node.retainAsPublished, node.subscriptionIdentifier);
+                outputList[composedTopic].push_back(sub);
+            }
         }
-    }
 
-    for (auto &pair : this_node->getSharedSubscribers())
-    {
-        const SharedSubscribers &node = pair.second;
-        node.getForSerializing(composedTopic, outputList);
+        for (auto &pair : this_node->getSharedSubscribers())
+        {
+            const SharedSubscribers &node = pair.second;
+            node.getForSerializing(composedTopic, outputList);
+        }
     }
 
     for (auto &pair : this_node->children)
-- 
2.43.0


From 3dd70624bb7be1d62d5daf2d4e8ba2fb9de18639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:07 +0000
Subject: [PATCH 38/65] fix: lock retained messages when looking whether they
 expired

---
 subscriptionstore.cpp | 18 ++++++++++++------
 subscriptionstore.h   |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 322c970..b29cb1d 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1664,13 +1664,18 @@ void SubscriptionStore::expireRetainedMessages(
     RetainedMessageNode *this_node, const std::chrono::time_point<std::chrono::steady_clock> &limit,
     std::deque<std::weak_ptr<RetainedMessageNode>> &deferred, size_t &real_message_counter)
 {
-    if (this_node->message && this_node->message->hasExpired())
     {
-        this_node->message.reset();
-    }
+        // Messages are set without having the lock on the tree.
+        std::lock_guard<std::mutex> locker(this_node->messageSetMutex);
+
+        if (this_node->message && this_node->message->hasExpired())
+        {
+            this_node->message.reset();
+        }
 
-    if (this_node->message)
-        real_message_counter++;
+        if (this_node->message)
+            real_message_counter++;
+    }
 
     for (auto _ = this_node->children.begin(); _ != this_node->children.end(); )
     {
@@ -1903,8 +1908,9 @@ std::shared_ptr<RetainedMessageNode> RetainedMessageNode::getChildren(const std:
     return std::shared_ptr<RetainedMessageNode>();
 }
 
-bool RetainedMessageNode::isOrphaned() const
+bool RetainedMessageNode::isOrphaned()
 {
+    std::lock_guard<std::mutex> locker(this->messageSetMutex);
     return children.empty() && !message;
 }
 
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 6d5eff7..737c9de 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -88,7 +88,7 @@ class RetainedMessageNode
 
     ssize_t addPayload(const Publish &publish);
     std::shared_ptr<RetainedMessageNode> getChildren(const std::string &subtopic) const;
-    bool isOrphaned() const;
+    bool isOrphaned();
     const std::chrono::time_point<std::chrono::steady_clock> getMessageSetAt() const;
     void propagateChildCountIncrement();
 
-- 
2.43.0


From eb0b82dcb36e661265c4d808e5bdbf79d64fde24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:24 +0000
Subject: [PATCH 39/65] fix: lock the set of retained message limits that were
 logged

---
 subscriptionstore.cpp | 6 +++---
 subscriptionstore.h   | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index b29cb1d..930987d 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1002,7 +1002,7 @@ bool SubscriptionStore::setRetainedLimitReached(const Settings *settings, const
     if (node->recursiveChildCount < settings->retainedMessagesNodeCreationLimit)
         return false;
 
-    const bool do_log = std::get<bool>(retainedMessagesNodesLimitsLogged.insert(node));
+    const bool do_log = std::get<bool>(retainedMessagesNodesLimitsLogged.lock()->insert(node));
     const bool result = settings->retainedMessagesNodeCreationLimitEnforcementMode == RetainedMessagesNodeCreationLimitEnforcementMode::Reject;
 
     if (!do_log)
@@ -1150,7 +1150,7 @@ bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::ve
     }
     else
     {
-        if (std::get<bool>(retainedMessagesNodesLimitsLogged.insert(selected_node.get())))
+        if (std::get<bool>(retainedMessagesNodesLimitsLogged.lock()->insert(selected_node.get())))
             Logger::getInstance()->log(LOG_WARNING) << "Payload size exceeded max for " << recompose_topic(subtopics);
     }
 
@@ -1465,7 +1465,7 @@ bool SubscriptionStore::expireRetainedMessages()
         RWLockGuard lock_guard(&retainedMessagesRwlock);
         lock_guard.wrlock();
         retainedMessageDeferredCounter = 0;
-        retainedMessagesNodesLimitsLogged.clear();
+        retainedMessagesNodesLimitsLogged.lock()->clear();
         this->expireRetainedMessages(retainedMessagesRoot.get(), limit, deferredRetainedMessageNodeToPurge, retainedMessageDeferredCounter);
 
         logger->log(LOG_INFO) << "Expiring retained messages done, with " << deferredRetainedMessageNodeToPurge.size() << " deferred nodes to check.";
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 737c9de..d0e2fba 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -27,6 +27,7 @@ See LICENSE for license details.
 #include "logger.h"
 #include "subscription.h"
 #include "sharedsubscribers.h"
+#include "mutexowned.h"
 
 
 struct ReceivingSubscriber
@@ -147,7 +148,7 @@ class SubscriptionStore
     std::deque<std::weak_ptr<RetainedMessageNode>> deferredRetainedMessageNodeToPurge;
     size_t retainedMessageDeferredCounter = 0;
 
-    std::unordered_set<const RetainedMessageNode*> retainedMessagesNodesLimitsLogged;
+    MutexOwned<std::unordered_set<const RetainedMessageNode*>> retainedMessagesNodesLimitsLogged;
     const std::shared_ptr<RetainedMessageNode> retainedMessagesRoot = std::make_shared<RetainedMessageNode>(nullptr);
     const std::shared_ptr<RetainedMessageNode> retainedMessagesRootDollar = std::make_shared<RetainedMessageNode>(nullptr);
 
-- 
2.43.0


From ad8e38bdaeb86b9a9ebe87d8293c0c2543931a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 40/65] fix: send messages for a client that is connecting in
 order, once, and also when queued at that moment

---
 mqttpacket.cpp |   4 +-
 session.cpp    | 160 ++++++++++++++++++++++++++++++++++---------------
 session.h      |  10 +++-
 threaddata.cpp |   2 +-
 4 files changed, 123 insertions(+), 53 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index f94a357..7ebab79 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1459,6 +1459,8 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
         }
     }
 
+    session->sendAllPendingQosData(sender);
+
     // It doesn't matter if we do this every time on connack; a client can only be subscribed once per pattern.
     // Note that this will also send all locally retained messages. I think that's the best approach: the state of retained
     // messages need to be synced; they may have been removed remotely while disconnected, for instance.
@@ -1476,8 +1478,6 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
     }
 
     ThreadGlobals::getThreadData()->publishBridgeState(bridgeState, true, {});
-
-    session->sendAllPendingQosData();
 }
 
 AuthPacketData MqttPacket::parseAuthData()
diff --git a/session.cpp b/session.cpp
index dd2723e..274e2d6 100644
--- a/session.cpp
+++ b/session.cpp
@@ -122,6 +122,25 @@ void Session::QoSData::decreaseFlowControlQuotaAgain(const uint16_t packet_id)
     this->flowControlQuota--;
 }
 
+/**
+ * @brief Session::QoSData::undoDecreaseFlowControlQuota is for when a packet ID was claimed, but the message is still to be sent, with
+ * decreaseFlowControlQuotaAgain().
+ */
+void Session::QoSData::undoDecreaseFlowControlQuota()
+{
+    this->flowControlQuota++;
+}
+
+void Session::QoSData::setUpToDateClient(const Client *client)
+{
+    this->upToDateClient = client;
+}
+
+bool Session::QoSData::isUpToDateClient(const std::shared_ptr<Client> &client) const
+{
+    return client && this->upToDateClient == client.get();
+}
+
 /**
  * @brief Claim next unused packet ID.
  *
@@ -191,6 +210,9 @@ std::shared_ptr<Client> Session::makeSharedClient()
 
 void Session::assignActiveConnection(const std::shared_ptr<Client> &client)
 {
+    // From here on, messages are queued until sendAllPendingQosData() is done, so that they don't overtake the pending ones.
+    qos.lock()->setUpToDateClient(nullptr);
+
     this->client = client;
     this->willPublish = client->getWill();
     this->removalQueued = false;
@@ -242,7 +264,8 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         return PacketDropReason::AuthDenied;
     }
 
-    const std::shared_ptr<Client> c = makeSharedClient();
+    std::shared_ptr<Client> c;
+    bool sendNow = true;
 
     std::optional<std::string> topic_override;
 
@@ -268,6 +291,10 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         const Settings *settings = ThreadGlobals::getSettings();
         MutexLocked<QoSData> qos_locked = qos.lock();
 
+        // Having the lock when getting the client, because otherwise sendAllPendingQosData() may be done when we queue it for an off-line client.
+        c = makeSharedClient();
+        sendNow = qos_locked->isUpToDateClient(c);
+
         // We don't clear expired messages for online clients. It would slow down the 'happy flow' and those packets are already in the output
         // buffer, so we can't clear them anyway.
         if (!c)
@@ -304,11 +331,18 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
             return PacketDropReason::QoSTODOSomethingSomething;
         }
 
-        if (!destroyOnDisconnect)
-            qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override, static_cast<bool>(c));
+        if (!destroyOnDisconnect || (c && !sendNow))
+            qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override, sendNow);
+
+        if (c && !sendNow)
+            qos_locked->undoDecreaseFlowControlQuota();
+    }
+    else
+    {
+        c = makeSharedClient();
     }
 
-    if (!c)
+    if (!c || !sendNow)
         return PacketDropReason::ClientOffline;
 
     if (!c->isRetainedAvailable())
@@ -380,76 +414,104 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
  * can still decide to drop packets, like when their buffers are full. The clients from where the packet originates will
  * never know that, because IT will have received the PUBACK from FlashMQ. The QoS system is not between publisher
  * and subscriber. Users are required to implement something themselves.
+ *
+ * @param c the client that got the session. By now, another one may have taken it over.
  */
-void Session::sendAllPendingQosData()
+void Session::sendAllPendingQosData(const std::shared_ptr<Client> &c)
 {
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::shared_ptr<Client> c = makeSharedClient();
     if (c)
     {
-        std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t, bool>> copiedPublishes;
-        std::vector<uint16_t> copiedQoS2Ids;
+        bool firstRound = true;
+        bool done = false;
 
+        // Messages can be queued while we're sending, so going on until there are no more.
+        while (!done)
         {
-            MutexLocked<QoSData> qos_locked = qos.lock();
+            std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t, bool>> copiedPublishes;
+            std::vector<uint16_t> copiedQoS2Ids;
+            std::shared_ptr<Client> currentClient; // Destroyed outside the lock.
 
-            std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
-            while (qp_)
             {
-                std::shared_ptr<QueuedPublish> qp = qp_;
-                qp_ = qp_->next.lock();
+                MutexLocked<QoSData> qos_locked = qos.lock();
 
-                Publish &pub = qp->getPublish();
+                // When taken over, it's up to the thread of the new client.
+                currentClient = makeSharedClient();
+                if (currentClient != c)
+                    return;
 
-                const AuthResult aclResult = authentication.aclCheck(pub, pub.payload);
-                const bool allowed = aclResult == AuthResult::success || aclResult == AuthResult::success_without_setting_retained;
+                std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
+                while (qp_)
+                {
+                    std::shared_ptr<QueuedPublish> qp = qp_;
+                    qp_ = qp_->next.lock();
+
+                    if (!firstRound && qp->getSendAttempted())
+                        continue;
+
+                    Publish &pub = qp->getPublish();
+
+                    const AuthResult aclResult = authentication.aclCheck(pub, pub.payload);
+                    const bool allowed = aclResult == AuthResult::success || aclResult == AuthResult::success_without_setting_retained;
+
+                    if (pub.hasExpired() || !allowed)
+                    {
+                        qos_locked->eraseQueuedPublish(qp->getPacketId());
+                        qos_locked->releasePacketId(qp->getPacketId());
+                        continue;
+                    }
+
+                    if (qos_locked->flowControlExhausted())
+                    {
+                        logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
+                        qos_locked->eraseQueuedPublish(qp->getPacketId());
+                        qos_locked->releasePacketId(qp->getPacketId());
+                        continue;
+                    }
+
+                    qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
+
+                    copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId(), qp->getSendAttempted());
+                    qp->setSendAttempted();
+                }
 
-                if (pub.hasExpired() || !allowed)
+                if (firstRound)
                 {
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
+                    for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
+                    {
+                        copiedQoS2Ids.push_back(packet_id);
+                    }
                 }
 
-                if (qos_locked->flowControlExhausted())
+                if (copiedPublishes.empty())
                 {
-                    logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
+                    qos_locked->setUpToDateClient(c.get());
+                    done = true;
                 }
+            }
 
-                qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
+            firstRound = false;
 
-                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId(), qp->getSendAttempted());
-                qp->setSendAttempted();
+            for(std::tuple<Publish, std::optional<std::string>, uint16_t, bool> &p : copiedPublishes)
+            {
+                Publish &pub = std::get<Publish>(p);
+                PublishCopyFactory fac(&pub);
+                const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
+                const PacketDropReason dropReason = c->writeMqttPacketAndBlameThisClient(
+                    fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p), std::get<bool>(p));
+
+                if (dropReason == PacketDropReason::BiggerThanPacketLimit)
+                    completeUnsendablePublish(std::get<uint16_t>(p));
             }
 
-            for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
+            for(uint16_t id : copiedQoS2Ids)
             {
-                copiedQoS2Ids.push_back(packet_id);
+                PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, id);
+                MqttPacket packet(pubRel);
+                c->writeMqttPacketAndBlameThisClient(packet);
             }
         }
-
-        for(std::tuple<Publish, std::optional<std::string>, uint16_t, bool> &p : copiedPublishes)
-        {
-            Publish &pub = std::get<Publish>(p);
-            PublishCopyFactory fac(&pub);
-            const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-            const PacketDropReason dropReason = c->writeMqttPacketAndBlameThisClient(
-                fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p), std::get<bool>(p));
-
-            if (dropReason == PacketDropReason::BiggerThanPacketLimit)
-                completeUnsendablePublish(std::get<uint16_t>(p));
-        }
-
-        for(uint16_t id : copiedQoS2Ids)
-        {
-            PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, id);
-            MqttPacket packet(pubRel);
-            c->writeMqttPacketAndBlameThisClient(packet);
-        }
     }
 }
 
diff --git a/session.h b/session.h
index 6b57dd1..e9776e4 100644
--- a/session.h
+++ b/session.h
@@ -47,6 +47,11 @@ class Session
         int flowControlCealing = 0xFFFF;
         int flowControlQuota = 0xFFFF;
 
+        /**
+         * The client that got all pending messages, and to which new ones can be sent directly. Only for comparing.
+         */
+        const Client *upToDateClient = nullptr;
+
     public:
         std::set<uint16_t> incomingQoS2MessageIds;
         std::set<uint16_t> outgoingQoS2MessageIds;
@@ -75,6 +80,7 @@ class Session
         void loadUsedPacketId(const uint16_t id);
         void clearExpiredMessagesFromQueue();
         void decreaseFlowControlQuotaAgain(const uint16_t packet_id);
+        void undoDecreaseFlowControlQuota();
         void increaseFlowControlQuota(const uint16_t packet_id);
         void resetFlowControlCounters(const uint16_t receive_max);
         bool flowControlExhausted() const;
@@ -82,6 +88,8 @@ class Session
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
         bool isAwaitingFirstAck(const uint16_t id);
+        void setUpToDateClient(const Client *client);
+        bool isUpToDateClient(const std::shared_ptr<Client> &client) const;
     };
 
     friend class SessionsAndSubscriptionsDB;
@@ -130,7 +138,7 @@ public:
     PacketDropReason writePacket(PublishCopyFactory &copyFactory, const uint8_t max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier);
     void completeUnsendablePublish(uint16_t packet_id);
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
-    void sendAllPendingQosData();
+    void sendAllPendingQosData(const std::shared_ptr<Client> &c);
     bool hasActiveClient();
     void clearWill();
     void clearWill(const std::shared_ptr<WillPublish> &will);
diff --git a/threaddata.cpp b/threaddata.cpp
index d35e575..a6d5e91 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -221,7 +221,7 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
 
             subscriptionStore->registerClientAndKickExistingOne(client);
             client->setAuthenticated(true);
-            client->getSession()->sendAllPendingQosData();
+            client->getSession()->sendAllPendingQosData(client);
             client->handleAfterAsyncQueue(client);
         }
         else // Reauth (to authenticated clients) sends AUTH on success.
-- 
2.43.0


From 8f1aa3b992bab995f7100350bf250e2e3b00a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:14 +0000
Subject: [PATCH 41/65] fix: don't send a delayed will twice when its session
 ends in two threads

---
 lockedsharedptr.h     | 10 +++++++---
 session.cpp           |  5 +++--
 session.h             |  2 +-
 subscriptionstore.cpp |  6 +++++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/lockedsharedptr.h b/lockedsharedptr.h
index 95cc804..c321c7e 100644
--- a/lockedsharedptr.h
+++ b/lockedsharedptr.h
@@ -25,11 +25,15 @@ public:
         p.reset();
     }
 
-    void resetIfEqual(const std::shared_ptr<T> &r) noexcept
+    bool resetIfEqual(const std::shared_ptr<T> &r) noexcept
     {
         std::lock_guard<std::mutex> l(m);
-        if (p == r)
-            p.reset();
+
+        if (p != r)
+            return false;
+
+        p.reset();
+        return true;
     }
 
     std::shared_ptr<T> getCopy()
diff --git a/session.cpp b/session.cpp
index 274e2d6..e3e7ecf 100644
--- a/session.cpp
+++ b/session.cpp
@@ -527,10 +527,11 @@ void Session::clearWill()
 
 /**
  * @brief Session::clearWill clears the will when it's still the one specified.
+ * @return whether it was.
  */
-void Session::clearWill(const std::shared_ptr<WillPublish> &will)
+bool Session::clearWill(const std::shared_ptr<WillPublish> &will)
 {
-    this->willPublish.resetIfEqual(will);
+    return this->willPublish.resetIfEqual(will);
 }
 
 std::shared_ptr<WillPublish> Session::getWill()
diff --git a/session.h b/session.h
index e9776e4..44b6726 100644
--- a/session.h
+++ b/session.h
@@ -141,7 +141,7 @@ public:
     void sendAllPendingQosData(const std::shared_ptr<Client> &c);
     bool hasActiveClient();
     void clearWill();
-    void clearWill(const std::shared_ptr<WillPublish> &will);
+    bool clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
     void setWill(WillPublish &&pub);
     ClientType getClientType() const { return clientType; }
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 930987d..1b0e485 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -423,7 +423,11 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      *
      * When the session was taken over, it has the will of the new client, which must stay.
      */
-    session->clearWill(will);
+    const bool stillPending = session->clearWill(will);
+
+    // Different threads can find out that the session ended, but only one of them must send the delayed will.
+    if (will->will_delay > 0 && !stillPending)
+        return;
 
     const Settings *settings = ThreadGlobals::getSettings();
 
-- 
2.43.0


From 745c614e1de4e0f43bbcfae37a7a773581d75e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:08 +0000
Subject: [PATCH 42/65] fix: set deferred retained messages in the order they
 were published

---
 threaddata.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index a6d5e91..a95db36 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -637,7 +637,7 @@ void ThreadData::queueSettingRetainedMessage(const Publish &p, const std::vector
 {
     assert(pthread_self() == thread_id);
     const bool wakeup_required = priv->queuedRetainedMessages.empty();
-    priv->queuedRetainedMessages.emplace_front(p, subtopics, limit);
+    priv->queuedRetainedMessages.emplace_back(p, subtopics, limit);
     this->deferredRetainedMessagesSet.inc(1);
 
     if (wakeup_required)
-- 
2.43.0


From ceb60fdfd81dc6f5cd99528b961fe3563b098c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:11 +0000
Subject: [PATCH 43/65] fix: lock the log lines when looking whether there are
 any left at exit

---
 logger.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/logger.cpp b/logger.cpp
index 3846304..7a21319 100644
--- a/logger.cpp
+++ b/logger.cpp
@@ -260,8 +260,13 @@ void Logger::writeLog()
 
     int graceCounter = 0;
 
+    auto hasLines = [this]() {
+        std::lock_guard<std::mutex> locker(logMutex);
+        return !lines.empty();
+    };
+
     LogLine line;
-    while(running || (!lines.empty() && graceCounter++ < 1000 ))
+    while(running || (hasLines() && graceCounter++ < 1000 ))
     {
         sem_wait(&linesPending);
 
-- 
2.43.0


From 30d0f906e57fbaba88c27dacc4df1ca97a0d71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 44/65] fix: send a DISCONNECT with reason when a string is
 longer than max_string_length

---
 mqttpacket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 7ebab79..ac33080 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2805,7 +2805,7 @@ std::string MqttPacket::readBytesToString(const uint16_t maxLength, bool validat
     const uint16_t len = readTwoBytesToUInt16();
 
     if (len > maxLength)
-        throw std::runtime_error("Client sent string longer than 'max_string_length'");
+        throw ProtocolError("Client sent string longer than 'max_string_length'", ReasonCodes::ImplementationSpecificError);
 
     std::string result(readBytes(len));
 
-- 
2.43.0


From c4f45085d33a2cde31857a43a9b0bc3c87366930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:59 +0000
Subject: [PATCH 45/65] fix: send the retained messages a bridge publishes when
 it connects

addSubscription() no longer does that by itself, as it did according to the
comments. What the bridge brought in itself isn't sent back.
---
 mqttpacket.cpp        | 3 +++
 subscriptionstore.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index ac33080..c43965f 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1475,6 +1475,9 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
         parseSubscriptionShare(subtopics, shareName, _);
         const bool no_local = shareName.empty(); // See above about no-local.
         store->addSubscription(session, subtopics, pub.qos, no_local, true, shareName, 0);
+
+        if (shareName.empty())
+            store->giveClientRetainedMessages(session, subtopics, pub.qos, 0);
     }
 
     ThreadGlobals::getThreadData()->publishBridgeState(bridgeState, true, {});
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 1b0e485..022bd12 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -741,7 +741,10 @@ void SubscriptionStore::giveClientRetainedMessagesRecursively(std::vector<std::s
         {
             const RetainedMessage &rm = *this_node->message;
 
-            if (!rm.hasExpired()) // We can't also erase here, because we're operating under a read lock.
+            // Bridges don't send back what they brought in.
+            const bool fromThisBridge = session->getClientType() == ClientType::LocalBridge && rm.publish.client_id == session->getClientId();
+
+            if (!fromThisBridge && !rm.hasExpired()) // We can't also erase here, because we're operating under a read lock.
             {
                 Publish publish = rm.publish;
                 if (auth.aclCheck(publish, publish.payload) == AuthResult::success)
-- 
2.43.0


From 2b6e19b88def81ce19c5b2c5bff4a4e39e5ef35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:32 +0000
Subject: [PATCH 46/65] fix: don't send QoS 0 messages over a bridge that
 hasn't received its CONNACK

---
 session.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/session.cpp b/session.cpp
index e3e7ecf..ad3c0c3 100644
--- a/session.cpp
+++ b/session.cpp
@@ -340,6 +340,10 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     else
     {
         c = makeSharedClient();
+
+        // A bridge that is (re)connecting can't send anything before the CONNACK.
+        if (c && this->clientType == ClientType::LocalBridge)
+            sendNow = qos.lock()->isUpToDateClient(c);
     }
 
     if (!c || !sendNow)
-- 
2.43.0


From 37381ab4f6282a164044ef1f8283ea6129921373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:50 +0000
Subject: [PATCH 47/65] fix: disconnect a bridge whose config has changed, also
 when the other side doesn't kick it

---
 threaddata.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/threaddata.cpp b/threaddata.cpp
index a95db36..bea0df0 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -865,6 +865,16 @@ void ThreadData::acceptPendingBridges()
                 if (existingState->c != bridgeState->c)
                 {
                     logger->log(LOG_NOTICE) << "Bridge '" << existingState->c.clientidPrefix << "' has changed. Reconnecting.";
+
+                    const std::shared_ptr<Session> session = existingState->session->lock();
+                    const std::shared_ptr<Client> client = session ? session->makeSharedClient() : nullptr;
+
+                    if (client)
+                    {
+                        client->setDisconnectReason("Bridge config changed");
+                        removeClientQueued(client);
+                    }
+
                     existingState = bridgeState;
                 }
             }
-- 
2.43.0


From 1a6be297705db8d179af9a5fc3cf3b451944fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 48/65] fix: use the keep-alive from a bridge's CONNACK also
 for the first ping

---
 mqttpacket.cpp | 1 +
 threaddata.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index c43965f..9a0fb0d 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1420,6 +1420,7 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
     const bool realRetainedAvailable = data.retained_available && bridgeState->c.remoteRetainAvailable;
 
     sender->setClientProperties(true, keepalive, data.max_outgoing_packet_size, effectiveMaxOutgoingTopicAliases, realRetainedAvailable);
+    ThreadGlobals::getThreadData()->queueClientNextKeepAliveCheck(sender, true);
     session->setSessionProperties(data.client_receive_max, bridgeState->c.localSessionExpiryInterval, bridgeState->c.localCleanStart, bridgeState->c.protocolVersion);
 
     {
diff --git a/threaddata.cpp b/threaddata.cpp
index bea0df0..4e22e11 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -353,7 +353,7 @@ void ThreadData::bridgeReconnect()
 
             priv->clients.by_fd[sockfd] = c;
 
-            queueClientNextKeepAliveCheck(c, true);
+            queueClientNextKeepAliveCheck(c, false); // The repeating check is queued on CONNACK, which can have another keep-alive.
 
             if (session)
             {
-- 
2.43.0


From e78daf026881124be10da0eff416a6a21bc6f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:54 +0000
Subject: [PATCH 49/65] fix: don't send messages over a bridge with a higher
 QoS than the other side supports

---
 mqttpacket.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 9a0fb0d..392b276 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1467,18 +1467,20 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
     // messages need to be synced; they may have been removed remotely while disconnected, for instance.
     for(const BridgeTopicPath &pub : bridgeState->c.publishes)
     {
+        const uint8_t real_qos = std::min<uint8_t>(data.max_qos, pub.qos); // We can't send more than the other side supports [MQTT-3.2.2-11].
+
         logger->log(LOG_DEBUG) << "Bridge '" << sender->repr() << "' subscribing locally to '" << pub.topic << "', QoS="
-                               << static_cast<int>(pub.qos) << ".";
+                               << static_cast<int>(real_qos) << ".";
 
         std::vector<std::string> subtopics = splitTopic(pub.topic);
         std::string shareName;
         std::string _;
         parseSubscriptionShare(subtopics, shareName, _);
         const bool no_local = shareName.empty(); // See above about no-local.
-        store->addSubscription(session, subtopics, pub.qos, no_local, true, shareName, 0);
+        store->addSubscription(session, subtopics, real_qos, no_local, true, shareName, 0);
 
         if (shareName.empty())
-            store->giveClientRetainedMessages(session, subtopics, pub.qos, 0);
+            store->giveClientRetainedMessages(session, subtopics, real_qos, 0);
     }
 
     ThreadGlobals::getThreadData()->publishBridgeState(bridgeState, true, {});
-- 
2.43.0


From bb3ee2a9179ecce229ddf05d111b4afaf2cc5298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:41 +0000
Subject: [PATCH 50/65] fix: make 'tcp_nodelay false' of a bridge turn it off

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index e7386d5..a82b941 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -881,7 +881,7 @@ void ConfigFileParser::loadFile(bool test)
                 }
                 if (testKeyValidity(key, "tcp_nodelay", validBridgeKeys))
                 {
-                    curBridge->tcpNoDelay = true;
+                    curBridge->tcpNoDelay = stringTruthiness(value);
                 }
                 if (testKeyValidity(key, "local_prefix", validBridgeKeys))
                 {
-- 
2.43.0


From 4b83f216895f90a0bc57280c1aa914a5266b38bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:41 +0000
Subject: [PATCH 51/65] fix: don't log warnings with log_level error

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index a82b941..502f0e0 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -1050,7 +1050,7 @@ void ConfigFileParser::loadFile(bool test)
                     else if (v == "warning")
                         level = LogLevel::Warning;
                     else if (v == "error")
-                        level = LogLevel::Warning;
+                        level = LogLevel::Error;
                     else if (v == "none")
                         level = LogLevel::None;
                     else
-- 
2.43.0


From b8f06e31074ede20869b1271e0f2f60ad409f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:33 +0000
Subject: [PATCH 52/65] fix: refuse a bind address that is no address, instead
 of binding to all of them

---
 listener.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/listener.cpp b/listener.cpp
index f930935..c03f415 100644
--- a/listener.cpp
+++ b/listener.cpp
@@ -9,6 +9,7 @@ See LICENSE for license details.
 */
 
 #include <openssl/err.h>
+#include <arpa/inet.h>
 
 #include "listener.h"
 
@@ -86,6 +87,16 @@ void Listener::isValid()
         throw ConfigFileException("X509 client verification can only be done on TLS listeners.");
     }
 
+    if (in_addr a4; !inet4BindAddress.empty() && inet_pton(AF_INET, inet4BindAddress.c_str(), &a4) != 1)
+    {
+        throw ConfigFileException("Value '" + inet4BindAddress + "' for inet4_bind_address is not an IPv4 address.");
+    }
+
+    if (in6_addr a6; !inet6BindAddress.empty() && inet_pton(AF_INET6, inet6BindAddress.c_str(), &a6) != 1)
+    {
+        throw ConfigFileException("Value '" + inet6BindAddress + "' for inet6_bind_address is not an IPv6 address.");
+    }
+
     if (port <= 0 || port > 65534)
     {
         throw ConfigFileException(formatString("Port nr %d is not valid", port));
-- 
2.43.0


From 2390b84f9a05f3270b62e4b0ad1e9192b3ca6833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:33 +0000
Subject: [PATCH 53/65] fix: refuse a too long unix_socket_path when loading
 the config

---
 listener.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listener.cpp b/listener.cpp
index c03f415..b0601d9 100644
--- a/listener.cpp
+++ b/listener.cpp
@@ -72,6 +72,9 @@ void Listener::isValid()
         if (unixSocketPath.empty())
             throw ConfigFileException("Option 'unix_socket_path' must be set for unix socket listeners.");
 
+        if (unixSocketPath.length() > 100)
+            throw ConfigFileException("Unix domain socket path can't be longer than 100 chars.");
+
         if (!inet4BindAddress.empty() || !inet6BindAddress.empty())
             throw ConfigFileException("Specifying inet bind addresses is not allowed for unix socket listeners.");
 
-- 
2.43.0


From 610e81bf992bb60d2e5c9d3959c61d273b41a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:33 +0000
Subject: [PATCH 54/65] fix: refuse a unix_socket_mode that isn't a mode

---
 configfileparser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 502f0e0..48e1864 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -586,7 +586,12 @@ void ConfigFileParser::loadFile(bool test)
                 }
                 if (testKeyValidity(key, "unix_socket_mode", validListenKeys))
                 {
-                    curListener->unixSocketMode = full_stoul(key, value, 8);
+                    const unsigned long mode = full_stoul(key, value, 8);
+
+                    if (mode > 07777)
+                        throw ConfigFileException("Value '" + value + "' is not a valid mode for " + key);
+
+                    curListener->unixSocketMode = mode;
                 }
                 if (testKeyValidity(key, "haproxy", validListenKeys))
                 {
-- 
2.43.0


From 627d95662481b2c911f6a5b4e6cda68a3c3e9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:33 +0000
Subject: [PATCH 55/65] fix: refuse empty publish and subscribe filters of
 bridges

---
 configfileparser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 48e1864..e3cd095 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -741,7 +741,7 @@ void ConfigFileParser::loadFile(bool test)
                 }
                 if (testKeyValidity(key, "subscribe", validBridgeKeys))
                 {
-                    if (!isValidUtf8(value) || !isValidSubscribePath(value))
+                    if (value.empty() || !isValidUtf8(value) || !isValidSubscribePath(value))
                         throw ConfigFileException(formatString("Path '%s' is not a valid subscribe match", value.c_str()));
 
                     BridgeTopicPath topicPath;
@@ -762,7 +762,7 @@ void ConfigFileParser::loadFile(bool test)
                 }
                 if (testKeyValidity(key, "publish", validBridgeKeys))
                 {
-                    if (!isValidUtf8(value) || !isValidSubscribePath(value))
+                    if (value.empty() || !isValidUtf8(value) || !isValidSubscribePath(value))
                         throw ConfigFileException(formatString("Path '%s' is not a valid publish match", value.c_str()));
 
                     BridgeTopicPath topicPath;
-- 
2.43.0


From 5cc0af1a65ecdc5813e5e31ecc3c9fed895defe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:33 +0000
Subject: [PATCH 56/65] fix: refuse negative buffer and packet sizes

---
 configfileparser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index e3cd095..d3a5792 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -997,7 +997,7 @@ void ConfigFileParser::loadFile(bool test)
                 if (testKeyValidity(key, "client_initial_buffer_size", validKeys))
                 {
                     int newVal = full_stoi(key, value);
-                    if (!isPowerOfTwo(newVal))
+                    if (newVal <= 0 || !isPowerOfTwo(newVal))
                         throw ConfigFileException("client_initial_buffer_size value " + value + " is not a power of two.");
                     tmpSettings.clientInitialBufferSize = newVal;
                 }
@@ -1005,6 +1005,10 @@ void ConfigFileParser::loadFile(bool test)
                 if (testKeyValidity(key, "max_packet_size", validKeys))
                 {
                     int newVal = full_stoi(key, value);
+                    if (newVal <= 0)
+                    {
+                        throw ConfigFileException("Value for max_packet_size must be higher than 0.");
+                    }
                     if (newVal > ABSOLUTE_MAX_PACKET_SIZE)
                     {
                         std::ostringstream oss;
-- 
2.43.0


From 07b52768c3c031a5285d7b31ce7912eea94f698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:33 +0000
Subject: [PATCH 57/65] fix: accept expire_retained_messages_after_seconds up
 to the documented maximum and refuse negative values

---
 configfileparser.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index d3a5792..34bf4b4 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -1193,11 +1193,7 @@ void ConfigFileParser::loadFile(bool test)
 
                 if (testKeyValidity(key, "expire_retained_messages_after_seconds", validKeys))
                 {
-                    uint32_t newVal = full_stoi(key, value);
-                    if (newVal < 1)
-                    {
-                        throw ConfigFileException(formatString("expire_retained_messages_after_seconds value '%d' is invalid. Valid values are between 1 and 4294967295.", newVal));
-                    }
+                    const uint32_t newVal{value_to_int_ranged<uint32_t>(key, value, 1)};
                     tmpSettings.expireRetainedMessagesAfterSeconds = std::chrono::seconds(newVal);
                 }
 
-- 
2.43.0


From 1ed742d0296b829732d1a5fc2c1e5ab0fea9e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:33 +0000
Subject: [PATCH 58/65] fix: refuse a bridge connection_count of 0

---
 configfileparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 34bf4b4..ea60813 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -926,7 +926,7 @@ void ConfigFileParser::loadFile(bool test)
                         curBridge->connection_count = get_nprocs();
                     }
                     else
-                        curBridge->connection_count = full_stoul(key, valueTrimmed);
+                        curBridge->connection_count = value_to_int_ranged<uint16_t>(key, valueTrimmed, 1);
                 }
                 if (testKeyValidity(key, "max_buffer_size", validBridgeKeys))
                 {
-- 
2.43.0


From 10159269865379614f2220e8ca2eb2aa73fb2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:05 +0000
Subject: [PATCH 59/65] fix: also include the include_dir of lines with
 indentation, trailing spaces or quotes

---
 configfileparser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index ea60813..f56bfad 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -328,6 +328,8 @@ std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &
     {
         lines.push_back(line);
 
+        trim(line);
+
         if (strContains(line, "include_dir"))
         {
             std::smatch matches;
@@ -335,10 +337,13 @@ std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &
             if (std::regex_match(line, matches, key_value_regex))
             {
                 const std::string key = matches[1].str();
-                const std::string value = matches[2].str();
 
                 if (key == "include_dir")
                 {
+                    const std::vector<std::string> values = parseValuesWithOptionalQuoting<ConfigFileException>(matches[2].str());
+                    testCorrectNumberOfValues(key, 1, values);
+                    const std::string &value = values.at(0);
+
                     Logger *logger = Logger::getInstance();
 
                     checkDirExists(key, value);
-- 
2.43.0


From 4ad1249b296e97b7f28626f33422ece72c3561f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:05 +0000
Subject: [PATCH 60/65] fix: don't crash on a very long config line with
 include_dir in it

---
 configfileparser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index f56bfad..01bf4ed 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -28,6 +28,8 @@ See LICENSE for license details.
 #include "globber.h"
 #include "globals.h"
 
+constexpr size_t max_line_length = 256;
+
 /**
  * @brief Like std::stoi, but demands that the entire value is consumed
  * @param key Unused except for informing the user in case of problems
@@ -330,7 +332,8 @@ std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &
 
         trim(line);
 
-        if (strContains(line, "include_dir"))
+        // Longer lines are refused later, and can make the regex matcher crash.
+        if (strContains(line, "include_dir") && line.length() <= max_line_length)
         {
             std::smatch matches;
 
@@ -394,7 +397,7 @@ void ConfigFileParser::loadFile(bool test)
             continue;
 
         // The regex matcher can be made to crash on very long lines, so we're protecting ourselves.
-        if (line.length() > 256)
+        if (line.length() > max_line_length)
         {
             throw ConfigFileException(formatString("Error at line %d in '%s': line suspiciouly long.", linenr, path.c_str()));
         }
-- 
2.43.0


From 143c65ff7d8e76f630e2ee4c5d77de4c77842642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:05 +0000
Subject: [PATCH 61/65] fix: don't crash on a config that includes itself

---
 configfileparser.cpp | 7 +++++--
 configfileparser.h   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index 01bf4ed..e32efe4 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -308,13 +308,16 @@ ConfigFileParser::ConfigFileParser(const std::string &path) :
     validBridgeKeys.insert("max_buffer_size");
 }
 
-std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &path) const
+std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &path, int depth) const
 {
     std::list<std::string> lines;
 
     if (path.empty())
         return lines;
 
+    if (depth > 16)
+        throw ConfigFileException("Config '" + path + "' is included too deeply.");
+
     checkFileExistsAndReadable("application config file", path, 1024*1024*10);
 
     std::ifstream infile(path, std::ios::in);
@@ -361,7 +364,7 @@ std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &
 
                     for(const std::string &path_from_glob : files)
                     {
-                        std::list<std::string> newLines = readFileRecursively(path_from_glob);
+                        std::list<std::string> newLines = readFileRecursively(path_from_glob, depth + 1);
                         lines.insert(lines.cend(), newLines.begin(), newLines.end());
                     }
                 }
diff --git a/configfileparser.h b/configfileparser.h
index f1cf82a..d442ca4 100644
--- a/configfileparser.h
+++ b/configfileparser.h
@@ -118,7 +118,7 @@ public:
 
     ConfigFileParser(const std::string &path);
     void loadFile(bool test);
-    std::list<std::string> readFileRecursively(const std::string &path) const;
+    std::list<std::string> readFileRecursively(const std::string &path, int depth=0) const;
 
     const Settings &getSettings();
 };
-- 
2.43.0


From cd3f308209b44b69778eb739229ac00a200a4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:47 +0000
Subject: [PATCH 62/65] fix: send a delayed will at shutdown when its session
 ends then

---
 client.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index 786f364..84ac556 100644
--- a/client.cpp
+++ b/client.cpp
@@ -745,7 +745,10 @@ void Client::sendOrQueueWill()
         return;
 
     std::shared_ptr<SubscriptionStore> store = globals->subscriptionStore;
-    store->queueOrSendWillMessage(willPublish, session);
+
+    // There's no waiting for the delay when the session ends with the connection.
+    const bool sessionEnds = session && session->getDestroyOnDisconnect();
+    store->queueOrSendWillMessage(willPublish, session, sessionEnds);
     this->willPublish.reset();
 }
 
-- 
2.43.0


From fca598a9bd252d937190f24e992e2fd00adafdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:47 +0000
Subject: [PATCH 63/65] fix: keep the DUP flag of unacknowledged messages over
 a restart

---
 mqttpacket.h                   | 1 +
 qospacketqueue.cpp             | 4 +++-
 qospacketqueue.h               | 2 +-
 sessionsandsubscriptionsdb.cpp | 3 ++-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mqttpacket.h b/mqttpacket.h
index 7dff644..3b4b388 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -174,6 +174,7 @@ public:
     void setPacketId(uint16_t packet_id);
     uint16_t getPacketId() const;
     void setDuplicate(bool val);
+    bool isDuplicate() const { return !!(first_byte & 0b00001000); }
     void readIntoBuf(CirBuf &buf) const;
     std::string getPayloadCopy() const;
     std::string_view getPayloadView() const;
diff --git a/qospacketqueue.cpp b/qospacketqueue.cpp
index 62ac96b..a1b93db 100644
--- a/qospacketqueue.cpp
+++ b/qospacketqueue.cpp
@@ -200,11 +200,13 @@ void QoSPublishQueue::queuePublish(
  * a various constructors of QueuedPublish with ref and rref arguments, which didn't seem worth it. So far, this
  * function is only used for loading from disk, so not the hot path.
  */
-void QoSPublishQueue::queuePublish(Publish &&pub, uint16_t id, const std::optional<std::string> &topic_override)
+void QoSPublishQueue::queuePublish(Publish &&pub, uint16_t id, const std::optional<std::string> &topic_override, bool sendAttempted)
 {
     assert(id > 0);
 
     std::shared_ptr<QueuedPublish> qp = std::make_shared<QueuedPublish>(std::move(pub), id, topic_override);
+    if (sendAttempted)
+        qp->setSendAttempted();
     addToHeadOfLinkedList(qp);
     qosQueueBytes += qp->getApproximateMemoryFootprint();
     addToExpirationQueue(qp);
diff --git a/qospacketqueue.h b/qospacketqueue.h
index a9a0114..eef8105 100644
--- a/qospacketqueue.h
+++ b/qospacketqueue.h
@@ -82,7 +82,7 @@ public:
     void queuePublish(
         PublishCopyFactory &copyFactory, uint16_t id, uint8_t new_max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier,
         const std::optional<std::string> &topic_override, bool sendAttempted = false);
-    void queuePublish(Publish &&pub, uint16_t id, const std::optional<std::string> &topic_override);
+    void queuePublish(Publish &&pub, uint16_t id, const std::optional<std::string> &topic_override, bool sendAttempted=false);
     std::vector<uint16_t> clearExpiredMessages();
     const std::shared_ptr<QueuedPublish> &getTail() const;
 #ifdef TESTING
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 8e6a522..6057d97 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -193,7 +193,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
 
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
-                    qos_locked->queuePublish(std::move(pub), id, topic_override);
+                    qos_locked->queuePublish(std::move(pub), id, topic_override, pack.isDuplicate());
                     qos_locked->loadUsedPacketId(id);
                 }
 
@@ -364,6 +364,7 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
 
                 MqttPacket pack(ProtocolVersion::Mqtt5, pub);
                 pack.setPacketId(qp->getPacketId());
+                pack.setDuplicate(qp->getSendAttempted());
                 const uint32_t packSize = pack.getSizeIncludingNonPresentHeader();
                 cirbuf.reset();
                 cirbuf.ensureFreeSpace(packSize + 32);
-- 
2.43.0


From 1c9fbc3ecd34bef8b746dd5c7a5bcfadf8f98e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:38 +0000
Subject: [PATCH 64/65] fix: send nothing after DISCONNECT

---
 client.cpp | 11 +++++++++++
 client.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/client.cpp b/client.cpp
index 84ac556..ac8e9ed 100644
--- a/client.cpp
+++ b/client.cpp
@@ -399,6 +399,12 @@ PacketDropReason Client::writeMqttPacket(const MqttPacket &packet)
 
     auto write_buf_locked = writebuf.lock();
 
+    // "After sending a DISCONNECT packet the sender MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1]."
+    if (write_buf_locked->disconnectWritten)
+    {
+        return PacketDropReason::ClientOffline;
+    }
+
     // "Where a Packet is too large to send, the Server MUST discard it without sending it and then behave as if it had completed
     // sending that Application Message [MQTT-3.1.2-25]."
     if (packetSize > write_buf_locked->maxOutgoingPacketSize)
@@ -429,7 +435,10 @@ PacketDropReason Client::writeMqttPacket(const MqttPacket &packet)
         ThreadGlobals::getThreadData()->sentMessageCounter.inc();
     }
     else if (packet.packetType == PacketType::DISCONNECT)
+    {
+        write_buf_locked->disconnectWritten = true;
         setDisconnectStage(DisconnectStage::SendPendingAppData);
+    }
 
     setReadyForWriting(true, write_buf_locked);
 
@@ -534,6 +543,8 @@ PacketDropReason Client::writeMqttPacketAndBlameThisClient(const MqttPacket &pac
 void Client::writePingResp()
 {
     auto write_buf_locked = writebuf.lock();
+    if (write_buf_locked->disconnectWritten)
+        return;
     write_buf_locked->checkPressure(this);
     write_buf_locked->buf.write(0b11010000, 0);
     setReadyForWriting(true, write_buf_locked);
diff --git a/client.h b/client.h
index 96caa69..2c7d8dd 100644
--- a/client.h
+++ b/client.h
@@ -81,6 +81,7 @@ class Client
     {
         CirBuf buf;
         bool readyForWriting = false;
+        bool disconnectWritten = false;
         std::optional<std::chrono::time_point<std::chrono::steady_clock>> pressuredAt;
 
         uint32_t maxOutgoingPacketSize {};
-- 
2.43.0


From e6b2dde48d8e79e57c1cabd99d84ff7081e7f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:38 +0000
Subject: [PATCH 65/65] fix: send wills of clients that connect during the
 shutdown

---
 threaddata.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/threaddata.cpp b/threaddata.cpp
index 4e22e11..20752e7 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -728,6 +728,9 @@ void ThreadData::sendAllDisconnects()
     // We collect them first, so we are sure they are all added to 'disconnectingClients'.
     for(auto &pair : priv->clients.by_fd)
     {
+        // The others that were there at sendAllWills() have none anymore.
+        pair.second->sendOrQueueWill();
+
         clientsFound.push_back(pair.second);
     }
 
-- 
2.43.0

