From cb4f9774506bf890192b804f4e3f0235c82aa012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 01/21] fix: release parked streams under one lock, and unknown
 streams only once

---
 p2p/stream_helper.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/p2p/stream_helper.go b/p2p/stream_helper.go
index 38d3759..cb96949 100644
--- a/p2p/stream_helper.go
+++ b/p2p/stream_helper.go
@@ -39,21 +39,20 @@ func NewStreamMgr() *StreamMgr {
 }
 
 func (sm *StreamMgr) ReleaseStream(msgID string) {
-	sm.streamLocker.RLock()
-	usedStreams, okStream := sm.unusedStreams[msgID]
-	unknownStreams, okUnknown := sm.unusedStreams["UNKNOWN"]
-	sm.streamLocker.RUnlock()
+	// take the streams out under one lock, so a stream parked meanwhile is not dropped
+	// without a reset, and an unknown stream is not reset again by the next release
+	sm.streamLocker.Lock()
+	usedStreams := sm.unusedStreams[msgID]
+	delete(sm.unusedStreams, msgID)
+	unknownStreams := sm.unusedStreams["UNKNOWN"]
+	delete(sm.unusedStreams, "UNKNOWN")
+	sm.streamLocker.Unlock()
 	streams := append(usedStreams, unknownStreams...)
-	if okStream || okUnknown {
-		for _, el := range streams {
-			err := el.Reset()
-			if err != nil {
-				sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
-			}
+	for _, el := range streams {
+		err := el.Reset()
+		if err != nil {
+			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
 		}
-		sm.streamLocker.Lock()
-		delete(sm.unusedStreams, msgID)
-		sm.streamLocker.Unlock()
 	}
 }
 
-- 
2.43.0


From 2733339a36374c0765fcfc3d5471977e0fccf721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:02 +0000
Subject: [PATCH 02/21] fix: size the peer list of a cache item under its lock

---
 common/local_cache_item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/local_cache_item.go b/common/local_cache_item.go
index dc88dd4..65ac7ff 100644
--- a/common/local_cache_item.go
+++ b/common/local_cache_item.go
@@ -38,9 +38,9 @@ func (l *LocalCacheItem) TotalConfirmParty() int {
 }
 
 func (l *LocalCacheItem) GetPeers() []string {
-	peers := make([]string, 0, len(l.ConfirmedList))
 	l.lock.Lock()
 	defer l.lock.Unlock()
+	peers := make([]string, 0, len(l.ConfirmedList))
 	for peer := range l.ConfirmedList {
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From 8b3451199221775b63f83c662bf6a204765c0426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:45 +0000
Subject: [PATCH 03/21] fix: refuse messages with incomplete routing, or which
 arrive before the party is known, instead of crashing

---
 common/tss.go        | 26 ++++++++++++++++++--------
 common/tss_helper.go |  5 +++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 07066a5..c5a9907 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -223,7 +223,7 @@ func (t *TssCommon) processInvalidMsgBlame(roundInfo string, round blame.RoundIn
 
 // updateLocal will apply the wireMsg to local keygen/keysign party
 func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !isRoutingComplete(wireMsg.Routing) {
 		t.logger.Warn().Msg("wire msg is nil")
 		return errors.New("invalid wireMsg")
 	}
@@ -231,9 +231,9 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	if partyInfo == nil {
 		return nil
 	}
-	partyID, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
+	_, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
 	if !ok {
-		return fmt.Errorf("get message from unknown party %s", partyID.Id)
+		return fmt.Errorf("get message from unknown party %s", wireMsg.Routing.From.Id)
 	}
 
 	dataOwnerPeerID, ok := t.PartyIDtoP2PID[wireMsg.Routing.From.Id]
@@ -267,6 +267,10 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 			return errors.New("cannot find the party")
 		}
 		localMsgParty := data.(btss.Party)
+		if !isRoutingComplete(msg.Routing) {
+			t.logger.Error().Msg("the routing of the wired msg is incomplete")
+			return errors.New("invalid wireMsg")
+		}
 		partyID, ok := partyInfo.PartyIDMap[msg.Routing.From.Id]
 		if !ok {
 			t.logger.Error().Msg("error in find the partyID")
@@ -360,12 +364,16 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 			return nil
 		}
 		if wireMsg.TaskDone {
+			partyInfo := t.getPartyInfo()
+			if partyInfo == nil {
+				return errors.New("can't process the notification, local party is not ready")
+			}
 			// if we have already logged this node, we return to avoid close of a close channel
 			if t.finishedPeers[peerID] {
 				return fmt.Errorf("duplicated notification from peer %s ignored", peerID)
 			}
 			t.finishedPeers[peerID] = true
-			if len(t.finishedPeers) == len(t.partyInfo.PartyIDMap)-1 {
+			if len(t.finishedPeers) == len(partyInfo.PartyIDMap)-1 {
 				t.logger.Debug().Msg("we get the confirm of the nodes that generate the signature")
 				close(t.taskDone)
 			}
@@ -735,12 +743,15 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 	t.logger.Debug().Msg("process wire message")
 	defer t.logger.Debug().Msg("finish process wire message")
 
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !isRoutingComplete(wireMsg.Routing) {
 		t.logger.Warn().Msg("received msg invalid")
 		return errors.New("invalid wireMsg")
 	}
-	partyIDMap := t.getPartyInfo().PartyIDMap
-	dataOwner, ok := partyIDMap[wireMsg.Routing.From.Id]
+	partyInfo := t.getPartyInfo()
+	if partyInfo == nil {
+		return errors.New("can't process wire msg, local party is not ready")
+	}
+	dataOwner, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
 	if !ok {
 		t.logger.Error().Msg("error in find the data owner")
 		return errors.New("error in find the data owner")
@@ -768,7 +779,6 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 		}
 	}
 
-	partyInfo := t.getPartyInfo()
 	key := wireMsg.GetCacheKey()
 	msgHash, err := conversion.BytesToHashString(wireMsg.Message)
 	if err != nil {
diff --git a/common/tss_helper.go b/common/tss_helper.go
index eaf713a..dd27c10 100644
--- a/common/tss_helper.go
+++ b/common/tss_helper.go
@@ -38,6 +38,11 @@ func Contains(s []*btss.PartyID, e *btss.PartyID) bool {
 	return false
 }
 
+// isRoutingComplete check whether the routing names its origin, as any part of it can be missing in what a peer sent
+func isRoutingComplete(r *btss.MessageRouting) bool {
+	return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil
+}
+
 func MsgToHashInt(msg []byte) (*big.Int, error) {
 	return hashToInt(msg, btcec.S256()), nil
 }
-- 
2.43.0


From c741cc8ef9e17bf3a505fd610cea29f46f84598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 04/21] fix: attribute the shares of a bulk message only to the
 party that signed it

---
 common/tss.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index c5a9907..7b52dc4 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -231,7 +231,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	if partyInfo == nil {
 		return nil
 	}
-	_, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
+	partyID, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
 	if !ok {
 		return fmt.Errorf("get message from unknown party %s", wireMsg.Routing.From.Id)
 	}
@@ -271,10 +271,11 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 			t.logger.Error().Msg("the routing of the wired msg is incomplete")
 			return errors.New("invalid wireMsg")
 		}
-		partyID, ok := partyInfo.PartyIDMap[msg.Routing.From.Id]
-		if !ok {
-			t.logger.Error().Msg("error in find the partyID")
-			return errors.New("cannot find the party to handle the message")
+		// the envelope is what has been verified (signature and hash confirmations), so the shares in it
+		// must be from the same party and of the same kind
+		if msg.Routing.From.Id != wireMsg.Routing.From.Id || msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
+			t.logger.Error().Msgf("the share does not match its envelope from party %s", partyID.Id)
+			return errors.New("the share does not match its envelope")
 		}
 
 		round, err := GetMsgRound(msg.WiredBulkMsgs, partyID, msg.Routing.IsBroadcast)
-- 
2.43.0


From 850e4051d9336c66aca3ddc83709f813d424d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:51 +0000
Subject: [PATCH 05/21] fix: hand each share of a bulk message to the engine
 once and never leave workers behind

---
 common/tss.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 7b52dc4..a3ac058 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -260,6 +260,12 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		jobWg.Add(1)
 		go t.doTssJob(tssJobChan, &jobWg)
 	}
+	// whatever happens below, the queued shares are processed and the workers are done when we return
+	defer func() {
+		close(tssJobChan)
+		jobWg.Wait()
+	}()
+	queuedShares := make(map[blame.RoundInfo]bool)
 	for _, msg := range bulkMsg {
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
@@ -288,7 +294,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		// here we use round + msgIdentifier as the key for the acceptedShares
 		round.MsgIdentifier = msg.MsgIdentifier
 		// if this share is duplicated, we skip this share
-		if t.blameMgr.CheckMsgDuplication(round, partyID.Id) {
+		if queuedShares[round] || t.blameMgr.CheckMsgDuplication(round, partyID.Id) {
 			t.logger.Debug().Msgf("we received the duplicated message from party %s", partyID.Id)
 			continue
 		}
@@ -309,10 +315,9 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		}
 		t.culpritsLock.RUnlock()
 		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)
+		queuedShares[round] = true
 		tssJobChan <- job
 	}
-	close(tssJobChan)
-	jobWg.Wait()
 	return nil
 }
 
-- 
2.43.0


From b05354c46529fc1033fb3e10ce7718ff173469a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 06/21] fix: record a share as accepted only if the local party
 took it

---
 common/tss.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index a3ac058..e11d61b 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -129,12 +129,16 @@ func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 		}
 		round.MsgIdentifier = tssjob.msgIdentifier
 
-		_, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)
+		ok, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)
 		if errUp != nil {
 			err := t.processInvalidMsgBlame(round.RoundMsg, round, errUp)
 			t.logger.Error().Err(err).Msgf("fail to apply the share to tss")
 			continue
 		}
+		if !ok {
+			t.logger.Error().Msgf("the share of party %s was not accepted", partyID.Id)
+			continue
+		}
 		// we need to retrieve the partylist again as others may update it once we process apply tss share
 		t.blameMgr.UpdateAcceptShare(round, partyID.Id)
 	}
-- 
2.43.0


From 50dad0f22fb7f6bd39ab51f018f4182efb51e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:57 +0000
Subject: [PATCH 07/21] fix: read the confirmations and the party information
 under their locks

---
 common/tss.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index e11d61b..68bd982 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -193,13 +193,17 @@ func (t *TssCommon) processInvalidMsgBlame(roundInfo string, round blame.RoundIn
 	t.culpritsLock.Lock()
 	t.culprits = append(t.culprits, err.Culprits()...)
 	t.culpritsLock.Unlock()
+	partyInfo := t.getPartyInfo()
+	if partyInfo == nil {
+		return errors.New("error in getting the blame nodes, local party is not ready")
+	}
 	for _, el := range err.Culprits() {
 		culpritsID = append(culpritsID, el.Id)
 		key := fmt.Sprintf("%s-%s", el.Id, roundInfo)
 		storedMsg := t.blameMgr.GetRoundMgr().Get(key)
 		invalidMsgs = append(invalidMsgs, storedMsg)
 	}
-	pubkeys, errBlame := conversion.AccPubKeysFromPartyIDs(culpritsID, t.partyInfo.PartyIDMap)
+	pubkeys, errBlame := conversion.AccPubKeysFromPartyIDs(culpritsID, partyInfo.PartyIDMap)
 	if errBlame != nil {
 		t.logger.Error().Err(err.Cause()).Msgf("error in get the blame nodes")
 		t.blameMgr.GetBlame().SetBlame(blame.TssBrokenMsg, nil, unicast)
@@ -616,8 +620,10 @@ func (t *TssCommon) applyShare(localCacheItem *LocalCacheItem, threshold int, ke
 }
 
 func (t *TssCommon) requestShareFromPeer(localCacheItem *LocalCacheItem, threshold int, key string, msgType messages.THORChainTSSMessageType) error {
+	localCacheItem.lock.Lock()
 	targetHash, err := t.getMsgHash(localCacheItem, threshold)
 	if err != nil {
+		localCacheItem.lock.Unlock()
 		t.logger.Debug().Msg("we do not know which message to request, so we quit")
 		return nil
 	}
@@ -626,12 +632,14 @@ func (t *TssCommon) requestShareFromPeer(localCacheItem *LocalCacheItem, thresho
 		if hash == targetHash {
 			thisPeer, err := peer.Decode(thisPeerStr)
 			if err != nil {
+				localCacheItem.lock.Unlock()
 				t.logger.Error().Err(err).Msg("fail to convert the p2p id")
 				return err
 			}
 			peersIDs = append(peersIDs, thisPeer)
 		}
 	}
+	localCacheItem.lock.Unlock()
 
 	msg := &messages.TssControl{
 		ReqHash:     targetHash,
@@ -675,7 +683,7 @@ func (t *TssCommon) processVerMsg(broadcastConfirmMsg *messages.BroadcastConfirm
 	}
 
 	localCacheItem.UpdateConfirmList(broadcastConfirmMsg.P2PID, broadcastConfirmMsg.Hash)
-	t.logger.Debug().Msgf("total confirmed parties:%+v", localCacheItem.ConfirmedList)
+	t.logger.Debug().Msgf("total confirmed parties:%d", localCacheItem.TotalConfirmParty())
 
 	threshold, err := conversion.GetThreshold(len(partyInfo.PartyIDMap))
 	if err != nil {
-- 
2.43.0


From e21571c41c699fa0a2c685477bad75e685099c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:00 +0000
Subject: [PATCH 08/21] fix: confirm the broadcast message which is kept, not a
 later conflicting one

---
 common/tss.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 68bd982..53682b8 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -816,7 +816,8 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 			localCacheItem.Hash = msgHash
 		}
 	}
-	localCacheItem.UpdateConfirmList(t.localPeerID, msgHash)
+	// we confirm the message we keep, a conflicting one of the same owner does not replace our vote
+	localCacheItem.UpdateConfirmList(t.localPeerID, localCacheItem.Hash)
 
 	threshold, err := conversion.GetThreshold(len(partyInfo.PartyIDMap))
 	if err != nil {
-- 
2.43.0


From 406b3cbe6ea89231ce2372a86656dfd88d992658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 09/21] fix: count the hash confirmations of party members only

---
 common/tss.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 53682b8..1a0cb91 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -329,7 +329,21 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	return nil
 }
 
+// isPartyPeer check whether the peer belongs to a member of the party
+func (t *TssCommon) isPartyPeer(peerID string) bool {
+	for _, el := range t.PartyIDtoP2PID {
+		if el.String() == peerID {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *TssCommon) checkDupAndUpdateVerMsg(bMsg *messages.BroadcastConfirmMessage, peerID string) bool {
+	// only the members of the party have a vote
+	if !t.isPartyPeer(peerID) {
+		return false
+	}
 	localCacheItem := t.TryGetLocalCacheItem(bMsg.Key)
 	// we check whether this node has already sent the VerMsg message to avoid eclipse of others VerMsg
 	if localCacheItem == nil {
-- 
2.43.0


From 452861ef7c5903be26a4b80335daeaa31f55f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 10/21] fix: refuse a signature notification which does not
 match the number of messages

---
 keysign/notifier.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index dd4feed..d68c122 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -63,7 +63,9 @@ func (n *Notifier) ProcessSignature(data []*common.ECSignature) (bool, error) {
 	// when data is nil , which means keysign  failed, there is no signature to be verified in that case
 	// for gg20, it wrap the signature R,S into ECSignature structure
 	if len(data) != 0 {
-
+		if len(data) != len(n.messages) {
+			return false, fmt.Errorf("keysign has %d messages to sign, but received %d signatures", len(n.messages), len(data))
+		}
 		for i := 0; i < len(data); i++ {
 			eachSig := data[i]
 			msg := n.messages[i]
-- 
2.43.0


From 90501b037addf2aaf9f1cc57cc7a38fa4d8ed556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 11/21] fix: report failure when the keysign returned fewer
 signatures than messages

---
 tss/keysign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tss/keysign.go b/tss/keysign.go
index b82391c..7027c5e 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -151,6 +151,9 @@ func (t *TssServer) generateSignature(msgID string, msgsToSign [][]byte, req key
 		}, nil
 	}
 	signatureData, err := keysignInstance.SignMessage(msgsToSign, localStateItem, signers)
+	if err == nil && (len(signatureData) == 0 || len(signatureData) != len(msgsToSign)) {
+		err = fmt.Errorf("keysign of %d messages returned %d signatures", len(msgsToSign), len(signatureData))
+	}
 	// the statistic of keygen only care about Tss it self, even if the following http response aborts,
 	// it still counted as a successful keygen as the Tss model runs successfully.
 	if err != nil {
-- 
2.43.0


From 78c1f706e3e1574578e93f4fc6dae5957c53e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 12/21] fix: a keygen share is saved by replacing its file in
 one step

---
 storage/localstate_mgr.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index 67f026e..4e12b7e 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -84,7 +84,37 @@ func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePathName, buf, 0o655)
+	return fsm.replaceFile(filePathName, buf)
+}
+
+// replaceFile gives the file its new content in one step: a crash leaves either the old content or the new one
+func (fsm *FileStateMgr) replaceFile(filePathName string, buf []byte) error {
+	fsm.writeLock.Lock()
+	defer fsm.writeLock.Unlock()
+	tmpFile := filePathName + ".tmp"
+	f, err := os.OpenFile(tmpFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o655)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(buf)
+	if err == nil {
+		err = f.Sync()
+	}
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
+		return err
+	}
+	if err := os.Rename(tmpFile, filePathName); err != nil {
+		return err
+	}
+	dir, err := os.Open(filepath.Dir(filePathName))
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+	return dir.Sync()
 }
 
 // GetLocalState read the local state from file system
-- 
2.43.0


From 3cd1a69cbeb0b6b7e357066565222c99e3708e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 13/21] fix: announce the end of a keygen only when its share
 has been saved

---
 keygen/tss_keygen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 262509c..1cf6a24 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -215,10 +215,6 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 
 		case msg := <-endCh:
 			tKeyGen.logger.Debug().Msgf("keygen finished successfully: %s", msg.ECDSAPub.Y().String())
-			err := tKeyGen.tssCommonStruct.NotifyTaskDone()
-			if err != nil {
-				tKeyGen.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
-			}
 			pubKey, _, err := conversion.GetTssPubKey(msg.ECDSAPub)
 			if err != nil {
 				return nil, fmt.Errorf("fail to get thorchain pubkey: %w", err)
@@ -228,6 +224,10 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
 				return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
 			}
+			// the peers take this as the end of the keygen, so the share must have been saved
+			if err := tKeyGen.tssCommonStruct.NotifyTaskDone(); err != nil {
+				tKeyGen.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
+			}
 			address := tKeyGen.p2pComm.ExportPeerAddress()
 			if err := tKeyGen.stateManager.SaveAddressBook(address); err != nil {
 				tKeyGen.logger.Error().Err(err).Msg("fail to save the peer addresses")
-- 
2.43.0


From 5369d731eaa8415d4416bd2d801736a0383e117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 14/21] fix: report an error when the party ids cannot be
 mapped to peers

---
 keygen/tss_keygen.go   | 2 +-
 keysign/tss_keysign.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 1cf6a24..0954b17 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -98,7 +98,7 @@ func (tKeyGen *TssKeyGen) GenerateNewKey(keygenReq Request) (*bcrypto.ECPoint, e
 	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
 	if err1 != nil || err2 != nil {
 		tKeyGen.logger.Error().Msgf("error in creating mapping between partyID and P2P ID")
-		return nil, err
+		return nil, errors.New("fail to create the mapping between partyID and P2P ID")
 	}
 	// we never run multi keygen, so the moniker is set to default empty value
 	keyGenPartyMap.Store("", keyGenParty)
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index cd2ebe9..78f06bf 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -124,8 +124,8 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 	err1 := conversion.SetupIDMaps(partyIDMap, tKeySign.tssCommonStruct.PartyIDtoP2PID)
 	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
 	if err1 != nil || err2 != nil {
-		tKeySign.logger.Error().Err(err).Msgf("error in creating mapping between partyID and P2P ID")
-		return nil, err
+		tKeySign.logger.Error().Msgf("error in creating mapping between partyID and P2P ID")
+		return nil, errors.New("fail to create the mapping between partyID and P2P ID")
 	}
 
 	tKeySign.tssCommonStruct.SetPartyInfo(&common.PartyInfo{
-- 
2.43.0


From 23bb5930138cf0b74329071e1a82ccc5e6e882bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 15/21] fix: a signing that times out before its first message
 must not panic

---
 keysign/tss_keysign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 78f06bf..11fa002 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -207,6 +207,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			if err != nil {
 				tKeySign.logger.Error().Err(err).Msg("error in get the threshold for generate blame")
 			}
+			if lastMsg == nil {
+				tKeySign.logger.Error().Msg("fail to start the keysign, the last produced message of this node is none")
+				return nil, errors.New("timeout before shared message is generated")
+			}
 			if !lastMsg.IsBroadcast() {
 				blameNodesUnicast, err := blameMgr.GetUnicastBlame(lastMsg.Type())
 				if err != nil {
-- 
2.43.0


From bdfac5103df96116397fb966c44dc1d4adc47143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 16/21] fix: blame each node whose shares are missing once and
 no node when none is

---
 blame/policy.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/blame/policy.go b/blame/policy.go
index a580d04..f4c40e9 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -135,7 +135,6 @@ func (m *Manager) TssWrongShareBlame(wiredMsg *messages.WireMessage) (string, er
 func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	acceptedShareForMsg := make(map[string][][]string)
 	var blameNodes []Node
-	var peers []string
 	isUnicast := false
 	m.acceptShareLocker.Lock()
 	for roundInfo, value := range m.acceptedShares {
@@ -150,7 +149,11 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	}
 	m.acceptShareLocker.Unlock()
 
+	blamed := make(map[string]bool)
 	for _, cachedShares := range acceptedShareForMsg {
+		// the nodes whose shares we have in the first round of this message that is not complete
+		var peers []string
+		complete := true
 		// we search from the first round to find the missing
 		for index, el := range cachedShares {
 			if len(el)+1 == len(m.PartyIDtoP2PID) {
@@ -172,20 +175,26 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 					isUnicast = true
 				}
 			}
-			// we add our own id to avoid blame ourselves
-			// since all the local parties have the same id, so we just need to take one of them to get the peer
-
-			el = append(el, m.localPartyID)
+			complete = false
 			for _, pid := range el {
 				peers = append(peers, m.PartyIDtoP2PID[pid].String())
 			}
 			break
 		}
+		// all the shares of this message arrived
+		if complete {
+			continue
+		}
 		blamePubKeys, err := m.getBlamePubKeysNotInList(peers)
 		if err != nil {
 			return nil, isUnicast, err
 		}
 		for _, el := range blamePubKeys {
+			// a node can miss the shares of several messages
+			if blamed[el] {
+				continue
+			}
+			blamed[el] = true
 			node := Node{
 				el,
 				nil,
-- 
2.43.0


From 51e76e5d970e97d74ebe91bad1a256fd0373cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 17/21] fix: read and update the blame of a running session
 under its lock

---
 blame/blame.go         | 14 ++++++++++++++
 keygen/tss_keygen.go   |  6 +++---
 keysign/tss_keysign.go |  6 +++---
 tss/keygen.go          |  4 ++--
 tss/keysign.go         |  2 +-
 5 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/blame/blame.go b/blame/blame.go
index ee7a780..db42930 100644
--- a/blame/blame.go
+++ b/blame/blame.go
@@ -49,6 +49,20 @@ func (b *Blame) SetBlame(reason string, nodes []Node, isUnicast bool) {
 	b.BlameNodes = append(b.BlameNodes, nodes...)
 }
 
+// SetUnicast update the direction of the messages which caused the blame
+func (b *Blame) SetUnicast(isUnicast bool) {
+	b.blameLock.Lock()
+	defer b.blameLock.Unlock()
+	b.IsUnicast = isUnicast
+}
+
+// Snapshot returns the blame as it is now
+func (b *Blame) Snapshot() Blame {
+	b.blameLock.RLock()
+	defer b.blameLock.RUnlock()
+	return *b
+}
+
 func (b *Blame) AlreadyBlame() bool {
 	b.blameLock.RLock()
 	defer b.blameLock.RUnlock()
diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 0954b17..c043285 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -163,7 +163,7 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 			// we bail out after KeyGenTimeoutSeconds
 			tKeyGen.logger.Error().Msgf("fail to generate message with %s", tssConf.KeyGenTimeout.String())
 			lastMsg := blameMgr.GetLastMsg()
-			failReason := blameMgr.GetBlame().FailReason
+			failReason := blameMgr.GetBlame().Snapshot().FailReason
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
@@ -192,14 +192,14 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 			blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)
 
 			// if we cannot find the blame node, we check whether everyone send me the share
-			if len(blameMgr.GetBlame().BlameNodes) == 0 {
+			if !blameMgr.GetBlame().AlreadyBlame() {
 				blameNodesMisingShare, isUnicast, err := blameMgr.TssMissingShareBlame(messages.TSSKEYGENROUNDS)
 				if err != nil {
 					tKeyGen.logger.Error().Err(err).Msg("fail to get the node of missing share ")
 				}
 				if len(blameNodesMisingShare) > 0 && len(blameNodesMisingShare) <= threshold {
 					blameMgr.GetBlame().AddBlameNodes(blameNodesMisingShare...)
-					blameMgr.GetBlame().IsUnicast = isUnicast
+					blameMgr.GetBlame().SetUnicast(isUnicast)
 				}
 			}
 			return nil, blame.ErrTssTimeOut
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 11fa002..3478c06 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -196,7 +196,7 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			// we bail out after KeySignTimeoutSeconds
 			tKeySign.logger.Error().Msgf("fail to sign message with %s", tssConf.KeySignTimeout.String())
 			lastMsg := blameMgr.GetLastMsg()
-			failReason := blameMgr.GetBlame().FailReason
+			failReason := blameMgr.GetBlame().Snapshot().FailReason
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
@@ -236,7 +236,7 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)
 
 			// if we cannot find the blame node, we check whether everyone send me the share
-			if len(blameMgr.GetBlame().BlameNodes) == 0 {
+			if !blameMgr.GetBlame().AlreadyBlame() {
 				blameNodesMisingShare, isUnicast, err := blameMgr.TssMissingShareBlame(messages.TSSKEYSIGNROUNDS)
 				if err != nil {
 					tKeySign.logger.Error().Err(err).Msg("fail to get the node of missing share ")
@@ -244,7 +244,7 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 
 				if len(blameNodesMisingShare) > 0 && len(blameNodesMisingShare) <= threshold {
 					blameMgr.GetBlame().AddBlameNodes(blameNodesMisingShare...)
-					blameMgr.GetBlame().IsUnicast = isUnicast
+					blameMgr.GetBlame().SetUnicast(isUnicast)
 				}
 			}
 
diff --git a/tss/keygen.go b/tss/keygen.go
index 9511ee4..3c72b21 100644
--- a/tss/keygen.go
+++ b/tss/keygen.go
@@ -114,7 +114,7 @@ func (t *TssServer) Keygen(req keygen.Request) (keygen.Response, error) {
 	if err != nil {
 		t.tssMetrics.UpdateKeyGen(keygenTime, false)
 		t.logger.Error().Err(err).Msg("err in keygen")
-		blameNodes := *blameMgr.GetBlame()
+		blameNodes := blameMgr.GetBlame().Snapshot()
 		return keygen.NewResponse("", "", common.Fail, blameNodes), err
 	} else {
 		t.tssMetrics.UpdateKeyGen(keygenTime, true)
@@ -126,7 +126,7 @@ func (t *TssServer) Keygen(req keygen.Request) (keygen.Response, error) {
 		status = common.Fail
 	}
 
-	blameNodes := *blameMgr.GetBlame()
+	blameNodes := blameMgr.GetBlame().Snapshot()
 	return keygen.NewResponse(
 		newPubKey,
 		addr.String(),
diff --git a/tss/keysign.go b/tss/keysign.go
index 7027c5e..44c53a5 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -160,7 +160,7 @@ func (t *TssServer) generateSignature(msgID string, msgsToSign [][]byte, req key
 		t.logger.Error().Err(err).Msg("err in keysign")
 		sigChan <- "signature generated"
 		t.broadcastKeysignFailure(msgID, allPeersID)
-		blameNodes := *blameMgr.GetBlame()
+		blameNodes := blameMgr.GetBlame().Snapshot()
 		return keysign.Response{
 			Status: common.Fail,
 			Blame:  blameNodes,
-- 
2.43.0


From afcf33f7be86ec1dae9fd5b65c99a5c22161a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 18/21] fix: forget the join of a session however it ends

---
 p2p/party_coordinator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 4c0836a..f6c04ad 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -329,6 +329,8 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 		return nil, fmt.Errorf("fail to create join party:%w", err)
 	}
 
+	defer pc.removePeerGroup(msgID)
+
 	leaderPeerID, err := peer.Decode(leader)
 	if err != nil {
 		return nil, fmt.Errorf("fail to decode peer id(%s):%w", leader, err)
@@ -419,6 +421,7 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 		pc.logger.Error().Err(err).Msg("fail to create the join party group")
 		return nil, err
 	}
+	defer pc.removePeerGroup(msgID)
 	peerGroup.peerStatusLock.Lock()
 	peerGroup.leader = pc.host.ID().String()
 	peerGroup.peerStatusLock.Unlock()
-- 
2.43.0


From f33f8b3440ecfe8af60f18fa73fbe65297e8f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 19/21] fix: the leader of a join is set once, when its record
 is made

---
 p2p/party_coordinator.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index f6c04ad..4b6430a 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -328,14 +328,12 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	if err != nil {
 		return nil, fmt.Errorf("fail to create join party:%w", err)
 	}
-
 	defer pc.removePeerGroup(msgID)
 
 	leaderPeerID, err := peer.Decode(leader)
 	if err != nil {
 		return nil, fmt.Errorf("fail to decode peer id(%s):%w", leader, err)
 	}
-	peerGroup.leader = leader
 	msg := messages.JoinPartyLeaderComm{
 		ID: msgID,
 	}
@@ -422,9 +420,6 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 		return nil, err
 	}
 	defer pc.removePeerGroup(msgID)
-	peerGroup.peerStatusLock.Lock()
-	peerGroup.leader = pc.host.ID().String()
-	peerGroup.peerStatusLock.Unlock()
 	allPeers, err := pc.getPeerIDs(peers)
 	if err != nil {
 		pc.logger.Error().Err(err).Msg("fail to parse peer id")
-- 
2.43.0


From d21a0821d68fbe6a80303e65c7ab7f65c4ea6579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 20/21] fix: a member starts with a party larger than the
 threshold only, like the leader

---
 p2p/party_coordinator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 4b6430a..2b2edb4 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -407,6 +407,10 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	}
 
 	if peerGroup.getLeaderResponse().Type == messages.JoinPartyLeaderComm_Success {
+		// the leader puts itself in the list as well, so need threshold +1
+		if len(pIDs) < threshold+1 {
+			return pIDs, errors.New("not enough peer")
+		}
 		return pIDs, nil
 	}
 	pc.logger.Error().Msg("leader response with join party timeout")
-- 
2.43.0


From 8e895b7cbeb78e8bc863432342109f858ed28194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 21/21] fix: a signing request without messages is refused
 instead of crashing the engine set-up

---
 tss/keysign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tss/keysign.go b/tss/keysign.go
index 44c53a5..bbd0024 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -191,6 +191,9 @@ func (t *TssServer) KeySign(req keysign.Request) (keysign.Response, error) {
 		Str("msg", strings.Join(req.Messages, ",")).
 		Msg("received keysign request")
 	emptyResp := keysign.Response{}
+	if len(req.Messages) == 0 {
+		return emptyResp, errors.New("no message to sign")
+	}
 	msgID, err := t.requestToMsgId(req)
 	if err != nil {
 		return emptyResp, err
-- 
2.43.0

