// ---- the confirmation table (C04, C05) ----
guard common.LocalCacheItem.ConfirmedList by common.LocalCacheItem.lock [C23]
guard common.TssCommon.unConfirmedMessages by common.TssCommon.unConfirmedMsgLock [C23]

func common.NewLocalCacheItem(msg, hash) (r) [C05]
  nopanic [C07]
  ensures fresh(r) && fresh(r.lock) && fresh(r.ConfirmedList) && r.Msg == msg && r.Hash == hash
  ensures forall p string :: !(p in r.ConfirmedList)
  ensures len(r.ConfirmedList) == 0

func common.LocalCacheItem.UpdateConfirmList(l, P2PID, hash) () [C05]
  requires l.lock != nil && l.ConfirmedList != nil
  modifies elems(l.ConfirmedList)
  nopanic [C07]
  locks [C23]
  ensures P2PID in l.ConfirmedList && l.ConfirmedList[P2PID] == hash
  ensures forall p string :: p != P2PID ==> (p in l.ConfirmedList) == old(p in l.ConfirmedList) && l.ConfirmedList[p] == old(l.ConfirmedList[p])
  ensures len(l.ConfirmedList) == ite(old(P2PID in l.ConfirmedList), old(len(l.ConfirmedList)), old(len(l.ConfirmedList)) + 1)

func common.LocalCacheItem.TotalConfirmParty(l) (n) [C05]
  requires l.lock != nil
  nopanic [C07]
  locks [C23]
  ensures n == len(l.ConfirmedList)

func common.LocalCacheItem.GetPeers(l) (r) [C05]
  requires l.lock != nil
  nopanic [C07]
  locks [C23]
  ensures len(r) == len(l.ConfirmedList)
  ensures forall p string :: p in r <==> p in l.ConfirmedList

func common.getHighestFreq(confirmedList) (hash, freq, err) [C04]
  nopanic [C07]
  ensures len(confirmedList) == 0 ==> err != nil
  ensures len(confirmedList) > 0 ==> err == nil && freq == count(confirmedList, hash) && freq > 0
  ensures len(confirmedList) > 0 ==> (forall h string :: count(confirmedList, h) <= freq)
  ensures len(confirmedList) > 0 ==> (exists p string :: p in confirmedList && confirmedList[p] == hash)

func common.TssCommon.getMsgHash(t, localCacheItem, threshold) (hash, err) [C04]
  requires localCacheItem != nil
  requires [C23] held(localCacheItem.lock)
  locks [C23]
  nopanic [C07]
  ensures err == nil ==> (forall h string :: count(localCacheItem.ConfirmedList, h) <= count(localCacheItem.ConfirmedList, hash))
  ensures err == nil ==> count(localCacheItem.ConfirmedList, hash) >= threshold - 1 && (exists p string :: p in localCacheItem.ConfirmedList && localCacheItem.ConfirmedList[p] == hash)
  ensures err != nil ==> len(localCacheItem.ConfirmedList) == 0 || (forall h string :: count(localCacheItem.ConfirmedList, h) < threshold - 1)
  ensures err != nil ==> hash == "" && (err == blame.ErrHashCheck || err == blame.ErrHashInconsistency)

// the peer which owns the message of the item
define owner(t, item) = t.PartyIDtoP2PID[item.Msg.Routing.From.Id].String()
func common.TssCommon.hashCheck(t, localCacheItem, threshold) (err) [C04]
  requires localCacheItem != nil && localCacheItem.lock != nil && localCacheItem.Msg != nil && localCacheItem.Msg.Routing != nil && localCacheItem.Msg.Routing.From != nil  && localCacheItem.Msg.Routing.From.MessageWrapper_PartyID != nil
  modifies elems(localCacheItem.ConfirmedList)
  nopanic [C07]
  locks [C23]
  ensures err == nil ==> localCacheItem.Msg.Routing.From.Id in t.PartyIDtoP2PID && !(owner(t, localCacheItem) in localCacheItem.ConfirmedList)
  ensures err == nil ==> len(localCacheItem.ConfirmedList) >= threshold
  ensures err == nil ==> count(localCacheItem.ConfirmedList, localCacheItem.Hash) >= threshold - 1 && (forall h string :: count(localCacheItem.ConfirmedList, h) <= count(localCacheItem.ConfirmedList, localCacheItem.Hash))
  ensures err == nil ==> (exists p string :: p in localCacheItem.ConfirmedList && localCacheItem.ConfirmedList[p] == localCacheItem.Hash)
  ensures errIs(err, blame.ErrNotEnoughPeer) ==> old(len(localCacheItem.ConfirmedList)) < threshold
  // nothing but a vote of the owner is ever removed
  ensures forall p string :: p != owner(t, localCacheItem) || err != blame.ErrHashFromOwner ==> (p in localCacheItem.ConfirmedList) == old(p in localCacheItem.ConfirmedList) && localCacheItem.ConfirmedList[p] == old(localCacheItem.ConfirmedList[p])
  ensures err == blame.ErrNotMajority ==> localCacheItem.Msg.Routing.From.Id in t.PartyIDtoP2PID && !(owner(t, localCacheItem) in localCacheItem.ConfirmedList)
