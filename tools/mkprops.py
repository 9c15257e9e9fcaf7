#!/usr/bin/env python3
"""Regenerates properties.jsonl (the single place where the property texts are edited)."""
import json,os
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Two-thirds signing threshold for every committee size',
 'For every committee of n members (n >= 0) the threshold t used by key generation, signing, share verification and blame is exactly ceil(2n/3)-1, so that t+1 members are always at least two thirds of the committee, and a negative size is refused with an error. A signing round never starts with t or fewer signers taking part, and the protocol parameters handed to the signing engine always carry the committee size and this threshold.',
 ['inputs','configurations'],'every committee size and every member list',
 'Tests sample n=1..a few; the bound must hold for every n, and each of the call sites must use it.',
 ['conversion/tss_helper.go','keygen/tss_keygen.go','keysign/tss_keysign.go','common/tss.go','tss/keysign.go'],
 [('threshold arithmetic','conversion/tss_helper.go:GetThreshold'),('keygen parameters','keygen/tss_keygen.go:GenerateNewKey'),('keysign parameters','keysign/tss_keysign.go:SignMessage'),('share-collection threshold','common/tss.go:ProcessOneMessage, hashCheck, processVerMsg')])
p('C02','Leader election is deterministic and order independent',
 'For every message identifier, block height and non-empty list of peers, the elected leader is a member of the list, it is the peer whose hash of identifier, height and peer name is the smallest in string order, and every permutation of the same list gives the same leader. An empty list, a zero height or an empty identifier is refused with an error and no leader.',
 ['inputs'],'every identifier, height, peer list and permutation of it',
 'Tests use one list and one height; agreement of all nodes needs every permutation of every list.',
 ['p2p/leader_provider.go','p2p/party_coordinator.go'],
 [('leader choice','p2p/leader_provider.go:LeaderNode')])
p('C03','Only authenticated members of the party can feed shares',
 'A protocol share is handed to the signing engine, or recorded as received, only if its envelope carries a signature that verifies under the public key of the party member named as its origin, over exactly the message bytes and this session; the share is attributed to that member only, never to another party named inside the payload. Messages of unknown members, with bad signatures, or with missing routing are refused without reaching the engine.',
 ['inputs','histories'],'every received envelope and payload, in every local state',
 'Tests sample a handful of forged messages; a single unverified path or a mismatch between the signed and the attributed origin breaks it.',
 ['common/tss.go','common/tss_helper.go'],
 [('envelope verification','common/tss.go:ProcessOneMessage'),('signature check','common/tss_helper.go:verifySignature'),('share unpacking and attribution','common/tss.go:updateLocal')])
p('C04','A broadcast share is applied only when the committee echoed its hash',
 'A broadcast share is applied to the local engine only when at least threshold-many members confirmed a hash for it, at least threshold-1 of them confirmed exactly the hash of the bytes that are applied, and no other hash has more confirmations; the member that owns the message never counts as a witness for it. When too few confirmations are in, the share waits; when the confirmed hash is another one, the share is dropped and the confirmed one is requested from those who confirmed it; otherwise the owner is blamed. In none of these cases is the share applied.',
 ['inputs','schedules','histories'],'every stored share and every set of confirmations, in any order of arrival',
 'Tests exercise one or two confirmation patterns; equivocation defence needs all of them.',
 ['common/tss.go','common/tss_helper.go','common/local_cache_item.go'],
 [('hash agreement','common/tss.go:hashCheck'),('majority hash','common/tss_helper.go:getHighestFreq'),('application of a share','common/tss.go:applyShare, processVerMsg, processTSSMsg')],
 [('confirmation table','hash reported by each peer for one share','common/local_cache_item.go:LocalCacheItem.ConfirmedList')])
p('C05','One confirmation per peer: later conflicting votes never replace it',
 'For every share, each peer contributes at most one confirmed hash to the count: a confirmation from a peer that already confirmed this share, or that is not a member of the party, is ignored whatever it carries, and a confirmation is always counted for the peer that sent it, whatever name it carries. The count equals the number of distinct confirming peers, and confirmations recorded for one share never affect another share.',
 ['inputs','histories','schedules'],'every sequence of confirmations from every set of peers',
 'Tests record a few confirmations; counting must hold for all sequences.',
 ['common/local_cache_item.go','common/tss.go'],
 [('confirmation update','common/local_cache_item.go:UpdateConfirmList'),('count','common/local_cache_item.go:TotalConfirmParty'),('cache','common/tss.go:TryGetLocalCacheItem, updateLocalUnconfirmedMessages, removeKey')])
p('C06','Each share reaches the engine once and never comes from an exposed cheater',
 'A share that was already accepted for a given round, signing message and sender is never handed to the engine again, and a share from a member already exposed as a cheater is refused. A share is recorded as accepted only after the engine took it, under exactly its round, message and sender.',
 ['inputs','histories'],'every bulk of shares, in every acceptance state',
 'Tests feed a few shares; the once-only guarantee is over all histories.',
 ['common/tss.go','blame/manager.go'],
 [('duplicate test','blame/manager.go:CheckMsgDuplication'),('acceptance record','blame/manager.go:UpdateAcceptShare'),('share unpacking','common/tss.go:updateLocal'),('engine worker','common/tss.go:doTssJob')],
 [('accepted shares','senders whose share was taken, per round and message','blame/manager.go:Manager.acceptedShares')])
p('C07','Hostile peer messages never crash the message handlers',
 'Whatever bytes a peer sends, and in whatever order, the code which decodes and dispatches protocol messages, confirmations, control requests and task-done notices returns normally or with an error: it never dereferences missing routing data, indexes out of range, closes a closed channel or writes a missing map.',
 ['inputs','histories'],'every payload and every order of payloads from the network',
 'Tests send well-formed messages and a few malformed ones; crash freedom must hold for all byte strings.',
 ['common/tss.go','common/tss_helper.go','keysign/notifier.go','p2p/communication.go'],
 [('dispatcher','common/tss.go:ProcessOneMessage'),('share unpacking','common/tss.go:updateLocal'),('confirmation handling','common/tss.go:processVerMsg, checkDupAndUpdateVerMsg'),('cached share handling','common/tss.go:processTSSMsg, applyShare, hashCheck')])
p('C08','Formation-failure blame names exactly the absent members',
 'When a party fails to form, the blamed members are exactly the requested members whose peer is not among the peers reported online, each once per request entry and in request order, with the synchronisation-failure reason. A key that cannot be converted yields an error rather than a wrong blame.',
 ['inputs'],'every list of member keys and every list of online peers',
 'Tests use one committee of four; exactness must hold for every pair of lists.',
 ['blame/policy.go','conversion/key_provider.go'],
 [('sync blame','blame/policy.go:NodeSyncBlame')])
p('C09','Timeout blame never names the local node or a member who delivered',
 'After a timeout, the broadcast blame names exactly the members, other than the local node, from whom no share of the last round was stored; the unicast blame names exactly the members, other than the local node, from whom no unicast share of that round was seen; and with no share at all of the round nobody is blamed. The missing-share blame names each node at most once, never the local node, and nobody when no share was accepted at all. Every blamed name is the public key of a member of the party.',
 ['inputs','histories'],'every party, every stored-share history and every round name',
 'Tests exercise one committee and a few missing peers.',
 ['blame/policy.go','blame/policy_helper.go','blame/manager.go','blame/round_mgr.go'],
 [('broadcast blame','blame/policy.go:tssTimeoutBlame, GetBroadcastBlame'),('unicast blame','blame/policy.go:GetUnicastBlame'),('set difference over keys','blame/policy_helper.go')])
p('C10','Blame records are kept without loss or duplication',
 'Recording blame always sets the given reason and direction and appends exactly the given nodes after those present; adding nodes to an existing record never removes any, never adds one equal (same key and same signature) to one already present, and leaves every given node represented. A record is reported as blamed exactly when it names at least one node.',
 ['inputs','histories'],'every sequence of recorded nodes',
 'Tests add a handful of nodes.',
 ['blame/blame.go'],
 [('record','blame/blame.go:SetBlame'),('deduplicating add','blame/blame.go:AddBlameNodes'),('node equality','blame/blame.go:Node.Equal')])
p('C11','Only complete, valid signature sets received from peers are delivered',
 'A waiting signer is handed signatures received from a peer only if there is exactly one signature for each requested message, each one present and each one verifying, in order, under the pool public key against its own message. Anything else is refused with an error (or ignored when the set is empty), delivers nothing and does not crash, and a notice for an unknown session changes nothing.',
 ['inputs','histories'],'every signature list received, of any length and content',
 'Tests send one valid and one invalid signature of the right length.',
 ['keysign/notifier.go','keysign/signature_notifier.go'],
 [('verification','keysign/notifier.go:ProcessSignature, verifySignature'),('dispatch','keysign/signature_notifier.go:handleStream')])
p('C12','Each signature in a response is paired with its own message',
 'The response of a successful signing lists one entry per signature, in order, and entry i carries the encodings of message i and of the three components of signature i, with the success status and no blame. A result is never reported for an empty signature set.',
 ['inputs'],'every list of messages and signatures',
 'Tests check a single message or compare only the count.',
 ['tss/keysign.go','keysign/response.go'],
 [('pairing','tss/keysign.go:batchSignatures'),('empty set','tss/keysign.go:waitForSignatures')])
p('C13','Session identifiers are the same on every node and bind the whole request',
 'The session identifier of a key generation or signing request depends only on the multiset of its member keys and of its messages: any order of either gives the same identifier, and it is the hash of the sorted messages joined by commas followed by the sorted keys, so every message and every key takes part. Requests of unknown kind or without content are refused with an error.',
 ['inputs'],'every request and every permutation of its keys and messages',
 'Tests compare two requests.',
 ['tss/tss.go','common/tss_helper.go'],
 [('identifier','tss/tss.go:requestToMsgId'),('hash','common/tss_helper.go:MsgToHashString')])
p('C14','Every node derives the same committee from the same keys',
 'From a list of member public keys the derived committee has exactly one party per key, numbered by the position of the key in sorted order and identified by the key bytes, so the order of the list is irrelevant; the local party is the one of the local key; and an undecodable key or a list without the local key is refused. The party-to-peer tables map every party to the peer identity of its own key, and the list of remote peers is the whole table without the local peer.',
 ['inputs'],'every key list and local key',
 'Tests use one fixed list of four keys.',
 ['conversion/conversion.go'],
 [('committee','conversion/conversion.go:GetParties'),('tables','conversion/conversion.go:SetupPartyIDMap, SetupIDMaps, GetPeersID')])
p('C15','Key and identity conversions are faithful and refuse invalid points',
 'Conversions between node public keys, party identities and peer identities convert each element of the input, in order, to the identity of exactly that key, and fail as a whole with an error if any element cannot be converted. A group public key that is missing or not a point of the curve is refused, and the address and public key returned belong to the very point supplied.',
 ['inputs'],'every key, identity or list of them',
 'Tests convert a few fixed keys.',
 ['conversion/conversion.go','conversion/key_provider.go'],
 [('conversions','conversion/key_provider.go:GetPeerIDsFromPubKeys, GetPubKeysFromPeerIDs, GetPeerIDFromPubKey, GetPubKeyFromPeerID'),('curve check','conversion/conversion.go:GetTssPubKey; conversion/key_provider.go:CheckKeyOnCurve')])
p('C16','The formation tracker counts each expected peer at most once',
 'While a party is forming, only expected peers (never the local one) are tracked; a peer that answers is marked online once and stays online; with a leader no more than the threshold of peers is ever counted, completion is signalled exactly when the threshold is reached, and an unexpected peer is refused with an error and changes nothing. The online and offline lists always partition the tracked peers, and coordination is complete exactly when none is offline.',
 ['inputs','histories','schedules'],'every peer list and every sequence of answers',
 'Tests run a few answer sequences.',
 ['p2p/peer_status.go'],
 [('creation','p2p/peer_status.go:NewPeerStatus'),('update','p2p/peer_status.go:updatePeer'),('report','p2p/peer_status.go:getPeersStatus, getCoordinationStatus')],
 [('responses','expected peer -> answered','p2p/peer_status.go:PeerStatus.peersResponse')])
p('C17','Formation state is kept per session and never leaks across sessions',
 'Joining a party registers exactly one tracking record for the session, made from the decoded peer list with the local peer excluded and with nobody online yet, and changes no other session\'s record; when the join ends, however it ends, no record of its session is left. A join announcement changes at most the record of the session it names, and in it only the mark of the peer it came from; a leader answer is taken only from the leader of the session it names.',
 ['inputs','histories'],'every peer list, session identifier and history of joins',
 'Tests run one or two sessions.',
 ['p2p/party_coordinator.go'],
 [('creation','p2p/party_coordinator.go:createJoinPartyGroups'),('removal','p2p/party_coordinator.go:removePeerGroup'),('decoding','p2p/party_coordinator.go:getPeerIDs')])
p('C18','Stream frames round-trip and respect the size limit',
 'Writing a message to a peer stream sends a four-byte little-endian length followed by exactly the message bytes, or reports an error; reading a frame returns exactly the announced number of bytes that follow the header. A frame announcing more than the maximum payload is refused before its body is read or a buffer for it is allocated, and a truncated header or body is an error, never short data.',
 ['inputs','fault_sequences'],'every message, every byte stream and every short read or write',
 'Tests read and write a few frames.',
 ['p2p/stream_helper.go'],
 [('read','p2p/stream_helper.go:ReadStreamWithBuffer'),('write','p2p/stream_helper.go:WriteStreamWithBuffer')])
p('C19','Inbound messages go only to the subscriber of their type and session',
 'A subscription for a message type and session is delivered exactly the messages of that type and session; subscribing one pair never changes another, cancelling removes only that pair, and a message without subscriber is dropped. The last subscription of a pair is the one in force.',
 ['inputs','histories','schedules'],'every sequence of subscriptions, cancellations and messages',
 'Tests subscribe two or three pairs.',
 ['p2p/message_id_subscriber.go','p2p/communication.go'],
 [('per-session table','p2p/message_id_subscriber.go'),('per-type table','p2p/communication.go:SetSubscribe, getSubscriber, CancelSubscribe')])
p('C20','Every parked stream is reset once when its session is released',
 'Parking a stream under a session appends it to that session and to no other; releasing a session resets every stream parked under it and every stream of unknown session, and afterwards none of the released session remains parked. Streams of other sessions are neither reset nor forgotten, and no stream parked meanwhile is forgotten without being reset.',
 ['inputs','histories','schedules'],'every history of parked streams and releases',
 'Tests park two streams and release one session.',
 ['p2p/stream_helper.go'],
 [('park','p2p/stream_helper.go:AddStream'),('release','p2p/stream_helper.go:ReleaseStream')],
 [('parked streams','streams per session','p2p/stream_helper.go:StreamMgr.unusedStreams')])
p('C21','Key shares are stored and loaded under their own public key only',
 'A saved key share is written in full to the file named after its own pool public key, inside the configured folder, and no other file but a temporary one next to it is touched; loading a public key decodes exactly the content of that file; an empty or malformed public key is refused before any file is touched. A failure to encode, write, read or decode is always reported as an error, never as an empty success.',
 ['inputs','fault_sequences'],'every state, public key and failing file operation',
 'Tests save and load one state.',
 ['storage/localstate_mgr.go'],
 [('save','storage/localstate_mgr.go:SaveLocalState'),('load','storage/localstate_mgr.go:GetLocalState'),('file name','storage/localstate_mgr.go:getFilePathName')])
p('C22','Outgoing shares are batched completely, signed and addressed correctly',
 'An outgoing batch is sent only when it holds one share of the same round (and, for unicast, the same destination) for every message being signed; it carries the encoding of exactly those shares, a signature by the local key over those bytes and the session, and goes to every remote peer for a broadcast or exactly to the peers of the named recipients for a unicast. A hash confirmation goes to every remote peer except the owner of the share and carries the hash of the very bytes received.',
 ['inputs','histories'],'every share, recipient list and session',
 'Tests send one share.',
 ['common/tss.go'],
 [('send','common/tss.go:sendBulkMsg'),('batching','common/tss.go:ProcessOutCh'),('confirmation','common/tss.go:receiverBroadcastHashToPeers, broadcastHashToPeers')])
p('C23','Shared protocol state is only touched under its lock',
 'Every read or write of the confirmation cache, acceptance records, blame records, formation records, subscriptions, parked streams and stored shares happens while the lock that protects that structure is held, and every path through these operations, including every error path, releases each lock it took exactly once.',
 ['schedules'],'every interleaving of concurrent handlers',
 'The race detector sees only the interleavings a test happens to run.',
 ['blame','p2p','common/tss.go','common/local_cache_item.go','keysign/signature_notifier.go'],
 [('lock discipline','all methods of the named structures')])
p('C24','Task completion is signalled exactly once, when enough distinct peers finished',
 'In a party of at least two, the completion signal of a session is raised exactly when notices have come from as many distinct peers as the party has other members; a repeated notice from one peer is refused and never counted twice, and the signal is never raised twice. A notice that does not declare completion, and any message that is not such a notice, changes nothing.',
 ['histories','inputs'],'every sequence of completion notices from every set of peers',
 'Tests send a few notices.',
 ['common/tss.go'],
 [('completion','common/tss.go:ProcessOneMessage (task done)')],
 [('finished peers','peers which announced completion','common/tss.go:TssCommon.finishedPeers')])
p('C25','Failure metrics and outcomes are counted in the right series',
 'Recording the outcome of a key generation, signing or party formation increments exactly one counter, the success one if and only if the outcome was a success, and records the duration in the series of that very operation and no other.',
 ['inputs'],'every outcome and duration',
 'No test reads the counters.',
 ['monitor/metric.go','tss/keysign.go'],
 [('counters','monitor/metric.go'),('keysign outcome','tss/keysign.go:updateKeySignResult')])
p('C26','Missing shares are requested from and served to the right peer',
 'When the local copy of a broadcast share is missing or in the minority, the request goes exactly to the peers which confirmed the majority hash and carries that hash and the key of that share; a request from a peer is answered only to that peer and only with the stored share of the requested key. A share that arrives in answer is processed only if the hash it names was requested and not answered yet.',
 ['inputs','histories'],'every confirmation table, request and answer',
 'Tests exercise one request.',
 ['common/tss.go','common/tss_helper.go','blame/share_mgr.go','blame/round_mgr.go'],
 [('request','common/tss.go:requestShareFromPeer'),('serve','common/tss_helper.go:processRequestMsgFromPeer'),('once','blame/share_mgr.go:QueryAndDelete')])
p('C27','HTTP requests are validated and answered with the engine\'s own result',
 'A key generation or signing request over HTTP reaches the engine only when it is a POST whose body decodes, with exactly the decoded fields. A key generation is answered with the encoding of the engine\'s own answer, which carries its status; a signing is answered with the encoding of the engine\'s answer when the engine reported no error, and with an error code and no answer when it did. A wrong method or an undecodable body is refused with an error code and never reaches the engine.',
 ['inputs','fault_sequences'],'every request body and engine answer',
 'Tests post one valid and one invalid body.',
 ['cmd/tss/tss_http.go'],
 [('handlers','cmd/tss/tss_http.go')])
p('C28','Honest committees always finish within the timeout',
 'With at least threshold-plus-one honest, connected members every key generation and signing eventually completes.',
 ['schedules','fault_sequences'],'every schedule of an honest majority',
 'Liveness over all schedules cannot be sampled.',
 ['keygen/tss_keygen.go','keysign/tss_keysign.go'],
 [('protocol loop','keygen/tss_keygen.go:processKeyGen; keysign/tss_keysign.go:processKeySign')])
p('C29','Signatures are unforgeable below the threshold',
 'No coalition of at most threshold members can produce a valid group signature or learn the group key.',
 ['inputs','schedules'],'every adversarial coalition',
 'Cryptographic security is not testable.',
 ['keygen/tss_keygen.go','keysign/tss_keysign.go'],
 [('engine','external tss-lib')])
p('C30','A crash never loses a key share that peers believe complete',
 'At every point where the process may stop or a file operation may fail while a key share is saved, the file of the share holds what it held before or the complete new share. A key generation announces its completion to the peers, and reports the new key, only after its share has been saved; when saving it fails, it does neither.',
 ['crash_points'],'every crash point during saving',
 'Tests never crash mid-write.',
 ['storage/localstate_mgr.go','keygen/tss_keygen.go'],
 [('save','storage/localstate_mgr.go:SaveLocalState'),('announce','keygen/tss_keygen.go:processKeyGen')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
