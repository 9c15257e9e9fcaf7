// ---- session identifiers (C13) ----
define hexsha(s) = hex.EncodeToString(string(sha256.Sum256(s)))

func common.MsgToHashString(msg) (r, err) [C13]
  nopanic [C07]
  ensures len(msg) == 0 ==> err != nil && r == ""
  ensures len(msg) > 0 ==> err == nil && r == hexsha(string(msg))

define genContent(v) = joinsorted(v.Keys, "")
define signContent(v) = joinsorted(v.Messages, ",") + joinsorted(v.SignerPubKeys, "")

func tss.TssServer.requestToMsgId(t, request) (id, err) [C13]
  requires is(request, keysign.Request) ==> disjoint(as(request, keysign.Request).Messages, as(request, keysign.Request).SignerPubKeys)
  modifies anyelems(string)
  ensures is(request, keygen.Request) && old(genContent(as(request, keygen.Request))) != "" ==> err == nil && id == hexsha(old(genContent(as(request, keygen.Request))))
  ensures is(request, keygen.Request) && old(genContent(as(request, keygen.Request))) == "" ==> err != nil && id == ""
  ensures is(request, keysign.Request) && old(signContent(as(request, keysign.Request))) != "" ==> err == nil && id == hexsha(old(signContent(as(request, keysign.Request))))
  ensures is(request, keysign.Request) && old(signContent(as(request, keysign.Request))) == "" ==> err != nil && id == ""
  ensures !is(request, keygen.Request) && !is(request, keysign.Request) ==> err != nil && id == ""
