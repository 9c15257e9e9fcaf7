// ---- requests over HTTP (C27) ----
import http net/http
declare jsonfirst(string) string
declare jsonrest(string) string
ghost src encoding/json.Decoder string
ghost text io.Reader string
// what a response writer was told: the status (the first one counts) and the text handed over
ghost status net/http.ResponseWriter int
ghost sent net/http.ResponseWriter string
extern net/http.ResponseWriter.WriteHeader(w, code)
  modifies ghost(status, w)
  nopanic
  ensures ghost(status, w) == ite(old(ghost(status, w)) == 0, code, old(ghost(status, w)))
extern net/http.ResponseWriter.Write(w, b) (n, err)
  modifies ghost(status, w), ghost(sent, w)
  nopanic
  ensures ghost(status, w) == ite(old(ghost(status, w)) == 0, 200, old(ghost(status, w)))
  ensures ghost(sent, w) == old(ghost(sent, w)) + string(b)
extern encoding/json.NewDecoder(r) (d)
  nopanic
  ensures fresh(d) && ghost(src, d) == ghost(text, r)
extern io.ReadCloser.Close(r) (err)
  nopanic
// the engine, and its last answers
ghost asked global int
ghost genAnswer global keygen.Response
ghost signAnswer global keysign.Response
ghost signErr global error
extern tss.Server.Keygen(s, req) (resp, err)
  modifies ghost(asked), ghost(genAnswer)
  nopanic
  ensures ghost(asked) == old(ghost(asked)) + 1 && ghost(genAnswer) == resp
extern tss.Server.KeySign(s, req) (resp, err)
  modifies ghost(asked), ghost(signAnswer), ghost(signErr)
  nopanic
  ensures ghost(asked) == old(ghost(asked)) + 1 && ghost(signAnswer) == resp && ghost(signErr) == err
extern tss.Server.GetLocalPeerID(s) (id)
  nopanic
define bodyOf(r) = jsonfirst(old(ghost(text, r.Body)))

func cmd/tss.TssHttpServer.keygenHandler(t, w, r) () [C27]
  requires t.tssServer != nil && w != nil && r != nil && r.Body != nil && ghost(status, w) == 0
  modifies ghost(status, w), ghost(sent, w), ghost(asked), ghost(genAnswer)
  nopanic
  atcall tss.Server.Keygen(s, q) s == t.tssServer && r.Method == "POST" && jsondec(keygen.Request, ok, bodyOf(r)) && seq(q.Keys) == jsondec(keygen.Request, Keys, bodyOf(r)) && q.BlockHeight == jsondec(keygen.Request, BlockHeight, bodyOf(r)) && q.Version == jsondec(keygen.Request, Version, bodyOf(r))
  ensures r.Method != "POST" || !jsondec(keygen.Request, ok, bodyOf(r)) ==> ghost(asked) == old(ghost(asked)) && ghost(status, w) >= 400 && ghost(sent, w) == old(ghost(sent, w))
  ensures r.Method == "POST" && jsondec(keygen.Request, ok, bodyOf(r)) ==> ghost(asked) == old(ghost(asked)) + 1
  ensures ghost(asked) != old(ghost(asked)) && jsonok(ghost(genAnswer)) ==> ghost(status, w) == 200 && (ghost(sent, w) == old(ghost(sent, w)) + jsonenc(ghost(genAnswer)) || ghost(sent, w) == old(ghost(sent, w)) + jsonindentenc(ghost(genAnswer)))
  ensures ghost(asked) != old(ghost(asked)) && !jsonok(ghost(genAnswer)) ==> ghost(status, w) >= 400 && ghost(sent, w) == old(ghost(sent, w))

func cmd/tss.TssHttpServer.keySignHandler(t, w, r) () [C27]
  requires t.tssServer != nil && w != nil && r != nil && r.Body != nil && ghost(status, w) == 0
  modifies ghost(status, w), ghost(sent, w), ghost(asked), ghost(signAnswer), ghost(signErr)
  nopanic
  atcall tss.Server.KeySign(s, q) s == t.tssServer && r.Method == "POST" && jsondec(keysign.Request, ok, bodyOf(r)) && q.PoolPubKey == jsondec(keysign.Request, PoolPubKey, bodyOf(r)) && seq(q.Messages) == jsondec(keysign.Request, Messages, bodyOf(r)) && seq(q.SignerPubKeys) == jsondec(keysign.Request, SignerPubKeys, bodyOf(r)) && q.BlockHeight == jsondec(keysign.Request, BlockHeight, bodyOf(r)) && q.Version == jsondec(keysign.Request, Version, bodyOf(r))
  ensures r.Method != "POST" || !jsondec(keysign.Request, ok, bodyOf(r)) ==> ghost(asked) == old(ghost(asked)) && ghost(status, w) >= 400 && ghost(sent, w) == old(ghost(sent, w))
  ensures r.Method == "POST" && jsondec(keysign.Request, ok, bodyOf(r)) ==> ghost(asked) == old(ghost(asked)) + 1
  ensures ghost(asked) != old(ghost(asked)) && ghost(signErr) == nil && jsonok(ghost(signAnswer)) ==> ghost(status, w) == 200 && (ghost(sent, w) == old(ghost(sent, w)) + jsonenc(ghost(signAnswer)) || ghost(sent, w) == old(ghost(sent, w)) + jsonindentenc(ghost(signAnswer)))
  ensures ghost(asked) != old(ghost(asked)) && (ghost(signErr) != nil || !jsonok(ghost(signAnswer))) ==> ghost(status, w) >= 400 && ghost(sent, w) == old(ghost(sent, w))

func cmd/tss.TssHttpServer.getP2pIDHandler(t, w, q) () [C27]
  requires t.tssServer != nil && w != nil && ghost(status, w) == 0
  modifies ghost(status, w), ghost(sent, w)
  nopanic
