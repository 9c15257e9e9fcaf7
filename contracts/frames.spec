// ---- stream frames (C18) ----
// bytes which will still arrive from a reader before an error or the end
ghost in io.Reader string
// bytes handed to the transport; bytes buffered in a writer and its destination
ghost out io.Writer string
ghost pend bufio.Writer string
ghost wdst bufio.Writer io.Writer
declare le32(string) int
declare le32enc(int) string
axiom forall v int {le32enc(v)} :: len(le32enc(v)) == 4 && (0 <= v && v <= 4294967295 ==> le32(le32enc(v)) == v)
axiom forall s string {le32(s)} :: 0 <= le32(s) && le32(s) <= 4294967295

extern bufio.NewReader(rd) (r)
  nopanic
  ensures fresh(r) && ghost(in, r) == ghost(in, rd)
extern io.ReadFull(r, buf) (n, err)
  nopanic
  modifies ghost(in, r), elems(buf)
  ensures 0 <= n && n <= len(buf)
  ensures len(old(ghost(in, r))) >= len(buf) ==> err == nil && n == len(buf) && string(buf) == sub(old(ghost(in, r)), 0, len(buf)) && ghost(in, r) == sub(old(ghost(in, r)), len(buf), len(old(ghost(in, r))) - len(buf))
  ensures len(old(ghost(in, r))) < len(buf) ==> err != nil && n < len(buf)
extern bufio.Reader.Read(r, buf) (n, err)
  nopanic
  modifies ghost(in, r), elems(buf)
  ensures 0 <= n && n <= len(buf)
  ensures n <= len(old(ghost(in, r)))
extern encoding/binary.littleEndian.Uint32(o, b) (r)
  nopanic
  requires len(b) >= 4
  ensures r == le32(sub(string(b), 0, 4))
extern encoding/binary.littleEndian.PutUint32(o, b, v) ()
  nopanic
  requires len(b) >= 4
  modifies elems(b)
  ensures sub(string(b), 0, 4) == le32enc(v)
extern bufio.NewWriter(w) (r)
  nopanic
  ensures fresh(r) && ghost(pend, r) == "" && ghost(wdst, r) == w
extern bufio.Writer.Write(w, p) (n, err)
  nopanic
  modifies ghost(pend, w)
  ensures 0 <= n && n <= len(p)
  ensures err == nil ==> n == len(p) && ghost(pend, w) == old(ghost(pend, w)) + string(p)
  ensures n < len(p) ==> err != nil
extern bufio.Writer.Flush(w) (err)
  nopanic
  modifies ghost(pend, w), ghost(out, ghost(wdst, w))
  ensures err == nil ==> ghost(pend, w) == "" && ghost(out, old(ghost(wdst, w))) == old(ghost(out, ghost(wdst, w))) + old(ghost(pend, w))
extern io.Writer.Write(w, p) (n, err)
  nopanic
  modifies ghost(out, w)
  ensures 0 <= n && n <= len(p)
  ensures err == nil ==> n == len(p) && ghost(out, w) == old(ghost(out, w)) + string(p)
  ensures n < len(p) ==> err != nil
extern github.com/libp2p/go-libp2p-core/mux.MuxedStream.SetReadDeadline(s, t) (err)
  nopanic
extern github.com/libp2p/go-libp2p-core/mux.MuxedStream.SetWriteDeadline(s, t) (err)
  nopanic

define announced(s) = le32(sub(s, 0, 4))
func p2p.ReadStreamWithBuffer(stream) (data, err) [C18]
  requires stream != nil
  modifies ghost(nReset), ghost(resetLog)
  nopanic [C07]
  alloc ite(len(old(ghost(in, stream))) >= 4 && announced(old(ghost(in, stream))) <= p2p.MaxPayload, ite(announced(old(ghost(in, stream))) > 4, announced(old(ghost(in, stream))), 4), 4)
  ensures err == nil ==> len(old(ghost(in, stream))) >= 4 && announced(old(ghost(in, stream))) <= p2p.MaxPayload && len(old(ghost(in, stream))) >= 4 + announced(old(ghost(in, stream)))
  ensures err == nil ==> string(data) == sub(old(ghost(in, stream)), 4, announced(old(ghost(in, stream)))) && len(data) == announced(old(ghost(in, stream)))
  ensures err != nil ==> data == nil
  ensures !p2p.ApplyDeadline && len(old(ghost(in, stream))) >= 4 && announced(old(ghost(in, stream))) <= p2p.MaxPayload && len(old(ghost(in, stream))) >= 4 + announced(old(ghost(in, stream))) ==> err == nil

func p2p.WriteStreamWithBuffer(msg, stream) (err) [C18]
  requires stream != nil
  requires len(msg) <= 4294967295
  modifies ghost(nReset), ghost(resetLog), ghost(out, stream)
  nopanic [C07]
  ensures err == nil ==> ghost(out, stream) == old(ghost(out, stream)) + le32enc(len(msg)) + string(msg)
