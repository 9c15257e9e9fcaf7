// dependencies without an effect on the modelled state: their results are arbitrary
noeffect github.com/rs/zerolog github.com/rs/zerolog/log fmt time

extern pure math.Ceil(x) (r)
  ensures r >= x && r < x + 1
  ensures r == real(int(r))

// digests, encodings: functions of the bytes, without collisions
declare unsha(string) string
declare unhex(string) string
declare unitoa(string) int
extern pure crypto/sha256.Sum256(data) (r)
extern pure encoding/hex.EncodeToString(b) (r)
extern pure strconv.FormatInt(i, base) (r)
axiom forall a string {sha256.Sum256(a)} :: unsha(string(sha256.Sum256(a))) == a && len(string(sha256.Sum256(a))) == 32
axiom forall a string {hex.EncodeToString(a)} :: unhex(hex.EncodeToString(a)) == a
ghost buf bytes.Buffer string
// peer identities: the text form is unique, and decodes to the identity
extern pure github.com/libp2p/go-libp2p-core/peer.ID.String(id) (r)
  nopanic
extern pure github.com/libp2p/go-libp2p-core/peer.Decode(s) (r, err)
  nopanic
declare unpeer(string) peer.ID
axiom forall p peer.ID {p.String()} :: unpeer(p.String()) == p
