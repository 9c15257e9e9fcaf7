// ---- key shares on disk (C21, C30) ----
import storage gitlab.com/thorchain/tss/go-tss/storage
import lkeygen github.com/binance-chain/tss-lib/ecdsa/keygen
import os os
import ioutil io/ioutil
import filepath path/filepath

// the file system: what a path holds, what it is certain to hold after a crash, and which paths have been used
declare fileNo(string) int
declare unfile(int) string
axiom forall p string {fileNo(p)} :: unfile(fileNo(p)) == p
ghost files global [1]string
ghost durable global [1]string
ghost touched global set[string]
ghost fpath os.File string
extern os.IsNotExist(err) (r)
  nopanic
  ensures r ==> err != nil
extern os.Stat(name) (info, err)
  modifies ghost(touched)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
extern os.MkdirAll(name, perm) (err)
  modifies ghost(touched)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
extern os.ReadFile(name) (b, err)
  modifies ghost(touched)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
  ensures err == nil ==> string(b) == ghost(files)[fileNo(name)]
extern io/ioutil.ReadFile(name) (b, err)
  modifies ghost(touched)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
  ensures err == nil ==> string(b) == ghost(files)[fileNo(name)]
// a file that is written directly may hold anything after a crash
extern os.WriteFile(name, b, perm) (err)
  modifies ghost(touched), ghost(files), ghost(durable)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
  ensures forall i int :: i != fileNo(name) ==> ghost(files)[i] == old(ghost(files)[i]) && ghost(durable)[i] == old(ghost(durable)[i])
  ensures err == nil ==> ghost(files)[fileNo(name)] == string(b)
extern io/ioutil.WriteFile(name, b, perm) (err)
  modifies ghost(touched), ghost(files), ghost(durable)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
  ensures forall i int :: i != fileNo(name) ==> ghost(files)[i] == old(ghost(files)[i]) && ghost(durable)[i] == old(ghost(durable)[i])
  ensures err == nil ==> ghost(files)[fileNo(name)] == string(b)
extern os.OpenFile(name, flag, perm) (f, err)
  modifies ghost(touched), ghost(files), ghost(durable)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
  ensures forall i int :: i != fileNo(name) ==> ghost(files)[i] == old(ghost(files)[i]) && ghost(durable)[i] == old(ghost(durable)[i])
  ensures err == nil ==> fresh(f) && ghost(fpath, f) == name
  // O_WRONLY|O_CREATE|O_TRUNC
  ensures err == nil && flag == 577 ==> ghost(files)[fileNo(name)] == ""
extern os.Create(name) (f, err)
  modifies ghost(touched), ghost(files), ghost(durable)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
  ensures forall i int :: i != fileNo(name) ==> ghost(files)[i] == old(ghost(files)[i]) && ghost(durable)[i] == old(ghost(durable)[i])
  ensures err == nil ==> fresh(f) && ghost(fpath, f) == name && ghost(files)[fileNo(name)] == ""
extern os.Open(name) (f, err)
  modifies ghost(touched)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
  ensures err == nil ==> fresh(f) && ghost(fpath, f) == name
extern os.File.Write(f, b) (n, err)
  requires f != nil
  modifies ghost(files), ghost(durable)
  nopanic
  ensures forall i int :: i != fileNo(ghost(fpath, f)) ==> ghost(files)[i] == old(ghost(files)[i]) && ghost(durable)[i] == old(ghost(durable)[i])
  ensures err == nil ==> n == len(b) && ghost(files)[fileNo(ghost(fpath, f))] == old(ghost(files)[fileNo(ghost(fpath, f))]) + string(b)
extern os.File.Sync(f) (err)
  modifies ghost(durable)
  nopanic
  ensures forall i int :: ghost(durable)[i] == old(ghost(durable)[i]) || ghost(durable)[i] == ghost(files)[i] && (i == fileNo(ghost(fpath, f)) || filepath.Dir(unfile(i)) == ghost(fpath, f))
  ensures err == nil ==> ghost(durable)[fileNo(ghost(fpath, f))] == ghost(files)[fileNo(ghost(fpath, f))]
extern os.File.Close(f) (err)
  nopanic
extern os.Remove(name) (err)
  modifies ghost(touched), ghost(files), ghost(durable)
  nopanic
  ensures ghost(touched) == upd(old(ghost(touched)), name, true)
  ensures forall i int :: i != fileNo(name) ==> ghost(files)[i] == old(ghost(files)[i]) && ghost(durable)[i] == old(ghost(durable)[i])
// a rename happens entirely or not at all, but what it moves is only as durable as it was
extern os.Rename(a, b) (err)
  modifies ghost(touched), ghost(files), ghost(durable)
  nopanic
  ensures ghost(touched) == upd(upd(old(ghost(touched)), a, true), b, true)
  ensures forall i int :: i != fileNo(a) && i != fileNo(b) ==> ghost(files)[i] == old(ghost(files)[i]) && ghost(durable)[i] == old(ghost(durable)[i])
  ensures err == nil ==> ghost(files)[fileNo(b)] == old(ghost(files)[fileNo(a)])
  ensures err != nil ==> ghost(files)[fileNo(b)] == old(ghost(files)[fileNo(b)])
  ensures ghost(durable)[fileNo(b)] == old(ghost(durable)[fileNo(b)]) || ghost(durable)[fileNo(b)] == old(ghost(durable)[fileNo(a)])
declare pathjoin(string, string) string
extern pure path/filepath.Dir(p) (r)
  nopanic

define keyOk(k) = decodes(k) && res1(parsed(k)) == nil && btcec.S256().IsOnCurve(res0(parsed(k)).X, res0(parsed(k)).Y)
define stateName(fsm, k) = ite(len(fsm.folder) > 0, pathjoin(fsm.folder, "localstate-" + k + ".json"), "localstate-" + k + ".json")
define onDisk(p) = ghost(files)[fileNo(p)]
func storage.FileStateMgr.getFilePathName(fsm, pubKey) (r, err) [C21]
  nopanic
  ensures err == nil <==> keyOk(pubKey)
  ensures err == nil ==> r == stateName(fsm, pubKey)

func storage.FileStateMgr.SaveLocalState(fsm, state) (err) [C21]
  requires fsm.writeLock != nil
  modifies ghost(files), ghost(durable), ghost(touched)
  nopanic
  locks [C23]
  // saved in full under its own key, and nowhere else
  ensures err == nil ==> keyOk(state.PubKey) && jsonok(state) && onDisk(stateName(fsm, state.PubKey)) == jsonenc(state)
  ensures forall i int :: i != fileNo(stateName(fsm, state.PubKey)) && i != fileNo(stateName(fsm, state.PubKey) + ".tmp") ==> ghost(files)[i] == old(ghost(files)[i])
  ensures !keyOk(state.PubKey) ==> err != nil && ghost(touched) == old(ghost(touched)) && ghost(files) == old(ghost(files))
  // at every point where the process may stop the file holds the old share or the complete new one
  crashinv [C30] ghost(durable)[fileNo(stateName(fsm, state.PubKey))] == old(ghost(durable)[fileNo(stateName(fsm, state.PubKey))]) || ghost(durable)[fileNo(stateName(fsm, state.PubKey))] == old(onDisk(stateName(fsm, state.PubKey))) || ghost(durable)[fileNo(stateName(fsm, state.PubKey))] == jsonenc(state)
  ensures [C30] err == nil ==> onDisk(stateName(fsm, state.PubKey)) == jsonenc(state)

func storage.FileStateMgr.GetLocalState(fsm, pubKey) (r, err) [C21]
  modifies ghost(touched)
  nopanic
  ensures err == nil ==> keyOk(pubKey) && len(pubKey) > 0 && jsondec(storage.KeygenLocalState, ok, onDisk(stateName(fsm, pubKey)))
  ensures err == nil ==> r.PubKey == jsondec(storage.KeygenLocalState, PubKey, onDisk(stateName(fsm, pubKey))) && r.LocalPartyKey == jsondec(storage.KeygenLocalState, LocalPartyKey, onDisk(stateName(fsm, pubKey)))
  ensures forall p string :: p in ghost(touched) ==> p in old(ghost(touched)) || keyOk(pubKey) && len(pubKey) > 0 && p == stateName(fsm, pubKey)

// ---- the address book ----
import bytes bytes
import ma github.com/multiformats/go-multiaddr
extern bytes.Buffer.WriteString(b, s) (n, err)
  nopanic
  ensures err == nil
extern bytes.Buffer.Bytes(b) (r)
  nopanic
extern pure github.com/multiformats/go-multiaddr.NewMultiaddr(s) (a, err)
  nopanic
  ensures err == nil ==> a != nil
extern pure github.com/multiformats/go-multiaddr.Multiaddr.String(a) (r)
  nopanic
define bookName(fsm) = pathjoin(fsm.folder, "address_book.seed")
func storage.FileStateMgr.SaveAddressBook(fsm, address) (err) [C21]
  requires fsm.writeLock != nil
  requires forall p peer.ID, i int :: p in address && 0 <= i && i < len(address[p]) ==> address[p][i] != nil
  modifies ghost(files), ghost(durable), ghost(touched)
  nopanic
  locks [C23]
  // the shares are left alone
  ensures forall i int :: i != fileNo(bookName(fsm)) ==> ghost(files)[i] == old(ghost(files)[i])
  ensures len(fsm.folder) == 0 ==> err != nil && ghost(files) == old(ghost(files)) && ghost(touched) == old(ghost(touched))
func storage.FileStateMgr.RetrieveP2PAddresses(fsm) (r, err) [C21]
  requires fsm.writeLock != nil
  modifies ghost(touched)
  nopanic
  locks [C23]
  ensures len(fsm.folder) == 0 ==> err != nil
  ensures err != nil ==> len(r) == 0
  ensures forall i int :: 0 <= i && i < len(r) ==> r[i] != nil
