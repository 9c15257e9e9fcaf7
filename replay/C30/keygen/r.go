package keygen

// The end of a keygen: the share must have been saved before the peers or the caller hear of it.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"syscall"
	"testing"
	"time"

	bcrypto "github.com/binance-chain/tss-lib/crypto"
	bkg "github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/btcsuite/btcd/btcec"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	"github.com/rs/zerolog"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/storage"
)

type vStore struct {
	storage.LocalStateManager
	out   chan *messages.BroadcastMsgChan
	err   error
	early int
	saved []storage.KeygenLocalState
}

func (s *vStore) SaveLocalState(st storage.KeygenLocalState) error {
	time.Sleep(8 * time.Millisecond)
	s.early += len(s.out)
	if s.err == nil {
		s.saved = append(s.saved, st)
	}
	return s.err
}
func (s *vStore) SaveAddressBook(map[peer.ID]addr.AddrList) error { return nil }

func TestVerifReplayKeygenEnd(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	_ = os.Getenv("VERIF_SEED")
	var errs []error
	for _, e := range []error{errors.New("disk full"), io.EOF, io.ErrShortWrite, os.ErrExist, os.ErrNotExist, os.ErrPermission, os.ErrInvalid, os.ErrClosed, context.Canceled, context.DeadlineExceeded,
		syscall.EEXIST, syscall.ENOENT, syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EROFS, syscall.EINTR, syscall.EAGAIN, syscall.EBUSY, syscall.EDQUOT, syscall.EFBIG, syscall.ENOTEMPTY, syscall.EXDEV, syscall.EMFILE, syscall.ENOSYS} {
		errs = append(errs, e, &os.PathError{Op: "write", Path: "x", Err: e}, fmt.Errorf("fail to save: %w", e), &os.LinkError{Op: "rename", Old: "x", New: "y", Err: e})
	}
	for n := 0; n < 2*len(errs); n++ {
		out := make(chan *messages.BroadcastMsgChan, 64)
		st := &vStore{out: out}
		if n%2 == 1 {
			st.err = errs[n/2]
		}
		k := NewTssKeyGen("me", common.TssConfig{KeyGenTimeout: time.Minute}, "", out, make(chan struct{}), nil, "id", st, secp256k1.GenPrivKey(), &p2p.Communication{})
		x, y := btcec.S256().ScalarBaseMult(big.NewInt(int64(n + 5)).Bytes())
		pt, err := bcrypto.NewECPoint(btcec.S256(), x, y)
		if err != nil {
			t.Fatal(err)
		}
		endCh := make(chan bkg.LocalPartySaveData, 1)
		endCh <- bkg.LocalPartySaveData{ECDSAPub: pt}
		var r *bcrypto.ECPoint
		done := false
		func() {
			// the address book of a communication which was not started cannot be exported
			defer func() { recover() }()
			r, err = k.processKeyGen(make(chan struct{}), make(chan btss.Message), endCh, storage.KeygenLocalState{ParticipantKeys: []string{"a", "b"}, LocalPartyKey: "a"})
			done = true
		}()
		fail := func(f string, a ...interface{}) {
			fmt.Printf("REPLAY-FAIL: keygen ended (saving the share fails with: %v): %s\n", st.err, fmt.Sprintf(f, a...))
			t.FailNow()
		}
		if st.early != 0 {
			fail("the peers were told before the share was saved")
		}
		if st.err != nil {
			if len(out) != 0 {
				fail("the peers were told although the share was not saved")
			}
			if done && err == nil {
				fail("the key was reported although the share was not saved (%v)", r)
			}
			continue
		}
		pk, _, _ := conversion.GetTssPubKey(pt)
		if len(out) != 0 || done && err == nil {
			if len(st.saved) != 1 || st.saved[0].PubKey != pk || len(st.saved[0].ParticipantKeys) != 2 {
				fail("what was saved is not the share of this key")
			}
		}
	}
}
