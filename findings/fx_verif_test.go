package fx

import (
	"context"
	"path/filepath"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
	abci "github.com/tendermint/tendermint/abci/types"
	tmclient "github.com/tendermint/tendermint/rpc/client"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

// node knows no receipts and has no chain id.
type node struct{}

func (*node) GetTransactionReceipt(h common.Hash) (interface{}, error) { return nil, nil }

func env(t *testing.T) *RunEnv {
	s := rpc.NewServer()
	if err := s.RegisterName("eth", &node{}); err != nil {
		t.Fatal(err)
	}
	k, _ := crypto.GenerateKey()
	c := contract.NewCaller(ethclient.NewClient(rpc.DialInProc(s)), k, nil, nil, nil, nil, nil, nil)
	return NewRunEnv(nil, &c, func() observe.World { return observe.World{} }, filepath.Join(t.TempDir(), "a.gob"))
}

func TestFindingInFlightForgottenOnShutdown(t *testing.T) {
	r := env(t)
	r.PendingActions.AddActions(0, []IAction{&SkipCipherBatch{}})
	r.PendingActions.SetMainChainTXHash(0, common.Hash{1})
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { r.handleInFlightTXs(ctx); close(done) }()
	r.inFlightMainChainTXs <- 0
	time.Sleep(100 * time.Millisecond)
	cancel()
	<-done
	if r.PendingActions.GetAction(0) == nil {
		t.Error("in-flight transaction was removed on shutdown")
	}
}

func TestFindingAuthErrorPanics(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			t.Errorf("panic: %v", p)
		}
	}()
	r := env(t)
	if r.sendMainChainTX(context.Background(), 0, &SkipCipherBatch{}) == nil {
		t.Error("expected an error")
	}
}

// client rejects everything in CheckTx.
type rejecting struct{ tmclient.Client }

func (rejecting) BlockchainInfo(context.Context, int64, int64) (*ctypes.ResultBlockchainInfo, error) {
	return &ctypes.ResultBlockchainInfo{BlockMetas: []*tmtypes.BlockMeta{{Header: tmtypes.Header{ChainID: "x"}}}}, nil
}

func (rejecting) BroadcastTxCommit(context.Context, tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	return &ctypes.ResultBroadcastTxCommit{CheckTx: abci.ResponseCheckTx{Code: 1, Log: "rejected"}}, nil
}

func TestFindingCheckTxRejectionIgnored(t *testing.T) {
	k, _ := crypto.GenerateKey()
	ms := NewRPCMessageSender(rejecting{}, k)
	if ms.SendMessage(context.Background(), &shmsg.Message{}) == nil {
		t.Error("a rejected message was reported as sent")
	}
}

// sender's transaction is accepted.
type sender struct{ SkipCipherBatch }

func (sender) SendTX(*contract.Caller, *bind.TransactOpts) (*types.Transaction, error) {
	return types.NewTransaction(0, common.Address{}, common.Big0, 0, common.Big0, nil), nil
}

type chainNode struct{}

func (*chainNode) ChainId() string                        { return "0x1" }
func (*chainNode) GasPrice() string                       { return "0x1" }
func (*chainNode) GetTransactionCount(a, b string) string { return "0x1" }

func TestFindingBlockedOnShutdown(t *testing.T) {
	r := env(t)
	s := rpc.NewServer()
	if err := s.RegisterName("eth", &chainNode{}); err != nil {
		t.Fatal(err)
	}
	r.ContractCaller.Ethclient = ethclient.NewClient(rpc.DialInProc(s))
	r.PendingActions.AddActions(0, []IAction{&SkipCipherBatch{}})
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error)
	go func() { done <- r.sendMainChainTX(ctx, 0, &sender{}) }()
	time.Sleep(300 * time.Millisecond)
	if r.PendingActions.GetMainChainTXHash(0) == (common.Hash{}) {
		t.Fatal("not sent")
	}
	cancel()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Error("blocked after shutdown")
	}
}
