package observe

import (
	"context"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
)

// fakeEth is an ethereum node with a given head, three half steps (0 executed, 1 plain, 2
// skipped) and one encrypted transaction in block 5.
type fakeEth struct{ head uint64 }

func (f *fakeEth) Syncing() (interface{}, error) { return false, nil }
func (f *fakeEth) GetBlockByNumber(n string, full bool) (*types.Header, error) {
	return &types.Header{Number: new(big.Int).SetUint64(f.head), Difficulty: big.NewInt(1)}, nil
}

type callArg struct {
	To   common.Address `json:"to"`
	Data hexutil.Bytes  `json:"data"`
}

func (f *fakeEth) Call(a callArg, block string) (hexutil.Bytes, error) {
	ab, _ := abi.JSON(strings.NewReader(contract.ExecutorContractABI))
	cf, _ := abi.JSON(strings.NewReader(contract.ConfigContractABI))
	sel := a.Data[:4]
	if string(sel) == string(cf.Methods["numConfigs"].ID) {
		return cf.Methods["numConfigs"].Outputs.Pack(uint64(0))
	}
	if string(sel) == string(ab.Methods["numExecutionHalfSteps"].ID) {
		return ab.Methods["numExecutionHalfSteps"].Outputs.Pack(uint64(3))
	}
	v, err := ab.Methods["getReceipt"].Inputs.Unpack(a.Data[4:])
	if err != nil {
		return nil, err
	}
	r := contract.CipherExecutionReceipt{}
	if v[0].(uint64) == 0 {
		r = contract.CipherExecutionReceipt{Executed: true, BatchHash: [32]byte{7}}
	}
	return ab.Methods["getReceipt"].Outputs.Pack(r)
}

type q struct {
	From, To hexutil.Uint64
	Topics   []interface{}
}

func (f *fakeEth) GetLogs(a struct {
	FromBlock hexutil.Uint64 `json:"fromBlock"`
	ToBlock   hexutil.Uint64 `json:"toBlock"`
	Topics    []interface{}  `json:"topics"`
}) ([]types.Log, error) {
	ab, _ := abi.JSON(strings.NewReader(contract.BatcherContractABI))
	ev := ab.Events["TransactionAdded"]
	first := ""
	if l, ok := a.Topics[0].([]interface{}); ok {
		first = l[0].(string)
	} else {
		first = a.Topics[0].(string)
	}
	if first != ev.ID.Hex() || a.FromBlock > 5 || a.ToBlock < 5 {
		return []types.Log{}, nil
	}
	d, err := ev.Inputs.NonIndexed().Pack(uint64(1), uint8(0), []byte{1, 2, 3}, [32]byte{1})
	if err != nil {
		return nil, err
	}
	return []types.Log{{Topics: []common.Hash{ev.ID}, Data: d, BlockNumber: 5, TxHash: common.Hash{1}}}, nil
}

func caller(t *testing.T, f *fakeEth) *contract.Caller {
	s := rpc.NewServer()
	if err := s.RegisterName("eth", f); err != nil {
		t.Fatal(err)
	}
	cl := ethclient.NewClient(rpc.DialInProc(s))
	k, _ := crypto.GenerateKey()
	cfg, _ := contract.NewConfigContract(common.Address{1}, cl)
	kb, _ := contract.NewKeyBroadcastContract(common.Address{2}, cl)
	b, _ := contract.NewBatcherContract(common.Address{3}, cl)
	e, _ := contract.NewExecutorContract(common.Address{4}, cl)
	d, _ := contract.NewDepositContract(common.Address{5}, cl)
	sl, _ := contract.NewKeyperSlasher(common.Address{6}, cl)
	c := contract.NewCaller(cl, k, cfg, kb, b, e, d, sl)
	return &c
}

func TestFindingSkippedHalfStepReceipt(t *testing.T) {
	f := &fakeEth{head: 10}
	mc, err := NewMainChain(0).SyncToHead(context.Background(), caller(t, f))
	if err != nil {
		t.Fatal(err)
	}
	if !mc.CipherExecutionReceipts[0].Executed {
		t.Error("receipt of half step 0 was replaced by the empty receipt of the skipped half step 2")
	}
}

func TestFindingMainChainBackwards(t *testing.T) {
	f := &fakeEth{head: 10}
	c := caller(t, f)
	mc, err := NewMainChain(0).SyncToHead(context.Background(), c)
	if err != nil {
		t.Fatal(err)
	}
	for _, h := range []uint64{4, 10} {
		f.head = h
		mc, err = mc.SyncToHead(context.Background(), c)
		if err != nil {
			t.Fatal(err)
		}
	}
	if n := len(mc.Batches[1].EncryptedTransactions); n != 1 {
		t.Errorf("transaction was applied %d times", n)
	}
}

func TestFindingApplyFilterKeepsShares(t *testing.T) {
	s := NewShutter()
	s.Eons = []Eon{{Eon: 1, EpochSecretKeyShares: []shutterevents.EpochSecretKeyShare{{Height: 10, Eon: 1}}}}
	n := s.ApplyFilter(ShutterFilter{SyncHeight: 0, BatchIndex: 5})
	if len(n.Eons[0].EpochSecretKeyShares) != 1 {
		t.Error("epoch secret key share that has not been processed was dropped")
	}
}
