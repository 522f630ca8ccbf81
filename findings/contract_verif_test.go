package contract

import (
	"context"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/accounts/abi/bind/backends"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/crypto"
	"gotest.tools/v3/assert"

	"github.com/shutter-network/shutter/shuttermint/medley/txbatch"
)

// The next config of the contract lists a keyper twice; after setting another config its keypers
// must be exactly those of the new config.
func TestFindingSetNextBatchConfigDuplicateKeypers(t *testing.T) {
	key, err := crypto.GenerateKey()
	assert.NilError(t, err)
	auth, err := bind.NewKeyedTransactorWithChainID(key, big.NewInt(1337))
	assert.NilError(t, err)
	alloc := core.GenesisAlloc{auth.From: core.GenesisAccount{Balance: big.NewInt(1000000000000000000)}}
	blockchain := backends.NewSimulatedBackend(alloc, 8000000)
	defer blockchain.Close()
	auth.GasLimit = 5000000
	_, _, cc, err := DeployConfigContract(auth, blockchain, 10)
	assert.NilError(t, err)
	blockchain.Commit()
	a, b, c := common.HexToAddress("0xaa"), common.HexToAddress("0xbb"), common.HexToAddress("0xcc")
	_, err = cc.NextConfigAddKeypers(auth, []common.Address{a, a, b})
	assert.NilError(t, err)
	blockchain.Commit()

	auth.GasLimit = 500000
	auth.Nonce = new(big.Int)
	n, err := blockchain.PendingNonceAt(context.Background(), auth.From)
	assert.NilError(t, err)
	auth.Nonce.SetUint64(n)
	want := makeExampleBatchConfig()
	want.Keypers = []common.Address{c}
	want.Threshold = 1
	assert.NilError(t, cc.SetNextBatchConfig(context.Background(), &txbatch.TXBatch{TransactOpts: auth}, want))
	blockchain.Commit()
	got, err := cc.GetNextConfig(nil)
	assert.NilError(t, err)
	assert.DeepEqual(t, got, want)
}
