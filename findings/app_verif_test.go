package app

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

func addrs(n int) []common.Address {
	r := []common.Address{}
	for i := 0; i < n; i++ {
		r = append(r, common.BytesToAddress([]byte{byte(i + 1)}))
	}
	return r
}

func TestFindingStartedVotesCarriedOver(t *testing.T) {
	a := NewShutterApp()
	ks := addrs(3)
	a.Configs = []*BatchConfig{{Keypers: ks, Threshold: 2}}
	if err := a.addConfig(BatchConfig{Keypers: ks, Threshold: 2, ConfigIndex: 1}); err != nil {
		t.Fatal(err)
	}
	a.deliverBatchConfigStarted(&shmsg.BatchConfigStarted{BatchConfigIndex: 1}, ks[0])
	if err := a.addConfig(BatchConfig{Keypers: ks, Threshold: 2, ConfigIndex: 2}); err != nil {
		t.Fatal(err)
	}
	a.deliverBatchConfigStarted(&shmsg.BatchConfigStarted{BatchConfigIndex: 2}, ks[1])
	for k := range a.StartedVotes {
		_ = k
	}
	if len(a.StartedVotes) >= 2 {
		t.Error("vote for config 1 counts for config 2")
	}
}

func TestFindingThresholdOverflow(t *testing.T) {
	bc := BatchConfig{Keypers: addrs(3), Threshold: 1 << 63}
	if bc.EnsureValid() == nil {
		t.Error("threshold 2^63 accepted for 3 keypers")
	}
}
