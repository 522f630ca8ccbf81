package keyper

import (
	"testing"

	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
)

// A keyper that was restarted before it was synced for the first time (so that it has not handled
// anything) skipped all events up to the block it had seen.
func TestFindingRestartBeforeFirstDecision(t *testing.T) {
	shutter := observe.NewShutter()
	shutter.CurrentBlock = 10
	shutter.Eons = []observe.Eon{{Eon: 1, StartHeight: 5, Commitments: []shutterevents.PolyCommitment{{Height: 7, Eon: 1}}}}
	cfg := Config{DBDir: t.TempDir()}
	kpr := NewKeyper(cfg)
	kpr.world.Store(observe.World{Shutter: shutter, MainChain: observe.NewMainChain(0)})
	if err := kpr.saveState(); err != nil {
		t.Fatal(err)
	}
	kpr2 := NewKeyper(cfg)
	if err := kpr2.LoadState(); err != nil {
		t.Fatal(err)
	}
	if n := len(kpr2.CurrentWorld().Shutter.Eons[0].GetPolyCommitments(kpr2.State.SyncHeight)); n != 1 {
		t.Fatalf("the commitment that was never handled is skipped: SyncHeight=%d", kpr2.State.SyncHeight)
	}
}
