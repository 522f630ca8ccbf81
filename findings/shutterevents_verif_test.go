package shutterevents

import (
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto"
)

func TestFindingEmptyGammas(t *testing.T) {
	ev := PolyCommitment{Gammas: &shcrypto.Gammas{}}
	x, err := MakeEvent(ev.MakeABCIEvent(), 5)
	if err != nil {
		t.Fatalf("event made by the chain is malformed: %s", err)
	}
	if pc := x.(*PolyCommitment); pc.Height != 5 || len(*pc.Gammas) != 0 {
		t.Fatal(x)
	}
}
