package shcrypto

import (
	"bytes"
	"crypto/rand"
	"testing"
)

// F01: a C1 that is not a valid compressed G2 point must be rejected, whatever the
// receiver held before.
func TestFindingMalformedPointAccepted(t *testing.T) {
	bad := bytes.Repeat([]byte{0xff}, 96)
	var pk EonPublicKey
	if pk.Unmarshal(bad) == nil {
		t.Error("EonPublicKey accepted malformed encoding")
	}
	var sk EpochSecretKey
	if sk.Unmarshal(bytes.Repeat([]byte{0xff}, 48)) == nil {
		t.Error("EpochSecretKey accepted malformed encoding")
	}
	var id EpochID
	if id.Unmarshal([]byte{1, 2, 3}) == nil {
		t.Error("EpochID accepted short encoding")
	}
	m := EncryptedMessage{}
	d := append([]byte{VersionIdentifier}, bad...)
	d = append(d, make([]byte, 64)...)
	if m.Unmarshal(d) == nil {
		t.Error("EncryptedMessage accepted malformed C1")
	}
	var g Gammas
	if g.GobDecode(bad) == nil {
		t.Error("Gammas.GobDecode accepted malformed point")
	}
}

// F02
func TestFindingGammasGobDecodeTruncated(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
	var g Gammas
	if g.GobDecode([]byte{1, 2, 3}) == nil {
		t.Error("accepted")
	}
}

// F03
func TestFindingPadMessageAliasing(t *testing.T) {
	buf := bytes.Repeat([]byte{'a'}, 64)
	PadMessage(buf[:10])
	if buf[10] != 'a' {
		t.Error("PadMessage overwrote the caller's buffer")
	}
}

// GobDecode has to overwrite the receiver.
func TestFindingGobDecodeOverwrites(t *testing.T) {
	enc := func(degree uint64) []byte {
		p, err := RandomPolynomial(rand.Reader, degree)
		if err != nil {
			t.Fatal(err)
		}
		b, err := p.Gammas().GobEncode()
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	var g Gammas
	if err := g.GobDecode(enc(1)); err != nil {
		t.Fatal(err)
	}
	if err := g.GobDecode(enc(2)); err != nil {
		t.Fatal(err)
	}
	if g.Degree() != 2 {
		t.Fatalf("degree %d", g.Degree())
	}
}
