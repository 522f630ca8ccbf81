import sys; sys.path.insert(0, "/verif/dev")
from seed import plant
SC = "shlib/shcrypto/"
def run(name, fn):
    if len(sys.argv) < 2 or name in sys.argv[1:]: fn()

run("block-key-wraps", lambda: plant("block-key-wraps", "C39", "a message of more than 8 kB (257 blocks) with equal blocks at distance 256",
 "The key of a block depends on the block number modulo 256 only, so the key stream repeats in long messages (encryption and decryption agree).",
 {SC+"encryption.go": [("	buf, _ := Uint64toBytes(blockNum)\n", "	buf := []byte{byte(blockNum)}\n")]},
 "shlib", "shcrypto", '''package shcrypto

import (
	"crypto/rand"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	sigma, err := RandomSigma(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	pk := (*EonPublicKey)(generateP2(big.NewInt(17)))
	m := Encrypt(make([]byte, 32*300), pk, ComputeEpochID([]byte("epoch")), sigma)
	if m.C3[3] == m.C3[259] {
		t.Fatal("the key stream repeats")
	}
}
'''))

run("empty-message-unchecked", lambda: plant("empty-message-unchecked", "C39", "a ciphertext made up from a full block of padding without knowing the randomness that C1 commits to",
 "A ciphertext that decrypts to the empty message is accepted without comparing C1.",
 {SC+"encryption.go": [("	if !m.C1.Equals(expectedC1) {", "	if len(message) > 0 && !m.C1.Equals(expectedC1) {")]},
 "shlib", "shcrypto", '''package shcrypto

import (
	"crypto/rand"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	sigma, err := RandomSigma(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	s := big.NewInt(17)
	id := ComputeEpochID([]byte("epoch"))
	sk := (*EpochSecretKey)(ComputeEpochSecretKeyShare((*EonSecretKeyShare)(s), id))
	for _, msg := range [][]byte{{}, []byte("hello")} {
		m := Encrypt(msg, (*EonPublicKey)(generateP2(s)), id, sigma)
		if _, err := m.Decrypt(sk); err != nil {
			t.Fatal(err)
		}
		// another first component and a second one that gives the same sigma
		c1 := generateP2(big.NewInt(1234))
		forged := &EncryptedMessage{C1: c1, C3: m.C3}
		forged.C2 = XORBlocks(forged.Sigma(sk), sigma)
		if forged.Sigma(sk) != sigma {
			t.Fatal("setup")
		}
		if _, err := forged.Decrypt(sk); err == nil {
			t.Fatalf("accepted a manipulated ciphertext of %q", msg)
		}
	}
}
'''))

run("low-degree-accepted", lambda: plant("low-degree-accepted", "C40", "a dealer whose polynomial has a lower degree than the threshold requires",
 "Commitments to polynomials of too low a degree verify, so fewer keypers than the threshold could reconstruct that part of the key.",
 {SC+"feldman.go": [("	if gammas.Degree() != threshold-1 {", "	if len(*gammas) == 0 || gammas.Degree() > threshold-1 {")]},
 "shlib", "shcrypto", '''package shcrypto

import (
	"crypto/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	p, err := RandomPolynomial(rand.Reader, 1)
	if err != nil {
		t.Fatal(err)
	}
	if !VerifyPolyEval(3, p.EvalForKeyper(3), p.Gammas(), 2) {
		t.Fatal("setup")
	}
	if VerifyPolyEval(3, p.EvalForKeyper(3), p.Gammas(), 3) {
		t.Fatal("accepted a polynomial of degree 1 for threshold 3")
	}
}
'''))

run("message-decoded-twice", lambda: plant("message-decoded-twice", "C41", "an EncryptedMessage value that is decoded into more than once",
 "Decoding appends to the blocks that the receiver held already.",
 {SC+"encoding.go": [("	m.C3 = nil\n", "")]},
 "shlib", "shcrypto", '''package shcrypto

import (
	"bytes"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	m := Encrypt([]byte("message"), (*EonPublicKey)(generateP2(big.NewInt(17))), ComputeEpochID([]byte("epoch")), Block{})
	var d EncryptedMessage
	for i := 0; i < 2; i++ {
		if err := d.Unmarshal(m.Marshal()); err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(d.Marshal(), m.Marshal()) {
			t.Fatal("decoded another message")
		}
	}
}
'''))

run("subgroup-unchecked", lambda: plant("subgroup-unchecked", "C41", "a share that is a point of the curve outside of the prime order subgroup",
 "Epoch secret key shares outside of the group are accepted.",
 {SC+"encoding.go": [("	if !p.InG1() {\n		return errors.New(\"epoch secret key share is not on curve\")\n	}\n", "")]},
 "shlib", "shcrypto", '''package shcrypto

import (
	"testing"

	blst "github.com/supranational/blst/bindings/go"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		b := make([]byte, 48)
		b[0], b[47] = 0x80, byte(i)
		p := new(blst.P1Affine).Uncompress(b)
		if p == nil || p.InG1() {
			continue
		}
		var s EpochSecretKeyShare
		if s.Unmarshal(b) == nil {
			t.Fatal("accepted a point outside of the group")
		}
		return
	}
	t.Fatal("setup")
}
'''))
