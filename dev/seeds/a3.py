import sys; sys.path.insert(0, "/verif/dev")
from seed import plant
def run(name, *a):
    if len(sys.argv) < 2 or name in sys.argv[1:]: plant(name, *a)
PD="shlib/puredkg/puredkg.go"; OB="shuttermint/keyper/observe/shutter.go"; PE="shuttermint/keyper/fx/pending.go"
DE="shuttermint/keyper/decide.go"; EK="shuttermint/keyper/epochkg/epochkg.go"; CC="shuttermint/contract/config.go"; AM="shuttermint/app/messages.go"
MA="shuttermint/keyper/shutterevents/marshal.go"

run("share-compared-with-last","C20","a keyper's share arriving again after another keyper's (threshold of at least three)",
"A share counts twice towards the threshold if another share arrived in between; the epoch key is then computed from too few distinct shares.",
{EK:[("	for _, s := range shares {\n		if s.Sender == share.Sender {\n","	if len(shares) > 0 {\n		if s := shares[len(shares)-1]; s.Sender == share.Sender {\n")]},
"shuttermint","keyper/epochkg",'''package epochkg

import "testing"

func TestDemo(t *testing.T) {
	kg := &EpochKG{Threshold: 5, SecretShares: map[uint64][]*EpochSecretKeyShare{}}
	for _, sender := range []uint64{0, 1, 0} {
		_ = kg.addEpochSecretKeyShare(&EpochSecretKeyShare{Epoch: 3, Sender: sender})
	}
	if n := len(kg.SecretShares[3]); n != 2 {
		t.Fatalf("%d shares of two keypers", n)
	}
}
''')

run("filter-deletes-in-place","C27","a filter with a new batch index while somebody still works with the previous world",
"Old batches are deleted from the map that the state handed out before shares.",
{OB:[("	newBatches := make(map[uint64]*BatchData)\n	for b, bd := range shutter.Batches {\n		if b >= batchIndex {\n			newBatches[b] = bd\n		}\n	}\n	shutter.Batches = newBatches\n","	for b := range shutter.Batches {\n		if b < batchIndex {\n			delete(shutter.Batches, b)\n		}\n	}\n")]},
"shuttermint","keyper/observe",'''package observe

import "testing"

func TestDemo(t *testing.T) {
	s := NewShutter()
	s.getBatchData(3)
	s.getBatchData(8)
	c := s.ApplyFilter(ShutterFilter{SyncHeight: 1, BatchIndex: 5})
	if len(c.Batches) != 1 || len(s.Batches) != 2 {
		t.Fatalf("%d batches after, %d before", len(c.Batches), len(s.Batches))
	}
}
''')

run("eon-by-bisection","C24","a key generation restarted for an earlier batch than that of the eon before it",
"The eon of a batch is found by bisection, although the eons are not sorted by their first batch.",
{OB:[("	for i := len(shutter.Eons) - 1; i >= 0; i-- {\n		if shutter.Eons[i].StartEvent.BatchIndex <= batchIndex {\n			return &shutter.Eons[i], nil\n		}\n	}\n	return nil,","	i := sort.Search(len(shutter.Eons), func(i int) bool {\n		return shutter.Eons[i].StartEvent.BatchIndex > batchIndex\n	})\n	if i > 0 {\n		return &shutter.Eons[i-1], nil\n	}\n	return nil,")]},
"shuttermint","keyper/observe",'''package observe

import (
	"testing"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
)

func TestDemo(t *testing.T) {
	s := NewShutter()
	for i, b := range []uint64{0, 100, 0} {
		s.Eons = append(s.Eons, Eon{Eon: uint64(i + 1), StartEvent: shutterevents.EonStarted{Eon: uint64(i + 1), BatchIndex: b}})
	}
	eon, err := s.FindEonByBatchIndex(50)
	if err != nil || eon.Eon != 3 {
		t.Fatalf("eon %v, %v", eon, err)
	}
}
''')

run("new-hash-not-saved","C30","a transaction sent again under another hash, and a crash before anything else is saved",
"Only the first transaction hash of an action is written to disk; after a restart the keyper waits for a transaction that was replaced.",
{PE:[("	pending.MainChainTXHashes[id] = hash\n	pending.save()\n","	_, known := pending.MainChainTXHashes[id]\n	pending.MainChainTXHashes[id] = hash\n	if !known {\n		pending.save()\n	}\n")]},
"shuttermint","keyper/fx",'''package fx

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/ethereum/go-ethereum/common"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "actions.gob")
	p := NewPendingActions(path)
	p.SetMainChainTXHash(1, common.HexToHash("0x01"))
	p.SetMainChainTXHash(1, common.HexToHash("0x02"))
	q := NewPendingActions(path)
	if err := q.Load(); err != nil {
		t.Fatal(err)
	}
	if h := q.GetMainChainTXHash(1); h != common.HexToHash("0x02") {
		t.Fatal("loaded", h.Hex())
	}
}
''')

run("own-signature-trusted","C21","a decryption signature by this keyper on the chain that was made over something else",
"Signatures that come from the keyper itself count without being verified against the hash of the decrypted batch.",
{DE:[("		if !batch.VerifySignature(ev.Sender, ev.Signature) {\n","		if ev.Sender != dcdr.Config.Address() && !batch.VerifySignature(ev.Sender, ev.Signature) {\n")]},
"shuttermint","keyper",'''package keyper

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
)

func TestDemo(t *testing.T) {
	key, err := crypto.GenerateKey()
	if err != nil {
		t.Fatal(err)
	}
	sig, err := crypto.Sign(crypto.Keccak256([]byte("something else")), key)
	if err != nil {
		t.Fatal(err)
	}
	addr := crypto.PubkeyToAddress(key.PublicKey)
	mc := &observe.MainChain{CurrentBlock: 5, BatchConfigs: []contract.BatchConfig{{BatchSpan: 2, Threshold: 1, Keypers: []common.Address{addr}}}}
	sh := observe.NewShutter()
	sh.Batches[0] = &observe.BatchData{DecryptionSignatures: []shutterevents.DecryptionSignature{{Sender: addr, Signature: sig}}}
	dcdr := Decider{Config: Config{SigningKey: key}, State: NewState(), Shutter: sh, MainChain: mc}
	batch := &Batch{DecryptionSignatureHash: crypto.Keccak256([]byte("the batch"))}
	dcdr.syncBatch(batch)
	if len(batch.VerifiedSignatures) != 0 {
		t.Fatal("a signature over something else counts")
	}
}
''')

run("long-address-accepted","C34","a message with an address of more than 20 bytes",
"An address that is too long is accepted and cut, so that two encodings stand for the same keyper.",
{AM:[("	if len(address) != common.AddressLength {","	if len(address) < common.AddressLength {")]},
"shuttermint","app",'''package app

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

func TestDemo(t *testing.T) {
	if _, err := ParseAccusationMsg(&shmsg.Accusation{Accused: [][]byte{make([]byte, 24)}}, common.Address{}); err == nil {
		t.Fatal("an address of 24 bytes is accepted")
	}
}
''')

run("empty-sequence-elements-dropped","C33","a message with an empty encrypted value among others",
"Empty elements are left out when a sequence is decoded, so that the values after them are attributed to other keypers.",
{MA:[("		res = append(res, bs)\n","		if len(bs) > 0 {\n			res = append(res, bs)\n		}\n")]},
"shuttermint","keyper/shutterevents",'''package shutterevents

import "testing"

func TestDemo(t *testing.T) {
	r, err := decodeByteSequence(encodeByteSequence([][]byte{{1}, {}, {2}}))
	if err != nil || len(r) != 3 {
		t.Fatal(r, err)
	}
}
''')
