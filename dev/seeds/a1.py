import sys; sys.path.insert(0, "/verif/dev")
from seed import plant
A = "shuttermint/app/"
HELP = '''
func demoAddrs(n int) []common.Address {
	r := []common.Address{}
	for i := 0; i < n; i++ {
		r = append(r, common.BytesToAddress([]byte{byte(i + 1)}))
	}
	return r
}
'''
def run(name, fn):
    if len(sys.argv) < 2 or name in sys.argv[1:]: fn()

run("nonce-only-on-success", lambda: plant("nonce-only-on-success", "C02", "a transaction that is rejected when first delivered and would be accepted later, delivered twice",
 "The nonce of a transaction is only recorded when the transaction succeeds, so a rejected transaction can be replayed by anyone at a later time.",
 {A+"app.go": [("	app.NonceTracker.Add(signer, msg.RandomNonce)\n	return app.deliverMessage(msg.Msg, signer)",
  "	res := app.deliverMessage(msg.Msg, signer)\n	if res.IsOK() {\n		app.NonceTracker.Add(signer, msg.RandomNonce)\n	}\n	return res")]},
 "shuttermint", "app", '''package app

import (
	"encoding/base64"
	"testing"

	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

func TestDemo(t *testing.T) {
	key, err := crypto.GenerateKey()
	if err != nil {
		t.Fatal(err)
	}
	a := NewShutterApp()
	a.ChainID = "chain"
	// votes to start a config that does not exist yet
	m := &shmsg.MessageWithNonce{ChainId: []byte("chain"), RandomNonce: 7, Msg: &shmsg.Message{Payload: &shmsg.Message_BatchConfigStarted{BatchConfigStarted: &shmsg.BatchConfigStarted{BatchConfigIndex: 3}}}}
	signed, err := shmsg.SignMessage(m, key)
	if err != nil {
		t.Fatal(err)
	}
	tx := abcitypes.RequestDeliverTx{Tx: []byte(base64.RawURLEncoding.EncodeToString(signed))}
	if a.DeliverTx(tx).Code == 0 {
		t.Fatal("expected failure")
	}
	if a.NonceTracker.Check(crypto.PubkeyToAddress(key.PublicKey), 7) {
		t.Fatal("a rejected transaction's nonce can be used again")
	}
}
'''))

run("started-votes-by-new-keypers", lambda: plant("started-votes-by-new-keypers", "C05", "a newly added keyper that is not part of the previous config votes for starting the new config",
 "Keypers of the newest config instead of those of the config before may vote for its start.",
 {A+"app.go": [("	if !app.Configs[len(app.Configs)-2].IsKeyper(sender) {", "	if !app.isKeyper(sender) {")]},
 "shuttermint", "app", '''package app

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
)
''' + HELP + '''
func TestDemo(t *testing.T) {
	a := NewShutterApp()
	ks := demoAddrs(4)
	a.Configs = []*BatchConfig{{Keypers: ks[:3], Threshold: 2}}
	if err := a.addConfig(BatchConfig{Keypers: ks[1:], Threshold: 2, ConfigIndex: 1}); err != nil {
		t.Fatal(err)
	}
	if r := a.deliverBatchConfigStarted(&shmsg.BatchConfigStarted{BatchConfigIndex: 1}, ks[0]); r.Code != 0 {
		t.Fatal("legitimate vote rejected")
	}
	if r := a.deliverBatchConfigStarted(&shmsg.BatchConfigStarted{BatchConfigIndex: 1}, ks[3]); r.Code == 0 {
		t.Fatal("vote by a keyper that is not in the previous config accepted")
	}
}
'''))

run("polyeval-partial-registration", lambda: plant("polyeval-partial-registration", "C04", "a poly eval message whose later receiver is invalid",
 "Receivers are registered while they are still being checked, so a rejected message leaves some of its receivers marked as seen.",
 {A+"dkg.go": [('''receiver.Hex())
		}
	}

	for _, receiver := range msg.Receivers {
		dkg.PolyEvalsSeen''', '''receiver.Hex())
		}
		dkg.PolyEvalsSeen''')]},
 "shuttermint", "app", '''package app

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"
)
''' + HELP + '''
func TestDemo(t *testing.T) {
	ks := demoAddrs(5)
	dkg := NewDKGInstance(BatchConfig{Keypers: ks[:4], Threshold: 2}, 1)
	if dkg.RegisterPolyEvalMsg(PolyEval{Sender: ks[0], Eon: 1, Receivers: []common.Address{ks[1], ks[4]}}) == nil {
		t.Fatal("expected an error")
	}
	if len(dkg.PolyEvalsSeen) != 0 {
		t.Fatal("rejected message changed state")
	}
	if err := dkg.RegisterPolyEvalMsg(PolyEval{Sender: ks[0], Eon: 1, Receivers: []common.Address{ks[1], ks[2]}}); err != nil {
		t.Fatal(err)
	}
}
'''))

run("config-candidate-wins", lambda: plant("config-candidate-wins", "C05", "a second candidate config gets its first vote when another voter's candidate already has votes, with changed vote indices",
 "A vote for a known candidate is attributed to the newest candidate if the candidates only differ in who their keypers are.",
 {A+"configvoting.go": [('''		if reflect.DeepEqual(bc, batchConfig) {
			cfgv''', '''		if bc.ConfigIndex == batchConfig.ConfigIndex && bc.StartBatchIndex == batchConfig.StartBatchIndex && len(bc.Keypers) == len(batchConfig.Keypers) && bc.Threshold == batchConfig.Threshold {
			cfgv'''), ("	\"reflect\"\n\n", "")]},
 "shuttermint", "app", '''package app

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"
)
''' + HELP + '''
func TestDemo(t *testing.T) {
	ks := demoAddrs(3)
	v := NewConfigVoting()
	if err := v.AddVote(ks[0], BatchConfig{ConfigIndex: 1, StartBatchIndex: 10, Threshold: 2, Keypers: ks}); err != nil {
		t.Fatal(err)
	}
	if err := v.AddVote(ks[1], BatchConfig{ConfigIndex: 1, StartBatchIndex: 10, Threshold: 2, Keypers: demoAddrs(4)[1:]}); err != nil {
		t.Fatal(err)
	}
	if c, ok := v.Outcome(2); ok {
		t.Fatalf("config %+v accepted with one vote", c)
	}
}
'''))

run("eon-vote-latest-config", lambda: plant("eon-vote-latest-config", "C05", "an eon start vote for a batch of an older config by a keyper that is only in the newest config",
 "An eon start vote is checked against the newest config although it is counted for the config at the batch.",
 {A+"app.go": [('''	if !config.IsKeyper(sender) {
		return notAKeyper(sender)
	}

	app.countEon''', '''	if !app.LastConfig().IsKeyper(sender) {
		return notAKeyper(sender)
	}

	app.countEon''')]},
 "shuttermint", "app", '''package app

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
)
''' + HELP + '''
func TestDemo(t *testing.T) {
	a := NewShutterApp()
	ks := demoAddrs(4)
	a.Configs = []*BatchConfig{{Keypers: ks[:3], Threshold: 2}}
	if err := a.addConfig(BatchConfig{Keypers: ks[1:], Threshold: 2, ConfigIndex: 1, StartBatchIndex: 100}); err != nil {
		t.Fatal(err)
	}
	if r := a.deliverEonStartVoteMsg(&shmsg.EonStartVote{StartBatchIndex: 50}, ks[3]); r.Code == 0 {
		t.Fatal("vote by a keyper that is not in the config at batch 50 accepted")
	}
	if r := a.deliverEonStartVoteMsg(&shmsg.EonStartVote{StartBatchIndex: 50}, ks[0]); r.Code != 0 {
		t.Fatal("vote by a keyper of the config at batch 50 rejected")
	}
}
'''))

run("checkin-reset-on-config", lambda: plant("checkin-reset-on-config", "C07", "a keyper that checked in, leaves in a new config and is accepted again later",
 "Check-ins of keypers that are not in the new config are removed when a config is accepted, so they can check in a second time.",
 {A+"app.go": [('''	log.Printf("adding config %d", cfg.ConfigIndex)
	app.Configs = append(app.Configs, &cfg)
''', '''	log.Printf("adding config %d at batch %d", cfg.ConfigIndex, cfg.StartBatchIndex)
	app.Configs = append(app.Configs, &cfg)
	for a := range app.Identities {
		if !app.isKeyper(a) || !cfg.IsKeyper(a) {
			delete(app.Identities, a)
		}
	}
''')]},
 "shuttermint", "app", '''package app

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"
)
''' + HELP + '''
func TestDemo(t *testing.T) {
	a := NewShutterApp()
	ks := demoAddrs(4)
	a.Configs = []*BatchConfig{{Keypers: ks[:3], Threshold: 2}}
	a.Identities[ks[0]] = ValidatorPubkey{Ed25519pubkey: "x"}
	if err := a.addConfig(BatchConfig{Keypers: ks[1:], Threshold: 2, ConfigIndex: 1, StartBatchIndex: 100}); err != nil {
		t.Fatal(err)
	}
	if _, ok := a.Identities[ks[0]]; !ok {
		t.Fatal("check-in lost")
	}
}
'''))
