From 8068b71ef41bb69fed3c5dfa9e7f50da1cefe217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 01/16] fix: check the result of Uncompress when decoding curve
 points

blst's Uncompress reports a malformed encoding through its return value;
the receiver is never nil, so the previous checks never fired and malformed
points were accepted.
---
 shlib/shcrypto/encoding.go | 18 ++++++------------
 shlib/shcrypto/feldman.go  |  3 +--
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 42bebf3..1972758 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -51,8 +51,7 @@ func (m *EncryptedMessage) Unmarshal(d []byte) error {
 	if m.C1 == nil {
 		m.C1 = new(blst.P2Affine)
 	}
-	m.C1.Uncompress(d[1 : 1+blst.BLST_P2_COMPRESS_BYTES])
-	if m.C1 == nil {
+	if m.C1.Uncompress(d[1:1+blst.BLST_P2_COMPRESS_BYTES]) == nil {
 		return errors.New("failed to deserialize C1")
 	}
 	if !m.C1.InG2() {
@@ -93,8 +92,7 @@ func (eonPublicKeyShare *EonPublicKeyShare) Marshal() []byte {
 // Unmarshal deserializes an eon public key share.
 func (eonPublicKeyShare *EonPublicKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key share")
 	}
 	if !p.InG2() {
@@ -111,8 +109,7 @@ func (eonPublicKey *EonPublicKey) Marshal() []byte {
 // Unmarshal deserializes an eon public key from the given byte slice.
 func (eonPublicKey *EonPublicKey) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key")
 	}
 	if !p.InG2() {
@@ -143,8 +140,7 @@ func (epochID *EpochID) Marshal() []byte {
 // Unmarshal deserializes an epoch id.
 func (epochID *EpochID) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochID)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch id")
 	}
 	if !p.InG1() {
@@ -162,8 +158,7 @@ func (epochSecretKeyShare *EpochSecretKeyShare) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key share.
 func (epochSecretKeyShare *EpochSecretKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key share")
 	}
 	if !p.InG1() {
@@ -180,8 +175,7 @@ func (epochSecretKey *EpochSecretKey) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key.
 func (epochSecretKey *EpochSecretKey) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key")
 	}
 	if !p.InG1() {
diff --git a/shlib/shcrypto/feldman.go b/shlib/shcrypto/feldman.go
index 088ace1..5150e6d 100644
--- a/shlib/shcrypto/feldman.go
+++ b/shlib/shcrypto/feldman.go
@@ -173,8 +173,7 @@ func (g *Gammas) GobEncode() ([]byte, error) {
 func (g *Gammas) GobDecode(data []byte) error {
 	for i := 0; i < len(data); i += blst.BLST_P2_COMPRESS_BYTES {
 		p := new(blst.P2Affine)
-		p.Uncompress(data[i : i+blst.BLST_P2_COMPRESS_BYTES])
-		if p == nil {
+		if p.Uncompress(data[i:i+blst.BLST_P2_COMPRESS_BYTES]) == nil {
 			return errors.New("failed to deserialize gammas")
 		}
 		if !p.InG2() {
-- 
2.43.0


From 3659b85187cc7ab9d7d0858feab0bbef7a294c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 02/16] fix: reject truncated data in Gammas.GobDecode instead
 of panicking

---
 shlib/shcrypto/feldman.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shlib/shcrypto/feldman.go b/shlib/shcrypto/feldman.go
index 5150e6d..cd3af52 100644
--- a/shlib/shcrypto/feldman.go
+++ b/shlib/shcrypto/feldman.go
@@ -171,6 +171,9 @@ func (g *Gammas) GobEncode() ([]byte, error) {
 
 // GobDecode decodes a Gammas value. See https://golang.org/pkg/encoding/gob/#GobDecoder
 func (g *Gammas) GobDecode(data []byte) error {
+	if len(data)%blst.BLST_P2_COMPRESS_BYTES != 0 {
+		return errors.New("invalid length of gammas")
+	}
 	for i := 0; i < len(data); i += blst.BLST_P2_COMPRESS_BYTES {
 		p := new(blst.P2Affine)
 		if p.Uncompress(data[i:i+blst.BLST_P2_COMPRESS_BYTES]) == nil {
-- 
2.43.0


From c6bdbb869ed0dba805a4071c35cae6996b91e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 03/16] fix: do not overwrite the caller's buffer in PadMessage

---
 shlib/shcrypto/encryption.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index 22f50be..1043872 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -171,7 +171,7 @@ func DecryptBlocks(encryptedBlocks []Block, sigma Block) []Block {
 func PadMessage(m []byte) []Block {
 	paddingLength := BlockSize - len(m)%BlockSize
 	padding := bytes.Repeat([]byte{byte(paddingLength)}, paddingLength)
-	m = append(m, padding...)
+	m = append(m[:len(m):len(m)], padding...) // do not write to the caller's backing array
 
 	blocks := []Block{}
 	numBlocks := len(m) / BlockSize
-- 
2.43.0


From 288d92bfdf34a67a96133ba8d0d006352fae5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 04/16] fix: check the error of Auth() before using its result
 in sendMainChainTX

---
 shuttermint/keyper/fx/runenv.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 57a18e0..5fe62d3 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -66,11 +66,10 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 	var auth *bind.TransactOpts
 
 	auth, err = runenv.ContractCaller.Auth()
-	auth.Context = ctx
-
 	if err != nil {
 		return err
 	}
+	auth.Context = ctx
 	tx, err = act.SendTX(runenv.ContractCaller, auth)
 	if err != nil {
 		return err
-- 
2.43.0


From e69e3074d469595d13c3dbb3ffd9dde08399f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 05/16] fix: do not let a huge threshold overflow in
 BatchConfig.EnsureValid

Converting a threshold >= 2^63 to int yields a negative number, so that the
config was considered valid.
---
 shuttermint/keyper/shutterevents/batchconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/keyper/shutterevents/batchconfig.go b/shuttermint/keyper/shutterevents/batchconfig.go
index a7e3ea3..b276723 100644
--- a/shuttermint/keyper/shutterevents/batchconfig.go
+++ b/shuttermint/keyper/shutterevents/batchconfig.go
@@ -32,7 +32,7 @@ func (bc *BatchConfig) EnsureValid() error {
 	if bc.Threshold == 0 {
 		return errors.Errorf("threshold must not be zero")
 	}
-	if int(bc.Threshold) > len(bc.Keypers) {
+	if bc.Threshold > uint64(len(bc.Keypers)) {
 		return errors.Errorf("threshold too high")
 	}
 	// XXX maybe we should check for duplicate addresses
-- 
2.43.0


From bc805cb7892bc658a58bd5bb6c912e3a4e5d3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 06/16] fix: keep unprocessed epoch secret key shares in
 Eon.ApplyFilter

---
 shuttermint/keyper/observe/shutter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ba179a1..ad3ede6 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -113,6 +113,7 @@ func (eon *Eon) ApplyFilter(syncHeight int64) *Eon {
 	clone.PolyEvals = append(clone.PolyEvals, eon.GetPolyEvals(syncHeight)...)
 	clone.Accusations = append(clone.Accusations, eon.GetAccusations(syncHeight)...)
 	clone.Apologies = append(clone.Apologies, eon.GetApologies(syncHeight)...)
+	clone.EpochSecretKeyShares = append(clone.EpochSecretKeyShares, eon.GetEpochSecretKeyShares(syncHeight)...)
 	return &clone
 }
 
-- 
2.43.0


From 9ff037ed80e370cab9f0c917010c46d07fb5cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 07/16] fix: do not count started votes for the previous config
 towards a new one

---
 shuttermint/app/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/app/app.go b/shuttermint/app/app.go
index 9b5450d..82192d8 100644
--- a/shuttermint/app/app.go
+++ b/shuttermint/app/app.go
@@ -150,6 +150,7 @@ func (app *ShutterApp) addConfig(cfg BatchConfig) error {
 	}
 	log.Printf("adding config %d", cfg.ConfigIndex)
 	app.Configs = append(app.Configs, &cfg)
+	app.StartedVotes = make(map[common.Address]struct{}) // votes were cast for the previous config
 	app.updateCheckTxMembers()
 	return nil
 }
-- 
2.43.0


From 87b31ab26ffd0ad207f436d6a97dfc2688883bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 08/16] fix: do not forget in-flight main chain transactions on
 shutdown

waitMined returns early when the context is canceled. The action was removed
from the pending actions nevertheless, so it was not picked up after a restart.
---
 shuttermint/keyper/fx/runenv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 5fe62d3..86e1731 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -237,6 +237,9 @@ func (runenv *RunEnv) handleInFlightTXs(ctx context.Context) {
 		select {
 		case id := <-runenv.inFlightMainChainTXs:
 			runenv.waitMined(ctx, id)
+			if ctx.Err() != nil {
+				return // we're shutting down, keep the action and wait for it after the restart
+			}
 			runenv.PendingActions.RemoveAction(id)
 		case <-ctx.Done():
 			return
-- 
2.43.0


From d2118c4bd9dfc476cb0837fa8a2b19d1492ef937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 09/16] fix: do not store empty receipts for skipped cipher
 half steps

The executor contract returns an empty receipt with HalfStep 0 for a skipped
half step, which replaced the receipt of the very first half step.
---
 shuttermint/keyper/observe/mainchain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 49033ce..895772b 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -223,6 +223,9 @@ func (mainchain *MainChain) syncExecutionState(cc *contract.Caller, opts *bind.C
 		if err != nil {
 			return errors.Wrap(err, "failed to get cipher execution receipt from contract")
 		}
+		if !receipt.Executed {
+			continue // the half step was skipped, there's no receipt for it
+		}
 		mainchain.CipherExecutionReceipts[receipt.HalfStep] = &receipt
 	}
 	mainchain.NumExecutionHalfSteps = numExecutionHalfSteps
-- 
2.43.0


From 17e83146f50c3010d942a43649997938bd741fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 10/16] fix: never move MainChain.CurrentBlock backwards

If the node reports an older block than the one already synced, the events in
between were fetched and applied a second time on the next sync.
---
 shuttermint/keyper/observe/mainchain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 895772b..dbac71c 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -347,6 +347,11 @@ func (mainchain *MainChain) SyncToHead(
 		syncUntilBlockNumber = 0
 	}
 
+	if syncUntilBlockNumber < mainchain.CurrentBlock {
+		// The node is lagging behind. Going backwards would make us apply the same events twice.
+		return mainchain, nil
+	}
+
 	mainchain = mainchain.Clone()
 
 	opts := &bind.CallOpts{
-- 
2.43.0


From 6a28e3fcc7c5966ca207134cb499b23515222510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 11/16] fix: report messages that are rejected by CheckTx

BroadcastTxCommit returns without an error and with an empty DeliverTx result
if the transaction did not pass CheckTx. SendMessage took this for success.
---
 shuttermint/keyper/fx/messagesender.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/fx/messagesender.go b/shuttermint/keyper/fx/messagesender.go
index 67ab21f..3234eef 100644
--- a/shuttermint/keyper/fx/messagesender.go
+++ b/shuttermint/keyper/fx/messagesender.go
@@ -117,6 +117,11 @@ func (ms *RPCMessageSender) SendMessage(ctx context.Context, msg *shmsg.Message)
 	if err != nil {
 		return err
 	}
+	if res.CheckTx.Code != 0 {
+		return &RemoteError{
+			msg: res.CheckTx.Log,
+		}
+	}
 	if res.DeliverTx.Code != 0 {
 		return &RemoteError{
 			msg: res.DeliverTx.Log,
-- 
2.43.0


From 828d6978162c04c8ca947d1a55f21153e09489de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 12/16] fix: do not block forever on shutdown after sending a
 main chain tx

The workers that wait for in-flight transactions terminate on shutdown, so
sendMainChainTX would wait forever and keep the keyper from terminating.
---
 shuttermint/keyper/fx/runenv.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 86e1731..6c1c4e3 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -75,8 +75,12 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 		return err
 	}
 	runenv.PendingActions.SetMainChainTXHash(id, tx.Hash())
-	runenv.inFlightMainChainTXs <- id
-	return nil
+	select {
+	case runenv.inFlightMainChainTXs <- id:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err() // we're shutting down, the transaction will be waited for after the restart
+	}
 }
 
 var zerohash = common.Hash{}
-- 
2.43.0


From f442045f1bb24eea17b3300a095a4afaabcda725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 13/16] fix: keep handling all events after a restart before
 the first DKG

A state file written before the keyper has handled any event was taken for
one of an old version, and the events up to the current block were skipped.
---
 shuttermint/keyper/keyper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 7f86e52..e6f5868 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -325,7 +325,8 @@ func (kpr *Keyper) LoadState() error {
 		return err
 	}
 
-	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 {
+	// A keyper that hasn't started any DKG yet still has to handle all events
+	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 && len(st.State.DKGs) > 0 {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
-- 
2.43.0


From 68374676b7e2d21a996b4c4eee49294121955f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 14/16] fix: decode events with an empty polynomial commitment

A commitment without values is accepted and emitted by the shuttermint app,
but decoding the event failed since splitting an empty string yields one
element. The other lists handle this case already.
---
 shuttermint/keyper/shutterevents/marshal.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/shutterevents/marshal.go b/shuttermint/keyper/shutterevents/marshal.go
index d75cf47..43b889a 100644
--- a/shuttermint/keyper/shutterevents/marshal.go
+++ b/shuttermint/keyper/shutterevents/marshal.go
@@ -134,9 +134,12 @@ func encodeGammas(gammas *shcrypto.Gammas) []byte {
 }
 
 func decodeGammas(eventValue []byte) (shcrypto.Gammas, error) {
-	parts := strings.Split(string(eventValue), ",")
+	s := string(eventValue)
 	var res shcrypto.Gammas
-	for _, p := range parts {
+	if s == "" {
+		return res, nil
+	}
+	for _, p := range strings.Split(s, ",") {
 		marshaledG2, err := hex.DecodeString(p)
 		if err != nil {
 			return shcrypto.Gammas{}, err
-- 
2.43.0


From 899d2044c3cbe67b51c6efcf0dcc1918b6ac06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 15/16] fix: GobDecode of Gammas overwrites the receiver

encoding/gob requires GobDecode to overwrite its receiver, but the decoded
points were appended to those that the receiver held already.
---
 shlib/shcrypto/feldman.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shlib/shcrypto/feldman.go b/shlib/shcrypto/feldman.go
index cd3af52..5f4ae3f 100644
--- a/shlib/shcrypto/feldman.go
+++ b/shlib/shcrypto/feldman.go
@@ -174,6 +174,7 @@ func (g *Gammas) GobDecode(data []byte) error {
 	if len(data)%blst.BLST_P2_COMPRESS_BYTES != 0 {
 		return errors.New("invalid length of gammas")
 	}
+	*g = nil
 	for i := 0; i < len(data); i += blst.BLST_P2_COMPRESS_BYTES {
 		p := new(blst.P2Affine)
 		if p.Uncompress(data[i:i+blst.BLST_P2_COMPRESS_BYTES]) == nil {
-- 
2.43.0


From 11980e8ce2fc1c51533f1eb9b739be6feb367b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:19 +0000
Subject: [PATCH 16/16] fix: SetNextBatchConfig replaces the keyper list stored
 in the contract

GetNextConfig removes duplicates, so comparing with and removing as many
keypers as its result left stale keypers in the next config.
---
 shuttermint/contract/config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shuttermint/contract/config.go b/shuttermint/contract/config.go
index 976a641..d175efe 100644
--- a/shuttermint/contract/config.go
+++ b/shuttermint/contract/config.go
@@ -312,6 +312,11 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 	if err != nil {
 		return err
 	}
+	// curbc.Keypers has been deduplicated, get the list as stored in the contract
+	curKeypers, err := cc.GetNextConfigKeypers(callOpts)
+	if err != nil {
+		return err
+	}
 
 	txopts := batch.TransactOpts
 	var tx *types.Transaction
@@ -381,9 +386,9 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 		}
 		batch.Add(tx)
 	}
-	if !addressesEqual(newbc.Keypers, curbc.Keypers) {
+	if !addressesEqual(newbc.Keypers, curKeypers) {
 		// TODO: remove and keypers in groups if there are too many of them
-		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curbc.Keypers))); err != nil {
+		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curKeypers))); err != nil {
 			return err
 		}
 		batch.Add(tx)
-- 
2.43.0

