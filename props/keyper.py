D = "shuttermint/keyper/decide.go"
def q(text, over=("inputs", "histories")):
    return {"over": list(over), "text": text}
def anch(files, mech, state=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]}
PROPS = [
 dict(id="C15", title="The keyper acts only on synced chains and as a registered keyper",
  statement="The keyper schedules an action (message or transaction) only while neither of its two chain nodes is catching up, and only if its own address is in some keyper set known to the shuttermint chain. It sends its check-in, with its own validator and encryption keys, only if it is not checked in and has not sent one before, and votes at most once per config index, only for the successor of the newest config on the shuttermint chain and with the data the main chain has for this index.",
  quantifier=q("every observed state of the two chains and every history of the keyper"), why_tests_cant="The decision function is a long sequence over two observed chains; tests cover a few of its pieces with a handful of states.",
  anchors=anch([D, "shuttermint/keyper/observe/shutter.go"], [("Decide", D), ("maybeSendCheckIn", D), ("maybeSendBatchConfig", D)], [("LastSentBatchConfigIndex", "newest config voted for", D)]),
  technique="interprocedural path-condition dataflow on SSA at every site that schedules an action"),
 dict(id="C16", title="Key generation messages are sent in phase and carry the own results",
  statement="A keyper sends its commitment, accusations and apologies of a distributed key generation only when the next block lies in the phase in which this kind of message counts, and they contain what its own state machine for this eon computed, naming the participants it computed. It encrypts each share with the registered key of the participant it is meant for, and keeps shares whose receiver has no key yet until the dealing phase ends. A key generation is started once per eon, with participants, threshold and own position from the keyper config that is valid for the eon's first batch.",
  quantifier=q("every sequence of observed blocks, eons and check-ins", ("inputs", "histories", "schedules")), why_tests_cant="Which block the keyper happens to observe when a phase changes, and when check-ins arrive, depends on the schedule.",
  anchors=anch([D], [("startPhase1Dealing … dkgFinalize", D), ("sendPolyEvals", D), ("startDKG", D)], [("State.DKGs", "running key generations", D), ("OutgoingPolyEvalMsgs", "shares not yet sent", D)]),
  technique="interprocedural path-condition dataflow on SSA; per-iteration coverage of the loop over outgoing shares"),
 dict(id="C17", title="Observed key generation messages are handled as what they are",
  statement="A message observed on the chain enters a key generation only if it belongs to its eon and its block lies in the phase of this kind of message (the phases follow one another from the eon's start block and have the configured length), under the position of its sender among the participants and with unchanged contents, each list entry with the participant named at the same position. Before the keyper moves to the next phase, which it does only when it is due, it has handled all messages of the previous phase it observed.",
  quantifier=q("every sequence of messages in blocks and every grouping of blocks into observations", ("inputs", "histories", "schedules")), why_tests_cant="Late messages and messages by outsiders only change the result when they hit a particular block around a phase change.",
  anchors=anch([D], [("syncCommitments, syncPolyEvals, syncAccusations, syncApologies", D), ("syncDKGWithEon", D)]),
  technique="interprocedural path-condition dataflow on SSA at every call into the key generation state machine"),
 dict(id="C18", title="A key generation ends with an eon key or a request to restart",
  statement="A keyper ends a key generation only after the apologizing phase. If it failed the keyper requests a restart for the batch from which the eon counts and stores no key; if it succeeded it stores the result under this eon with its participants and broadcasts this result's public key, own position and first batch. One of the two always happens.",
  quantifier=q("every outcome of every key generation"), why_tests_cant="The failing outcomes need several faulty participants over several phases.",
  anchors=anch([D], [("dkgFinalize", D), ("broadcastEonPublicKey", D)], [("State.EKGs", "results of key generations", D)]),
  technique="interprocedural path-condition dataflow on SSA"),
 dict(id="C19", title="Epoch key shares are published only for ended batches, once and by members",
  statement="A keyper publishes its share of a batch's epoch key only after the batch has ended according to the main chain block it observes and before the batch's execution timeout, only if it belongs to the keyper set responsible for the batch, and only if it does not know the epoch's key already. The share is computed for exactly this batch with the keyper's secret of the eon responsible for it. No batch's share is published twice.",
  quantifier=q("every observed main chain block, config history and eon history", ("inputs", "histories")), why_tests_cant="A share that is published one block early lets transactions be decrypted before the batch is closed; only particular block numbers and config boundaries show it.",
  anchors=anch([D, "shuttermint/keyper/epochkg/epochkg.go"], [("publishEpochSecretKeyShares", D), ("publishEpochSecretKeyShare", D), ("sendEpochSecretKeyShare", D)], [("NextEpochSecretShare", "first batch not considered yet", D)]),
  technique="interprocedural path-condition dataflow on SSA with polynomial comparison of block and batch numbers"),
 dict(id="C20", title="Epoch keys are computed from threshold verified shares of distinct keypers",
  statement="A share of an epoch key is used only if it verifies against the public key share of the keyper who sent it and the identity of its epoch, and only one share per sender and epoch is used. The epoch key is computed as soon as, and only when, threshold such shares were collected, from exactly these senders and shares; once it is known further shares are ignored.",
  quantifier=q("every order of valid, invalid and repeated shares", ("inputs", "histories", "schedules")), why_tests_cant="A wrong or doubly counted share matters only in particular orders of arrival.",
  anchors=anch([D, "shuttermint/keyper/epochkg/epochkg.go"], [("HandleEpochSecretKeyShare", "shuttermint/keyper/epochkg/epochkg.go"), ("syncEKGWithEon", D)], [("SecretShares, SecretKeys", "shares and keys per epoch", "shuttermint/keyper/epochkg/epochkg.go")]),
  technique="interprocedural path-condition dataflow on SSA; whole-program query for writers of the shares and keys"),
 dict(id="C21", title="Keypers sign and count signatures only over the batch they decrypted",
  statement="The decryption result of a batch is the decryption of exactly the batch's observed encrypted transactions with the batch's epoch key. A keyper signs only the hash that binds the batcher contract, the batch index, the encrypted and the decrypted transactions, and only while signatures are missing, the batch is not empty and its execution timeout is not over. A signature of somebody else is counted only if its sender made it over the keyper's own hash of this batch and belongs to the batch's keyper set, and at most once per sender.",
  quantifier=q("every set of observed transactions and signatures", ("inputs", "histories")), why_tests_cant="Tests do not send repeated, foreign or wrong signatures in the order that matters, nor compare the hash with the contract's definition.",
  anchors=anch([D, "shuttermint/keyper/observe/mainchain.go"], [("decryptTransactions", D), ("computeDecryptionSignatureHash", D), ("sendDecryptionSignature", D), ("syncBatch", D)], [("State.Batches", "decryption results and signatures", D)]),
  technique="interprocedural path-condition dataflow on SSA; order of hash inputs"),
 dict(id="C22", title="Half steps are executed in order, in time and with the right contents",
  statement="A keyper sends execution transactions only for the next half steps in order, only for batches that have ended, and not while it waits for an earlier one. Encrypted transactions are executed only before the batch's timeout, as decrypted and with at least threshold counted signatures (unless the batch is empty), and are skipped only after the timeout; plain transactions are executed as observed. Executions are sent only by members of the batch's keyper set.",
  quantifier=q("every observed main chain state and history of decisions", ("inputs", "histories")), why_tests_cant="The conditions depend on block numbers at batch and config boundaries and on what is pending.",
  anchors=anch([D], [("maybeExecuteBatch", D), ("maybeExecuteHalfStep", D), ("executeCipherBatch", D), ("executePlainBatch", D)], [("PendingHalfStep", "half step with a pending transaction", D)]),
  technique="interprocedural path-condition dataflow on SSA with polynomial comparison of block and half step numbers"),
 dict(id="C23", title="Accusations and appeals follow from the keyper's own decryption result",
  statement="A keyper appeals against an open accusation only if the executed batch equals its own decryption result and it holds at least threshold counted signatures, which it passes sorted by keyper, and not twice while an appeal is pending. It accuses an executor only for an encrypted half step that was executed with another result than its own and that is not accused yet, and looks at every half step once.",
  quantifier=q("every sequence of executions and accusations", ("inputs", "histories")), why_tests_cant="Needs misbehaving executors or accusers in particular order relative to the keyper's observations.",
  anchors=anch([D], [("maybeAppeal", D), ("maybeAccuse", D), ("syncPendingAppeals", D)], [("PendingAppeals, HalfStepsChecked", "what was appealed and checked", D)]),
  technique="interprocedural path-condition dataflow on SSA"),
]
