APP = "shuttermint/app/app.go"
def q(text, over=("inputs", "histories")):
    return {"over": list(over), "text": text}
def anch(files, mech, state=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]}
TX = "every transaction byte string delivered in any state that any history of blocks can produce"
UNIT = "The unit tests call the handlers with a handful of well-formed messages; "
PROPS = [
 dict(id="C02", title="Only authentic, fresh, same-chain transactions change chain state",
  statement="A delivered transaction changes consensus state or produces an event only if its leading 65 bytes are a valid signature, under the protocol's signing domain, over exactly the message that is then processed, the message names this chain, and its random nonce has not been used before by the same signer. The signer recovered from that signature is the identity everything is attributed to. Before anything else changes, the nonce is permanently recorded as used; used nonces are never forgotten.",
  quantifier=q(TX), why_tests_cant=UNIT + "no test delivers forged, truncated, cross-chain or replayed transactions against every message kind, and none can cover every later edit of one handler.",
  anchors=anch([APP, "shuttermint/shmsg/encode.go", "shuttermint/app/noncetracker.go"], [("DeliverTx/decodeTx/deliverMessage", APP), ("GetSigner/GetMessage", "shuttermint/shmsg/encode.go"), ("NonceTracker", "shuttermint/app/noncetracker.go")]),
  technique="path-condition dataflow: authentication dominates every state write and event (interprocedural SSA)"),
 dict(id="C03", title="Mempool admission: authentic members only, rate limited, replay-free",
  statement="The mempool check accepts a transaction only if it is authentic, for this chain, not a replay of a delivered or pending transaction, and its sender is a member who has not exhausted the per-block limit; an accepted transaction is counted and its nonce remembered as pending. The mempool check never modifies consensus state, counters and pending nonces are reset at every commit, and whenever the set of accepted configs changes, every keyper of every config is a member.",
  quantifier=q("every transaction offered to the mempool, in any order, between any commits"), why_tests_cant=UNIT + "the admission conditions are only sampled for one member and a few counts, not for every order of checks, commits and config changes.",
  anchors=anch([APP, "shuttermint/app/checktx.go"], [("CheckTx", APP), ("AddTx/Reset/SetMembers", "shuttermint/app/checktx.go")]),
  technique="path-condition dataflow on CheckTx and Commit; effect analysis (who may write what)"),
 dict(id="C04", title="A rejected transaction leaves the chain state unchanged",
  statement="Whenever a delivered transaction is answered with an error code, the consensus state is the same as before except that the transaction's nonce counts as used, and the answer carries no events.",
  quantifier=q(TX), why_tests_cant="Tests look at the code of a response, not at all of the state after each of the roughly forty error returns, most of which no test reaches.",
  anchors=anch([APP, "shuttermint/app/messages.go", "shuttermint/app/dkg.go"], [("makeErrorResponse", APP), ("check before write in all handlers", APP)]),
  technique="effect analysis: no may-write reaches an error return (interprocedural, per path)"),
 dict(id="C05", title="Votes count only for authorised keypers, for the right thing",
  statement="A vote for a new config is counted only if its sender is a keyper of the newest accepted config and has not voted in the current voting; a vote for starting a config only if its sender is a keyper of the config before the newest one and the vote names the newest, not yet started config; a vote for starting an eon only if its sender is a keyper of the config that is active at the batch, and only in that config's voting. Every vote is recorded under its authenticated sender and refers to exactly the candidate that was voted for.",
  quantifier=q(TX), why_tests_cant=UNIT + "authorisation must hold for every sender and every list of configs.",
  anchors=anch([APP, "shuttermint/app/voting.go", "shuttermint/app/configvoting.go", "shuttermint/app/eonvoting.go"], [("allowedToVoteOnConfigChanges", APP), ("AddVote", "shuttermint/app/configvoting.go")]),
  technique="path-condition dataflow at every write to a vote table"),
 dict(id="C06", title="DKG messages, check-ins and signatures come from and concern keypers",
  statement="A DKG message is registered only if its sender is a keyper of the DKG of the eon it names; a message that names other parties is registered only if all of them are keypers of that DKG other than the sender, given as full-length addresses, one value for each where values are carried. A check-in is registered only for a keyper of some config, and a decryption signature only for a keyper of the config responsible for the batch.",
  quantifier=q(TX), why_tests_cant=UNIT + "the conditions must hold for every list of addresses of any length, not for the few lists in the tests.",
  anchors=anch(["shuttermint/app/dkg.go", "shuttermint/app/messages.go", APP], [("Register*Msg", "shuttermint/app/dkg.go"), ("Parse*Msg", "shuttermint/app/messages.go"), ("AddDecryptionSignature", "shuttermint/app/batch_state.go")]),
  technique="path-condition dataflow with quantified loop facts at every registration write"),
 dict(id="C07", title="At most one registration per keyper; registrations are never lost",
  statement="For every eon a keyper can register at most one commitment, one accusation, one apology and, per receiver, one evaluation; it can check in once, and register one decryption signature per batch. The address lists in a DKG message or proposed config contain no duplicates, and processing transactions never removes or replaces a registration.",
  quantifier=q(TX), why_tests_cant="Uniqueness is a statement about all pairs of transactions in a history; tests resend at most one message of a few kinds.",
  anchors=anch(["shuttermint/app/dkg.go", APP, "shuttermint/app/batch_state.go", "shuttermint/medley/medley.go"], [("*Seen maps", "shuttermint/app/dkg.go"), ("EnsureUniqueAddresses", "shuttermint/medley/medley.go")]),
  technique="lookup-before-insert analysis on all paths; effect analysis for deletions"),
 dict(id="C08", title="Configs are only appended: valid, ordered, voted for, immutable",
  statement="The list of accepted configs only ever grows by one config at its end, after genesis only by a transaction's vote that completes the threshold of the previously newest config, counting every keyper's vote for the candidate it voted for. The new config has a threshold between one and its number of keypers, a larger config index and a start batch that is not before that of the previous one, and both kinds of votes start from zero afterwards. An accepted config never changes, apart from its flags being set once at a block's end.",
  quantifier=q("every history of votes, in every order, by any set of keypers"), why_tests_cant="Tests run a few voting rounds; the claim is about every order of votes, and a threshold or validity check lost on one path is invisible to them.",
  anchors=anch([APP, "shuttermint/app/configvoting.go", "shuttermint/keyper/shutterevents/batchconfig.go"], [("checkConfig/addConfig", APP), ("EnsureValid", "shuttermint/keyper/shutterevents/batchconfig.go"), ("OutcomeIndex", "shuttermint/app/voting.go")]),
  technique="path-condition dataflow at writes of the config list; effect analysis on config objects"),
 dict(id="C09", title="Every DKG gets a new eon and is started exactly when due, and announced",
  statement="Eons are numbered consecutively; each DKG is stored under the eon it carries, starts with no registrations, and is announced with its eon and first batch in the response of the transaction that starts it. Accepting a config starts a DKG unless threshold and keypers are those of the current DKG, and votes for an eon start one when, and only when, a threshold of keypers of the config voted for the same batch, after which these votes are cleared.",
  quantifier=q(TX), why_tests_cant="Depends on histories of config changes and eon votes; tests exercise one or two starts.",
  anchors=anch([APP, "shuttermint/app/dkg.go", "shuttermint/app/eonvoting.go"], [("StartDKG/ShouldStartDKG", APP), ("maybeStartEon", APP)]),
  technique="must-follow analysis between counter, instance and announcement; path conditions at vote clearing"),
 dict(id="C10", title="Config start and validator switches are correctly gated and reported",
  statement="At a block's end the last config is marked started exactly when a threshold of keypers of the previous config voted for it, and validators are switched to it exactly when it is started and at least its threshold of keypers have checked in. The validator updates reported are the ordered difference between the stored and the new set, in which removed validators have power zero, and the new set is then stored (developer mode reports none). The new set is that of the newest config switched to, in which every keyper contributes the same voting power, to the key it checked in with or to a placeholder if it did not.",
  quantifier=q("every state that any history of transactions can produce"), why_tests_cant="Tests cover a few hand-made states of configs and identities; a weakened gate on one path does not fail them.",
  anchors=anch([APP, "shuttermint/app/powermap.go"], [("EndBlock/CurrentValidators/maybe start", APP), ("DiffPowermaps/ValidatorUpdates", "shuttermint/app/powermap.go")]),
  technique="path-condition dataflow in EndBlock and the validator-set computation"),
 dict(id="C11", title="Every kind of message is handled and accepted messages are published",
  statement="Every kind of message defined by the protocol has a handler with an effect. Accepting a check-in, a DKG message, a key share or a decryption signature publishes exactly one event of the corresponding kind, carrying the authenticated sender and the content of the message, and accepting a new config publishes that config.",
  quantifier=q(TX), why_tests_cant="No test compares the published event with the message for every kind; keypers only ever see the events, so a lost or wrong one stalls the DKG silently.",
  anchors=anch([APP, "shuttermint/keyper/shutterevents/events.go"], [("deliverMessage", APP), ("MakeABCIEvent", "shuttermint/keyper/shutterevents/events.go")]),
  technique="exhaustiveness over the protocol's message kinds; value-flow from message to event on accepting returns"),
]
