D = "shuttermint/keyper/decide.go"
K = "shuttermint/keyper/keyper.go"
X = "shuttermint/keyper/fx/runenv.go"
MS = "shuttermint/keyper/fx/messagesender.go"
AC = "shuttermint/keyper/fx/actions.go"
CA = "shuttermint/contract/caller.go"
def q(text, over=("inputs", "histories")):
    return {"over": list(over), "text": text}
def anch(files, mech, state=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]}
PROPS = [
 dict(id="C31", title="Messages count as sent only if the chain accepted and executed them",
  statement="A keyper broadcasts exactly the message it was asked to send, signed with its own key for the chain it talks to and with a fresh unpredictable random number. Sending succeeds only if the chain has checked the message, executed it and reported no error in either step. A message that the chain rejected is given up, one that could not be delivered is tried again.",
  quantifier=q("every answer of the chain's node and every failure", ("inputs", "faults")), why_tests_cant="The node's answers are outside of the tests' reach; a message that counts as sent although it was rejected is missed only much later.",
  anchors=anch([MS, X, "shuttermint/shmsg/sign.go"], [("SendMessage, addNonce, maybeFetchChainID", MS), ("IsRetriable", X)], []),
  technique="path-condition dataflow on the outcomes of sending; backward slices for the seed of the random number and the keys"),
 dict(id="C32", title="Actions make the intended transactions and expire by their effect",
  statement="Each kind of action makes the contract call of its kind with exactly the batch, half step, transactions, signatures and indices that it was decided for, and reports the contract's answer unchanged. It is dropped as expired exactly when the observed state of the main chain shows that its purpose has been achieved (or can no longer be achieved), not before.",
  quantifier=q("every action and every observed state", ("inputs", "histories")), why_tests_cant="The contracts accept wrong arguments of the right types; an action that expires too early shows only for a particular number of executed half steps.",
  anchors=anch([AC, CA], [("SendTX, IsExpired of every action", AC), ("Caller", CA)], [("NumExecutionHalfSteps, Accusations", "observed effects", "shuttermint/keyper/observe/mainchain.go")]),
  technique="path-condition dataflow: argument and field correspondence by the contract bindings' parameter names, exact conditions of expiry"),
]

E = "shuttermint/keyper/shutterevents/events.go"
MA = "shuttermint/keyper/shutterevents/marshal.go"
SM = "shuttermint/shmsg/messages.go"
AM = "shuttermint/app/messages.go"
EN = "shuttermint/shmsg/encode.go"
PROPS += [
 dict(id="C33", title="Events are decoded to exactly what the chain encoded",
  statement="Every event that the shuttermint chain emits is decoded by the keypers to the same kind of event with the same contents: each field comes back from the place and by the inverse of the conversion by which it was written, all elements of lists included and also if there are none, with the height of its block. Events that are malformed are rejected.",
  quantifier=q("every event of every kind, with lists of any length", ("inputs",)), why_tests_cant="Tests encode a few sample events; a field that is mixed up with another one of the same type, or a value that does not survive, depends on the contents.",
  anchors=anch([E, MA], [("MakeABCIEvent, MakeEvent of all event types", E), ("encode/decode functions", MA)], []),
  technique="backward codec-chain dataflow on SSA through helpers, loops and output parameters; inverse check of conversion sequences per field"),
 dict(id="C34", title="What keypers send in messages is what the chain handles",
  statement="For every kind of message, the chain makes of it exactly the values that the sender put in: each value travels in its own field, encoded and decoded by inverse conversions, with all elements of lists. Messages with malformed contents are rejected with an error and are not handled in part.",
  quantifier=q("every message of every kind, with lists of any length", ("inputs",)), why_tests_cant="Two fields of the same type that are exchanged, or a list element that gets lost, show only for particular contents.",
  anchors=anch([SM, AM, "shuttermint/keyper/shutterevents/batchconfig.go"], [("New... constructors", SM), ("Parse... functions", AM), ("BatchConfigFromMessage", "shuttermint/keyper/shutterevents/batchconfig.go")], []),
  technique="backward codec-chain dataflow on SSA from event fields to message fields and from these to constructor arguments"),
 dict(id="C35", title="A message's signer is recovered from exactly the bytes that are decoded",
  statement="The sender of a message is the address whose key signed exactly the bytes that the chain then decodes: the signature covers a fixed prefix and the whole encoded message, no byte of which is left out or taken from elsewhere. Messages too short to hold a signature are rejected without accessing missing bytes.",
  quantifier=q("every byte string that is sent to the chain", ("inputs",)), why_tests_cant="Tests sign and recover a few messages; bytes that are decoded but not signed show only to someone who manipulates them.",
  anchors=anch([EN, "shuttermint/app/app.go"], [("SignMessage, GetSigner, GetMessage", EN), ("decodeTx", "shuttermint/app/app.go")], [("hashPrefix", "domain of the signatures", EN)]),
  technique="backward dataflow with ordered hash inputs and byte ranges on SSA; path conditions for lengths and errors"),
]

PD = "shlib/puredkg/puredkg.go"
PROPS += [
 dict(id="C36", title="Key generation messages count once, in time and well-formed",
  statement="A key generation message is accepted only if it is for this key generation, its phase is not over, nothing was accepted in its place before, and it is well-formed: a commitment of exactly the degree that the threshold demands, an evaluation within the field and for this keyper. It is then kept as it was sent, under its sender; all others are reported as errors and change nothing. Phases follow each other in order, none is skipped or entered twice.",
  quantifier=q("every message and every sequence of messages and phases", ("inputs", "histories")), why_tests_cant="Tests run honest protocols with few deviations; a second, late or malformed message that is accepted shows only if somebody sends it.",
  anchors=anch([PD], [("HandlePolyCommitmentMsg, HandlePolyEvalMsg, HandleAccusationMsg, HandleApologyMsg", PD), ("setPhase", PD)], [("Commitments, Evals, Accusations, Apologies", "what was received", PD)]),
  technique="path-condition dataflow: guards of every state write, correspondence of returns and writes; effect analysis for writes from elsewhere"),
 dict(id="C37", title="Dealings, accusations and apologies follow from what was received",
  statement="A keyper that deals draws a random polynomial of the threshold's degree, publishes its commitment and sends every other keyper exactly the evaluation for that keyper, its own it keeps. It accuses exactly the dealers whose commitment or evaluation it lacks or whose evaluation does not match the commitment. It answers every accusation against it, and no other, with the evaluation for the accuser.",
  quantifier=q("every number of keypers and every set of messages received", ("inputs", "histories")), why_tests_cant="Which dealers must be accused or answered depends on the combination of messages received; tests try few of them.",
  anchors=anch([PD], [("StartPhase1Dealing, StartPhase2Accusing, StartPhase3Apologizing", PD)], [("Polynomial, Evals, Commitments, Accusations", "inputs", PD)]),
  technique="loop comprehension analysis: which elements of which domain contribute what to the result, decided on the path conditions of every iteration"),
 dict(id="C38", title="All keypers derive the result from the same set of honest dealers",
  statement="A dealer is excluded exactly if it published no commitment, apologized with an evaluation that does not match it, or left an accusation unanswered; this depends only on what every keyper sees. The result is computed only after the last phase, with at least threshold many dealers, from the commitments of all dealers that are not excluded and evaluations that match them (the published one, if the dealer apologized to this keyper); otherwise there is an error and no result.",
  quantifier=q("every combination of commitments, evaluations, accusations and apologies", ("inputs", "histories")), why_tests_cant="Keypers that disagree about who is corrupt get keys that do not fit together; that takes particular accusations and apologies.",
  anchors=anch([PD], [("isCorrupt, polyEval, ComputeResult", PD)], [("Apologies, Accusations", "visible to all keypers", PD), ("Evals", "private to the keyper", PD)]),
  technique="path-condition dataflow with loop comprehension and loop-invariant counters; read-effect analysis for the private state"),
]
