D = "shuttermint/keyper/decide.go"
S = "shuttermint/keyper/observe/shutter.go"
M = "shuttermint/keyper/observe/mainchain.go"
def q(text, over=("inputs", "histories")):
    return {"over": list(over), "text": text}
def anch(files, mech, state=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]}
PROPS = [
 dict(id="C24", title="Lookups in the observed state return the right config, eon, batch or keyper",
  statement="Looking up the keyper set or eon responsible for a batch or block returns the last one that starts no later, and fails only if there is none; looking up an eon or batch by its number returns the one with exactly this number. Membership and position queries answer yes with the matching position exactly for addresses in the keyper set. Reading a key generation's messages from a block height on returns exactly the messages sent at that height or later.",
  quantifier=q("every observed state and every number or address asked for"), why_tests_cant="A wrong answer at a boundary (equal start numbers, the last element, an empty list) needs that particular state.",
  anchors=anch([S, M], [("FindBatchConfigByBatchIndex … FindEon, GetCommitments …", S), ("ConfigForBatchIndex, ConfigForBlock", M)]),
  technique="interprocedural path-condition dataflow on SSA: return conditions with quantified facts about the elements searched"),
 dict(id="C25", title="Every event of the shuttermint chain is taken into account, exactly once",
  statement="A keyper reads the shuttermint chain's transactions in consecutive block ranges without gap or overlap, from the block after the last one it has synced to up to the block that it records as synced, and all pages of each range. Every event of every transaction that can be decoded is applied, with its own height, to the list of its own kind in the eon or batch that it belongs to.",
  quantifier=q("every chain content, page boundary and distance to the head", ("inputs", "histories")), why_tests_cant="Gaps and repetitions appear only at boundaries of ranges and pages; tests do not query a chain that long.",
  anchors=anch([S, "shuttermint/keyper/shutterevents/events.go"], [("fetchAndApplyEvents, applyTxEvents, applyEvent", S), ("MakeEvent", "shuttermint/keyper/shutterevents/events.go")], [("CurrentBlock", "last block synced to", S)]),
  technique="interprocedural path-condition dataflow on SSA with inductive facts about the variables loops carry"),
 dict(id="C26", title="The main chain state is the complete state at one block the keyper trusts",
  statement="A keyper synchronises to a main chain block that lies the follow distance behind the head and never before the block it already knew; all contract state is read at exactly that block, and events are read from the block after the one it knew up to it. A failed query makes the synchronisation fail. All configs, execution receipts, transactions, accusations, appeals, deposits and slashings in this range are taken into account, each under its own batch, half step or account.",
  quantifier=q("every main chain state, head and answer of the node", ("inputs", "histories", "faults")), why_tests_cant="Needs a node whose head moves or which fails between queries.",
  anchors=anch([M, "shuttermint/contract/config.go"], [("SyncToHead", M), ("syncConfigs, syncExecutionState, syncBatches …", M)], [("MainChain", "observed main chain state", M)]),
  technique="interprocedural path-condition dataflow on SSA: arguments of every contract call, error conditions of every return, effects in every loop iteration"),
]
