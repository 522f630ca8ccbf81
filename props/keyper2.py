D = "shuttermint/keyper/decide.go"
S = "shuttermint/keyper/observe/shutter.go"
M = "shuttermint/keyper/observe/mainchain.go"
K = "shuttermint/keyper/keyper.go"
X = "shuttermint/keyper/fx/runenv.go"
A = "shuttermint/keyper/fx/pending.go"
def q(text, over=("inputs", "histories")):
    return {"over": list(over), "text": text}
def anch(files, mech, state=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]}
PROPS = [
 dict(id="C27", title="Observed states are never modified after they were handed over",
  statement="Synchronising, filtering and deciding work on copies: a state of the shuttermint chain or the main chain that has been handed over to another part of the keyper keeps its maps, lists and elements unchanged from then on, however the synchronisation goes on and even if it fails half way.",
  quantifier=q("every interleaving of synchronisation, filtering, deciding and saving", ("schedules", "histories")), why_tests_cant="A write into a shared map or list shows only if another goroutine reads it at the same time, or in a later state.",
  anchors=anch([S, M], [("SyncToHead, Clone, ShallowClone, ApplyFilter", S), ("SyncToHead, Clone", M)], [("World", "the states handed over", "shuttermint/keyper/observe/world.go")]),
  technique="backward ownership (freshness) analysis of every write on SSA, path-aware with respect to flags and nil tests"),
 dict(id="C28", title="Old data is dropped only after it has been handled",
  statement="What a keyper forgets of the shuttermint chain are only messages of blocks that it has completely handled and data of batches that were executed; all eons with their start, all messages from the first unhandled block on and all later batches stay. A block counts as handled only after all kinds of messages up to it were processed, also across restarts.",
  quantifier=q("every history of blocks, decisions and restarts", ("histories", "faults")), why_tests_cant="A message lost at the boundary matters only in a key generation that depends on it, after a particular sequence of synchronisations.",
  anchors=anch([S, D, K], [("ApplyFilter, filterSyncHeight, filterBatchIndex", S), ("GetShutterFilter, Decide", D), ("LoadState", K)], [("SyncHeight", "first block whose messages are not handled", D)]),
  technique="interprocedural path-condition dataflow on SSA: contents of the filtered state, order of handling, all stores to the handled height"),
 dict(id="C29", title="Decisions are written to disk before they take effect",
  statement="A keyper hands an action to the parts that send messages and transactions only after the state that led to it, secrets included, has been written to disk completely and put in place atomically; a failure in between stops it. After a restart the same actions come up again under the same numbers, so that no decision is lost or carried out under two numbers. It decides nothing before the actions pending from the last run were loaded.",
  quantifier=q("every sequence of decisions and every crash point", ("histories", "faults")), why_tests_cant="The order of writing, renaming and handing over shows only if the process stops between two of them.",
  anchors=anch([K, X], [("runOneStep, runActions, saveState, LoadState", K), ("RunActions, Load", X)], [("Actions, ActionCounter", "decisions made and not yet handed over", D)]),
  technique="interprocedural typestate analysis on SSA (error-correlated, through closures and defers) and path-condition dataflow"),
 dict(id="C30", title="Pending actions are kept until they are done and done in order",
  statement="An action that was handed over is stored under its own number, exactly once, and stays stored until it is expired, has failed for good, or was completed; this includes shutting down in the middle. A transaction that was sent already is waited for after a restart and not sent a second time. Actions of one kind are sent one after the other, in the order of their numbers, and the store is only used under its lock and saved before the lock is released.",
  quantifier=q("every interleaving of the workers, every failure and every crash point", ("schedules", "faults", "histories")), why_tests_cant="A lost or repeated transaction needs a crash, a shutdown or an RPC failure at one particular point, or two workers that meet.",
  anchors=anch([X, A], [("RunActions, Load, scheduleAction, handleAction, sendMainChainTX, waitMined", X), ("AddActions, RemoveAction, SetMainChainTXHash", A)], [("PendingActions", "actions by number and hashes of sent transactions", A)]),
  technique="interprocedural typestate analysis on SSA for locking, saving and sending; path-condition dataflow for numbers, queues and removals"),
]
