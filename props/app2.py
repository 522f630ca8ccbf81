APP = "shuttermint/app/app.go"
def q(text, over=("inputs", "histories")):
    return {"over": list(over), "text": text}
def anch(files, mech, state=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]}
PROPS = [
 dict(id="C01", title="Block execution is deterministic",
  statement="Two nodes that process the same genesis and the same blocks reach the same consensus state, responses, events and validator updates: nothing in block execution depends on the iteration order of maps, the clock, randomness, the environment, the schedule of goroutines, other global state, or on node-local data (the mempool check's counters, the file settings).",
  quantifier=q("every genesis and sequence of blocks, on every pair of nodes with any schedule and local configuration", ("inputs", "histories", "schedules")), why_tests_cant="Map iteration order and clock values differ from run to run and between nodes; a single run of a test sees one order.",
  anchors=anch([APP, "shuttermint/app/powermap.go", "shuttermint/app/voting.go"], [("DiffPowermaps/ValidatorUpdates", "shuttermint/app/powermap.go"), ("OutcomeIndex", "shuttermint/app/voting.go")]),
  technique="effect and source analysis over the code reachable from the ABCI entry points; order-insensitivity analysis of map iterations"),
 dict(id="C12", title="State files are replaced atomically and completely",
  statement="A crash at any point while the chain application, the keyper state or the list of pending actions is saved leaves either the complete old or the complete new file: the new state is written to another file, which is complete and synced to disk before it takes the place of the old one. A save that did not happen is reported as an error.",
  quantifier=q("every crash point and every failing file operation during a save", ("crash_points", "fault_sequences")), why_tests_cant="Tests do not crash in the middle of a save nor inject file errors.",
  anchors=anch([APP, "shuttermint/keyper/keyper.go", "shuttermint/keyper/fx/pending.go"], [("PersistToDisk", APP), ("saveState", "shuttermint/keyper/keyper.go"), ("Save", "shuttermint/keyper/fx/pending.go")]),
  technique="typestate of the temporary file on every path to its rename (interprocedural SSA)"),
 dict(id="C13", title="After a restart the node resumes from the state it saved",
  statement="The chain application reports exactly the height of the last block contained in its state, every completed block updates that height, and the state is saved only between blocks. Loading a state file either restores exactly what was saved or fails with an error; only a file that does not exist gives a fresh state.",
  quantifier=q("every crash point and every content of the state files", ("crash_points", "histories")), why_tests_cant="Whether a replay starts at the right block depends on the crash point; a test saves and loads at one.",
  anchors=anch([APP, "shuttermint/keyper/keyper.go", "shuttermint/keyper/fx/pending.go"], [("Info/Commit", APP), ("LoadShutterAppFromFile", APP), ("LoadState", "shuttermint/keyper/keyper.go")]),
  technique="path-condition dataflow on loaders and height updates; reachability of the save from block execution"),
 dict(id="C14", title="Everything that must survive a restart is saved",
  statement="All data that makes up the saved states of the chain application, the keyper and its pending actions can be and is included in the saved file: no part of it is silently skipped by the encoder, every concrete type that can occur in it is registered, and it is decoded as the type as which it was encoded.",
  quantifier=q("every reachable state of chain application and keyper", ("histories",)), why_tests_cant="A new field or action type that is not encodable only shows when a state containing it is saved and reloaded.",
  anchors=anch(["shuttermint/app/types.go", "shuttermint/keyper/keyper.go", "shuttermint/keyper/fx/actions.go", "shlib/puredkg/puredkg.go"], [("gob.Register", "shuttermint/keyper/fx/actions.go"), ("storedState", "shuttermint/keyper/keyper.go")]),
  technique="closure over the stored types: encodability, exportedness and registration"),
]
