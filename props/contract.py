CC = "shuttermint/contract/config.go"
TB = "shuttermint/medley/txbatch/txbatch.go"
ME = "shuttermint/medley/medley.go"
def q(text, over=("inputs", "histories")):
    return {"over": list(over), "text": text}
def anch(files, mech, state=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]}
PROPS = [
 dict(id="C42", title="Batch configs are read, computed with and written completely and consistently",
  statement="A batch config read from the contract holds the settings and the complete keyper list, without duplicates, of the index and the block asked for; a failing query fails the reading. Batch indexes and block numbers are converted into each other by the config's start and span, inactive configs and batches that have not started are refused, and only valid thresholds and distinct keypers are accepted from files. After the next config was written, every setting and the keyper list in the contract are those given.",
  quantifier=q("every config, batch index, block number and state of the contract, and every failure of a query", ("inputs", "histories", "faults")),
  why_tests_cant="The existing tests use one or two configs with the contract's defaults; mixed up settings of the same type and stale values left in the contract depend on what was there before.",
  anchors=anch([CC, "shuttermint/contract/extra.go"], [("queries, conversions and SetNextBatchConfig", CC)], [("nextConfig", "the config that is being prepared in the contract", "contracts/contracts/ConfigContract.sol")]),
  technique="path-condition dataflow: correspondence of settings and getters, polynomial normal forms of conversions, induction over the loops over keypers, completeness of written settings on every successful path"),
 dict(id="C43", title="Main chain tools send every transaction once, in order, and wait for all of them",
  statement="Transactions that are sent together have consecutive nonces, starting with the sender's next free one, and every transaction that was sent is waited for. A command succeeds only if every transaction it waited for was mined and executed successfully. Waiting for a transaction goes on as long as the node does not know its receipt, and ends with an error on any other failure.",
  quantifier=q("every sequence of transactions and every outcome of each of them", ("inputs", "histories", "faults")),
  why_tests_cant="It takes a transaction that fails or is mined late in the middle of a batch, on a real chain; there are no tests of it.",
  anchors=anch([TB, ME, "shuttermint/cmd/deploy/deploy.go", "shuttermint/cmd/prepare/fund.go", "shuttermint/cmd/config/setnext.go", "shuttermint/cmd/config/schedule.go"], [("TXBatch.Add, WaitMined, InitTransactOpts", TB), ("WaitMined, WaitMinedMany", ME)], [("transactions, TransactOpts.Nonce", "what was sent and the next nonce", TB)]),
  technique="path-condition dataflow with induction over loops and facts about all iterations; must-pass analysis from sending to adding and from creating a batch to waiting for it"),
]
