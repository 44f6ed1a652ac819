# The properties of the chain clients and senders (run by props.py in its own namespace).
CHTEST = "The unit tests of these packages need running nodes and are skipped or only print; none looks at what a node receives or injects an answer."

prop("S01", "Senders put exactly the given relay message on the chain",
     "Whatever the bytes of a relay message, the transactions a sender submits carry exactly those bytes, the address of the source and nothing else: whole when they fit the transaction size limit, otherwise (ICON) as the numbered fragments from which the message contract rebuilds the message, none larger than the limit, none missing, repeated or out of order. The fields of the transaction (sender, contract, network, step or gas limit) are those configured.",
     ["inputs", "configurations"], "for every message size around and beyond the limits, every content, every size limit and every option", CHTEST,
     ["chain/icon/sender.go", "chain/ethbr/sender.go", "chain/icon/client/client.go"],
     [("fragments", "chain/icon/sender.go"), ("transactions", "chain/ethbr/sender.go")],
     "none", "transactions that simulated nodes receive",
     "runtime monitoring: recorded transactions against a reference reassembly", "messages of sizes at every boundary of fragmenting; reassembled as the contract does")
prop("S02", "The ICON sender reports the true outcome of every relay message",
     "For every relay message given to the ICON sender exactly one result is reported, under the message's own identifier, and it says what became of the message on the chain: success when the transaction succeeded, the contract's BTP code when the contract rejected it, an error otherwise. Answers that only mean 'not yet' (pending, executing, queue full, system busy, no result yet) never become an outcome, and a submitted message is not submitted again while it may still succeed.",
     ["inputs", "fault_sequences", "schedules"], "for every sequence of answers of the node, every result code, and any number of messages in parallel", CHTEST,
     ["chain/icon/sender.go", "chain/icon/client/client.go", "common/errors/errors.go"],
     [("result polling and code mapping", "chain/icon/sender.go")],
     "pending transactions", "results on the sender's channel against the scripted outcomes of the node",
     "runtime monitoring: scripted node answers with an outcome monitor", "random finite scripts of answers; all BTP codes")
prop("S03", "The Ethereum sender reports the true outcome of every relay message",
     "For every relay message given to the Ethereum sender exactly one result is reported, under the message's own identifier, and it says what became of the message on the chain: success when the receipt says so, the revert reason's BTP code when the contract rejected it, an error otherwise. A receipt that is not there yet never becomes an outcome, and no message is submitted twice.",
     ["inputs", "fault_sequences", "schedules"], "for every sequence of answers of the node, every revert reason, and any number of messages in parallel", CHTEST,
     ["chain/ethbr/sender.go", "chain/ethbr/client/client.go", "common/errors/errors.go"],
     [("receipt polling and revert codes", "chain/ethbr/sender.go")],
     "pending transactions", "results on the sender's channel against the scripted outcomes of the node",
     "race detector and scripted node answers with an outcome monitor", "random finite scripts of answers; all BTP codes")
prop("S04", "ICON transactions carry the hash and signature the network verifies",
     "For every transaction parameters, the bytes signed are the ICON canonical serialization (sorted keys, escaped text, nested objects and lists, nulls), the hash is its SHA3-256, and the signature recovers to the wallet's address; two different transactions never share a serialization.",
     ["inputs"], "for every nesting of objects, lists, strings with reserved characters, and nulls", CHTEST,
     ["chain/icon/client/serialize.go", "chain/icon/client/client.go", "common/crypto/signature.go", "common/wallet/wallet.go"],
     [("serialization", "chain/icon/client/serialize.go"), ("signing", "chain/icon/client/client.go")],
     "none", "serializations, hashes and signatures", "runtime monitoring: differential oracle against a reference serialization and secp256k1", "reference serializer written from the ICON specification")
prop("M01", "ICON monitors hand over every notification once, in order, unchanged",
     "A block, event or BTP monitor on an ICON node delivers each notification the node sends, once, in the order sent, with its content, to the monitor that asked for it and to no other; when the connection ends, for whatever reason, the monitor returns (with an error unless it was closed on purpose), also when several are open, closed or cut at the same time; a refused request or malformed notification is reported as an error.",
     ["schedules", "fault_sequences", "inputs"], "for every sequence of notifications, every end of a connection, and every interleaving of many monitors and closes", CHTEST,
     ["chain/icon/client/client.go"],
     [("monitoring and the connection table", "chain/icon/client/client.go")],
     "websocket connections", "callbacks against what the simulated node sent", "race detector and recorded notifications against an ordering monitor", "a real websocket server under the harness's control")
prop("M02", "Ethereum block monitoring skips and repeats no block",
     "Monitoring an Ethereum node from a height, polled or subscribed, hands over a run of consecutive blocks that starts at or before that height and in which no block is skipped or repeated and every header is the node's; heights that the node cannot serve yet are waited for, and when monitoring cannot go on it ends with an error.",
     ["schedules", "fault_sequences", "histories"], "for every start height, pace of block production, gap between subscription and catch-up, and finite sequence of failing answers", CHTEST,
     ["chain/ethbr/client/client.go"], [("polling, subscription and catch-up", "chain/ethbr/client/client.go")],
     "next height", "callbacks against the simulated chain", "race detector and recorded blocks against an ordering monitor", "a real HTTP and websocket node under the harness's control")
prop("J01", "JSON-RPC calls return their own answer or an error",
     "Every JSON-RPC call sends the method and parameters given, and returns the result of the answer to that call, the error object's code, message and data when the node answers with an error, or an error when the answer is missing, malformed, of another status or cut off; never another call's answer, never a success without a result, also when many calls run in parallel.",
     ["inputs", "schedules", "fault_sequences"], "for every method and parameters, every answer (valid, error, malformed, cut) and every interleaving of calls", CHTEST,
     ["common/jsonrpc/client.go", "common/jsonrpc/type.go", "chain/icon/client/client.go"],
     [("request and response", "common/jsonrpc/client.go")],
     "none", "requests the node receives and results the caller gets", "race detector and recorded calls against an outcome monitor", "a real HTTP server under the harness's control")
