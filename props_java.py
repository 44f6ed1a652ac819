# The properties of the ICON-side contracts, javascore (run by props.py in its own namespace).
JB = "javascore/bmc/src/main/java/foundation/icon/btp/bmc/"
JV = "javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/"
JR = "javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/"
JL = "javascore/lib/src/main/java/foundation/icon/btp/lib/"
JTEST = "The contracts' own tests need a network and a node, are not among the tests that run here, and play single scenarios with one link."

prop("X01", "The message centre (javascore BMC) passes every verified message on exactly once",
     "Every message a link's verifier returns is handled exactly once, in order: a message for this network goes to the service it names (management messages to the centre itself), one for another network leaves on the link of its route unchanged but for its fee, and one that cannot be delivered (unknown service, no route, failing service) is answered by one error response to where it came from if its sequence number is positive, and is reported as dropped otherwise. Services may answer each received request once; responses and errors carry the request's network number, with the code of what failed. Each outgoing message leaves exactly one link once, with that link's next sequence number (or as BTP block message), the link status counts exactly what was received and sent, routes follow links, registered routes and announced reachable networks, an owner's drop skips exactly the next message, and a relay message handed in as fragments counts as the whole one. A transaction that fails leaves nothing behind.",
     ["inputs", "histories", "configurations"], "for every history of relay messages, service calls, registrations, drops and fragments over any number of links, routes, services and networks, in every order", JTEST,
     [JB + "BTPMessageCenter.java", JB + "BTPMessage.java", JB + "BMCMessage.java", JL + "BTPAddress.java"],
     [("message handling", JB + "BTPMessageCenter.java"), ("error responses", JB + "ResponseMessage.java")],
     "links with their counters and reachable networks, routes, services, drops, requests", "events, calls of services and verifiers, and answers of the contract on a stand-in of the platform",
     "runtime monitoring: every call, event and answer of the real contract against an executable model", "the real contract runs on a stand-in of the SCORE platform; single centres under random operations, and networks of centres with relays between them")
prop("X02", "Relay fees are conserved: paid once, earned once, claimed once",
     "A service pays for a message at least the fee of its route (both ways, if it asks for a response), and less is refused; what is paid beyond it goes to the centre. Of each fee the relay that hands a message in at the next centre earns that hop's share once, for responses and errors too, and what is left when a message ends or is dropped is collected by the centre there once; nothing is earned twice or lost. A claim pays the caller's whole reward of that network once: coins at home, and elsewhere by a message that credits the receiver there, giving it back if that fails; the fee handler claims what the centre collected. Fees, fee tables and rewards shown agree with this at all times.",
     ["inputs", "histories", "configurations"], "for every fee table, every history of messages, responses, errors, drops and claims, over every route and number of hops", JTEST,
     [JB + "BTPMessageCenter.java", JB + "FeeInfo.java", JB + "ClaimMessage.java"],
     [("fees and rewards", JB + "BTPMessageCenter.java")],
     "rewards, claims, fee tables", "balances, transfers, rewards and fees shown by the contract",
     "runtime monitoring: conservation and an executable model over every transaction", "networks of centres with relays, claims at home and abroad, failing claims and drops")
prop("X03", "Only entitled callers change the message centre, and its registries hold exactly what was put in",
     "Only owners change owners, verifiers, services, links, routes, relays, fees, the fee handler and network ids, and drop messages; only registered relays of a link hand in its relay messages and fragments, only the registered contract of a service sends messages for it, and only payable functions take coins. Owners, verifiers, services, links, routes and relays behave as sets or maps: adding twice or removing what is missing is refused with the documented code, removing leaves nothing of it behind, and what others refer to cannot be removed. The last owner cannot be removed. A refused operation changes nothing.",
     ["inputs", "histories"], "for every caller and every sequence of registrations and removals", JTEST,
     [JB + "BTPMessageCenter.java", JL + "OwnerManagerImpl.java"],
     [("registries", JB + "BTPMessageCenter.java")],
     "owners, verifiers, services, links, routes, relays", "outcomes, codes and all registries shown by the contract after every operation",
     "runtime monitoring: every operation and registry of the real contract against an executable model", "random and directed sequences of all operations by owners, relays, services and strangers")
prop("V01", "The BTP block verifier (javascore) returns exactly the proven next messages",
     "The verifier accepts a block update only if it is the next one of its network, built on the last accepted one, and signed by more than two thirds of the validators of the accepted proof context, each counted once; it returns messages only if they are the next ones of the last accepted block, proven under its message root, each once, in order and unchanged. Genuine updates and proofs are accepted however they are cut (several in one relay message, part of a block at a time, any sequence offset); anything altered, forged, replayed, reordered or for another network is refused and changes nothing, an old update with code 27 and one too far ahead with code 26. Only the message centre may call it, for its own network.",
     ["inputs", "histories"], "for every history of blocks, validators and numbers of messages, every cut of updates and proofs, and every alteration", JTEST,
     [JV + "BTPMessageVerifier.java", JV + "BlockUpdate.java", JV + "BlockHeader.java", JV + "MessageProof.java", JV + "Node.java", JV + "ProofContext.java"],
     [("block updates", JV + "BTPMessageVerifier.java"), ("message proofs", JV + "MessageProof.java"), ("validators", JV + "ProofContext.java")],
     "last accepted block, validators, sequence", "messages returned, refusals and status of the verifier",
     "runtime monitoring: answers of the real verifier against an independent source chain, with systematic forgeries", "an independent generator of blocks, signatures and trees; alterations of every field")
prop("V02", "The bridge verifier (javascore) returns exactly the next messages in sequence",
     "Given the events of a relay message, the bridge verifier returns the messages from the expected sequence number on, each once, in order and unchanged; earlier ones and those of earlier heights are skipped, a gap is refused as not verifiable yet and changes nothing. Its height is that of the last accepted proof. Only the message centre may call it, for its own network.",
     ["inputs", "histories"], "for every sequence of receipts, heights, sequence numbers and messages", JTEST,
     [JR + "BTPMessageVerifier.java", JR + "RelayMessage.java", JR + "ReceiptProof.java"],
     [("acceptance", JR + "BTPMessageVerifier.java")],
     "height", "messages returned, refusals and status of the verifier",
     "runtime monitoring: answers of the real verifier against a model", "random and hostile relay messages")
JX = "javascore/xcall/src/main/java/foundation/icon/btp/xcall/"
prop("Y01", "Calls between chains (javascore xcall) are executed at most once and rolled back at most once, never both ways",
     "A call sent reaches its target as exactly the caller, target and data given, is executed at most once whoever triggers it, also when the target calls back into the service, and reports the target's outcome: success, its error code, or failure (never success for a failing target). A response is sent if and only if the caller gave rollback data, once, with that outcome, even if the target fails. A rollback can be executed at most once, only after a failure response or an error of the message centre for that call, and hands the caller exactly its rollback data from the service's own address; after a success response it is impossible. Only contracts may ask for a rollback, data of more than 2048 bytes and rollback data of more than 1024 bytes are refused. A sender pays at least the fee shown; the protocol fee goes to the fee handler (or is kept until there is one), all the rest to the message centre. Only the message centre delivers messages and errors, only for this service; responses of unknown calls are ignored; only the owner sets the admin and only the admin the fee and its handler. A refused call changes nothing, and an update of the contract keeps all of it.",
     ["inputs", "histories"], "for every history of calls, executions, responses, errors, rollbacks, re-entrant calls and settings, in every order", JTEST,
     [JX + "CallServiceImpl.java", JX + "CSMessageRequest.java", JX + "CSMessageResponse.java", JX + "CallRequest.java"],
     [("calls and rollbacks", JX + "CallServiceImpl.java")],
     "pending calls, requests with their state, fees", "events, calls of contracts, messages sent, balances and answers of the contract on a stand-in of the platform",
     "runtime monitoring: every call, event, message and balance of the real contract against an executable model", "networks of services with contracts that succeed, fail, send and call back in, on a centre that delays, reorders, repeats and fails")
JN = "javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/"
prop("G01", "Coins are conserved by the coin service (javascore nativecoin): locked, delivered or given back, each once",
     "Whatever is sent with the coin service is taken from the sender once and ends exactly one way: on a success answer the amount less the fee is delivered (coins of the receiving network paid out, others minted as tokens; every asset of a request, also one named twice), tokens sent are burnt and the fee is kept; on a failure answer or an error of the message centre the whole sum becomes refundable to the sender, who reclaims it at most once, also when the receiver calls back in. Answers repeated or for unknown transfers have no effect; a request that cannot be delivered in full (unknown coin, amount not positive, bad or refusing receiver) has no effect and is refused. The fee is the ratio of the amount, at least one, and something must be left to deliver. When nothing is under way, all coins of a network that are abroad as tokens, refundable or fees are backed by coins its service holds, and a token's supply is the sum of its balances. Only the message centre delivers messages and errors; only owners register coins, set the ratio between 1 and 9999, and mint, burn or describe tokens. A refused call changes nothing.",
     ["inputs", "histories"], "for every history of transfers, batches, answers, errors, reclaims, registrations and ratios, in every order over several networks", JTEST,
     [JN + "NativeCoinService.java", JN + "TransferRequest.java", JN + "TransferTransaction.java", JN + "irc31/OwnerBasedIRC31Supplier.java"],
     [("transfers and refunds", JN + "NativeCoinService.java"), ("supply", JN + "irc31/OwnerBasedIRC31Supplier.java")],
     "balances, locked and refundable sums, fees, pending transfers, token supplies", "balances, events, messages and answers of the real contracts on a stand-in of the platform",
     "runtime monitoring: a model of every balance and a conservation check over the whole net at the end", "three networks with contracts that refuse or call back in, a centre that fails, delays, reorders and repeats")
JI = "javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/"
prop("I01", "The ICON block verifier (javascore) returns exactly the proven next messages of accepted blocks",
     "The verifier accepts a block update only if its height is the next one and more than two thirds of the current validators, each counted once, voted for exactly this header (height, round, part set and time as stated); a change of validators is taken over only if it is the one the header names, and holds for the next block on. A block proof is accepted only for a block accepted before, with a witness of its place in the accumulator as it is now. Of the last block of a relay message it returns the messages of events proven under the block's receipt root and the receipt's event root, emitted by the message centre of the source for this message centre: each once, in order, unchanged, starting right after the given sequence number; events of others are passed over. Genuine relay messages are accepted however they are cut. A gap is refused with code 32, a message of before with 28, a block too far ahead with 33, one of before with 34, a proof of a block to come with 35, a witness made at a lower height with 36; anything altered, forged or signed by others is refused, and what is refused changes nothing. The status is the height, the offset and the height of the last block with messages. Only the message centre may call it, for its own network. (Receipts in the form without event roots, of before revision 7 of ICON, are not covered.)",
     ["inputs", "histories"], "for every history of blocks, validators, receipts and events, every cut into relay messages, and every alteration", JTEST,
     [JI + "BTPMessageVerifier.java", JI + "MerkleTreeAccumulator.java", JI + "MerklePatriciaTree.java", JI + "Votes.java", JI + "Receipt.java", JI + "EventLog.java", JI + "RelayMessage.java"],
     [("acceptance of blocks and messages", JI + "BTPMessageVerifier.java"), ("accumulator", JI + "MerkleTreeAccumulator.java"), ("tries", JI + "MerklePatriciaTree.java")],
     "accumulator, validators, last height", "messages returned, refusals with codes, and status of the verifier",
     "runtime monitoring: answers of the real verifier against an independent source chain, with systematic forgeries", "an independent generator of blocks, votes, accumulators and tries of up to 260 receipts; alterations of every field")

JH = "javascore/fee-aggregation/src/main/java/foundation/icon/btp/"
prop("H01", "Fee auctions (javascore) pay every depositor exactly what is due and keep everything else accounted for",
     "Anyone may deposit coins on a registered token of which fees are available; the first deposit opens an auction of all tokens neither due to someone nor on offer, for the set duration, and further ones (also of zero, also by the same depositor) add to it. An auction that is over is settled once, by the next deposit (which opens the next auction) or the next claim: at the reference price less ten percent each depositor gets the tokens the deposit buys if the offer is worth more than all deposits, else the share of the offer in proportion to the deposit, and the coins the share is not worth back (all rounded down in tokens); the treasury gets the deposits less what goes back. Tokens due and coins to go back are held by the contract until claimed or withdrawn, are paid once and only to their owner, and stay due if the payment fails; a payment refused by its receiver changes nothing. At all times the coins held equal the deposits of open auctions plus what is to go back, and the tokens held cover what is due and on offer. If the treasury refuses, nothing is settled; an auction without coins is settled with nothing due. Coins sent directly go to the treasury. Only the owner registers tokens (each name once) and sets the duration. The views show exactly this.",
     ["inputs", "histories"], "for every history of fees, deposits, prices, times, claims, withdrawals and failing receivers", JTEST,
     [JH + "FeeAggregationSCORE.java", JH + "Syndication.java", JH + "Token.java"],
     [("opening and settling of auctions", JH + "FeeAggregationSCORE.java"), ("deposits of an auction", JH + "Syndication.java")],
     "auctions, deposits, dues, refunds, locks", "balances, events, refusals and views after every operation",
     "runtime monitoring: the real contract against a model of every balance, with conservation checks", "random histories with failing receivers and re-entry")

PB, PL = "pyscore/bmv/icon/", "pyscore/lib/"
PTEST = "pyscore's own tests need a library that is not here and are not among the stable ones; they decode one recorded relay message"
prop("P01", "The ICON block verifier (pyscore) returns exactly the proven next messages of accepted blocks",
     "The verifier accepts a block update only if its height is the next one and more than two thirds of the current validators, each counted once, voted for exactly this header (height, round, part set and time as stated); a change of validators is taken over only if it is the one the header names, and holds for the next block on. A block proof is accepted only for a block accepted before, with a witness of its place in the accumulator as it is now. Of the last block of a relay message it returns the messages of events proven under the block's receipt root and the receipt's event root, emitted by the message centre of the source for this message centre: each once, in order, unchanged, starting right after the given sequence number; a gap or a message of before is refused and events of others are passed over. Genuine relay messages are accepted however they are cut. Anything altered, forged or signed by others is refused, and what is refused changes nothing. The status is the height, the offset and the height of the last block with messages. Only the message centre may call it, for its own network.",
     ["inputs", "histories"], "for every history of blocks, validators, receipts and events, every cut into relay messages, and every alteration", PTEST,
     [PB + "icon.py", PB + "message.py", PL + "icon/mta.py", PL + "icon/mpt.py"],
     [("acceptance of blocks and messages", PB + "icon.py"), ("blocks, votes, receipts and events", PB + "message.py")],
     "accumulator, validators, last height", "messages returned, refusals with codes, and status of the verifier",
     "runtime monitoring: answers of the real verifier against an independent source chain, with systematic forgeries", "an independent generator of blocks, votes, accumulators and tries; alterations of every field")
prop("P02", "The codecs, accumulator, trie and addresses of the Python contracts agree with their formats for every input",
     "RLP: every value of bytes, integers, strings, booleans, nulls and lists, of any length and nesting, is written as the format says and read back equal with its types; bytes that are cut, followed by others or inconsistent are refused, and any byte string is either refused or read as what its headers say. Base64, plain and url-safe, padded or not, is written and read as the standard says, and other characters are refused. The accumulator holds at every height the roots of the leaves added since its offset, reads back equal from what it writes, accepts every genuine witness of the present (and of later, if allowed, for leaves it has), refuses wrong leaves, places, witnesses and lengths, and of before accepts exactly the leaves it still keeps. The trie returns exactly the value that a proof leads to under its root and refuses altered, shortened and foreign proofs. A BTP address is split into and put together from its parts without loss, equal if and only if its parts are, and invalid without any of them.",
     ["inputs", "histories"], "for every value, byte string, sequence of leaves, offset, trie and address", PTEST,
     [PL + "icon/rlp.py", PL + "icon/base64.py", PL + "icon/mta.py", PL + "icon/mpt.py", PL + "btp_address.py"],
     [("RLP", PL + "icon/rlp.py"), ("accumulator", PL + "icon/mta.py"), ("trie", PL + "icon/mpt.py"), ("base64", PL + "icon/base64.py"), ("addresses", PL + "btp_address.py")],
     "roots, offset, kept leaves", "results and refusals of the library",
     "runtime monitoring: differential execution against independent implementations", "random, boundary and hostile values")
PC = "pyscore/bmc/"
prop("P03", "What the Python contracts store is what was put there, in every later transaction",
     "Dictionaries, records (relays, links, relayers), routes, lists and properties behave as plain ones: after any sequence of settings, changes, removals (of one entry or all, also of what the same transaction added) and failed transactions, in this and in every later transaction, exactly the entries that were set and not removed are listed, in the order they were added, each with its last value and type, by key and by index; an entry that is added again starts anew, with nothing of the removed one, its lists and its dictionaries included; a key with a comma, an unknown property and an index beyond the end are refused. A route leads to the link it was set to.",
     ["histories", "inputs"], "for every sequence of changes, division into transactions and key", PTEST,
     [PL + "icon/db.py", PC + "relay.py", PC + "link.py", PC + "relayer.py", PC + "route.py"],
     [("containers and properties", PL + "icon/db.py"), ("records", PC + "relay.py"), ("links", PC + "link.py"), ("relayers", PC + "relayer.py"), ("routes", PC + "route.py")],
     "entries, values, order", "what the containers list and return after each step and in new instances on the same store",
     "runtime monitoring: containers under random histories against plain models, with new instances and failed transactions", "random sequences of changes, short keys, re-additions, rollbacks")
prop("P04", "The Python message centre lets only those act who may, and delivers, forwards or returns every message once and in order",
     "Registrations of services, verifiers, links, routes, relayers, relays and permissions are done if and only if they make sense (nothing twice, nothing unknown, no verifier removed that a link needs) and, under access control, the caller or else the originator holds the permission; what is refused reports its own code (already exists, does not exist, unauthorized, unreachable); removing a link removes its relays and what relayers hold for it; all of it is listed as registered. Relay messages are accepted of registered relays with a valid proof only; with turns, exactly one relay is accepted at any height, the one whose turn is reported, strangers never are, without messages the turn passes on with each term, and it is always of a registered relay. Each message of an accepted relay message is handled once: by the service it names, with the source's network, number and payload; as an error by that service if its number is negative; forwarded unchanged to the next link of the route, the link, or the neighbour that reaches its network; and if that fails an error with the negated number and the code goes back over the link it came from, for positive numbers only. Link events change what a neighbour reaches. Messages sent by services are addressed to the destination's message centre. Each link's outgoing messages are numbered without gaps, its incoming count and the counts of its relays grow by the messages received, and a failed request changes nothing.",
     ["histories", "inputs"], "for every sequence of requests, sender, message, failure of a service and height", PTEST,
     [PC + "bmc.py", PC + "link.py", PC + "permission.py", PC + "relayer.py", PC + "route.py", PC + "message.py"],
     [("requests", PC + "bmc.py"), ("links and turns", PC + "link.py"), ("permissions", PC + "permission.py")],
     "links with numbers, relays, routes, services, permissions", "results, codes, events and calls to services of the contract, and everything it can be asked",
     "runtime monitoring: the real contract against a model of it after every request", "random requests, messages of every kind, failing services, invalid proofs, heights")
prop("P05", "The Python token service neither loses, makes nor moves twice any token",
     "Over all chains, what users can use plus what is on its way is what was deposited less what was taken out, after any sequence of deposits, withdrawals, transfers, deliveries in any order, errors and answers. A deposit of a registered token credits its sender; a withdrawal or transfer is refused beyond what is usable, for negative amounts, unregistered tokens and invalid addresses; a transfer locks the amount until it is answered and then either releases it for good or returns it, once, also if the other side does not know the request; a received transfer credits its receiver once and is answered with its number, without credit if the token is not registered there; messages and errors of others than the message centre, answers to nothing pending and received transfers of negative amounts change nothing. Only the owner registers and unregisters tokens.",
     ["histories", "schedules"], "for every sequence of operations, order of delivery and failure", PTEST,
     ["pyscore/token/token_bsh.py", "pyscore/token/sample/irc2/irc2_token.py"],
     [("token service", "pyscore/token/token_bsh.py"), ("token", "pyscore/token/sample/irc2/irc2_token.py")],
     "balances, locked amounts, pending transfers", "balances, pending transfers, messages and events of the contracts on two chains",
     "runtime monitoring: a conservation monitor and exact balances over two chains with messages in flight", "random operations, deliveries out of order, failures, forged and repeated messages")
