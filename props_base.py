# The properties of stores, keys, wallets and supporting packages (run by props.py in its own namespace).
BTEST = "The unit tests store, sign or encrypt a few fixed values once; none reopens a store after a crash, runs operations in parallel, or damages what it reads."

prop("D01", "Stores keep exactly what was written, also across reopening and crashes",
     "Every store (memory, LevelDB, Badger) answers as a map from keys to values does: a value set is read back unchanged, also when empty, a deleted or never written key is missing, and keys of one bucket are never seen in another. Closing and opening again changes nothing, and after the process dies at any moment every completed write is there, with at most the one under way in doubt.",
     ["inputs", "histories", "crash_points"], "for every sequence of operations on any number of buckets, keys and values (empty and large too), every point of reopening, and every moment of a kill", BTEST,
     ["common/db/bucket.go", "common/db/badger_db.go", "common/db/go_level_db.go", "common/db/map_db.go"],
     [("bucket key spaces", "common/db/bucket.go"), ("stores", "common/db/go_level_db.go")],
     "stored keys", "answers of the stores against a model, over lives of a process",
     "runtime monitoring: recorded operations against a map model, with SIGKILL of the writing process", "random operation sequences, reopening, killed writers")
prop("D02", "A layered store shows its changes and writes them through exactly on flush",
     "A layered store answers as its base with the layer's changes applied: reads see the changes, deletions hide the base's values, and the base stays as it was until the layer is flushed with writing, after which the base holds exactly the changes in effect; flushing without writing drops them. After flushing, operations go to the base.",
     ["inputs", "histories"], "for every sequence of sets, deletions, reads, flushes and nested layers over several buckets", BTEST,
     ["common/db/layer_db.go", "common/db/database.go"], [("layer", "common/db/layer_db.go")],
     "changes not yet flushed", "answers of the layer and its base against a model",
     "runtime monitoring: recorded operations against a layered map model", "random operation sequences over nested layers")
prop("D03", "Parallel use of a store is linearizable",
     "When goroutines read and write one store or layered store in parallel, the answers are those of some order of the operations that respects real time, nothing crashes and no memory is accessed without synchronization.",
     ["schedules", "histories"], "for every interleaving of reads, writes, deletions and checks of presence, and flushes of a layer in between", BTEST,
     ["common/db/map_db.go", "common/db/layer_db.go", "common/db/go_level_db.go", "common/db/badger_db.go"],
     [("locks", "common/db/map_db.go"), ("locks", "common/db/layer_db.go")],
     "stored keys", "recorded histories of parallel operations", "race detector and offline linearizability checking (porcupine) of recorded histories", "short contended histories on few keys, with injected delays")
prop("K01", "Signatures verify for the signer, and only for what was signed",
     "For every key and hash, a signature made here verifies with the signer's public key, recovers to it, and is accepted by an independent implementation in every serialized form, all of which read back to the same signature; an altered hash, signature or key never verifies. Bytes that are no key or signature are refused with an error, never a crash, and addresses are those of the public key.",
     ["inputs"], "for every private key, every hash, and every alteration or malformed bytes", BTEST,
     ["common/crypto/key.go", "common/crypto/signature.go", "common/wallet/wallet.go", "common/address.go"],
     [("keys", "common/crypto/key.go"), ("signatures", "common/crypto/signature.go")],
     "none", "keys, signatures and recovered keys", "runtime monitoring: differential oracle against another secp256k1 implementation", "random and boundary keys, all forms, single alterations and hostile bytes")
prop("K02", "A key store opens with its password only, and to its own key",
     "A key store written here opens with its password to exactly the key it was made of, and with any other password to an error; another implementation of the format reads it and stores of other implementations are read here. A store that was altered, damaged or has unusable parameters gives an error, never another key and never a crash. The secret never appears in it.",
     ["inputs"], "for every key, every password (empty, long, non-ASCII), every kind of store (ICON, Ethereum) and every alteration", BTEST,
     ["common/wallet/keystore.go", "common/wallet/keystore_evm.go"], [("encryption and authentication", "common/wallet/keystore.go")],
     "none", "stores, opened wallets and errors", "runtime monitoring: differential oracle against a reference of the key store format", "reference reader and writer of version 3 key stores; field-wise alterations")
prop("K03", "An encrypted wallet message is readable by its recipient only",
     "A message encrypted by a wallet for a public key (in any form) is decrypted by that key's owner to the same bytes and by nobody else; the cipher text reveals nothing without one of the two private keys, and messages are never encrypted without a shared secret. Malformed messages and keys give errors, never a crash.",
     ["inputs"], "for every pair of wallets, every message and every malformed parameter", BTEST,
     ["common/wallet/encrypted.go", "common/wallet/wallet.go", "common/wallet/wallet_evm.go", "common/crypto/hash.go"], [("key agreement", "common/wallet/encrypted.go")],
     "none", "encrypted and decrypted messages", "runtime monitoring: round trips and a reference key agreement", "random wallets and messages, wrong readers, malformed parameters")
prop("E01", "An error carries its code and its causes through every wrapping",
     "However an error is wrapped (with messages, codes, stacks, or by other libraries), its code is that of the outermost coded error of the chain and unknown without one, every error of the chain is found as a cause and no other is, and its text and trace tell what each level said.",
     ["inputs"], "for every chain of the package's constructors and wrappers, of callers' own error types and of other libraries' wrappers, including wrappers of nothing",
     "The unit tests build a few chains; decisions of the relay on codes depend on whatever chain the code below happens to build.",
     ["common/errors/errors.go"], [("codes and causes", "common/errors/errors.go")],
     "none", "codes, causes and texts of errors", "runtime monitoring: answers against a list model of the chain", "random chains of all constructors, wrappers and foreign errors")
prop("L01", "Every log line reaches exactly the outputs whose level admits it, whole",
     "A line logged at a level, by any function of the logger and from any goroutine, appears exactly once on the console, in the log file and at the forwarder if that output's level (on the console: its module's level) admits it, and otherwise not at all; with its level, wallet, chain, module, prefix, fields and text, in order per goroutine, and neither mixed with another line nor lost when the file rotates. Logging never crashes the caller, whatever the fields' types, and bad levels and forwarders are refused.",
     ["inputs", "schedules"], "for every combination of levels, fields, outputs and parallel callers, and rotations at any point",
     "No unit test covers the logger's outputs, filters or forwarders.",
     ["common/log/log.go", "common/log/filter.go", "common/log/formatter.go", "common/log/forwarder.go", "common/log/writer.go"],
     [("filters and formatting", "common/log/log.go"), ("forwarding", "common/log/forwarder.go")],
     "levels set", "console, files and lines received by log servers", "race detector and offline checking of received lines (exactly once, per-goroutine order, filter) against what was logged",
     "several goroutines, all functions, scripted logstash and fluentd servers, rotation")
prop("F01", "The relay runs with exactly the settings it was given",
     "A setting given by flag wins over the environment, that over the configuration file, and that over the default; relative paths mean the same however and wherever the relay is started, also after saving the configuration and loading the saved one, which keeps every setting and its key stores. The relay connects to the chains, keys, log files and log servers configured, and refuses missing or bad settings, unreadable key stores and wrong passwords with an error instead of running or crashing.",
     ["inputs", "configurations"], "for every combination of sources for every setting, every working directory and base directory, and every kind of bad setting",
     "No unit test runs the command line or loads a configuration.",
     ["cmd/relay/main.go", "common/cli/helper.go", "chain/config.go", "common/config/fileconfig.go"],
     [("command", "cmd/relay/main.go")],
     "none", "saved configurations, connections made, log files and exit codes of the relay", "runtime monitoring of the relay binary: recorded connections and files against a model of the settings", "the real binary in scratch directories with scripted nodes")

prop("W01", "The HTTP helpers hand over requests, answers, uploads and streams whole and unchanged",
     "A request made with the HTTP client reaches the server exactly once, over TCP or a Unix socket (also one with a long name, given by relative or absolute path), with its method, path under the client's context, parameters and JSON body; an upload arrives with the file's bytes, its name, its field and the JSON beside it. An answer of status 200 is handed over as text or as the value it encodes; any other status gives an HttpError with that status and the answer's bytes and is never read as a value; an answer that is cut or malformed gives an error. What cannot be encoded or read is refused without a request. Requests made in parallel each get their own answer. Each item of a stream is handed over once, in order, and stays as it is until the handler is done; the stream ends with the handler's error, the end or damage of what the server sends, or when cancelled. A server serves at the place it was given, replaces a socket left behind, does not start at a place in use, and when stopped completes what is under way and takes nothing new. Content types, parameters, templates, wrapped handlers and the read-only guard behave as told.",
     ["inputs", "schedules"], "for every request, answer, file, stream and place, and every timing of stream, handler, cancellation and stop",
     "No unit test covers the HTTP helpers.",
     ["common/http.go"], [("client, streams and server", "common/http.go")],
     "connections", "requests seen by a real server, answers handed to the caller", "race detector and comparison of what arrived with what was sent, on both sides",
     "real servers on TCP and Unix sockets, answers cut and malformed, streams cut at any byte, slow handlers")
