#!/usr/bin/env python3
"""The properties and their checks; writes properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


REPO = os.environ.get("VERIF_REPO", "/repo")


def prop(id, title, statement, over, text, why, files, mech, state, observe, technique, note, level="exploration", hook=None):
    for w in files + [w for n, w in mech if "*" not in w]:
        assert not os.path.isdir(REPO) or os.path.exists(os.path.join(REPO, w)), (id, w)
    P.append(dict(id=id, technique=technique, level=level, note=note, prop={
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": state, "meaning": state, "where": files[0]}],
                    "observe_at": [observe], "hook_needed": hook}}))


LINK = "common/link/link.go"
NOTEST = "The repository has no test of the link engine, the receivers or the relay command; its tests cover codecs, key stores, stores and loggers on a few fixed values."
DELIV = "an independent verifier re-implements the destination contract's acceptance rules and compares every delivery with what the source emitted"

prop("B01", "BTP-block relaying delivers every message once, in order, unmodified",
     "Between an ICON source that emits BTP blocks and any destination, the relay delivers exactly the messages the source emitted to that link: each exactly once, in source order, with unchanged bytes, accompanied by headers and proofs the destination's verifier accepts. As long as source and destination answer, no relay message is rejected, none that carries several messages exceeds the destination's size limit, and every emitted message arrives without a restart.",
     ["inputs", "histories", "schedules", "configurations"],
     "for every history of BTP blocks (numbers and sizes of messages, heights, blocks without messages), every destination size limit, every moment of production relative to start, and every order of notifications and results",
     NOTEST,
     [LINK, "chain/icon/btp2/btp2.go", "common/mbt/proof.go", "chain/icon/client/client.go", "chain/icon/sender.go", "chain/ethbr/sender.go"],
     [("link engine", LINK), ("BTP block receiver", "chain/icon/btp2/btp2.go"), ("message proofs", "common/mbt/proof.go")],
     "relay messages in flight, receive statuses, link status (height, sequence, offsets)",
     "messages the simulated destination contract accepts; transactions at the destination node",
     "runtime monitoring: online verifier model over real executions", DELIV)
prop("B02", "ICON bridge relaying delivers every message once, in order, unmodified",
     "Between an ICON source followed in bridge mode and any destination, the relay delivers exactly the messages the source emitted to that link: each exactly once, in source order, with unchanged bytes, sequence number and source height. As long as both chains answer, no relay message is rejected, no event is sent twice, none that carries several messages exceeds the size limit, and every emitted message arrives without a restart.",
     ["inputs", "histories", "schedules", "configurations"],
     "for every history of blocks and message sizes, every starting sequence, every size limit and every interleaving of production, notification and results",
     NOTEST,
     [LINK, "chain/icon/bridge/bridge.go", "chain/icon/client/client.go", "chain/icon/sender.go"],
     [("link engine", LINK), ("bridge receiver", "chain/icon/bridge/bridge.go")],
     "relay messages in flight, receive statuses, link status", "messages the simulated destination contract accepts",
     "runtime monitoring: online verifier model over real executions", DELIV)
prop("B03", "Ethereum relaying delivers every message once, in order, unmodified",
     "Between an Ethereum source and any destination, the relay delivers exactly the message events the source's message contract emitted to that destination: each exactly once, in emission order, with unchanged bytes, sequence number, block height and place in its block, whether the node is polled or subscribed to. Events of other contracts or to other destinations are never delivered, no relay message is rejected while both chains answer, and every event arrives without a restart.",
     ["inputs", "histories", "schedules", "configurations"],
     "for every history of blocks, transactions and events, every starting sequence, every size limit, polled and subscribed nodes, and every interleaving of production and relaying",
     NOTEST,
     [LINK, "chain/ethbr/receiver.go", "chain/ethbr/client/client.go"],
     [("link engine", LINK), ("Ethereum receiver", "chain/ethbr/receiver.go"), ("block monitoring", "chain/ethbr/client/client.go")],
     "relay messages in flight, receive statuses, link status", "messages the simulated destination contract accepts",
     "runtime monitoring: online verifier model over real executions", DELIV)
prop("B04", "A relay killed at any point resumes without losing or repeating a message",
     "When the relay process dies at any moment and is started again, delivery continues from what the destination has accepted: nothing is lost, repeated or reordered, also when a block was only partly delivered. If no transaction of the dead process is still on its way, the new process's relay messages are all accepted.",
     ["crash_points", "histories", "schedules"],
     "for every point of a crash (before or after any relay message is submitted or executed, or between), any number of crashes, and every source history",
     NOTEST + " No test starts a relay, let alone kills one.",
     [LINK, "chain/icon/btp2/btp2.go", "chain/icon/bridge/bridge.go", "chain/ethbr/receiver.go", "cmd/relay/main.go"],
     [("start from the link status", LINK), ("start heights and sequences of the receivers", "chain/*/receiver.go")],
     "link status of the destination", "messages the simulated destination contract accepts over several lives of a relay",
     "runtime monitoring: crash injection with an exactly-once delivery monitor",
     "crash points at every n-th relay message (before and after execution), random times and SIGKILL of the real process", level="fault_enumeration")
prop("B05", "Source failures never make a relay lose messages or hang silently",
     "When the source node returns errors, drops connections, ends subscriptions or answers slowly, the relay either recovers or stops with an error, so that a supervisor can restart it; it never goes on running without following the source, and never ends as if it had succeeded. Once the failures cease, every message is delivered exactly once and in order.",
     ["fault_sequences", "schedules", "histories"],
     "for every finite sequence of failures of source requests, notifications and connections, at every point of relaying",
     NOTEST + " No test injects a failure of a node.",
     [LINK, "chain/icon/client/client.go", "chain/icon/btp2/btp2.go", "chain/icon/bridge/bridge.go", "chain/ethbr/client/client.go", "chain/ethbr/receiver.go"],
     [("monitoring ends with an error", "chain/*/receiver.go"), ("link reports failures", LINK)],
     "monitoring connections", "deliveries, ends and exit codes of supervised relays", 
     "runtime monitoring: fault injection at the source with a delivery and liveness monitor",
     "random finite fault scripts per request kind, supervised restarts, bounded waits", level="fault_enumeration")
prop("B06", "Destination rejections and failures never make a relay skip or hang",
     "When the destination rejects a relay message as not yet verifiable, the relay sends again from the destination's state; when it rejects it for another reason, loses it or cannot be read, the relay stops with an error. It never goes on as if the message had been delivered, and once the failures cease every message is delivered exactly once and in order.",
     ["fault_sequences", "schedules", "histories"],
     "for every finite sequence of rejections (any code), failed submissions, unreadable results and unreadable states, at every point of relaying",
     NOTEST + " No test rejects a relay message.",
     [LINK, "chain/icon/sender.go", "chain/ethbr/sender.go"],
     [("reaction to relay results", LINK), ("result polling", "chain/icon/sender.go"), ("result polling", "chain/ethbr/sender.go")],
     "relay messages in flight", "deliveries, ends and exit codes of supervised relays",
     "runtime monitoring: fault injection at the destination with a delivery and liveness monitor",
     "random finite fault scripts, supervised restarts, bounded waits", level="fault_enumeration")
prop("B07", "Relaying is free of data races, deadlocks and crashes",
     "Whatever the timing of notifications, results, failures and restarts, the relay's concurrent parts never access shared state without synchronization, never deadlock (a relay with work to do makes progress or stops with an error), and never crash with a runtime error.",
     ["schedules", "fault_sequences"],
     "for every schedule of the sender, receiver and monitoring activities, in both directions, with and without failures",
     NOTEST + " The tests are not run with the race detector and start no concurrent relay.",
     [LINK, "chain/icon/client/client.go", "chain/icon/btp2/btp2.go", "chain/icon/bridge/bridge.go", "chain/ethbr/receiver.go", "chain/icon/sender.go", "chain/ethbr/sender.go", "cmd/relay/linkfatory.go"],
     [("link locks", LINK), ("receive status locks", "chain/*/receiver.go"), ("connection table", "chain/icon/client/client.go")],
     "all shared relay state", "race detector reports of the link engine and of the relay process; progress",
     "race detector over stress and fault workloads, in process and in the relay binary",
     "happens-before race detection on every observed execution; deadlock by bounded progress")
prop("B08", "Several relays on one link complete the delivery together",
     "When several relays serve the same link, every message is still delivered exactly once and in order, whatever the interleaving of their relay messages. If all but one die, also in the middle of a block, the remaining one completes the delivery; a relay message that another relay was faster with never makes it skip messages or wait for good.",
     ["schedules", "crash_points", "histories"],
     "for every interleaving of two or three relays with different size limits, and deaths of all but one at any relay message",
     NOTEST, [LINK, "chain/icon/btp2/btp2.go", "chain/icon/bridge/bridge.go", "chain/ethbr/receiver.go"],
     [("reaction to already verified and not verifiable", LINK)],
     "link status of the destination", "messages the simulated destination contract accepts from all relays",
     "runtime monitoring: stress of competing relays with an exactly-once delivery monitor",
     "random interleavings of real link engines against one verifier")

NOT_APPLICABLE = []
for _f in ("props_lib.py", "props_chain.py", "props_base.py", "props_java.py"):
    if os.path.exists(os.path.join(HERE, _f)):
        exec(open(os.path.join(HERE, _f)).read())

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["prop"]) + "\n")
        for q in NOT_APPLICABLE:
            f.write(json.dumps(q["prop"]) + "\n")
    conf = json.load(open(os.path.join(HERE, "checks.json")))
    assert set(conf) == {p["id"] for p in P}, set(conf) ^ {p["id"] for p in P}
    m = {"version": 1, "setup_cmd": "python3 setup.py",
         "hooks": {"guard": "none", "enable": "no hooks are needed: the monitors observe through the public interfaces of the packages, the network and the process", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                     "thorough_cmd": "python3 run.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
         "not_applicable": [{"property": q["prop"]["id"], "reason": q["reason"]} for q in NOT_APPLICABLE],
         "notes": "Every check builds its harness and the relay from /repo's working tree. VERIF_SEED selects the cases."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
