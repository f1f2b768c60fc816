"""Writes MANIFEST.json from properties.jsonl and the profiles' notes below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: seeded search over schedules and faults, "
NOTES = {
    "C01": ("reference queue model, event-by-event refinement", "Sampled schedules of both ends over reliable transports; every event is matched to the one queued message it must come from."),
    "C02": ("independent wire parser on every payload", "Every payload of every run is parsed by a parser that shares no code with psrpcore; limits from 22 bytes up are sampled."),
    "C03": ("byte-level re-segmentation with event polling at every cut", "Cut positions and polling points are sampled; the reference reassembler predicts which event, or none, is due at every poll."),
    "C04": ("lossy transport against a per-object automaton", "Loss, duplication, reordering, interleaving and damage of fragments of stateless messages; an error is demanded for each offending fragment and no wrong event may surface."),
    "C05": ("generated values through live sessions against an independent expectation", "Values are generated structurally with boundary cases; the expected form is computed from the specification of the value, not from the library. One known finding is listed."),
    "C06": ("pool state machine model, both ends, convergence", "All pool operations in all reachable states under sampled interleavings; the model gates every call and the ends are compared after each operation."),
    "C07": ("pipeline state machine model, several pipelines", "Operations on several pipelines in all states under sampled interleavings, late events after close included."),
    "C08": ("injected unserializable values, missing keys, failing key generation, invalid limits", "Failures are injected into every operation that serializes; the model says that nothing is queued and nothing changed, and later traffic confirms it."),
    "C09": ("host call matching model", "Outstanding calls answered in any order, late, twice, unknown; identifiers are checked for uniqueness among outstanding calls."),
    "C10": ("request/answer correlation model", "Several outstanding limit, availability and reset requests answered in any order, wrongly typed, repeated or unrequested; limits of both ends follow the model."),
    "C11": ("wire scan for planted secrets, key exchange model, twin sessions", "Planted secrets and the session key are searched in every outgoing message in several encodings; races of both ends starting the exchange are sampled. Cryptographic strength is not assessed."),
    "C12": ("client crash at any byte, disconnect, reconnect, new clients", "The client dies with any prefix of its data delivered; a new client connects, also to the wrong pool; the server's model survives the crash and must match."),
    "C13": ("sampled version pairs against a version gate model", "Versions 2.0 to 2.3 at either end, new clients with other versions, before and after the handshake."),
    "C14": ("generated records, clock jumps, missing users", "Each record kind with optional fields present or absent, clock jumps between writing and delivery, user lookup failures."),
    "C15": ("builder mirrored by a reference definition, restarts and interleaved building", "Builder calls on several pipelines are interleaved; each start must send what the mirror holds at that moment."),
    "C16": ("typed host helpers in live sessions against documented methods and types", "Every helper of both sides with generated arguments, calls and answers interleaved and delayed."),
    "C17": ("interleaved sessions compared with the same sessions alone in a fresh process", "Two to four sessions per process; transcripts with message digests must be identical to those of solo executions."),
    "C18": ("mutation of caller objects between call and transmission", "Objects are compared before and after each call and changed before the data is sent; the same object is sent repeatedly over all routes."),
    "C19": ("interleaved writers, flushes, failing values and early readers", "The concatenated output is parsed for marker and order and read back per stream at arbitrary points, by psrpcore and by an independent reader."),
    "C23": ("independent reference reader on every message", "Every message and shell document is read by a strict reader written from the specification and compared with what was asked for; secure strings are opened with the client's private key. The reader is trusted; members the document calls optional are not demanded."),
    "C24": ("re-spelling and re-fragmenting proxy between the ends", "Each message is parsed, written anew in a randomly chosen permitted spelling and fragmentation and delivered; both ends still have to follow the reference model."),
    "C25": ("repeated cycles of finished work, counting what is still referred to", "Cycles of arbitrary operations with failures and disconnections are repeated; objects and bytes reachable from both pools and from the library are counted between cycles. Growth that stops within 36 cycles is taken for a bounded cache."),
}
NA = {
    "C20": "A pure function of its arguments: no schedule, clock, fault, I/O or second party can influence local arithmetic, so there is nothing to simulate.",
    "C21": "A pure single-object lookup without any concurrency, I/O or fault; input generation alone would decide it, which is another technique.",
    "C22": "Registration happens at import and is a pure table lookup; no interleaving or fault can influence it. Its effect on delivered values is covered by C05 and on other sessions by C17.",
}
checks = [
    {
        "property": p, "quick_cmd": "bash check.sh %s quick" % p, "thorough_cmd": "bash check.sh %s thorough" % p, "technique": T + t, "level": "exploration",
        "level_note": n + " A clean batch is evidence, not proof. Trusted: the reference model and the seams (see DESIGN.md).",
    }
    for p, (t, n) in sorted(NOTES.items())
]
doc = {
    "version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "No hooks in /repo: every seam is a standard library or cryptography function patched in the simulator's process before psrpcore is imported. Replay a violation with: bash check.sh replay FILE",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump(doc, fd, indent=1)
    fd.write("\n")
