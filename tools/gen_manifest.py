#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
EX, MC = "exploration", "model_checking"
ENUM = "bounded-exhaustive enumeration of calls of the real code against an independent reference"
CHECKS = {
    "C01": (EX, ENUM, "All 2^21 counters of a device, all key and KSN sizes, complete byte-deviation neighbourhoods; other byte contents are assumed to behave alike."),
    "C02": (EX, ENUM + "; complete walk of the 2^21-node counter tree", "Every counter value of a device is derived and compared; other devices on complete neighbourhoods."),
    "C03": (EX, ENUM, "All sizes and complete byte-deviation neighbourhoods of base keys and IDs."),
    "C04": (EX, ENUM + "; complete counter subtrees", "All counters of low weight and complete subtrees of the 32-bit counter; all sizes."),
    "C05": (MC, "explicit-state exploration of the complete 21-bit counter automaton, each transition taken by the real code", "The counter state space is covered completely; device bits on enumerated bases."),
    "C06": (MC, "explicit-state exploration of the complete 32-bit counter automaton, each transition taken by the real code", "All 2^32 counter states in every run; identifier bytes on enumerated bases."),
    "C07": (EX, ENUM + "; all 2^32 counters", "Every counter value; identifier bytes on enumerated neighbourhoods."),
    "C08": (MC, "explicit-state exploration of device lives with a pairwise-distinctness monitor over all keys of all devices", "Complete TDES lives, bounded AES lives."),
    "C09": (EX, ENUM, "All purposes and directions crossed on enumerated keys and messages."),
    "C10": (EX, ENUM + ", enumerating the randomness it reads", "All formats, PIN lengths, fill values; PIN and PAN digits on complete deviation neighbourhoods."),
    "C11": (EX, ENUM + ", enumerating the randomness it reads", "All PIN and PAN lengths and key sizes."),
    "C12": (EX, ENUM, "All plaintext and IV lengths up to the bound, both directions, content neighbourhoods."),
    "C13": (EX, ENUM, "All plaintext and IV lengths up to the bound, both directions, all key types, content neighbourhoods."),
    "C14": (EX, ENUM, "All message lengths up to the bound, every byte position varied over every value."),
    "C15": (EX, ENUM, "All message lengths up to the bound, every byte position varied, all key types and sizes."),
    "C16": (EX, ENUM + " over argument-size products", "The complete product of argument sizes and malformed strings within the bounds."),
    "C19": (EX, ENUM, "All operations, algorithms, key and MAC types, and complete malformed-hex neighbourhoods."),
    "C17": (EX, "exhaustive enumeration of call sequences of the real code up to a depth on shared argument slices", "Every sequence of the call alphabet up to the bound; results compared with first use, arguments and guard bytes compared after every call."),
    "C18": (EX, "stateless exploration of all schedules of concurrent library calls of the real code (controlled scheduler, race detector as partial-order argument)", "All pairs and triples of calls of the alphabet, first calls of a process included."),
    "C23": (EX, "stateless model checking of the real service under a controlled scheduler: all interleavings up to the stated preemption bounds, linearizability checked on each", "All programs of the stated families; scheduling points are all synchronisation operations, the race detector covers accesses between them."),
    "C29": (EX, "stateless model checking of the real repository under a controlled scheduler, plus all sequential operation sequences up to a depth", "All programs and sequences of the stated families."),
    "C20": (EX, "exhaustive enumeration of command lines up to stated bounds, executed on the real binary against the reference derivation", "Complete products of execution flags, of presence, absence and emptiness of each operation's flags, of option values, and complete malformed-value neighbourhoods."),
    "C21": (MC, "breadth-first search of the reachable states of a specification of the service; every transition and every operation sequence up to a depth replayed on the real service, with repository faults at every call", "States reachable over the stated machines and depth; every sequence of the stated length."),
    "C22": (EX, "exhaustive enumeration of edit sequences on every object handed in or out, on the real service", "All sequences of the stated length over the stated client actions."),
    "C24": (MC, "breadth-first search of the specification of the service; every transition and every request sequence up to a depth replayed on the real HTTP handler", "States reachable over the stated machines and depth; every sequence of the stated length; every way of writing each request."),
    "C25": (EX, "exhaustive enumeration of failing requests, histories and service errors up to stated bounds on the real HTTP handler", "Complete products stated in the evidence."),
    "C26": (EX, "exhaustive enumeration of requests (method, path, headers, body neighbourhoods) up to stated bounds on the real HTTP handler", "Complete products stated in the evidence."),
    "C27": (MC, "exhaustive exploration of the protocol of clients, operator and server: every interleaving of request steps, signals and connections executed on the real process, and every configuration", "The stated requests, cuts, signals and configurations."),
    "C28": (EX, ENUM, "All sizes, complete key and block neighbourhoods."),
}
extra = os.path.join(root, "tools", "checks_extra.json")
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        CHECKS[k] = tuple(v)
m = {"version": 1, "setup_cmd": "./run.sh --setup",
     "checks": [{"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "./run.sh " + i + " thorough", "evidence_file": "evidence/%s.json" % i,
                 "technique": c[1], "level": c[0], "level_note": c[2]} for i, c in sorted(CHECKS.items())],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CHECKS],
     "notes": "No hooks in /repo: the concurrency checks build /repo with a compile-time overlay that redirects package sync to a controlled scheduler. The thorough tier is chosen by the second argument of run.sh."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
