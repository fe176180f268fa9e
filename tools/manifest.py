"""Writes MANIFEST.json from the table below and properties.jsonl (order of the ids there)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl") if l.strip()]

MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
ENUM = "bounded exhaustive enumeration of inputs and environment answers on the real code against a reference model"
T = {
    "C01": (EX, ENUM, "Exhaustive over the listed client ids, prefix lists, ways of passing and callback answers; recording wallet in place of the network and the callbacks."),
    "C02": (EX, ENUM, "Exhaustive over the products named in the evidence and all single-character changes of accepted tokens; trusts the independent oracle (its own DER writer, p256 for signatures)."),
    "C03": (EX, ENUM, "As C02, with an independent SHA-256."),
    "C04": (EX, ENUM, "Exhaustive over the products named in the evidence and all single-character changes; DID resolution is a stand-in that answers as told."),
    "C05": (EX, ENUM, "Every header within one edit of the right typ, and others, by value and by reference."),
    "C06": (EX, ENUM, "Every HTTP status, every cut of the body, every pair of client ids of a list; the HTTP client is a recording stand-in."),
    "C07": (EX, ENUM, "The full product of the value lists of the six parameters, through each constructor."),
    "C08": (EX, ENUM, "The full product of jwks (up to 2 keys quick, 3 thorough), enc lists and wallet lists."),
    "C09": (EX, ENUM, "All texts over a URL-significant alphabet up to the bound, on each endpoint of a list."),
    "C10": (EX, ENUM, "Every status and body cut, each kind of response and mode; the HTTP client is a recording stand-in."),
    "C11": (EX, ENUM, "All texts up to the bound over a form- and JSON-significant alphabet, all small vp_tokens."),
    "C12": (EX, ENUM, "Every way of setting each parameter x mode x way of passing x client; all ordered pairs of requests."),
    "C13": (MC, "explicit-state search of a session lifecycle model, every transition and all operation sequences to a depth replayed on the real verifier and store", "All model states over two sessions; sequences to the stated depth; store failures at every call. The model is bound to the code by replaying every trace on it."),
    "C14": (MC, "stateless exploration of all thread schedules of the real code up to a preemption bound, with a linearizability check", "All schedules within the preemption bound of every scenario of 2-4 threads; scheduling points at the store's locks (tokio's and std's) and atomics, store calls and validator steps. Memory orderings below the locks are not modelled."),
    "C15": (MC, "explicit-state search of a map model, every transition and all operation sequences to a depth replayed on the real store", "All model states over two ids; sequences to the stated depth."),
    "C16": (EX, ENUM, "Byte-exact against an independent CBOR writer and SHA-256, over all texts up to a bound and all length boundaries; all small CBOR arrays for parsing."),
    "C17": (EX, ENUM, "Full product of member values; all jwks up to the stated size."),
    "C18": (MC, "exhaustive enumeration of queries against an independent validator, and explicit-state search over setter sequences against a JSON model", "Full products of member values; all setter sequences to a depth."),
    "C19": (MC, "explicit-state search over typed parameters of an object, replayed on the real object", "All states over four parameters and all operation sequences to a depth."),
    "C20": (MC, "explicit-state search over wallet metadata edits against a JSON model, replayed on the real type", "All combinations of entries, all edit sequences to a depth."),
    "C21": (EX, ENUM, "All lists up to a length through every constructor, all push sequences."),
    "C22": (MC, "explicit-state exploration of the whole protocol on the real wallet and verifier: all interleavings of flows, all attacker substitutions of a list", "Two and three flows; attacker without the other verifier's keys; the network is a stand-in."),
    "C23": (EX, ENUM, "The JOSE library is not available offline: shim/josekit records what it is handed; encryption itself is out of scope."),
    "C24": (MC, "exhaustive enumeration of format names and maps, explicit-state search over additions", "All names within one edit of a defined one; all maps of up to two formats and additions to a depth."),
    "C25": (FE, "enumeration of every cut point and answer of a scripted loopback server under the real HTTP client", "Plain HTTP over loopback; every byte position of an answer as a fault point."),
    "C26": (EX, "bounded exhaustive enumeration of malformed inputs on every entry point of the real code, watched for panics, aborts and hangs", "All texts up to a bound, all single changes of valid inputs, nesting to 100,000; crashes and hangs are detected by a supervising process."),
    "C27": (FE, "enumeration of every single fault and pair of faults at each environment call of a build", "Signer, store, parameters and endpoints as fault points; also dropping the build at every await."),
    "C28": (EX, ENUM, "All pairs and triples of a list of statuses; all JSON round trips."),
    "C29": (EX, ENUM, "The random source is replaced by every value of a grid; uniformity is exact on the grid."),
    "C30": (EX, ENUM, "All chains of up to three certificates of a list, all verification methods and resolver answers of a list."),
}
checks = []
for i in ids:
    level, technique, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": technique,
        "level": level,
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks build a mirror of its tree in which the crate's tokio is shim/tokio and its std shim/std (scheduling points at their locks) and, for C23, josekit is shim/josekit. The fix: commits in /repo are listed in known_findings.txt.",
}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
