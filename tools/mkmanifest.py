"""Regenerate MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TRUST = ("Exploration: seeded search over generated cases, never a proof of "
         "absence. Trusts the independent reference model in /verif/refspec "
         "(its primitives are cross-checked against published vectors) and "
         "the installed ethereum_types, ethereum_rlp, Crypto, coincurve and "
         "py_ecc packages the code under test itself depends on. ")
DIFF = "differential property-based testing against a reference model"
T = {
 "C01": (DIFF + " of single opcodes and opcode chains over boundary-biased words", ""),
 "C02": (DIFF + " of generated byte-code programs", ""),
 "C03": (DIFF + " of gas, with gas limits placed at success/failure boundaries", ""),
 "C04": (DIFF + " and crash fuzzing of structured and raw byte-code", ""),
 "C05": (DIFF + " of storage histories (EVM programs and state API)", ""),
 "C06": (DIFF + " of generated call graphs", ""),
 "C07": (DIFF + " of generated creation programs", ""),
 "C08": (DIFF + "; stateful API histories with rollbacks against a model", ""),
 "C09": (DIFF + " of selfdestruct and touch histories", ""),
 "C10": (DIFF + " of environment-reading programs", ""),
 "C11": (DIFF + " of precompile inputs, valid, near-valid and random", ""),
 "C12": (DIFF + " of curve precompiles with known-discrete-log inputs", ""),
 "C13": (DIFF + " of logs, blooms and receipts", ""),
 "C14": ("stateful property-based testing of tries against a direct definition of the Merkle Patricia root", ""),
 "C15": ("round-trip and differential property-based testing of transaction codecs and signer recovery", ""),
 "C16": (DIFF + " of single-rule mutations of valid transactions", ""),
 "C17": (DIFF + " and ether-conservation invariant over generated blocks", ""),
 "C18": (DIFF + " of access-priced programs", ""),
 "C19": (DIFF + " of header mutations over generated chains", ""),
 "C20": (DIFF + " of generated chain histories with commitment mutations", ""),
 "C21": (DIFF + " of the formulas plus algebraic laws", ""),
 "C22": (DIFF + " of generated ommer sets and rewards", ""),
 "C23": (DIFF + " of system contracts and requests", ""),
 "C24": (DIFF + " of withdrawal lists", ""),
 "C25": (DIFF + " of authorization lists and delegated calls", ""),
 "C26": ("differential property-based testing against an independent Ethash", ""),
 "C27": ("property-based testing of fork schedules and chain histories across forks against a model", ""),
 "C28": ("round-trip and differential property-based testing of genesis configurations", ""),
 "C29": ("differential stateful property-based testing of optimised against plain modules", ""),
 "C30": ("metamorphic property-based testing: traced against untraced runs and a trace model", ""),
 "C31": ("differential property-based testing of the tools against the library and the model", ""),
 "C32": ("round-trip and differential property-based testing of encodings", ""),
}
NA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            na.append({"property": i, "reason": NA.get(
                i, "check under construction; not claimed yet")})
            continue
        tech, note = T[i]
        checks.append({
            "property": i,
            "quick_cmd": "%s check.py %s quick" % (PY, i),
            "thorough_cmd": "%s check.py %s thorough" % (PY, i),
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech, "level": "exploration",
            "level_note": TRUST + note})
    m = {"version": 1, "setup_cmd": "%s -c 'import sys; sys.exit(0)'" % PY,
         "hooks": {"guard": "none", "enable": "no hooks are needed: checks "
                   "import the unmodified source tree of /repo",
                   "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Every check runs /repo/src directly (VERIF_REPO overrides "
                  "the location); replay a counterexample with check.py CNN "
                  "replay FILE."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
