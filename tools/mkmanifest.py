"""Writes MANIFEST.json."""
import json, os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = ("Proof of contracts on the SSA form of the source in /repo, built on every run; "
        "unbounded in inputs, line lengths and histories. Assumed contracts (library, terminal, history, callbacks) "
        "and the trusted base are listed in the evidence.")
TECH = "contract-based deductive verification (symbolic execution of Go SSA, loop invariants, SMT)"
DONE = {
    "C01": "panic freedom and the line invariant of every built-in command",
    "C02": "splitting, writing back and inserting text",
    "C03": "text effect of every built-in command",
    "C04": "undo history as ghost state of every built-in command",
    "C05": "history position and kept texts; every command keeps them",
    "C06": "accepted entry against ghost search text; termination of search steps",
    "C07": "data invariant: the prediction kept was computed for the text in the line",
    "C09": "width, printed text and splitting of characters; assigned widths",
    "C10": "printed text of clean characters; every command keeps the line clean",
    "C11": "keys delivered against ghost state of the characters read; terminal mode restored",
    "C12": "binding tables as maps; initial bindings, key names and command names",
    "C13": "encoding and written form of colour sequences (64-bit vectors)",
    "C14": "text shown by the last line of the prompt and its width",
    "C15": "replaced range, inserted candidate, panic freedom and termination of completion",
    "C16": "selection, order and common prefix of the candidates",
    "C17": "answer of ReadLine, ghost state of terminal, lock and output on every path",
}
PENDING = {
    "C08": "the contracts of the repainting functions do not yet relate the bytes sent to a screen; "
           "deciding it needs a ghost screen (columns and cursor) in every painting contract",
    "C18": "the contracts do not yet relate the calls of the colouring callback to the characters painted",
    "C19": "concurrency: the verifier executes one thread on a sequential memory, so data races and "
           "interleavings of the resize handler are outside what it can decide",
}

def main():
    ids = [json.loads(l)["id"] for l in open(TOP + "/properties.jsonl")]
    checks = []
    na = []
    for i in ids:
        if i in DONE:
            checks.append({
                "property": i,
                "quick_cmd": "bash /verif/check.sh " + i,
                "thorough_cmd": "bash /verif/check.sh " + i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH + ": " + DONE[i],
                "level": "proof",
                "level_note": NOTE,
            })
        else:
            na.append({"property": i, "reason": PENDING.get(i, "contracts for this property are not written yet")})
    m = {
        "version": 1,
        "setup_cmd": "bash /verif/setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks: the verifier reads the unchanged source of /repo", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "See DESIGN.md.",
    }
    json.dump(m, open(TOP + "/MANIFEST.json", "w"), indent=1)
    open(TOP + "/MANIFEST.json", "a").write("\n")

main()
