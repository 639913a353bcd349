import json
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
tech={
"C01":"exhaustive bounded exploration of texts on the real code against a reference model of sequences, segmentation and widths",
"C02":"exhaustive exploration of (text, width, alignment) on the real code against an arithmetic model",
"C03":"exhaustive exploration of measurement histories on the real code from empty, filling and full cache states",
"C04":"explicit-state exploration of operation histories on the real code, in step with a running-maximum model",
"C05":"exhaustive exploration of column and getter-fault combinations on the real code against an ordered model",
"C06":"exhaustive exploration of rows, columns and alignments on the real code against a model",
"C07":"exhaustive exploration of titles and widths on the real code against a model",
"C08":"exhaustive exploration of merge calls on the real code, reading order reconstructed from the output",
"C09":"exhaustive exploration of merge calls on the real code against a reference renderer",
"C10":"exhaustive exploration of merge calls on the real code, every written line measured by the reference width",
"C11":"exhaustive exploration of merge calls on the real code against a reference layout search",
"C12":"exhaustive exploration of extreme merge calls on the real code with an access budget and a watchdog",
"C13":"fault injection at every byte of the output of every explored merge call",
"C14":"exhaustive exploration of operation histories on the real code with before/after state comparison",
"C15":"stateless model checking: all schedules up to a preemption bound under a controlled scheduler, race detector and reference results on each",
"C16":"exhaustive exploration of all code points, settings and lookup-table histories on the real code",
"C17":"exhaustive exploration of class strings, code points and byte strings on the real code against rule-by-rule UAX #29",
"C18":"exhaustive exploration of class-and-width strings on the real code against reference segmentation and widths",
"C19":"exhaustive exploration of environments (in process and at start-up) on the real code against a rule model",
"C20":"exhaustive exploration of strings and resumption points on the real code against reference widths",
"C21":"explicit-state exploration of specification histories on the real code, in step with a list model",
"C22":"exhaustive exploration of code pages and environments on each platform build of the real code, and of a fixed input battery whose results must agree across builds",
"C23":"explicit-state exploration of histories over several conditions on the real code, in step with a settings model",
"C24":"explicit-state exploration of interleaved iterator calls on the real code, in step with a position model",
"C25":"exhaustive exploration of tables, items and titles on the real code, every cell measured by the reference width",
}
note={
"C15":"Every pair (and 56 triples) of 14 call sequences under every schedule with at most 2 preemptions (fewer in some groups; bounds in the evidence), also from a cold start and on a full cache. Trusts Go's race detector and that sync, sync/atomic and mutable package variables are the only places where interleaving matters once there is no data race.",
"C19":"POSIX build (also what 32-bit and other Unix builds use); the Windows, js and appengine variants are C22.",
"C22":"The Windows files run on Linux with syscall replaced by stand-ins that report code pages; js runs in node; 32-bit runs natively. A variant that cannot run in the sandbox is skipped with a note, not alarmed on.",
"C12":"Termination is decided within a budget of 2,000,000 list accesses or 40 s of CPU time for one call; bounded argument space.",
}
gold=" Trusts the Unicode tables in harness/ref/golden (cross-checked against perl's Unicode database)."
checks=[]
for i in ids:
    n=note.get(i,"Complete within the stated bounds (see the evidence file and DESIGN.md); exported API only, so it judges behaviour, not text.")
    if i in ("C01","C10","C16","C17","C18","C20","C23","C25"): n+=gold
    checks.append({"property":i,"quick_cmd":f"bash run.sh check {i}","thorough_cmd":f"VERIF_TIER=thorough bash run.sh check {i}","technique":"model checking: "+tech[i],"level":"model_checking","level_note":n})
m={"version":1,"setup_cmd":"bash run.sh setup","checks":checks,"not_applicable":[],"notes":"No hooks in /repo. C15 builds /repo's files through an overlay with sync and sync/atomic redirected to shims."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
