"""Writes MANIFEST.json (run from /verif): the claimed properties and the reasons for the others."""
import json
AI = "abstract interpretation of the SSA form with typestate monitors"
LIFE = ("Decided over all inputs, event orders and system-call outcomes by a fixpoint over abstract connection states; "
        "sound relative to the listed models of kernel, ring buffer, atomics and timer library. "
        "Interleavings are at the granularity of loop events; data races are excluded separately (C07).")
claimed = {
 c: (AI, "proof", LIFE) for c in "C01 C02 C03 C04 C05 C06 C08 C12 C16 C18 C21 C22".split()
}
claimed["C07"] = ("abstract interpretation with a lockset and thread-confinement analysis", "proof", LIFE + " The user's own callbacks are not analysed.")
exec(open("tools/claimed.py").read())
na = {
 "C33": "The kqueue poller is not compiled on this platform, so its analysis would need a model of kqueue (filters, EV_EOF, EV_ADD/EV_DELETE pairs) that nothing here can be compared with: a report could not be shown against the real code. The epoll poller, which is the one that is built, is decided under C15.",
 "C38": "Fairness and latency quantify over run-time load and kernel scheduling; nothing in the source bounds them.",
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, napp = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        t, lv, note = claimed[i]
        checks.append({"property": i, "quick_cmd": "checks/run.sh %s quick" % i, "thorough_cmd": "checks/run.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lv, "level_note": note})
    else:
        napp.append({"property": i, "reason": na.get(i, "No check has been built for it yet.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": napp,
           "notes": "No hooks: the checks read the source only. One Go program (checker/) decides every property; see DESIGN.md."},
          open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(napp), "not")
