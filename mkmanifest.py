#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks in the analyzer."""
import json, re, glob, subprocess
TECH = {
 "E": "path-sensitive interprocedural dataflow and typestate analysis over SSA with value numbering",
 "M": "interprocedural mod/ref, flows-to and reachability analysis over the call graph",
 "S": "type-resolved query over all SSA instructions",
}
HOW = dict(C48="E", C47="E", C46="E", C45="E", C44="E", C01="E", C02="E", C03="E", C04="E", C05="E", C06="E", C07="E", C08="S", C09="E", C10="E", C11="E", C12="M", C13="E", C14="M", C15="E", C16="E", C17="E", C18="E", C19="E", C20="E", C21="E", C22="E", C23="E", C24="E", C25="E", C26="E", C27="M", C28="E", C29="E", C30="M", C31="E", C32="E", C33="M", C34="E", C42="E", C43="E")
NA = dict(
 C35="statistical: quantifies over the distribution of hash values of the inputs, which no static analysis of the source bounds",
 C36="statistical: quantifies over the distribution of hash values and the number of items added at run time",
 C37="quantifies over run-time magnitudes of the observed values; a static bound on rounding needs ranges that nothing in the code imposes",
 C38="false for any 64-bit hash: whether it happens depends on the run-time key values, not on the code",
 C39="liveness under an arbitrary scheduler: the seqlock read loop is unbounded by design, so how often it repeats is a run-time quantity",
 C40="bounded probing refuses keys depending on the run-time hash distribution of the keys stored",
 C41="equivalence of the regular expressions with an informally documented language: there is no formal oracle to compare with",
)
src = "".join(open(f).read() for f in glob.glob("analyzer/*.go"))
have = set(re.findall(r'checkDef\{\s*id:\s*"(C\d\d)"', src))
ps = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i, technique=TECH[HOW[i]], level="other",
          level_note="All paths of the current source are covered, within the analysis' abstraction; what it cannot decide is reported. Trusted: the Go front end and SSA builder, the analyzer, and its models of the standard library (sync/atomic, sync, math, encoding/binary, strconv, net/http)."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not decided yet: the check is under construction")))
json.dump(dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
