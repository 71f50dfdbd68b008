#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={}
TECH={
 "C01":"reference-model monitor over executed histories (vote ledger vs. reported tallies)",
 "C02":"exact-arithmetic outcome oracle on boundary-ratio workloads",
 "C03":"trace monitor for single execution and execution windows, incl. re-entrancy",
 "C04":"trace monitor of dispatched actions with injected failures at every nested message",
 "C05":"deposit ledger monitor (conservation, exactly-once settlement)",
 "C06":"admission oracle over generated and mutated proposals",
 "C07":"council authority monitor over executed histories",
 "C08":"hostile-caller workload with no-effect monitor on state writes and balances",
 "C09":"stake backing/conservation monitor over executed histories",
 "C10":"claim ledger monitor (exactly-once, release times at exact boundaries)",
 "C11":"weight-history monitor (totals against recorded timeline)",
 "C12":"propagation monitor on every weight-changing transaction, with injected faults",
 "C13":"exact rational reward ledger monitor (conservation, exactly-once)",
 "C14":"reward-minimum monitor over executed histories",
 "C15":"whitelist model monitor and distribution admission oracle",
 "C16":"attestation monitor over signed and unsigned actors",
 "C17":"treasury balance-change monitor justified by executed actions",
 "C18":"upgrade trace monitor with state comparison and injected faults",
 "C19":"registry reference model over random edits and lookups",
 "C20":"creation wiring oracle over generated requests, with faults",
 "C21":"IBC message trace monitor with forged and repeated replies",
 "C22":"differential monitor: facade answers and adapted messages against the DAO's own contracts",
 "C23":"bridge callback trace monitor",
 "C24":"status-versus-simulated-execution monitor",
 "C25":"page-walk monitor against unpaged reference models",
 "C26":"configuration reference model over executed updates",
 "C27":"non-interference monitor over multi-DAO histories",
 "C28":"exactly-once transfer monitor over step-wise migrations, with injected faults",
}
NOTE="Runs the real contract code of the working tree on an instrumented in-process chain (message, reply, rollback and balance events) under seeded hostile workloads; every transaction is judged by independent oracles. Holds for the executions explored; trusts the chain simulator, cw20-base and cw721-base."
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
m=dict(version=1,setup_cmd="bash build.sh",
 hooks=dict(guard="none: the checks need no change to the source of /repo; the contracts are linked as libraries (feature \"library\" where it exists) and watched from the chain simulator",enable="nothing to enable",source_commits=[]),
 checks=[dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",technique="runtime monitoring: "+TECH[i],level="exploration",level_note=NOTE) for i in ids if i not in NA],
 not_applicable=[dict(property=k,reason=v) for k,v in NA.items()])
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
