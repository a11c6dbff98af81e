import re
p='/verif/DESIGN.md'; s=open(p).read()
s=s.replace("| C17 optional features | see §2.1 | see §2.1 | see §2.1 |","| C17 optional features | histories of switching reserves, interface limits and DC lines, run, print, save, reload, continue; solve faults, cancellation (§2.1) | reference checker with the feature's own rows, LP feasibility, explicit-unit differential | 700 / 90 s |")
new='''
### 2.1 C17 optional features

Feature data are derived from an independent reference DC schedule of the generated case, so that zones, interfaces and lines are often
tight but usually feasible; some are deliberately not.  Operations: switch a feature on (again) / off (when off), run AC/DC OPF and power flow (with and without
reactive limits), `runopf_w_res`, refuse bad data, print, save (`.py`, `.mat`) and load, continue from results or solved files, same run again.
Oracles: `refopf.check` extended by the features (reserve variables and costs, zone requirements, joint capacity, interface sums in DC terms,
DC-line units with loss and cost), multipliers of zones/interfaces/lines against the stationarity of the extended problem, LP feasibility for must-solve and
claimed DC failures, a power flow with DC lines against the same case with the terminals written as explicit units, a
case on which nothing is on must give bit-identical results to one that never had the feature, the caller's case unchanged, the registered callbacks.
Not asserted: AC liveness with features on.  Not run: reserves together with DC lines (PYPOWER's reserve data are per unit and
DC lines add units; upstream leaves this open), reserves/interfaces in a plain power flow (no formulation stage there).  The reserve price is checked as the sum of the zone
prices, which is what the code and its tests do; the docstring says maximum.
'''
s=s.replace("\nWhy this reaches what the tests do not:",new+"\nWhy this reaches what the tests do not:",1)
fa='''* C17: power flow with DC lines under solve faults is not comparable with the explicit-unit run (different numbers of solves); interface multipliers below the
  solver's cut-off are reported as zero; a cost list whose length coincides with both documented lengths is ambiguous.
'''
s=s.split("\n## 5.")[0].rstrip("\n")+"\n"+fa if "C17: power flow" not in s else s.split("\n## 5.")[0].rstrip("\n")+"\n"
fx=[l[7:].strip() for l in open('/verif/known_findings.jsonl') if l.startswith('fixed:')]
rows={}
for l in fx:
    m=re.match(r'property=(\S+) (\S+) (.*)',l); rows.setdefault(m[1],[]).append((m[2],m[3]))
s+='''
## 5. Genuine defects found on the original tree

Open (recorded in `known_findings.jsonl`): **C17 interface-price-unit** – `results['if']['mu']` is in $ per per-unit flow though documented in $/MW; the
repository's own stable test t_opf_userfcns locks the values, so a repair would break the suite.

Repaired (each one minimal `fix:` commit in /repo; the check that found it reports it again if reverted):

'''
for k in sorted(rows):
    for c,w in rows[k]: s+=f"* {k} `{c}` {w}\n"
import json,glob,os
s+='''
## 6. Planted bugs

Kept in `seeded/`; written from the property text and the code.  "caught" is by the quick tier of the property's own check.

| bug | needs | caught by |
|---|---|---|
'''
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); n=d.split('/')[-2]
    s+=f"| {n} | {m['needs']} | {m['property']} |\n"
s+='''
C16-open-end was missed at first; C16 now writes some absent limits as ±1e10, the documented stand-in.  Besides these, each check was run against hand-written one-line mutations
(`tools/mut.sh`) and most of them against a few dozen randomly drawn ones per anchored module (`tools/mutants.py`, which keeps only mutants that also pass
the repository's tests); survivors were equivalent or cosmetic, or led to new features, operations or oracles
(e.g. several units at the slack bus, warm restarts, limits written as 1e10, sensitivity of prices to the zone order).
'''
open(p,'w').write(s)
