"""Writes MANIFEST.json from the table below; run after adding or removing a check."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification explored with TLC; covering walks replayed into the code; recorded histories validated with TLC"
NOTE = {
    "C01": "Vla.tla/VlaMC_seq",
    "C02": "Vla.tla/VlaMC_bit, VlaMC_bit2",
    "C03": "Vla.tla/VlaMC_lim, VlaMC_bitlim",
    "C04": "Vla.tla/VlaMC_flt",
    "C05": "Vla.tla/VlaMC_alc, VlaMC_pmr",
    "C06": "UVar.tla/UVarMC_seq",
    "C07": "UVar.tla/UVarMC",
    "C08": "Func.tla/FuncMC",
    "C09": "Rtti.tla/RttiMC",
    "C10": "Owner.tla/OwnerMC",
    "C11": "BufRes.tla/BufResMC",
    "C12": "Mono.tla/MonoMC",
    "C13": "Reg.tla/RegMC",
    "C14": "Opt.tla/OptMC",
    "C15": "Var.tla/VarMC",
    "C16": "Cmp.tla/CmpMC",
    "C17": "Visit.tla/VisitMC",
    "C18": "Conv.tla/ConvMC",
    "C19": "StrView.tla/StrViewMC",
    "C20": "Span.tla/SpanMC",
    "C21": "PolyAlloc.tla/PolyAllocMC",
    "C22": "SysMem.tla/SysMemMC",
    "C23": "Fwd.tla/FwdMC",
    "C24": "NoExc.tla/NoExcMC",
    "C25": "Caps.tla/CapsMC",
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks = []
for p in props:
    if p not in NOTE:
        continue
    cmd = f"python3 checks/{p.lower()}.py"
    checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, evidence_file=f"evidence/{p}.json", technique=TECH,
                       level="model_checking",
                       level_note=f"Exhaustive over the bounded model ({NOTE[p]}); every transition of it and seeded random "
                                  "longer histories are replayed into the code compiled from the working tree, and TLC decides "
                                  "whether each recorded event is a step of the specification. Assumes the harness records what "
                                  "happened, the compiler, TLC, and that behaviour outside the bounds is reached by the random part."))
na = [dict(property=p, reason="not covered yet") for p in props if p not in NOTE]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no instrumentation of /repo is needed; the headers are compiled as they are",
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Specifications in spec/, harnesses in harness/, one driver per property in checks/. known-findings.txt lists "
               "defects found and repaired, and the ones left.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
