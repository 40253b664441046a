#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
T = "deterministic simulation with fault injection: seeded random schedules, reference-model refinement and invariants"
PROG = ("Seeded search, no exhaustiveness. The real Token Wrap processor (native build) runs on the real Solana program "
        "runtime with the real token, ATA and Metaplex binaries; each executed request is compared with an independent "
        "reference model from the same state, invariants are checked after every transaction and each run ends with a "
        "heal-and-redeem drain. Trusted: the model, the simulated ledger (fees, signatures, rent states, clock) and the "
        "syscall seam; the program's own compute use and heap are not metered.")
VAR = PROG + " The no-extension and compliance customizers are run through process_create_mint with each shipped customizer."
checks = []
for p in ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C22"]:
    checks.append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
        technique=T, level="exploration", level_note=VAR if p=="C22" else PROG))
CLI = ["C16","C17","C18","C19","C20","C21"]
CLINOTE = ""
na = []
JS = ("Seeded search, no exhaustiveness. The JavaScript client, bundled from its sources in /repo, runs in Node; every request it makes "
      "goes to the simulated RPC node and cluster, which execute the real Token Wrap program; results are compared with a reference model "
      "and the ledger. Trusted: the model, and stand-ins for @solana/kit and the token program clients (their packages are not installed here).")
import os
if os.path.exists("/verif/simcli/CLAIMED"):
    for p in CLI:
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
            technique=T, level="exploration", level_note=open("/verif/simcli/CLAIMED").read().strip()))
else:
    for p in CLI:
        na.append(dict(property=p, reason="Not yet claimed: the command-line simulator is still being built."))
checks.append(dict(property="C23", quick_cmd="./check.sh C23 quick", thorough_cmd="./check.sh C23 thorough", technique=T, level="exploration", level_note=JS))
VM = ("Seeded search, no exhaustiveness. Every request of a simulated history is executed twice from the same state: by the program's "
      "native build and by its build for the Solana VM, loaded by the real loader with the real heap, stack and compute limits; outcome and "
      "all accounts must agree. Trusted: the VM build made with the sandbox's stand-in for the official toolchain (other compute costs), the simulated ledger.")
checks.append(dict(property="C24", quick_cmd="./check.sh C24 quick", thorough_cmd="./check.sh C24 thorough", technique=T, level="exploration", level_note=VM))
CLIVM = open("/verif/simcli/CLAIMED").read().strip() + (" For C25 the ledger executes the program's build for the Solana VM, made with the sandbox's "
      "stand-in for the official toolchain, and meters computation as a cluster does.")
checks.append(dict(property="C25", quick_cmd="./check.sh C25 quick", thorough_cmd="./check.sh C25 thorough", technique=T, level="exploration", level_note=CLIVM))
checks.sort(key=lambda c: c["property"])
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open("/verif/MANIFEST.json","w"), indent=1)
