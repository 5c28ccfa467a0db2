#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
H = "runtime monitoring: "
RT = " Holds on the executions observed; the Solana runtime is represented by harness/src/svm.rs; its compute budget only by P28's count of basic blocks."
T = {
 'P01': (H + "conservation and solvency monitor (vault = filled - claimed >= available + all claimables) after every step of random histories of the real program; everybody claims in random orders on forks",
         "Claimables are measured by running the program's claim on discarded forks."),
 'P02': (H + "every staker's paid + claimable compared after every step with an exact rational pro-rata ledger, over random histories",
         "The ledger keeps lower and upper bounds with the roundings the statement allows."),
 'P03': (H + "settled pool total compared with the sum of settled stakers' weights after every step of random histories with penalties and expiries",
         "Weights are read after a settling instruction on a discarded fork."),
 'P04': (H + "settled weights of stakers and pool compared with a lockup table around every day boundary, on the history itself and on forks walked past every scheduled expiry",
         "Clocks are drawn at expiry -1 s, 0, +1 s, half a day and far beyond."),
 'P05': (H + "distribution monitor: exact amount formula, once a day, no other effect, over random schedules of fills and distributions",
         "The amount is checked in exact arithmetic."),
 'P06': (H + "fill monitor: token deltas, available amount, end date and acceptance over random histories, with hostile sources tried on forks",
         "Tokens move through the real spl-token processor."),
 'P07': (H + "claim monitor: paid amount, return data, second claim, untouched rest, over random histories, with hostile destinations tried on forks",
         "What is owed is known from a settling fork and from the reference ledger."),
 'P08': (H + "calls with signatures removed or authorities substituted in random reached states, judged by a wire-level specification of required signers; refused calls must leave every account unchanged",
         "Distinct by instruction, role in every position, flags and reasons; the role table is written from the statement."),
 'P09': (H + "calls with accounts or key arguments substituted (other pool, other user, forged copies, duplicates, planted look-alikes) in random reached states, judged by a wire-level specification",
         "Distinct by instruction, role in every position, flags and reasons."),
 'P10': (H + "histories at 64-bit boundaries compared with a big-integer reference model; wrapped, truncated or lost amounts and wrong refusals are reported",
         "Built with the overflow checks that the repository's release profile has."),
 'P11': (H + "weights and claimables of delegator, delegate and bystanders compared with the reference model after every step of delegation-heavy histories",
         "Conforming delegation as the staking program does it, plus calls that must be refused."),
 'P12': (H + "weights at once and, on forks walked past the expiries, later compared with the reference model over slash-heavy histories; impossible slashes must be refused",
         "Includes dates shared by several lockups and several stakers."),
 'P13': (H + "weights at once and after each later expiry compared with the reference model over penalty-heavy histories",
         "The schedule's tail is walked on forks."),
 'P14': (H + "weights at once and on the old and the new expiry day compared with the reference model over extension-heavy histories",
         "All pairs of periods, with and without delegates."),
 'P15': (H + "close monitor: acceptance, lamports, erased contents, re-creation, over random histories, with hostile closes tried on forks",
         "The relic of the closed account is inspected, not only its lamports."),
 'P16': (H + "initialisation monitor: contents, addresses, owners, re-initialisation, pre-funded addresses, over random histories and hostile preconditions",
         "The system program and spl-token run inside the harness; account creation follows the runtime's rules."),
 'P17': (H + "pairs of executions of one history, the second with settlements inserted or independent operations reordered, compared by an offline relational monitor",
         "Bounds are one base unit per inserted settlement."),
 'P18': (H + "long histories that fill the fixed-size trees compared with a reference model of unbounded storage",
         "More than 50 dates per staker, more than 365 per pool, more than 1095 distribution days."),
 'P19': (H + "everybody's claimable measured before and after every instruction and every passage of time; only a distribution or the own claim may change it",
         "Measured on discarded forks, so that the measurement itself settles nothing."),
 'P20': (H + "acceptance oracle: what a correct staking program sends must be accepted; complete exits are run on forks of random states",
         "Histories without penalties, as the statement says."),
 'P21': (H + "instructions built by the generated Rust client (builders, CPI builders) executed side by side with hand-encoded ones, effects compared; accounts and errors decoded by the client",
         "The client crate is compiled from /repo's tree against the same program."),
 'P22': (H + "instructions serialised by the JS client (run in node) and described by the IDL executed side by side with the program's own; layouts, enums, errors, program id compared",
         "The umi and serializer packages are absent offline; clients/js has small stand-ins for them."),
 'P23': ("sanitizer (AddressSanitizer) and canary-guarded buffers under malformed instruction data and accounts; monitor that only complete, exactly sized, valid instructions succeed and that failures change nothing",
         "Every account of a call lies in a separate allocation in the AddressSanitizer run."),
 'P24': (H + "exact weight deltas of deposits and withdrawals for every staker and the pool over random histories; impossible ones must be refused",
         "Includes operations on expiry days."),
 'P25': (H + "identity fields, indexes and end dates of every changed account compared before/after each accepted instruction of random histories",
         "Byte-level, on every account an instruction changed."),
 'P26': (H + "differential monitor: every call of random histories repeated from the same state at another hour, slot and epoch, with further accounts, lamports, tokens, kinds of signers; whole histories repeated with other keys and shifted by days; outcomes compared byte for byte",
         "The repeated executions are compared with each other, not with a model."),
 'P27': (H + "counting allocator and painted stack around the entrypoint, over random histories and histories that fill the fixed-size storage",
         "The heap count includes loading the accounts; the stack is that of the native build, without what stands for the runtime."),
 'P28': (H + "compiler instrumentation (trace-pc-guard) counts the basic blocks of the program and of its trees in every call, over random histories and histories whose storage is full and whose backlogs are as long as it can hold",
         "Counts blocks of the native build, not compute units; runtime, allocator and compiler support routines are not counted. The largest count seen on the clean tree is 22 thousand."),
 'P29': (H + "error code returned by the entrypoint for every refused call of random histories and for accepted calls given exactly one fault, judged by a table of the errors that name each fault",
         "Where several faults are present, the error of any of them is accepted; which check comes first is not prescribed."),
 'P30': (H + "what the crate's public functions announce (periods, addresses, the amount of a distribution or claim, kinds and sizes of accounts) compared with what the instructions then do, on forks of states of random histories",
         "A part of the library that no longer compiles with the check's use of it is left out; the counters in the evidence show what was compared."),
}
assert set(T) == {p['id'] for p in props}
checks = [{"property": p['id'], "quick_cmd": f"VERIF_TIER=quick ./run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
           "evidence_file": f"evidence/{p['id']}.json", "technique": T[p['id']][0], "level": "exploration",
           "level_note": T[p['id']][1] + RT} for p in props]
m = {"version": 1, "setup_cmd": "./build.sh mon clients js lib asan cov", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: accounts are observed at the program's interface. Fixed defects: known-findings.txt. See DESIGN.md."}
with open(V + '/MANIFEST.json', 'w') as f:
    f.write(json.dumps(m, indent=1) + '\n')
if __name__ == '__main__':
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(checks), 'checks')
