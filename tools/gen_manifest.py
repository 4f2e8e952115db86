import json,subprocess
hooks=["5c88901"]
hooks=[subprocess.check_output(["git","-C","/repo","rev-parse",h],text=True).strip() for h in hooks]
T={
"C01":("deterministic simulation: seeded interleaving of several callers' field operations over shared elements, refinement against big-integer residues after every step","All nine fields, every spelling of every operation; sampled histories. Trusts the reference arithmetic in sim/dst/src/big.rs."),
"C02":("deterministic simulation with crash-restart and torn, lost, bit-rotten and full-disk writes; twin-run equivalence","Sampled programs and crash points; the journal's own checksum is the caller's, simulated."),
"C03":("deterministic simulation of replicas over a faulty network with crash-restart; convergence and exact-fold oracle","Sampled delivery orders, groupings and faults; parties' deduplication is simulated."),
"C04":("deterministic thread scheduling: real threads preempted at compiler-inserted yield points (every block, load and store), entropy and sink panics injected; comparison with solo runs in fresh processes","Sampled schedules at instruction-level granularity of memory accesses under sequential consistency; hardware memory reordering is not modelled."),
"C05":("deterministic simulation of entropy sources with injected stuck, biased, slow, re-entrant and panicking spells; determinism, validity and bounded-progress checks, fixed-seed bit statistics","Statistical part detects stuck, tied or strongly biased bits only; thresholds leave false alarms below 1e-9 per run. Exact uniformity is N02, not claimed."),
"C06":("deterministic simulation of output sinks failing, short or panicking at seeded points; delivered-prefix oracle","Sampled elements, every failure offset reachable; three formats."),
"C07":("deterministic simulation of corrupted transport and storage of encodings; decode oracle and differential use of the result","Sampled corruptions."),
"C08":("deterministic simulation of multi-party key agreement over a faulty network with crash-restart; affine group reference","Sampled scalars, points and orders, all five published curves and four user-defined ones."),
"C09":("deterministic simulation of replicated point accumulation over a faulty network with crash-restart; affine group reference and coordinate invariants at every step","Sampled points (including small order and identity), histories and orders."),
"C10":("deterministic simulation: observations injected at seeded points of a program, twin-run equivalence and value oracle","Sampled programs and observation points."),
"C11":("deterministic simulation of a co-scheduled observer: one preemption schedule, many secrets; path and address traces at compiler-inserted yield points compared","Sampled secrets; decides paths and addresses of the optimised build for this target, not instruction latencies or calls into libc."),
}
checks=[]
for i,(t,n) in T.items():
    checks.append({"property":i,"quick_cmd":"./check.sh %s"%i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh %s"%i,"evidence_file":"evidence/%s.json"%i,"technique":t,"level":"exploration","level_note":"Exploration of seeded runs: a clean batch is evidence, not proof. "+n})
m={"version":1,"setup_cmd":"sim/build.sh plain && sim/build.sh instr && sim/build.sh asis && sim/build.sh opt",
"hooks":{"guard":"cfg(safecurves_sim)","enable":"sim/rustc-wrap.sh, as cargo's RUSTC_WRAPPER, passes --cfg safecurves_sim when it compiles the library","source_commits":hooks},
"checks":checks,
"not_applicable":[
{"property":"N01","reason":"Constants have no schedule, fault, time or history to simulate; comparing them with a published table is not this technique. The consistency a simulated run depends on (base point on the curve, order annihilates it) is exercised by C08 and C09."},
{"property":"N02","reason":"Exact uniformity is a statement about the measure of all entropy streams; no simulated run or fault decides it, and sampling cannot see a bias of 2^-50. (It does not hold: see DESIGN.md.) C05 decides what simulated sources can."}],
"notes":"VERIF_SEED selects the runs, VERIF_TIER the number of them. ./check.sh ID rebuilds from /repo. Replay: ./replay.sh FILE"}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
