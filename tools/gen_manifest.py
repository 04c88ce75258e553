import json
T="deterministic simulation with seeded schedule and fault search"
NOTE={
"C01":"seeded search over interleavings at single memory accesses; bitwise comparison with a serial reference in a fresh process; sequentially consistent memory assumed",
"C02":"as C01 for analytic gradients and mixtures of gradients and integrals",
"C03":"a simulated observer compares every caller input object with its contents after every store of the library that touches it (transient changes included)",
"C04":"cold starts and re-initialisations raced by 2-6 simulated threads, initialised-flag pollers included",
"C05":"seeded init/finalize/query/evaluate histories over threads with stalls; reference from a fresh process",
"C06":"seeded histories with recycled, dirtied and poisoned heap, dirtied stacks and output arrays; bitwise comparison with a fresh process",
"C07":"every access of the library checked against the simulated heap and the caller's output blocks; red zones; neighbouring outputs filled by several threads",
"C08":"histories repeated in one simulated process; live blocks must return to the same level; double frees and use after free caught at the access",
"C09":"seeded histories of order/tolerance changes with creation, copying and evaluation; concurrent order changes while others evaluate",
"C10":"allocation failures injected at seeded indices (single, or all later ones) into every call kind; fail-stop accepted, wrong results not",
"C11":"seeded stalls at any point; deadlock detected exactly, livelock by a step bound well above the serial cost",
"C12":"seeded assembly histories on several operators; compared with the independently added-up terms, each evaluated by the library alone (relative 1e-11)",
"C13":"every Fortran entry point under seeded interleavings and histories against the C call in a fresh process; argument arrays watched",
"C14":"the repository's own C driver runs under a simulated OpenMP team in one process; matrices compared with the one-thread run exactly",
"C15":"one thread is frozen for good at a seeded instant inside a call (biased to the instants around the call's allocations, function entries and synchronisation); every other thread must finish with exact results",
"C16":"every call entered with seeded errno, exception flags, environment variables and clock, in OpenMP teams of several sizes; floating-point modes and OpenMP defaults compared after each call, calls into process-wide libc state (streams, files, locale, signals, rand) intercepted",
"C17":"seeded lives of shells and potentials in shared slots (new, deep copy, shrunk copy, normalise, shrink, delete, evaluate) over 1-6 threads; every evaluation compared bitwise with the same object built alone in a fresh process",
}
PURE="pure function of the input: no schedule, clock, fault, history or interleaving for the simulator to decide; "
NA={
"C20":PURE+"hermiticity of one serial call is a numerical identity (its independence of schedules and histories is covered by C01, C06)",
"C21":PURE+"covariance of one serial call is a numerical identity",
"C22":PURE+"derivative and translational-invariance relations are numerical identities of serial calls (their schedule side is C02)",
"C23":PURE+"accuracy against the defining integral is a numerical-analysis question",
"C24":PURE+"limits and agreement of nuclear models are numerical identities of serial calls",
"C25":PURE+"linearity is a numerical identity of serial calls (operator assembly histories are C12)",
"C26":"the comparison tool is a sequential program whose verdict is a pure function of two files; deciding it means enumerating inputs, not schedules or faults",
}
import sys
claimed=[c for c in NOTE if c in sys.argv[1:] or len(sys.argv)==1]
na=[{"property":k,"reason":v} for k,v in NA.items()]+[{"property":c,"reason":"check under construction"} for c in NOTE if c not in claimed]
m={"version":1,"setup_cmd":"python3 check.py --build","checks":[{"property":c,"quick_cmd":"python3 check.py "+c,"thorough_cmd":"python3 check.py %s --thorough"%c,"evidence_file":"evidence/%s.json"%c,"technique":T,"level":"exploration","level_note":NOTE[c]} for c in claimed],"not_applicable":na,
"notes":"No hooks in /repo: the seam is added at compile time (gcc -fsanitize=thread instrumentation linked against the simulator, objcopy symbol redirection)."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
