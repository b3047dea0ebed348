import json,sys
sys.path.insert(0,'/verif')
NOTE={
"C01":"valid clusterings by an independent recount, feasibility by a reference model of the neighbour graph",
"C02":"coverage recomputed from labels and options","C03":"refinement, size window, label density and two-group separation recomputed",
"C04":"result compared with an undisturbed reference execution of the same call; error code compared with the faults injected","C05":"objects re-read after every failed call, call repeated and compared with the undisturbed execution",
"C06":"allocator and backend handle ledgers","C07":"AddressSanitizer/UBSan plus exact block ledger, differing heap garbage between reference and live execution","C08":"contract checks in the simulated backend and proxy on every call",
"C09":"model of the installed table, probed after every installation","C10":"interleaved and historied execution compared with a reference execution on pristine library state","C11":"error text read after every failed call",
"C12":"brute-force recomputation of every answer","C13":"independent recomputation of checks and statistics","C14":"value model of objects, audited after every operation","C15":"other batch sizes and lexical seeding run on the same request",
"C16":"reference model of neighbourhoods, maximality and seed orders (search over tie-breakings, exact up to 120 points)","C17":"seam-event budget and comparison with the undisturbed execution, CPU watchdog","C18":"radius limits recomputed from distances",
"C19":"same templates built with 8-bit, 32-bit and 64-bit types, implicit data sets up to 2^32 and beyond, machine with limited memory","C20":"admissible clusters of every leftover point recomputed","C21":"every documented refusal injected into histories, backend history inspected"}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"python3 simbuild.py","checks":[],"not_applicable":[],
 "notes":"One simulator (sim/), one runner (check.py). No hooks in /repo: allocator, qsort and library globals are redirected at link level (objcopy), the distance backend through the library's own installation interface, integer types through its own templates."}
for p in props:
    i=p["id"]
    m["checks"].append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+i,"evidence_file":"evidence/%s.json"%i,
     "technique":"deterministic simulation with fault injection: seeded search over histories, fault sequences and interleavings of the real library; oracle: "+NOTE[i],
     "level":"exploration","level_note":"Searches many seeded executions, no proof. Every run is decided by the seed (faults, schedule, heap contents, tie-breaking, data). Oracle: "+NOTE[i]+". Trusted: compiler, libc string/math functions, the simulator's models; preemption only at allocator, backend and call boundaries."})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema; jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
