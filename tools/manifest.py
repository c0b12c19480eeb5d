import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
"C01":"deterministic simulation: generated encoders against simulated sinks with seeded short, interrupted, zero, torn and failing writes; prefix/completeness oracle",
"C02":"deterministic simulation: seeded histories of writes, fsyncs, renames, crashes and restarts on a simulated disk, checked against a reference store and an independent document model",
"C03":"deterministic simulation: seeded damage on a simulated channel (tree and byte faults), decoder judged by an executable reference model of the schema",
"C04":"deterministic simulation: real loader on intercepted file system calls with seeded open/read/stat faults, checked against the fault-free outcome and the recorded call history",
"C05":"deterministic simulation: real loader on seeded include/import graphs, links and directory changes through intercepted file calls, checked against a graph reference model",
"C06":"deterministic simulation: simulated processes that differ only in seeded hash keys and earlier activity; outcomes compared token by token",
"C07":"deterministic simulation: seeded interleavings of readers on one element, each call checked against a small list model",
"C08":"deterministic simulation: seeded thread schedules and histories with failing, panicking and re-entrant sinks; each result compared with the same call alone in a fresh process",
"C09":"deterministic simulation: the real compiler expanding the attribute with intercepted file calls, seeded faults, hash keys and working directories; outcome compared with the fault-free expansion",
"C10":"deterministic simulation: seeded histories of interleaved and wrapped contexts against faulty sinks, checked against a reference model of what each element carries",
"C11":"deterministic simulation: seeded chains of relays that re-serialise a document; decoded values compared along the chain",
}
N={
"C01":"Seeded search over types of a compiled corpus (121 schemas), values and fault plans. Trusts the sink model and that the corpus is representative.",
"C02":"Seeded search; the disk model keeps any prefix (optionally zero-filled) of unsynced data. Trusts roxmltree for reading what was written.",
"C03":"Seeded search; deviations for which no rule is claimed (facets, repetition counts, unknown trailing content) only have to return without panicking.",
"C04":"Seeded search over schemas and fault plans at libc level, real code above it.",
"C05":"Seeded search over file graphs of up to a handful of files on a scratch file system.",
"C06":"Seeded search over schemas and hash seeds; every hash key comes from the intercepted getrandom.",
"C07":"Seeded search over interleavings of up to a few readers on one element.",
"C08":"Seeded search; threads switch only at allocations, file calls, sink calls and futex waits.",
"C09":"Seeded search; one rustc process per run.",
"C10":"Seeded search over call histories; trusts roxmltree for reading what was written.",
"C11":"Seeded search over layouts that keep the meaning of a document.",
}
import sys
claimed=sys.argv[1].split(',')
NA={
"C12":"A pure function of the schema text: no schedule, clock, fault or I/O in it for a simulation to vary.",
"C13":"A pure function of the schema text: no schedule, clock, fault or I/O in it for a simulation to vary.",
"C14":"A pure function of the schema text: no schedule, clock, fault or I/O in it for a simulation to vary.",
"C15":"A pure function of the schema text: no schedule, clock, fault or I/O in it for a simulation to vary.",
}
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","evidence_file":f"evidence/{i}.json","technique":T[i],"level":"exploration","level_note":N[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"The check is not built yet.")})
m["notes"]="No hooks in /repo: the seams are the Write argument of the generated encoders, the libc symbols the standard library calls (interposed in the simulator binaries) and the global allocator."
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
