import json,os,glob,re
notes={
"C01":"Seeded search over schedules: every statement of the library is a preemption point; each caller's results are compared with its solo run. A second pass runs the same schedules under the race detector, with the baton invisible to it. Assumes statement granularity is fine enough for hidden state to show (the race detector covers the rest).",
"C02":"Inputs live in memory mapped read-only, so that any write by the library faults; conflicting accesses are reported by the race detector for simulated schedules. Assumes the race detector sees all accesses of the instrumented build.",
"C03":"Seeded histories with failing loads; oracle is a new buffer of a newly parsed font in pristine package state. Relative oracle: a fault that affects new and reused buffers alike is not seen.",
"C04":"Seeded damage and repair of stored bytes at operation and statement boundaries; oracle is a world that never saw the damage. What an object successfully prepared, looked up or produced during the damage is exempt.",
"C05":"Seeded request histories; oracle is a new face per request with one cache entry, and the unrounded face at the finest sub-pixel grid for the rounding rule.",
"C06":"Seeded setting and draw histories; oracle is a new context per draw, drawing without clip into a copy, of which the clip's part is taken.",
"C07":"Every access to destination and source images and every glyph load is a crash point; oracle is the write log of the uninterrupted draw.",
"C08":"Seeded call sequences with caller panics inside painters, cappers and joiners; oracle is a new rasterizer given only the calls since the last clear.",
"C09":"Invariants checked in the painter as spans arrive, with painters that scribble over spans and rasterize from within.",
"C10":"Seeded batchings and interleavings of batches between painters; oracle is the same spans in one batch into a new painter.",
"C11":"Seeded schedules of callers drawing into one image; oracle is each caller's solo drawing; also run under the race detector.",
"C12":"Seeded storage faults on font files; every parse under a step budget, an allocation bound and with an inaccessible page behind the bytes.",
"C13":"Seeded storage faults before parsing and between calls; no panic, and exact results for everything not of the damaged font.",
"C14":"Step budget counted at every statement, allocation bound and stack bound per call, on fonts damaged to recurse and loop. The budgets are far above what the worst found legitimate input needs.",
"C15":"Seeded deliveries; oracle is direct delivery into a new rasterizer and the concatenation of the strokes of single curves.",
"C16":"All held results are re-read after every operation of every caller under seeded schedules.",
"C17":"Seeded call sequences, repeated after other objects' work and in other simulated environments (clock, randomness, map order, pools, processors, collections); oracle is the same calls in pristine package state. Relative oracle: what depends on nothing but is wrong is not seen; addresses are those of the real allocator.",
"C18":"Seeded histories with failing loads, unreadable programs and abandoned calls; buffers, faces and contexts with that history are compared with each other and with the outline rasterized by the harness. A fault common to all three and visible neither in the outline nor between them is not seen.",
"C19":"Seeded sequences repeated 30 to 400 times by one caller, and 64 to 256 times as often where the memory in use has grown by more than 1 kB; a leak that is slower than that, or that needs more than one caller, is not seen."
}
have=set(sorted(re.search(r'ID: "(C\d\d)"',l).group(1) for f in glob.glob('/verif/sim/props/*.go') for l in open(f) if re.search(r'ID: "(C\d\d)"',l)))
na={
"P01":"A pure function of font and rune: no schedule, fault or history takes part; simulation has nothing to decide and an oracle would be a second cmap reader compared on sampled inputs, which is testing. (That lookups do not depend on history, other callers or damage elsewhere is C01, C04, C05, C13.)",
"P02":"A pure function of font, size and glyph, and its reference (C FreeType) is not available offline.",
"P03":"A pure numeric function of the curves; no nondeterminism or fault for a simulator to control. (That it is unaffected by history, delivery, batching and abandonment is C08, C09, C10, C15.)",
"P04":"A pure geometric function of path and width; no nondeterminism or fault to control. (Delivery and isolation of strokes is C15.)",
"P05":"Table lookups and scaling are pure functions of the font; no nondeterminism or fault to control. (Behaviour under damage is C13.)",
"P06":"Instruction semantics are a pure function of program and state; deciding them needs an independent interpreter, not a scheduler. (History, damage and termination are C03, C04, C13, C14.)",
"P07":"Per-pixel arithmetic, a pure function of span, colour and destination. (Batching and interleaving are C10.)",
"P08":"Layout is a pure function of text and font; nothing nondeterministic takes part. (History, interruption and damage are C05, C06, C07.)",
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
 "notes":"No hooks are committed in /repo: yield points are inserted by /verif/instrument into a scratch copy of the working tree at check time."}
for p in props:
    i=p["id"]
    if i in have:
        m["checks"].append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"bash check.sh "+i,
          "technique":"deterministic simulation with fault injection (seeded search over schedules, faults and histories)","level":"exploration","level_note":notes[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,"check under construction")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
