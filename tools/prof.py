#!/usr/bin/env python3
"""prof.py ID [TIER]: validation time per case group (development aid)."""
import os, sys, time, tempfile, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gen, run
pid, tier = sys.argv[1], (sys.argv[2:] or ["quick"])[0]
b = run.build()
groups = collections.defaultdict(list)
for c in gen.generate(pid, tier, 1):
    groups[c["id"].rsplit("-", 1)[0]].append(c)
for k, cs in groups.items():
    if len(sys.argv) > 3 and sys.argv[3] not in k: continue
    w = tempfile.mkdtemp(); t = time.time()
    r = run.conformance(b, cs, w, procs=1)
    print(f"{k:20} {len(cs):6} cases {r.calls:7} calls {time.time()-t:7.1f}s  rejected {len(r.rejections)}", flush=True)
    os.system(f"rm -rf {w}")
