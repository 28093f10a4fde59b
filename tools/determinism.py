"""Is a seed one exactly repeatable execution?  Every check's first RUNS cases for several seeds, in fresh interpreters with
different numbers of workers and hash seeds; the digests of the event logs must agree.

    python3 tools/determinism.py [RUNS] [CHECK ...]
"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = int(sys.argv[1]) if len(sys.argv) > 1 else 40
checks = sys.argv[2:] or [f"C{k:02d}" for k in range(1, 18)]
bad = 0
for c in checks:
    for seed in (1, 2):
        got = []
        for workers, h in ((8, "0"), (3, "0"), (8, "77"), (5, "random")):
            with tempfile.NamedTemporaryFile(suffix=".json") as f:
                env = dict(os.environ, VERIF_RUNS=str(runs), VERIF_SEED=str(seed), VERIF_WORKERS=str(workers), PYTHONHASHSEED=h, VERIF_DIGESTS=f.name)
                r = subprocess.run([sys.executable, "-m", "sim", c], cwd=HERE, env=env, capture_output=True, text=True)
                if r.returncode:
                    print(c, seed, workers, h, "rc", r.returncode, r.stdout[-500:], r.stderr[-500:]); bad += 1
                    continue
                got.append(json.load(open(f.name)))
        d = [i for i in got[0] if any(g.get(i) != got[0][i] for g in got[1:])] if got else []
        bad += len(d)
        print(c, "seed", seed, len(got), "batches of", len(got[0]) if got else 0, "runs; different:", d, flush=True)
sys.exit(bool(bad))
