#!/usr/bin/env python3
"""C18: the same simulated histories through builds of the library with different feature sets.

features.py check quick|thorough HERE     decide the property, write the evidence
features.py replay FILE HERE              build the feature set of a replay file and play its history again
"""
import itertools, json, os, random, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

PROTOS = ["nec", "rc5", "rc6", "sbp", "denon"]
FLAGS = PROTOS + ["remotes"]
# the optional dependencies are features, too; `embedded` is both of them
HALS = [[], ["hal"], ["fugit"], ["hal", "fugit"], ["embedded"]]
LOGS = [[], ["log"], ["defmt"]]
DEFAULT = FLAGS + ["embedded"]


class Harness(Exception):
    pass


class Bench:
    def __init__(self, here, workers):
        self.here, self.crate = here, os.path.join(here, "featsim")
        self.free = list(range(workers))
        self.lock = threading.Lock()
        for w in self.free:
            for d in ("infrared-*", "featsim-*"):
                subprocess.run(f"rm -rf {self.crate}/target/w{w}/release/.fingerprint/{d}", shell=True)

    def build(self, feats, keep):
        """Build the simulator with these features; the error of the compiler, or None and the binary in `keep`."""
        with self.lock:
            w = self.free.pop()
        try:
            t = os.path.join(self.crate, "target", f"w{w}")
            r = subprocess.run(["cargo", "build", "--release", "--offline", "--features", ",".join(feats)],
                               cwd=self.crate, env=dict(os.environ, CARGO_TARGET_DIR=t), capture_output=True, text=True)
            log = r.stderr + r.stdout
            if r.returncode:
                if "could not compile `infrared`" in log:
                    return "the library does not compile:\n" + log
                if "could not compile `featsim`" in log and "error[E" in log:
                    return "the library lacks a part that its features promise:\n" + log
                raise Harness(log)
            shutil.copy(os.path.join(t, "release", "featsim"), keep)
            subprocess.run(f"rm -rf {t}/release/deps/featsim-* {t}/release/deps/*infrared-* "
                           f"{t}/release/.fingerprint/infrared-* {t}/release/.fingerprint/featsim-*", shell=True)
            return None
        finally:
            with self.lock:
                self.free.append(w)


def run(binary, hist, part=None):
    r = subprocess.run([binary, hist] + ([part] if part else []), capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise Harness(f"{binary}: exit {r.returncode}: {r.stderr[-2000:]}")
    if part:
        return [l.split(" ") for l in r.stdout.splitlines()]
    return {k: (h, int(n)) for h, n, k in (l.split(" ", 2) for l in r.stdout.splitlines())}


def sets(seed, tier):
    """Feature sets, the telling ones first."""
    out = [[p] for p in PROTOS] + [[p, "remotes"] for p in PROTOS]
    out += [[f for f in DEFAULT if f != x] for x in DEFAULT]
    out += [DEFAULT + l for l in LOGS[1:]] + [[]] + [["remotes"]] + [h for h in HALS if h]
    out += [["nec"] + h + l for h in HALS for l in LOGS]
    rest = [list(f) + h + l for n in range(len(FLAGS) + 1) for f in itertools.combinations(FLAGS, n) for h in HALS for l in LOGS]
    random.Random(seed).shuffle(rest)
    seen, res = {tuple(sorted(DEFAULT))}, []
    for s in out + rest:
        k = tuple(sorted(s))
        if k not in seen:
            seen.add(k)
            res.append(s)
    return res if tier == "thorough" else res[:75]


def differing(a, b, hist):
    """First part and history on which two builds differ, by the parts both have."""
    ra, rb = run(a, hist), run(b, hist)
    for part in sorted(rb):
        if part not in ra:
            raise Harness(f"the default build lacks {part}")
        if ra[part] != rb[part]:
            xa, xb = run(a, hist, part), run(b, hist, part)
            i = next((i for (i, h), (_, g) in zip(xa, xb) if h != g), None)
            if i is None:
                raise Harness(f"{part}: the same build gave two results")
            return part, int(i), rb
    return None, None, rb


def differs_on(a, b, part, lines, tmp):
    with open(tmp, "w") as f:
        f.write("\n".join(lines) + "\n")
    return run(a, tmp, part) != run(b, tmp, part)


def shrink(a, b, part, lines, tmp):
    lines = list(lines)
    for i in range(len(lines) - 2, -1, -1):
        less = lines[:i] + lines[i + 1:]
        if len(lines) <= 200 and differs_on(a, b, part, less, tmp):
            lines = less
    w = lines[-1].split(" ")
    if len(lines) > 1 or w[0][0] != "R":
        return lines
    head, d = w[:3], w[3:]
    n = 1 << 12
    while n:
        i = 0
        while i < len(d):
            for cut in (d[:i] + d[i + 2 * n:],):
                if cut != d and differs_on(a, b, part, [" ".join(head + cut)], tmp):
                    d = cut
                    break
            else:
                i += 2 * n
        n //= 2
    return [" ".join(head + d)]


def replay(path, here):
    p = json.load(open(path))
    work = os.path.join(here, "replays", "c18-replay")
    os.makedirs(work, exist_ok=True)
    b = Bench(here, 1)
    try:
        err = b.build(DEFAULT, os.path.join(work, "default"))
        if err:
            raise Harness(err)
        err = b.build(p["features"], os.path.join(work, "subset"))
        if p["kind"] == "build":
            print((err or "builds")[:1500])
            again = err is not None
        elif err:
            print(err[:1500])
            again = True
        else:
            again = differs_on(os.path.join(work, "default"), os.path.join(work, "subset"), p["part"], p["history"], os.path.join(work, "h"))
        print("REPRODUCED" if again else "not reproduced", "features", ",".join(p["features"]) or "(none)", p.get("part", ""))
        return 1 if again else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(tier, here):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(here, "replays", f"c18-{os.getpid()}")
    os.makedirs(work)
    n = 3000 if tier == "quick" else 20000
    workers = min(8, os.cpu_count() or 4)
    bench = Bench(here, workers)
    try:
        hist = os.path.join(work, "histories")
        with open(hist, "w") as f:
            g = subprocess.run([os.path.join(here, "sim/target/release/irsim"), "histories", "--seed", str(seed), "--runs", str(n)],
                               stdout=f, stderr=subprocess.PIPE, text=True, check=True)
        gen = json.loads(g.stderr)
        lines = open(hist).read().splitlines()
        base = os.path.join(work, "default")
        err = bench.build(DEFAULT, base)
        if err:
            raise Harness(err)
        full = run(base, hist)
        if full != run(base, hist):
            raise Harness("the default build gives different results for the same histories")

        todo, stop = sets(seed, tier), threading.Event()

        def one(k):
            if stop.is_set():
                return None
            feats = todo[k]
            exe = os.path.join(work, f"s{k}")
            err = bench.build(feats, exe)
            if err:
                stop.set()
                return dict(k=k, kind="build", detail=err, parts={})
            part, i, res = differing(base, exe, hist)
            if part is None:
                os.remove(exe)
                return dict(k=k, parts=res)
            stop.set()
            return dict(k=k, kind="behaviour", part=part, i=i, exe=exe, parts=res)

        with ThreadPoolExecutor(workers) as ex:
            done = [r for r in ex.map(one, range(len(todo))) if r]
        bad = next((r for r in done if "kind" in r), None)
        rc = 0
        if bad:
            rc = 1
            feats = list(todo[bad["k"]])
            exe = os.path.join(work, "min")
            hist1 = []
            if bad["kind"] == "behaviour":
                hist1 = [lines[bad["i"]]]
                if not differs_on(base, bad["exe"], bad["part"], hist1, os.path.join(work, "h")):
                    # something left behind by earlier ones
                    hist1 = lines[:bad["i"] + 1]
            for f in list(feats):  # a smaller set with the same fault
                less = [x for x in feats if x != f]
                err = bench.build(less, exe)
                same = err is not None if bad["kind"] == "build" else err is None and differs_on(
                    base, exe, bad["part"], hist1, os.path.join(work, "h"))
                if bad["kind"] == "behaviour" and same and bad["part"] not in run(exe, os.path.join(work, "h")):
                    same = False
                if same:
                    feats = less
                    if err:
                        bad["detail"] = err
                    else:
                        shutil.copy(exe, bad["exe"])
            rep = dict(property="C18", seed=seed, kind=bad["kind"], features=feats)
            if bad["kind"] == "behaviour":
                h = shrink(base, bad["exe"], bad["part"], hist1, os.path.join(work, "h"))
                if not differs_on(base, bad["exe"], bad["part"], h, os.path.join(work, "h")):
                    raise Harness("a difference between two builds does not reproduce")
                rep.update(part=bad["part"], index=bad["i"], history=h)
                what = f"{bad['part']} reports something else than with the default features on history: {h[-1][:300]}"
            else:
                rep["detail"] = bad["detail"][:8000]
                what = bad["detail"][:1500]
            path = os.path.join(here, "replays", "C18.json")
            json.dump(rep, open(path, "w"), indent=1)
            print(f"features {','.join(feats) or '(none)'}: {what}")
            print(f"VIOLATION property=C18 replay={path}")
        pairs = [(r["k"], p) for r in done for p in r["parts"]]
        live = [(r["k"], p) for r in done for p, (_, c) in r["parts"].items() if c]
        wall = time.time() - t0
        sim_s = gen["simulated_ns"] / 1e9
        ev = {
            "property": "C18", "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": len(done) * len(lines), "distinct_nontrivial": len(live),
                "rule": "a seed makes the histories (disturbed frames of all protocols, and commands to send) and picks the feature sets; every set is built and plays all histories through each part it enables; non-trivial: a (feature set, part) pair that reported something and was compared with the default build",
                "samples": [{"features": todo[r["k"]], "parts": {p: f"{h} ({c} histories with reports)" for p, (h, c) in list(r["parts"].items())[:6]}} for r in done[:3]]
                           + [{"history": l[:300]} for l in lines[:2]],
                "feature_sets_built": len(done), "feature_sets_total": 2 ** len(FLAGS) * len(HALS) * len(LOGS),
                "set_part_pairs": len(pairs), "histories": len(lines), "distinct_histories": len(set(lines)),
                "faults_injected": dict(gen["faults"], **{"feature-missing": sum(len(set(DEFAULT) - set(todo[r["k"]])) for r in done)}),
                "simulated_seconds": round(sim_s * max(1, len(done)), 3), "runs_per_hour": int(len(done) * len(lines) / wall * 3600),
                "real_components": ["everything the feature set enables"], "stub_components": ["remote controls", "pins", "clocks", "loggers"],
                "exhaustive": False,
            },
            "wall_s": round(wall, 1), "violations": rc,
            "assumptions": ["log and defmt exclude each other, as the library says"],
        }
        os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(here, "evidence", "C18.json"), "w"), indent=1)
        if not rc:
            print(f"OK property=C18 sets={len(done)} histories={len(lines)} pairs={len(pairs)} wall={wall:.1f}s")
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(check(sys.argv[2], sys.argv[3]) if sys.argv[1] == "check" else replay(sys.argv[2], sys.argv[3]))
    except (Harness, OSError, subprocess.SubprocessError) as e:
        print(f"HARNESS ERROR: {e}", file=sys.stderr)
        sys.exit(2)
