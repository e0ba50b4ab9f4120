"""Engine A: generate definitions, run histories on the real generated builders, judge the logs."""
import os, random, shutil, subprocess
import common, build, spec, trace
from common import HarnessError, pmap


class Chunk:
    def __init__(self, name, specs, hist, edition="2021", cfg="std", prelude=None, spell=None):
        self.name, self.specs, self.hist, self.edition, self.cfg = name, specs, hist, edition, cfg
        self.prelude = prelude or spec.PRELUDE
        self.texts = {}


def run_binary(path, hfile, log, timeout=300):
    try:
        r = subprocess.run([path, hfile, log], capture_output=True, text=True, timeout=timeout, env=common.env())
    except subprocess.TimeoutExpired:
        raise HarnessError("workload timed out: " + path)
    return r


def run_chunk(workdir, ch, render=spec.render, extra=("--cap-lints", "allow"), keep=False):
    """Compile and execute; returns (binary, {sid: compile errors}, log path)."""
    mods = []
    for s in ch.specs:
        ch.texts[s.id] = render(s)
        mods.append((s.id, ch.texts[s.id]))
    byid = {s.id: s for s in ch.specs}
    binp, bad, warns = build.compile_chunk(workdir, ch.name, ch.prelude, mods, lambda ks: spec.main_fn([byid[k] for k in ks]), ch.edition, ch.cfg, extra)
    log = os.path.join(workdir, ch.name + ".log")
    if binp is None: return None, bad, None
    hf = os.path.join(workdir, ch.name + ".hist")
    trace.write_histories(hf, [(s.id, h, ops) for s in ch.specs if s.id not in bad for h, ops in enumerate(ch.hist[s.id])])
    r = run_binary(binp, hf, log)
    if r.returncode != 0:
        ch.died = "exit status %d: %s" % (r.returncode, r.stderr[-500:])
    return binp, bad, log


def explore(res, workdir, prof, nchunks, per_chunk, nhist, accept, seed, hist_weights=None, cfg="std", relevant=None, editions=("2018", "2021", "2024"), nops=None, tweak=None):
    """Run a whole exploration for one property.

    accept(kind, s, f) -> bool says whether a deviation of this kind breaks the property."""
    common.base(cfg); common.rt()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)

    def one(c):
        r = random.Random("%s/%d/%d" % (res.prop, seed, c))
        specs = []
        for i in range(per_chunk):
            pr = dict({"p_self": .04}, **(prof(r) if callable(prof) else prof))
            s = spec.gen_spec(r, c * 1000 + i, pr)
            if tweak: s = tweak(r, s) or s
            specs.append(s)
        hist = {}
        for s in specs:
            A = spec.arms(s)
            hist[s.id] = [trace.gen_history(r, s, A, weights=hist_weights, nops=nops) for _ in range(nhist)]
        ch = Chunk("c%d" % c, specs, hist, r.choice(editions), cfg)
        out = []
        counts, keys = {}, {}
        nh = 0
        nops_ = 0
        try:
            binp, bad, log = run_chunk(workdir, ch)
        except HarnessError as e:
            return ch, [], {}, {}, 0, 0, str(e)
        byid = {s.id: s for s in specs}
        for sid, errs in bad.items():
            out.append(("compile", byid[sid], None, None, None, "generated code does not compile (edition %s):\n%s" % (ch.edition, "\n".join(errs)[:3000])))
        if log:
            done = set()
            for sid, hid, recs, tail, status in trace.parse_log(log):
                s = byid[sid]
                done.add((sid, hid))
                if status == "ABSENT": continue
                nh += 1
                nops_ += len(recs)

                def rep(kind, f, n, msg, s=s, hid=hid):
                    out.append((kind, s, f, hid, n, msg))

                def seen(kind, key):
                    counts[kind] = counts.get(kind, 0) + 1
                    keys.setdefault(kind, set()).add(hash((kind, key)))
                trace.Judge(s, spec.arms(s), rep, seen).run(recs, tail, status)
            exp = {(s.id, h) for s in specs if s.id not in bad for h in range(len(ch.hist[s.id]))}
            if exp - done:
                sid, hid = sorted(exp - done)[0]
                out.append(("crash", byid[sid], None, hid, None, "the process died: %s" % getattr(ch, "died", "?")))
        for ext in (".bin", ".log"):
            p = os.path.join(workdir, ch.name + ext)
            if os.path.exists(p) and not out: os.remove(p)
        return ch, out, counts, keys, nh, nops_, None
    errs = []
    for ch, out, counts, keys, nh, nops_, err in common.fork_map(one, range(nchunks)):
        if err:
            errs.append(err)
            continue
        res.count("histories", nh)
        res.count("operations", nops_)
        res.count("definitions", len(ch.specs))
        for k, v in counts.items():
            if relevant is None or relevant(k):
                res.evaluations += v
                res.count("checks:" + k.split(".")[0], v)
        for k, v in keys.items():
            if relevant is None or relevant(k): res.distinct |= v
        if ch.specs and len(res.samples) < 3:
            s = ch.specs[0]
            res.sample({"definition": ch.texts.get(s.id, "")[:1500], "history": ch.hist[s.id][0][:12]})
        for kind, s, f, hid, n, msg in out:
            if not accept(kind, s, f): 
                res.count("other_deviations")
                continue
            hist = ch.hist[s.id][hid] if hid is not None and hid < len(ch.hist[s.id]) else []
            sig = "%s:%s" % (kind, spec_sig(s, f))
            res.violate(sig, "%s\n\nspec m%d, field %s, history %s, operation %s\nhistory (k f v s d p): %s\n" % (msg, s.id, f.name if f else "-", hid, n, hist[:(n or 0) + 1]),
                        {"module.rs": ch.prelude + ch.texts[s.id] + spec.main_fn([s]),
                         "history.txt": "H %d 0\n" % s.id + "".join("O %d %d %d %d %d %d\n" % o for o in hist),
                         "edition.txt": ch.edition + "\n"})
    if errs: res.errors = errs
    return errs


def spec_sig(s, f):
    if f is None: return "struct/%s" % s.pattern
    return "%s/%s" % (f.ty[0], s.pattern)
