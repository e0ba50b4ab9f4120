"""P05 below the level of instrumented values: Valgrind's memcheck watches every allocation of the generated code (also those of plain
strings and vectors), and the expansion itself is searched for `unsafe`."""
import os, random, re, shutil, subprocess
import common, engine, macrocheck, spec, trace
from common import HarnessError

VALGRIND = ["valgrind", "--leak-check=full", "--show-leak-kinds=definite,indirect", "--errors-for-leak-kinds=definite,indirect", "--error-exitcode=77", "--num-callers=20"]
NOT_RUN = ("valgrind is not installed",)


def explore(res, tier, seed, workdir, profile):
    """Memcheck over the workloads of some chunks."""
    if not shutil.which("valgrind"):
        res.assumptions.append(NOT_RUN[0])
        return []
    common.base(); common.rt()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    n, per, nhist = (8, 20, 14) if tier == "quick" else (64, 40, 30)

    def one(c):
        r = random.Random("memory/%d/%d" % (seed, c))
        S = [spec.gen_spec(r, i, dict(profile(r) if callable(profile) else profile)) for i in range(per)]
        hist = {s.id: [trace.gen_history(r, s, spec.arms(s)) for _ in range(nhist)] for s in S}
        ch = engine.Chunk("v%d" % c, S, hist, r.choice(["2018", "2021", "2024"]))
        try:
            binp, bad, log = engine.run_chunk(workdir, ch)
            if not binp: return None, {}, set(), []
            out = os.path.join(workdir, "v%d.vg" % c)
            p = subprocess.run(VALGRIND + ["--log-file=" + out, binp, os.path.join(workdir, ch.name + ".hist"), os.path.join(workdir, ch.name + ".log2")], capture_output=True, text=True, timeout=600, env=common.env())
        except (HarnessError, subprocess.TimeoutExpired) as e: return str(e), {}, set(), []
        t = open(out).read()
        m = re.search(r"total heap usage: ([\d,]+) allocs, ([\d,]+) frees", t)
        if not m: return "memcheck gave no summary: " + t[-500:], {}, set(), []
        keys = {("memcheck", s.pattern, len(s.fields), bool(s.params), tuple(sorted({f.ty[0] for f in s.fields}))) for s in S if s.id not in bad}
        counts = {"histories under memcheck": sum(len(hist[s.id]) for s in S if s.id not in bad), "allocations watched by memcheck": int(m.group(1).replace(",", ""))}
        viol = []
        if p.returncode == 77:
            e = re.sub(r"==\d+== ?", "", t)
            mods = sorted({int(x) for x in re.findall(r"::m(\d+)::", e)})
            viol.append(("memcheck:" + "+".join(sorted(set(re.findall(r"definitely lost|Invalid (?:read|write|free)|uninitialised", e)))), "memcheck reports, in modules %s:\n%s" % (mods[:10], e[:3500]),
                         {"module.rs": ch.prelude + "".join(ch.texts[s.id] for s in S if s.id in mods[:3]) + spec.main_fn([s for s in S if s.id in mods[:3]]), "memcheck.txt": e, "edition.txt": ch.edition}))
        elif p.returncode and not getattr(ch, "died", None): return "memcheck: exit %d %s" % (p.returncode, p.stderr[-300:]), {}, set(), []
        for x in (binp, log, log + "2"):
            if x and os.path.exists(x): os.remove(x)
        return None, counts, keys, viol
    errs = []
    for err, counts, keys, viol in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        for k, v in counts.items(): res.count(k, v)
        res.evaluations += counts.get("histories under memcheck", 0)
        res.distinct |= keys
        for sig, msg, files in viol: res.violate(sig, msg, files)
    shutil.rmtree(workdir, ignore_errors=True)
    return errs


def unsafety(res, tier, seed, workdir, profile):
    """The expansion contains no `unsafe` of its own."""
    macrocheck.mac()
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    n, per = (8, 400) if tier == "quick" else (64, 1500)

    def one(c):
        r = random.Random("unsafe/%d/%d" % (seed, c))
        S = [spec.gen_spec(r, i, dict(profile(r) if callable(profile) else profile)) for i in range(per)]
        cs = [("k%d" % s.id, "", macrocheck.item_text(s)) for s in S]
        try: f = macrocheck.facts(workdir, "c%d" % c, cs)
        except HarnessError as e: return str(e), 0, set(), []
        keys, viol, k = set(), [], 0
        for s, (i, _, t) in zip(S, cs):
            if "items" not in f[i]: continue
            k += 1
            keys.add(("unsafe", s.pattern, len(s.fields), bool(s.params), s.err, bool(s.validate)))
            if f[i]["unsafe"] and not re.search(r"\bunsafe\b", t): viol.append(("unsafe", "the expansion contains `unsafe`\n\ninput:\n%s" % t[:3000], {"input.rs": t}))
        return None, k, keys, viol
    errs = []
    for err, k, keys, viol in common.fork_map(one, range(n)):
        if err:
            errs.append(err)
            continue
        res.count("expansions searched for unsafe", k)
        res.evaluations += k
        res.distinct |= keys
        for sig, msg, files in viol: res.violate(sig, msg, files)
    shutil.rmtree(workdir, ignore_errors=True)
    return errs
