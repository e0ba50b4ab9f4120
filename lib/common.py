"""Paths, builds of the crates under test, evidence and verdict plumbing."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
TOOLCHAIN = "1.88.0"
TC_DIR = f"/root/.rustup/toolchains/{TOOLCHAIN}-x86_64-unknown-linux-gnu"
RUSTC = TC_DIR + "/bin/rustc"
CARGO = TC_DIR + "/bin/cargo"
JOBS = min(8, os.cpu_count() or 4)


class HarnessError(Exception):
    """The check could not decide: neither a pass nor a violation."""


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN=TOOLCHAIN,
             PATH=TC_DIR + "/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"), RUST_BACKTRACE="0")
    return e


def repo_hash():
    """Content hash of everything a build of /repo can read."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "wip"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p) or not (f.endswith((".rs", ".toml", ".md"))):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read() + b"\0")
    for extra in ("harness/base/Cargo.toml", "harness/base/Cargo.lock", "harness/rt/rt.rs"):
        p = os.path.join(VERIF, extra)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


_target = None


def target_dir():
    """A cargo target directory for exactly this content of /repo (so a stale build is impossible)."""
    global _target
    if _target is None:
        os.makedirs(BUILD, exist_ok=True)
        d = os.path.join(BUILD, "t-" + repo_hash())
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        # keep the disk small: drop older trees, but not one a concurrent check may be using
        old = sorted(glob.glob(BUILD + "/t-*"), key=os.path.getmtime)[:-3]
        for o in old:
            if o != d and time.time() - os.path.getmtime(o) > 1800:
                shutil.rmtree(o, ignore_errors=True)
        _target = d
    return _target


def cargo_build(crate_dir, extra=(), toolchain_env=None, target=None, bins=False):
    """cargo build --message-format=json in crate_dir; returns {target name: [files]}."""
    t = target or target_dir()
    cmd = [CARGO, "build", "--offline", "--locked", "--message-format=json", "--target-dir", t, *extra]
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        r = subprocess.run(cmd, cwd=crate_dir, env=toolchain_env or env(), capture_output=True, text=True, timeout=800)
    finally:
        lock.close()
    arts, diags = {}, []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            arts.setdefault(m["target"]["name"].replace("-", "_"), []).extend(m["filenames"] + ([m["executable"]] if m.get("executable") else []))
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            diags.append(m["message"].get("rendered", ""))
    if r.returncode != 0:
        raise HarnessError("cannot build %s:\n%s\n%s" % (crate_dir, r.stderr[-3000:], "\n".join(diags)[-3000:]))
    return arts


_base = {}


def base(cfg="std"):
    """Path of the derive_builder rlib for a feature configuration, and the -L dirs needed with it."""
    if cfg not in _base:
        feats = {"std": [], "alloc": ["--no-default-features", "--features", "alloc"],
                 "none": ["--no-default-features"], "clippy": ["--features", "clippy"]}[cfg]
        arts = cargo_build(os.path.join(VERIF, "harness/base"), feats)
        rlib = [f for f in arts["derive_builder"] if f.endswith(".rlib")][0]
        _base[cfg] = (rlib, os.path.dirname(rlib) if os.path.basename(os.path.dirname(rlib)) == "deps" else os.path.join(os.path.dirname(rlib), "deps"))
    return _base[cfg]


_rt = None


def rt():
    global _rt
    if _rt is None:
        out = os.path.join(target_dir(), "rt")
        os.makedirs(out, exist_ok=True)
        lib = os.path.join(out, "librt.rlib")
        if not os.path.exists(lib):
            tmp = out + "/tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            run([RUSTC, "--edition", "2021", "--crate-type", "rlib", "--crate-name", "rt", "-C", "opt-level=1",
                 os.path.join(VERIF, "harness/rt/rt.rs"), "-o", tmp + "/librt.rlib"], check=True)
            os.replace(tmp + "/librt.rlib", lib)
            shutil.rmtree(tmp, ignore_errors=True)
        _rt = (lib, out)
    return _rt


def run(cmd, check=False, timeout=600, **kw):
    try:
        r = subprocess.run(cmd, env=kw.pop("env", env()), capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise HarnessError("timed out: %s" % " ".join(map(str, cmd)))
    if check and r.returncode != 0:
        raise HarnessError("%s failed (%d):\n%s" % (" ".join(map(str, cmd)), r.returncode, r.stderr[-4000:]))
    return r


def pmap(f, xs, n=JOBS):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def _fork_call(i):
    return _fork_fn(i)


_fork_fn = None


def fork_map(f, xs, n=JOBS):
    """Like pmap, in forked processes (f may be a closure; results are pickled)."""
    global _fork_fn
    import multiprocessing
    _fork_fn = f
    with multiprocessing.get_context("fork").Pool(n) as pool:
        return list(pool.imap(_fork_call, list(xs), chunksize=1))


def ensure_lock(crate_dir):
    p = os.path.join(crate_dir, "Cargo.lock")
    if not os.path.exists(p):
        raise HarnessError("missing " + p)


class Result:
    """Collects what one check observed and turns it into evidence and a verdict."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.violations = []   # (signature, title, files)
        self.known = []
        self.assumptions = []
        self.rule = ""
        self.out = os.path.join(OUT, prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        self.findings = load_findings(prop)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def violate(self, sig, msg, files=None):
        """sig identifies the failing input exactly; files: {name: text} written next to the replay."""
        for f in self.findings:
            if f["signature"] == sig:
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append((sig, msg, files or {}))

    def finish(self, min_eval=1):
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        n = len(self.violations)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule, "samples": self.samples or ["none"], **self.extra},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": n}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        seen = {}
        for sig, msg, files in self.violations:
            seen.setdefault(sig, (msg, files))
        for i, (sig, (msg, files)) in enumerate(list(seen.items())[:10]):
            d = os.path.join(self.out, "violation-%d" % i)
            os.makedirs(d, exist_ok=True)
            with open(d + "/README.txt", "w") as f:
                f.write("property: %s\nsignature: %s\nseed: %s tier: %s\n\n%s\n" % (self.prop, sig, self.seed, self.tier, msg))
            for k, v in files.items():
                with open(os.path.join(d, k), "w") as f:
                    f.write(v)
            print("---- " + sig)
            print("\n".join(msg.splitlines()[:12]))
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
        sys.stdout.flush()
        if n:
            return 1
        if self.evaluations < min_eval or len(self.distinct) < 2:
            print("INCONCLUSIVE: only %d evaluations (%d distinct)" % (self.evaluations, len(self.distinct)))
            return 3
        print("OK property=%s tier=%s seed=%s evaluations=%d distinct=%d wall=%.1fs" % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                f = json.loads(l)
                if f.get("property") == prop and f.get("status") == "known":
                    r.append(f)
    return r
