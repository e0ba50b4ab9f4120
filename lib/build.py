"""Compile chunks of generated modules with rustc; attribute compiler errors to modules."""
import json, os, re, shutil, subprocess
import common
from common import RUSTC, HarnessError, env, run


def write_chunk(path, prelude, mods, tail):
    """mods: [(key, text)]; returns the line ranges of every module."""
    out, n, ranges = [prelude], prelude.count("\n") + 1, []
    for key, text in mods:
        k = text.count("\n")
        ranges.append((n, n + k, key))
        out.append(text)
        n += k
    out.append(tail)
    with open(path, "w") as f:
        f.write("".join(out))
    return ranges


def spans_of(m):
    """Line numbers of a diagnostic in the main file, following macro backtraces."""
    r = []

    def sp(s):
        r.append((s["is_primary"], s["line_start"], s["file_name"]))
        e = s.get("expansion")
        while e:
            r.append((s["is_primary"], e["span"]["line_start"], e["span"]["file_name"]))
            e = e["span"].get("expansion")
    for s in m["spans"]: sp(s)
    for c in m["children"]:
        for s in c["spans"]: sp(s)
    return sorted(r, key=lambda x: not x[0])


def rustc_cmd(src, out, edition="2021", cfg="std", rt=True, extra=(), crate_type="bin"):
    rlib, dep = common.base(cfg)
    cmd = [RUSTC, "--edition", edition, "--crate-type", crate_type, src, "-o", out, "--error-format=json", "-C", "debuginfo=0",
           "--extern", "derive_builder=" + rlib, "-L", "dependency=" + dep, *extra]
    if rt:
        lib, d = common.rt()
        cmd += ["--extern", "rt=" + lib, "-L", "dependency=" + d]
    return cmd


def errors_by_module(stderr, fname, ranges, warns=None, ok=False):
    """{module key: [rendered errors]}; raises when errors cannot be attributed to any module."""
    new = {}
    for l in stderr.splitlines():
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("$message_type", "diagnostic") != "diagnostic": continue
        lev = m["level"]
        if lev != "warning" and not lev.startswith("error"): continue
        if m["message"].startswith("aborting due to"): continue
        if lev == "warning" and (not m["spans"] or warns is None): continue
        key = None
        for _, ln, fn in spans_of(m):
            for a, b, k in ranges:
                if a <= ln < b and fn.endswith(fname):
                    key = k
                    break
            if key is not None: break
        (warns if lev == "warning" else new).setdefault(key, []).append(m["rendered"])
    if ok: return {}
    if None in new and len(new) == 1:
        raise HarnessError("unattributed compiler errors in %s:\n%s" % (fname, "\n".join(new[None])[:3000]))
    if not new:
        raise HarnessError("rustc failed without diagnostics on %s: %s" % (fname, stderr[-2000:]))
    new.pop(None, None)
    return new


def compile_chunk(workdir, name, prelude, mods, tail_fn, edition="2021", cfg="std", extra=("--cap-lints", "allow"), want_warnings=False):
    """Returns (binary or None, {key: [rendered errors]}, {key: [rendered warnings]}).

    Modules whose code does not compile are dropped and the rest is compiled again."""
    os.makedirs(workdir, exist_ok=True)
    bad, warns = {}, {}
    mods = list(mods)
    for attempt in range(6):
        if not mods: return None, bad, warns
        src = os.path.join(workdir, name + ".rs")
        out = os.path.join(workdir, name + ".bin")
        ranges = write_chunk(src, prelude, mods, tail_fn([k for k, _ in mods]))
        r = run(rustc_cmd(src, out, edition, cfg, extra=extra), timeout=500)
        new = errors_by_module(r.stderr, name + ".rs", ranges, warns if want_warnings else None, ok=r.returncode == 0)
        if r.returncode == 0:
            return out, bad, warns
        for k, v in new.items(): bad.setdefault(k, []).extend(v)
        mods = [(k, t) for k, t in mods if k not in new]
    raise HarnessError("chunk %s does not settle" % name)
