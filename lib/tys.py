"""The palette of field types: Rust text, payload semantics (mirrors harness/rt Mk/Obs), conversions."""
DF_BASE, INTO, TRY = 500_000, 7_000_000, 9_000_000

TR, MV, INT, STR, BOOL, REF, UNIT, FN, CH = ("tr",), ("mv",), ("int",), ("str",), ("bool",), ("ref",), ("unit",), ("fn",), ("char",)


def opt(x, path="Option"): return ("opt", x, path)
def mopt(x, path="::rt::my::Option"): return ("mopt", x, path)   # the user's own type that is called Option too
def vec(x): return ("vec", x)
def deq(x): return ("deq", x)
def mp(x): return ("map", x)
def bx(x): return ("box", x)
def tup(x, y): return ("tup", x, y)
def arr(x, n): return ("arr", x, n)
def gen(name): return ("gen", name)
def carr(x): return ("carr", x)       # [x; K] with the struct's const parameter
def out(name): return ("out", name)   # <T as HasOut>::Out
def ph(name): return ("ph", name)
SLF, SOUT = ("slf",), ("sout",)  # types written with Self
HM = ("hm",)                    # inherent methods named like the traits' in the way
def coll(x): return ("coll", x)  # a collection with inherent methods in the way


def rust(t):
    k = t[0]
    if k == "tr": return "Tr"
    if k == "mv": return "Mv"
    if k == "int": return "i64"
    if k == "str": return "String"
    if k == "bool": return "bool"
    if k == "char": return "char"
    if k == "unit": return "()"
    if k == "fn": return "fn(i64) -> i64"
    if k == "ref": return "&'a str"
    if k in ("opt", "mopt"): return "%s<%s>" % (t[2], rust(t[1]))
    if k == "vec": return "Vec<%s>" % rust(t[1])
    if k == "deq": return "::std::collections::VecDeque<%s>" % rust(t[1])
    if k == "map": return "::std::collections::BTreeMap<i64, %s>" % rust(t[1])
    if k == "box": return "Box<%s>" % rust(t[1])
    if k == "tup": return "(%s, %s)" % (rust(t[1]), rust(t[2]))
    if k == "arr": return "[%s; %d]" % (rust(t[1]), t[2])
    if k == "carr": return "[%s; K]" % rust(t[1])
    if k == "gen": return t[1]
    if k == "out": return "<%s as ::rt::HasOut>::Out" % t[1]
    if k == "ph": return "::std::marker::PhantomData<%s>" % t[1]
    if k == "slf": return "::rt::Slf<Self>"
    if k == "hm": return "::rt::Hm"
    if k == "coll": return "::rt::Coll<%s>" % rust(t[1])
    if k == "sout": return "<Self as ::rt::HasOut>::Out"
    if k == "raw": return t[1]
    raise KeyError(t)


def inst(t, env):
    """Concrete type under an instantiation {T: type, K: int}."""
    k = t[0]
    if k in ("gen", "out"): return env[t[1]]
    if k == "ph": return ("phc", env[t[1]])
    if k == "sout": return TR
    if k == "carr": return ("arr", inst(t[1], env), env["K"])
    if k in ("opt", "mopt"): return (k, inst(t[1], env), t[2])
    if k in ("vec", "deq", "map", "box", "coll"): return (k, inst(t[1], env))
    if k == "tup": return (k, inst(t[1], env), inst(t[2], env))
    if k == "arr": return (k, inst(t[1], env), t[2])
    return t


def crust(t):
    """Rust text of a concrete type as the driver names it ('static for references)."""
    k = t[0]
    if k == "ref": return "&'static str"
    if k == "phc": return "::std::marker::PhantomData<%s>" % crust(t[1])
    if k == "slf": return "::rt::Slf<P>"
    if k == "coll": return "::rt::Coll<%s>" % crust(t[1])
    if k == "opt": return "Option<%s>" % crust(t[1])
    if k == "mopt": return "::rt::my::Option<%s>" % crust(t[1])
    if k == "vec": return "Vec<%s>" % crust(t[1])
    if k == "deq": return "::std::collections::VecDeque<%s>" % crust(t[1])
    if k == "map": return "::std::collections::BTreeMap<i64, %s>" % crust(t[1])
    if k == "box": return "Box<%s>" % crust(t[1])
    if k == "tup": return "(%s, %s)" % (crust(t[1]), crust(t[2]))
    if k == "arr": return "[%s; %d]" % (crust(t[1]), t[2])
    return rust(t)


def mk(t, p):
    """Canonical payload-level text of Mk::mk(p)."""
    k = t[0]
    if k in ("tr", "mv", "slf", "hm"): return "T%d" % p
    if k == "int": return "i%d" % p
    if k == "str": return "'s%d'" % p
    if k == "ref": return "'r%d'" % p
    if k == "bool": return "b%d" % (p % 2)
    if k == "char": return "c" + chr(97 + p % 26)
    if k == "unit": return "u"
    if k == "fn": return "f41"
    if k == "phc": return "P"
    if k == "opt": return "N" if p % 5 == 0 else "S(%s)" % mk(t[1], p)
    if k == "mopt": return "n" if p % 5 == 0 else "J(%s)" % mk(t[1], p)
    if k in ("vec", "deq", "coll"): return "[%s]" % ",".join(mk(t[1], p * 10 + i) for i in range(p % 4))
    if k == "map": return "{%s}" % ",".join("%d:%s" % (p * 10 + i, mk(t[1], p * 10 + i)) for i in range(p % 3))
    if k == "box": return mk(t[1], p)
    if k == "tup": return "(%s,%s)" % (mk(t[1], p), mk(t[2], p + 1))
    if k == "arr": return "[%s]" % ",".join(mk(t[1], p + i) for i in range(t[2]))
    raise KeyError(t)


def dflt(t):
    """Canonical text of Default::default()."""
    k = t[0]
    if k in ("tr", "mv", "slf", "hm"): return "T-1"
    if k == "int": return "i0"
    if k in ("str", "ref"): return "''"
    if k == "bool": return "b0"
    if k == "char": return "c\0"
    if k == "unit": return "u"
    if k == "phc": return "P"
    if k == "opt": return "N"
    if k == "mopt": return "n"
    if k in ("vec", "deq", "coll"): return "[]"
    if k == "map": return "{}"
    if k == "box": return dflt(t[1])
    if k == "tup": return "(%s,%s)" % (dflt(t[1]), dflt(t[2]))
    if k == "arr": return "[%s]" % ",".join(dflt(t[1]) for _ in range(t[2]))
    return None


def has_default(t):
    k = t[0]
    if k in ("fn", "carr"): return False
    if k in ("gen", "out", "ph"): return True
    if k == "char": return False   # '\0' would be awkward in the log
    if k in ("box",): return has_default(t[1])
    if k == "tup": return has_default(t[1]) and has_default(t[2])
    if k == "arr": return has_default(t[1])
    return True


def walk(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from walk(x)


def cloneable(t):
    return not any(x[0] == "mv" for x in walk(t))


def copyable(t):
    k = t[0]
    if k in ("int", "bool", "unit", "fn", "ref", "phc", "char"): return True
    if k in ("opt", "arr"): return copyable(t[1])
    if k == "tup": return copyable(t[1]) and copyable(t[2])
    return False


# conversions: list of (rust expression of the argument given payload variable p, python result fn, label)
def arg_self(t):
    return ("<%s as Mk>::mk(p)" % crust(t), lambda p: mk(t, p), "id")


def intos(t):
    """Arguments accepted by a setter generic over Into<t> (identity first)."""
    k = t[0]
    r = [arg_self(t)]
    if k in ("tr", "mv", "hm"):
        r.append(("Si(p)", lambda p: "T%d" % (p + INTO), "Si"))
    elif k == "int":
        r.append(("<i32 as Mk>::mk(p)", lambda p: "i%d" % p, "i32"))
        r.append(("<u32 as Mk>::mk(p)", lambda p: "i%d" % p, "u32"))
    elif k == "str":
        r.append(("<&'static str as Mk>::mk(p)", lambda p: "'r%d'" % p, "&str"))
        r.append(("<char as Mk>::mk(p)", lambda p: "'%s'" % chr(97 + p % 26), "char"))
    elif k == "opt":
        r.append(("<%s as Mk>::mk(p)" % crust(t[1]), lambda p: "S(%s)" % mk(t[1], p), "inner"))
    elif k == "mopt":
        r.append(("<%s as Mk>::mk(p)" % crust(t[1]), lambda p: "J(%s)" % mk(t[1], p), "inner"))
    elif k == "box":
        r.append(("<%s as Mk>::mk(p)" % crust(t[1]), lambda p: mk(t[1], p), "unboxed"))
    elif k == "vec":
        r.append(("<[%s; 2] as Mk>::mk(p)" % crust(t[1]), lambda p: "[%s,%s]" % (mk(t[1], p), mk(t[1], p + 1)), "array"))
    return r


# rt implements TryFrom<Ti> for these
TRYABLE = {("tr",), ("mv",)}


def tries(t):
    """Arguments accepted by a try setter for t: (expr, ok fn, err fn (None = infallible), label)."""
    k = t[0]
    r = [("<%s as Mk>::mk(p)" % crust(t), lambda p: mk(t, p), None, "id")]
    ti = False
    if k in ("tr", "mv", "hm"): ti = True
    elif k == "opt" and t[1] in (TR, MV, HM): ti = True
    elif k == "opt" and t[1][0] == "vec" and t[1][1] == TR: ti = True
    elif k == "opt" and t[1][0] == "opt" and t[1][1] == TR: ti = True
    elif k == "vec" and t[1] == TR: ti = True
    elif k == "box" and t[1] == TR: ti = True
    elif t == ("tup", TR, INT): ti = True
    if ti:
        e = ("Ti(p)", lambda p: None if p % 3 == 0 else mk(t, p + TRY), lambda p: "CE(%d)" % p if p % 3 == 0 else None, "Ti")
        r += [e, e]
    elif k == "int":
        e = ("<i128 as Mk>::mk(p)", lambda p: None if p % 3 == 0 else "i%d" % p, lambda p: "TFI" if p % 3 == 0 else None, "i128")
        r += [e, e]
    elif k == "str":
        r.append(("<&'static str as Mk>::mk(p)", lambda p: "'r%d'" % p, None, "&str"))
    return r


def eachs(t, into):
    """Items accepted by an each-setter on collection type t: (expr, fn(coll_text, p) -> new text, label)."""
    k = t[0]
    r = []

    def app(old, item):
        return old[:-1] + ("," if len(old) > 2 else "") + item + "]"
    if k in ("vec", "deq", "coll"):
        x = t[1]
        if not into:
            r.append(("<%s as Mk>::mk(p)" % crust(x), lambda o, p: app(o, mk(x, p)), "item"))
        elif x[0] in ("tr", "mv", "str", "hm"):
            for e, f, lab in intos(x):
                r.append((e, (lambda f: lambda o, p: app(o, f(p)))(f), lab))
    elif k == "map":
        x = t[1]
        if not into:
            def ins(o, p):
                d = parse_map(o)
                d[p] = mk(x, p)
                return "{%s}" % ",".join("%d:%s" % (a, d[a]) for a in sorted(d))
            r.append(("(p, <%s as Mk>::mk(p))" % crust(x), ins, "pair"))
    elif k == "str":
        if not into:
            r.append(("<String as Mk>::mk(p)", lambda o, p: o[:-1] + "s%d'" % p, "String"))
            r.append(("<char as Mk>::mk(p)", lambda o, p: o[:-1] + chr(97 + p % 26) + "'", "char"))
            r.append(("<&'static str as Mk>::mk(p)", lambda o, p: o[:-1] + "r%d'" % p, "&str"))
    return r


def eachable(t, into=False):
    return bool(eachs(t, into)) if t[0] in ("vec", "deq", "map", "str", "coll") else False


def split_top(s):
    """Split a canonical text at top-level commas."""
    r, d, cur = [], 0, ""
    for c in s:
        if c in "([{": d += 1
        if c in ")]}": d -= 1
        if c == "," and d == 0:
            r.append(cur)
            cur = ""
        else:
            cur += c
    if cur: r.append(cur)
    return r


def parse_map(o):
    return {int(e.split(":", 1)[0]): e.split(":", 1)[1] for e in split_top(o[1:-1])}
