"""Which definitions each property's check generates and which deviations break that property."""
from tys import *

ANY = ("crash", "compile")
INTOF = lambda f: f is not None and (f.into or f.strip)


def has(k, *pre):
    return k in ANY or any(k == p or k.startswith(p + ".") for p in pre)


GENERIC_RICH = dict(p_generic=1.0, p_gx=.25, gen_unbound=.4, nf=[1, 2, 3, 3, 4, 5])
OPTTYPES = dict(opt_bias=.45)
EACHTYPES = [vec(TR), vec(TR), deq(TR), mp(TR), STR, vec(INT), vec(STR), opt(vec(TR)), opt(vec(TR)), opt(mp(TR)), opt(STR), vec(opt(TR)), vec(vec(TR)), deq(STR), TR, opt(opt(vec(TR))), mp(STR), vec(UNIT), coll(TR), opt(coll(STR)), coll(HM)]

P = {}


def prop(id, profile, accept, relevant=None, weights=None, **kw):
    P[id] = dict(profile=profile, accept=accept, relevant=relevant or (lambda k: accept(k, None, None)), weights=weights, **kw)


prop("P01", dict(hostile=.5, big=.08, p_fpat=.12),
     lambda k, s, f: has(k, "set.value", "set.otherfield", "try.value", "try.otherfield", "each.value", "each.otherfield", "value.set", "value.custom", "raw.otherfield"))
prop("P02", dict(f_default=.15, sd=.06, f_skip=.06, nf=[1, 2, 3, 4, 5, 6, 8, 10], big=.08, hostile=.5, f_cty=.05, f_build=.05, err={"gen": .4, "genval": .1, "noval": .2, "custom": .3}),
     lambda k, s, f: has(k, "build.missing", "build.spurious", "build.first", "build.outcome", "errtext"))
prop("P03", dict(f_default=.55, sd=.4, f_skip=.2, s_skip=.1, fallible=.25, panics=.05, f_cty=.06, nf=[2, 3, 4, 5, 6, 8], spell=.7),
     lambda k, s, f: has(k, "value", "build.eval", "build.sd", "build.fallible", "build.spurious", "build.panic"),
     weights={"build": 6, "set": 4})
prop("P04", dict(pattern={"": .35, "mutable": .1, "immutable": .35, "owned": .2}, p_fpat=.3, nf=[1, 2, 3, 4, 5], f_each=.25, s_try=.25),
     lambda k, s, f: has(k, "set.slot", "try.slot", "each.slot", "build.slot", "clone", "new.slot", "raw.slot", "set.recv", "try.recv", "each.recv", "build.recv", "own.shared", "try.unchanged", "own.uaf")
     or (k in ("set.value", "set.otherfield", "value.set", "each.value", "try.value") and f is not None and (f.pattern != "mutable" or s.pattern != "mutable")),
     relevant=lambda k: has(k, "set", "try", "each", "build.recv", "build.slot", "clone", "raw"),
     weights={"build": 5, "clone": 3, "drop": 1, "dropp": 1, "each": 5})
prop("P05", dict(pattern={"": .1, "mutable": .1, "immutable": .15, "owned": .65}, p_fpat=.04, mv=.8, panics=.5, fallible=.4, validate=.4, f_default=.4, sd=.25, f_each=.25, f_cty=.15),
     lambda k, s, f: has(k, "own", "noclone", "moved"),
     weights={"build": 5, "drop": 1.5, "dropp": 1, "flag": 2, "raw": 1.5})
prop("P06", dict(validate=1.0, nf=[0, 0] + 3 * [1, 2, 3, 3, 4, 4, 5, 6, 8], err={"gen": .5, "genval": .1, "custom": .4}, f_default=.4, sd=.25, fallible=.3, panics=.1, f_build=.15, f_cty=.1, gen_unbound=.1),
     lambda k, s, f: has(k, "val", "build.spurious", "build.fallible"), relevant=lambda k: has(k, "val"),
     weights={"build": 6, "flag": 3})
prop("P07", dict(p_look=.3, s_into=.35, f_into=.45, s_strip=.4, f_strip=.45, opt_bias=.4, f_each=.1, nf=[2, 3, 4, 5, 6], s_try=.2, macro=.25, f_cty=.12),
     lambda k, s, f: has(k, "set.value", "set.conv", "each.conv", "try.conv", "try.value") or (k in ("value.set", "value.custom") and INTOF(f)),
     relevant=lambda k: has(k, "set", "try.value", "try.conv", "each.conv"))
prop("P08", dict(s_try=.6, f_try=.5, s_into=.2, s_strip=.3, opt_bias=.25, p_fpat=.15, hostile=.5, f_name=.2, f_prefix=.15),
     lambda k, s, f: has(k, "try"), weights={"try": 8, "set": 3, "each": 1})
prop("P09", dict(f_each=1.0, p_each_into=.35, types=EACHTYPES, s_strip=.3, f_strip=.4, p_fpat=.15, s_try=.2, f_cty=.12, s_prefix=.2, pattern={"": .35, "mutable": .05, "owned": .3, "immutable": .3}, p_generic=.12),
     lambda k, s, f: has(k, "each") or (k in ("value.set", "value.custom", "set.value") and f is not None and f.each), weights={"each": 9, "set": 3, "build": 3},
     relevant=lambda k: has(k, "each", "value.set"))
prop("P12", dict(GENERIC_RICH, mv=.5, p_fpat=.15, pattern={"": .3, "mutable": .05, "owned": .4, "immutable": .25}, f_skip=.15),
     lambda k, s, f: bool(s is None or s.params), relevant=lambda k: True)
prop("P13", dict(derives=.6, cctor=.3, cempty=.35, f_cty=.25, f_skip=.15, pattern={"": .25, "mutable": .1, "owned": .4, "immutable": .25}, p_fpat=.12),
     lambda k, s, f: has(k, "new", "clone"), weights={"new": 5, "clone": 5})
prop("P14", dict(err={"gen": .35, "genval": .15, "noval": .15, "custom": .35}, validate=.5, f_default=.25, fallible=.6, hostile=.6, bname=.3, no_std=.2),
     lambda k, s, f: has(k, "errtext", "val.error", "val.result", "build.first", "build.spurious"), weights={"build": 6, "flag": 3})
prop("P15", dict(f_cty=.6, f_build=.3, spell=.7, fallible=.3, nf=[1, 2, 3, 4, 5, 6], sub=.6),
     lambda k, s, f: has(k, "new.custom", "build.bl", "value.custom", "value") or (f is not None and f.bform is not None) or k in ("build.spurious", "build.fallible", "build.missing"),
     relevant=lambda k: has(k, "new", "build.bl", "value", "set.value"))
