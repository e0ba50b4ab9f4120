"""The check of every property: which engines run, how much, and what they decide."""
import os, re
import common, engine, kinds, props, surface, macrocheck, forward, meta, tokens, envs, exprs, generic, memory

RULE_A = ("random struct definitions (options x names x types x generics) compiled with the derive, random operation histories run on the generated builders; "
          "an evaluation is one comparison of an observed effect with the model, distinct ones differ in (rule, field configuration, state before)")


def trace_check(res, tier, seed, prop=None, scale=1.0, **kw):
    d = props.P[prop or res.prop]
    chunks, per, hist = (16, 36, 30) if tier == "quick" else (160, 40, 60)
    chunks = max(8, int(chunks * scale))
    res.rule = (res.rule + "; " if res.rule else "") + RULE_A
    res.assumptions += ["rustc 1.88.0 compiles the expansion faithfully", "the model in lib/trace.py states the documentation"]
    errs = engine.explore(res, os.path.join(common.BUILD, "w-" + res.prop + kw.pop("tag", "")), d["profile"], chunks, per, hist, d["accept"], seed,
                          hist_weights=d["weights"], relevant=d["relevant"], **kw)
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:3000])


RULE_B = ("random definitions compiled into a library; probes run at six vantage points (same, child, parent, sibling module, crate root, other crate) and report "
          "whether the generated item or a planted fallback was reached; an evaluation is one probe, distinct ones differ in vantage point, expectation and option configuration")


def surface_check(res, tier, seed, accept, profile, scale=1.0):
    chunks, per = (16, 40) if tier == "quick" else (160, 40)
    res.rule = (res.rule + "; " if res.rule else "") + RULE_B
    res.assumptions += ["rustc 1.88.0 resolves names and enforces privacy correctly"]
    errs = surface.explore(res, os.path.join(common.BUILD, "s-" + res.prop), profile, max(8, int(chunks * scale)), per, accept, seed)
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:3000])


NAMING = dict(s_prefix=.35, f_prefix=.25, f_name=.25, s_skip=.3, f_skip=.2, f_custom=.15, s_try=.3, f_try=.25, f_each=.2, bname=.3, bfname=.3, bfskip=.12,
              setter_word=.2, hostile=.4, p_generic=.1, vis=.1, f_into=.15, f_strip=.1, off=.4, nf=[2, 3, 4, 5, 6])
PRIVACY = re.compile("private|inaccessible|not accessible|E0603|E0616|E0624|E0446|E0451")


RULE_T = "and the items of further expansions are read one by one: every generated type, field and method with its visibility"


def kinds_check(res, tier, seed, only):
    trace_check(res, tier, seed)
    res.rule += "; and fields of every syntactic kind of type, set and compared with the value as plain code"
    kinds.explore(res, tier, seed, os.path.join(common.BUILD, "k-" + res.prop), only)


def p05(res, tier, seed):
    trace_check(res, tier, seed)
    prof = props.P["P05"]["profile"]
    res.rule += "; and histories repeated under memcheck, which watches every allocation; and expansions searched for unsafe code"
    errs = memory.explore(res, tier, seed, os.path.join(common.BUILD, "v-P05"), prof)
    errs += memory.unsafety(res, tier, seed, os.path.join(common.BUILD, "u-P05"), prof)
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:3000])


def p10(res, tier, seed):
    surface_check(res, tier, seed, lambda k, m: k.startswith("presence.") or k in ("compile", "crash", "vis.method") and "private" not in m, NAMING)
    res.rule += "; " + RULE_T
    errs = tokens.explore(res, tier, seed, lambda k: k.startswith("presence."), dict(NAMING, vis=.2, off=.6, f_custom=.25))
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:3000])


def p11(res, tier, seed):
    prof = dict(vis=.55, p_generic=.12, bfskip=.05, s_skip=.1, f_skip=.15, s_try=.2, f_try=.2, f_each=.2, bname=.2, bfname=.15)
    surface_check(res, tier, seed, lambda k, m: k.startswith("vis.") or k == "crash" or k == "compile" and bool(PRIVACY.search(m)), prof)
    res.rule += "; " + RULE_T
    errs = tokens.explore(res, tier, seed, lambda k: k.startswith("vis."), dict(prof, f_each=.3, err={"gen": .5, "genval": .2, "noval": .2, "custom": .1}))
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:3000])


def p12(res, tier, seed):
    trace_check(res, tier, seed)
    res.rule += ("; and definitions over kinds of generics rarely written (unsized, closures, higher-ranked, iterators and their items, bounds between parameters, const parameters of several types, lifetimes), "
                 "each run with several instantiations against a struct literal and its builder's type mentioned with arguments that satisfy the bounds or do not")
    errs = generic.explore(res, tier, seed, os.path.join(common.BUILD, "g-P12"))
    if errs and not res.violations: raise common.HarnessError("; ".join(errs)[:3000])


def p13(res, tier, seed):
    trace_check(res, tier, seed, scale=.6)
    surface_check(res, tier, seed, lambda k, m: k in ("trait.builder", "compile", "crash"), dict(derives=.7, cctor=.3, cempty=.35, f_cty=.15, p_generic=.3, p_fpat=.15, vis=.1,
                  pattern={"": .25, "mutable": .1, "owned": .45, "immutable": .2}), .6)


def p14(res, tier, seed):
    trace_check(res, tier, seed, scale=.7)
    surface_check(res, tier, seed, lambda k, m: k in ("trait.error", "compile", "crash"), dict(err={"gen": .4, "genval": .2, "noval": .3, "custom": .1}, bname=.3, no_std=.3, vis=.2, p_generic=.2), .5)


def p17(res, tier, seed):
    res.rule = ("items with random, mutated and shape-based builder attributes expanded by the real macro under a panic monitor, and a sample of the rejected ones by rustc; an evaluation is one "
                "expansion, distinct ones differ in outcome, kind of input and the error messages or generated item counts")
    res.assumptions += ["proc_macro2's fallback behaves like the compiler's proc_macro (sampled through rustc)"]
    macrocheck.p17(res, tier, seed, os.path.join(common.BUILD, "m-P17"))


def p18(res, tier, seed):
    res.rule = ("mistakes from a catalogue put on random definitions, alone and together, and random definitions using documented options only; an evaluation is one verdict on an expansion, distinct "
                "ones differ in the mistake and its place, the set of mistakes combined, or the size class of the valid definition")
    res.assumptions += ["the catalogue in lib/mistakes.py lists documented mistakes only", "the generators write only documented options in allowed combinations"]
    macrocheck.p18(res, tier, seed, os.path.join(common.BUILD, "m-P18"))


def p19(res, tier, seed):
    res.rule = ("definitions (valid, mutated, hostile, and relatives sharing their names) expanded alone in fresh processes and again in other orders, threads, repetitions, environments and under an interposed libc, and by rustc; "
                "an evaluation is one comparison of two expansions, distinct ones differ in the definition and in what was varied")
    res.assumptions += ["comparison is on the tokens' text and the messages of compile errors"]
    macrocheck.p19(res, tier, seed, os.path.join(common.BUILD, "m-P19"))


def p20(res, tier, seed):
    res.rule = ("random definitions with uniquely marked attributes in every place, expanded by the real macro; an evaluation is one generated item whose ordered list of user attributes is compared with the expected one, "
                "distinct ones differ in the kind of item and the kinds of attributes expected on it")
    res.assumptions += ["the input and output are read by the same parser (syn)"]
    forward.p20(res, tier, seed, os.path.join(common.BUILD, "m-P20"))


def p16(res, tier, seed):
    res.rule = ("pairs of random definitions that mean the same (respelled, struct options pushed to fields or lifted, documented defaults written out); an evaluation is one pair with identical expansions, one pair of event logs of the same history, "
                "one pair of probed surfaces, or one expression compared with its value as plain code; distinct ones differ in the rewriting, the number of fields, the pattern and the struct options before and after")
    res.assumptions += ["identical expansions behave identically", "rustc 1.88.0 compiles the expansion faithfully"]
    meta.p16(res, tier, seed, os.path.join(common.BUILD, "m-P16"))
    exprs.explore(res, tier, seed, os.path.join(common.BUILD, "x-P16"))


def p21(res, tier, seed):
    res.rule = ("random definitions and histories run twice, plainly and in hostile surroundings (crate renamed, behind a facade, no_std; in functions, nested modules and macros; shadowed names, methods of blanket traits and inherent methods in the way, other generic names); "
                "an evaluation is one pair of event logs of the same history, distinct ones differ in the surroundings, the pattern, generics and the number of fields")
    res.assumptions += ["rustc 1.88.0 resolves names correctly", "the same definition compiled plainly behaves as the other properties' checks decide"]
    envs.p21(res, tier, seed, os.path.join(common.BUILD, "e-P21"))


def p22(res, tier, seed):
    res.rule = ("random definitions compiled in several editions and feature sets of the crate, the logs of the same histories compared, and documented definitions compiled with the default lints and more, reading every warning located in the "
                "definition; an evaluation is one pair of event logs or one definition without warnings, distinct ones differ in configuration, pattern, generics, number of fields and struct options")
    res.assumptions += ["rustc 1.88.0's lints report what they say"]
    envs.p22(res, tier, seed, os.path.join(common.BUILD, "e-P22"))


def run(prop, res, tier, seed):
    CHECKS.get(prop, trace_check)(res, tier, seed)


CHECKS = {"P01": lambda *a: kinds_check(*a, "a"), "P07": lambda *a: kinds_check(*a, "bc"), "P09": lambda *a: kinds_check(*a, "e"), "P15": lambda *a: kinds_check(*a, "h"), "P05": p05, "P12": p12, "P10": p10, "P11": p11, "P13": p13, "P14": p14, "P16": p16, "P17": p17, "P18": p18, "P19": p19, "P20": p20, "P21": p21, "P22": p22}
