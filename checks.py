"""The checks: for each property its level, technique, counting rule, assumptions and harness units."""
PFR0 = "OPTION_USE_PFR=0"
GROUPS = ["scalars", "enums", "views", "library", "library2", "composites", "composites2", "classes", "classes2",
          "classes3", "nested", "nested2", "nested3"]
ORDER = ["nested", "nested2", "scalars", "enums", "classes", "composites", "classes3", "views"]  # slowest first
TG = ["g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8"]


def c01(tier):
    q = tier == "quick"
    us = []
    for g in sorted(GROUPS, key=lambda g: ORDER.index(g) if g in ORDER else 99):
        us.append(dict(name="c01_" + g, src="c01.cpp", defs=[PFR0, "GROUP=" + g], san="ub" if q else True,
                       env={"MC_FULL": "2" if q else "3", "MC_CORE": "3" if q else "4"}, timeout=200))
    us += mix("c01", "ub", 2 if q else 3)
    if not q:
        for g in GROUPS:
            us.append(dict(name="c01_clang20_" + g, src="c01.cpp", defs=["GROUP=" + g], cxx="clang++-18", std="c++20", opt="-O2",
                           san=False, env={"MC_FULL": "2", "MC_CORE": "4"}, timeout=200))
    return us


def mix(pre, san, depth, throwing=False, opt="-O1", **kw):
    """sequences over two options of different payload types"""
    return [dict(name="%s_mix%d" % (pre, k), src="mix.cpp", defs=[PFR0, "PART=%d" % k] + (["TRK_THROWING=true"] if throwing else []),
                 opt=opt, san=san, env={"MC_DEPTH": str(depth)}, timeout=200, **kw) for k in range(7)]


def c02(tier):
    q = tier == "quick"
    us = [dict(name="c02_" + g, src="c02.cpp", defs=[PFR0, "GROUP=" + g], env={"MC_FULL": "2", "MC_CORE": "3" if q else "4"}, timeout=200) for g in TG]
    us += mix("c02", True, 2, opt="-O0")
    if not q:
        us += [dict(name="c02_deep_" + g, src="c02.cpp", defs=[PFR0, "GROUP=" + g], san=False, opt="-O2", env={"MC_FULL": "3", "MC_CORE": "4"}, timeout=200) for g in TG]
        us += mix("c02_deep", False, 3, opt="-O2") + mix("c02_clang", True, 2, opt="-O0", cxx="clang++-18", std="c++20")
    return us


def c03(tier):
    # exceptions are ~100 times slower under the address sanitizer: it runs the short histories, the object registry alone the long ones
    q = tier == "quick"
    deep = {"MC_FULL": "2", "MC_CORE": "3"} if q else {"MC_FULL": "2", "MC_CORE": "4", "MC_PAIRS": "1"}
    us = [dict(name="c03_" + g, src="c03.cpp", defs=[PFR0, "GROUP=" + g], san=False, env=deep, timeout=200) for g in TG]
    us += [dict(name="c03_asan_" + g, src="c03.cpp", defs=[PFR0, "GROUP=" + g], opt="-O0", env={"MC_FULL": "1", "MC_CORE": "1" if q else "2"}, timeout=200) for g in TG]
    us += mix("c03", False, 2 if q else 3, True)
    if not q:
        us += mix("c03_asan", True, 1, True) + mix("c03_clang", False, 2, True, cxx="clang++-18", std="c++20", opt="-O2")
    return us


def functional(pid, parts=1, timeout=120, extra=None, libs=(), defs=()):
    """Harnesses that enumerate a finite configuration space completely; thorough adds compilers, modes and optimisation."""
    src = pid.lower() + ".cpp"

    def units(tier):
        us = []
        for p in range(parts):
            d = [PFR0] + (["PART=%d" % p] if parts > 1 else []) + list(defs)
            n = pid.lower() + ("_p%d" % p if parts > 1 else "")
            us.append(dict(name=n, src=src, defs=d, opt="-O0", timeout=timeout, libs=libs))
            if tier != "quick":
                us.append(dict(name=n + "_gcc20_O2", src=src, defs=d, std="c++20", opt="-O2", san=False, timeout=timeout, libs=libs))
                us.append(dict(name=n + "_clang17_O0", src=src, defs=d, cxx="clang++-18", opt="-O0", timeout=timeout, libs=libs))
                us.append(dict(name=n + "_clang20_O2", src=src, defs=d, cxx="clang++-18", std="c++20", opt="-O2", san=False, timeout=timeout, libs=libs))
                us.append(dict(name=n + "_notraits", src=src, defs=d + ["OPTION_USE_BUILTIN_TRAITS=0"], opt="-O0", timeout=timeout, libs=libs))
        return us + (extra(tier) if extra else [])
    return units


PFR1 = ["OPTION_USE_PFR=1", "OPTION_PFR_FILE=<boost/pfr.hpp>"]
CONFIGS = [("gcc20_O2", dict(std="c++20", opt="-O2")), ("clang17_O0", dict(cxx="clang++-18", opt="-O0")), ("clang20_O2", dict(cxx="clang++-18", std="c++20", opt="-O2"))]


def with_configs(us, tier, **over):
    """thorough: the same units again in other compilers, language modes and optimisation levels"""
    if tier == "quick":
        return us
    out = list(us)
    for u in us:
        for n, c in CONFIGS:
            out.append(dict(u, name=u["name"] + "_" + n, san=False, **dict(c, **over)))
    return out


def c04(tier):
    Q = ["QUIET=1", "OPTION_USE_QUIET_NAN=1"]
    us = [dict(name="c04_other", src="c04.cpp", defs=[PFR0, "PART=2"], opt="-O0", timeout=120)]
    for q, x in (("", []), ("_quiet", Q)):
        us.append(dict(name="c04_float" + q, src="c04.cpp", defs=[PFR0, "PART=0"] + x, opt="-O2", san=False, timeout=150, flags=["-pthread"]))
        us.append(dict(name="c04_double_ptr" + q, src="c04.cpp", defs=[PFR0, "PART=1"] + x, opt="-O2", san=False, timeout=120, flags=["-pthread"]))
    if tier != "quick":
        us.append(dict(name="c04_other_pfr", src="c04.cpp", defs=PFR1 + ["PART=2"], std="c++20", opt="-O0", timeout=120))
        for u in us[:3]:
            us.append(dict(u, name=u["name"] + "_clang20", cxx="clang++-18", std="c++20", san=False))
    return us


def c05(tier):
    us = [dict(name="c05_p%d" % k, src="c05.cpp", defs=[PFR0, "PART=%d" % k], opt="-O0", timeout=120) for k in range(4)]
    if tier != "quick":
        us = [dict(name="c05_deep%d_%d" % (k, d), src="c05.cpp", defs=[PFR0, "PART=%d" % k, "DEPTH=%d" % d], opt="-O0", san=False,
                   flags=["-ftemplate-depth=8000"], timeout=120) for k, d in ((4, 258), (5, 60), (6, 60), (7, 60), (8, 60), (9, 60))] + with_configs(us, tier)
    return us


def c06(tier):
    us = [dict(name="c06_p6_pfr", src="c06.cpp", defs=PFR1 + ["PART=6"], opt="-O0", san=False, timeout=120)]
    us.append(dict(name="c06_p9_pfr", src="c06.cpp", defs=PFR1 + ["PART=9"], opt="-O0", san=False, timeout=120))
    us += [dict(name="c06_p%d" % k, src="c06.cpp", defs=[PFR0, "PART=%d" % k], opt="-O0", san=3 <= k < 6, timeout=120) for k in (0, 1, 2, 3, 4, 5, 7, 8, 10)]
    return with_configs(us, tier)


def c07(tier):
    us = [dict(name="c07_p%d" % k, src="c07.cpp", defs=[PFR0, "PART=%d" % k], opt="-O0", san=False, flags=["-ftemplate-depth=2000"], timeout=120) for k in range(8)]
    return with_configs(us, tier)


def c17(tier):
    q = tier == "quick"
    us = []
    for cxx, lim in (("g++-13", "-fconstexpr-ops-limit=2000000000"), ("clang++-18", "-fconstexpr-steps=2000000000")):
        n = cxx[0]
        for k in range(11):
            d = ["PART=%d" % k, PFR0] + (["OPTION_USE_BUILTIN_TRAITS=0"] if k >= 9 else [])
            deep = 2 if q and n == "g" or not q else 1
            us.append(dict(name="c17_%s20_p%d" % (n, k), src="c17.cpp", defs=d + ["DEPTH=%d" % deep], std="c++20", cxx=cxx, opt="-O0", san=False, flags=[lim, "-ftemplate-depth=2000"], timeout=120))
            if k not in (7, 8):
                us.append(dict(name="c17_%s17_p%d" % (n, k), src="c17.cpp", defs=d + ["DEPTH=1"], std="c++17", cxx=cxx, opt="-O0" if q else "-O2", san=False, flags=[lim], timeout=120))
            if not q:
                us.append(dict(name="c17_%s20_O2_p%d" % (n, k), src="c17.cpp", defs=d + ["DEPTH=2"], std="c++20", cxx=cxx, opt="-O2", san=False, flags=[lim], timeout=120))
                if n == "g":
                    us.append(dict(name="c17_deep_p%d" % k, src="c17.cpp", defs=d + ["DEPTH=3"], std="c++20", cxx=cxx, opt="-O1", san=False, flags=["-fconstexpr-ops-limit=8000000000000", "-fconstexpr-loop-limit=1000000"], timeout=120))
    return us


def c19(tier):
    q = tier == "quick"
    us = [dict(name="c19_p%d" % k, src="c19.cpp", defs=[PFR0, "PART=%d" % k], san="ub", env={"MC_FULL": "2", "MC_CORE": "2"}, timeout=300) for k in range(8)]
    us += [dict(name="c19b_p%d" % k, src="c19b.cpp", defs=[PFR0, "PART=%d" % k], opt="-O0", timeout=120) for k in range(3)]
    deep = [] if q else [dict(u, name=u["name"] + "_deep", env={"MC_FULL": "3", "MC_CORE": "3"}) for u in us[:8]]
    return with_configs(us, tier) + deep


def c22(tier):
    us = [dict(name="c22_p%d" % k, src="c22.cpp", defs=[PFR0, "PART=%d" % k], opt="-O0", san=False, timeout=120) for k in range(5)]
    # silence: the operation histories of other properties, judged only by what OPTION_VERIFY reports
    us += [dict(name="c22_silent_" + g, src="c01.cpp", defs=[PFR0, "GROUP=" + g, "MC_ONLY_VERIFY"], opt="-O0", san=False, env={"MC_FULL": "1", "MC_CORE": "2"}, timeout=120)
           for g in (("scalars", "library", "composites", "nested") if tier == "quick" else GROUPS)]
    us += [dict(name="c22_silent_" + n, src=n[:3] + ".cpp", defs=[PFR0, "PART=" + n[4:], "MC_ONLY_VERIFY"], opt="-O0", san=False, timeout=120) for n in ("c09_0", "c11_0", "c10_0", "c15_0", "c12_0")]
    return with_configs(us[:5], tier, **({} if tier == "quick" else {"opt": "-O0"})) + us[5:]


def c23(tier):
    q = tier == "quick"
    us = [dict(name="c23_p%d" % k, src="c23.cpp", defs=[PFR0, "PART=%d" % k], opt="-O1", san=False, env={"MC_DEPTH": "4" if not q or k not in (5, 6) else "3"}, timeout=300) for k in range(10)]
    us += [dict(name="c23_asan_p%d" % k, src="c23.cpp", defs=[PFR0, "PART=%d" % k], opt="-O0", env={"MC_DEPTH": "2"}, timeout=300) for k in range(8)]
    if not q:
        us += [dict(us[k], name="c23_deep_p%d" % k, opt="-O2", env={"MC_DEPTH": "5"}, timeout=800) for k in (0, 1, 2, 3, 4, 7)]
        us += [dict(us[k], name="c23_clang20_p%d" % k, opt="-O2", cxx="clang++-18", std="c++20", env={"MC_DEPTH": "3"}) for k in range(10)]
    return us


# C21: configurations of one program
NOVER = ["MC_DEFAULT_VERIFY"]
CFG = {
    "base": dict(defs=[PFR0]),
    "gcc20_ndebug_O2": dict(std="c++20", opt="-O2", defs=[PFR0, "NDEBUG"] + NOVER),
    "gcc17_ndebug_O3": dict(opt="-O3", defs=[PFR0, "NDEBUG", "OPTION_FORWARD_DECLARE_STD=0"] + NOVER),
    "gcc23_debug": dict(std="c++23", defs=[PFR0] + NOVER),
    "clang17": dict(cxx="clang++-18", defs=[PFR0]),
    "clang20_ndebug_O2": dict(cxx="clang++-18", std="c++20", opt="-O2", defs=[PFR0, "NDEBUG"] + NOVER),
    "clang17_consumed": dict(cxx="clang++-18", defs=[PFR0, "OPTION_CONSUMED_ANNOTATION_CHECKING=1", "OPTION_FORWARD_DECLARE_STD=0"]),
    "gcc17_notraits": dict(defs=[PFR0, "OPTION_USE_BUILTIN_TRAITS=0"]),
    "clang20_notraits": dict(cxx="clang++-18", std="c++20", defs=[PFR0, "OPTION_USE_BUILTIN_TRAITS=0"]),
    "gcc20_quiet_nan": dict(std="c++20", defs=[PFR0, "OPTION_USE_QUIET_NAN=1"]),
    "gcc17_pfr": dict(defs=PFR1),
    "clang20_pfr_auto": dict(cxx="clang++-18", std="c++20", defs=[]),
    "gcc17_noexcept": dict(defs=[PFR0], flags=["-fno-exceptions", "-fno-rtti", "-funsigned-char"]),
    "clang20_noexcept": dict(cxx="clang++-18", std="c++20", defs=[PFR0], flags=["-fno-exceptions", "-fno-rtti"]),
    "gcc20_fast_math": dict(std="c++20", opt="-O1", defs=[PFR0, "NDEBUG"] + NOVER, flags=["-ffast-math"]),
    "clang17_fast_math": dict(cxx="clang++-18", opt="-Ofast", defs=[PFR0, "NDEBUG"] + NOVER),
    "clang17_quiet_nan_pfr_file": dict(cxx="clang++-18", defs=["OPTION_USE_QUIET_NAN=1", "OPTION_PFR_FILE=<boost/pfr.hpp>"]),
}
LAYOUT = {"gcc17_notraits": "n", "clang20_notraits": "n", "gcc20_quiet_nan": "q", "gcc17_pfr": "p", "clang20_pfr_auto": "p", "clang17_quiet_nan_pfr_file": "qp"}


SHAPES = {0: "", 4: "", 1: "aggregate with an array member under boost.pfr", 2: "aggregate with a bit-field under boost.pfr", 3: "aggregate with an anonymous union under boost.pfr"}


# the harnesses of other properties in this configuration: thorough runs all of them in all configurations
OTHERS = (("c08", 0), ("c09", 8), ("c10", 3), ("c11", 4), ("c12", 2), ("c14", 3), ("c15", 5), ("c16b", 0), ("c19", 8), ("c20", 3))
SOME = {"gcc20_ndebug_O2": (("c15", 0), ("c08", 0)), "clang20_ndebug_O2": (("c09", 0),), "gcc23_debug": (("c14", 0), ("c10", 1)), "clang17": (("c10", 0),), "gcc17_notraits": (("c11", 0),),
        "clang20_notraits": (("c12", 0),), "gcc17_pfr": (("c16b", 0),), "clang17_consumed": (("c20", 0),)}


def c21(tier):
    q = tier == "quick"
    us = []
    for c, d in CFG.items():
        if q and c in ("gcc17_ndebug_O3", "clang17_fast_math"):
            continue
        for k in range(1 if q and "fast" in c else 4):
            us.append(dict(dict(name="c21_p%d@%s" % (k, c), src="c21.cpp", opt="-O0", san=False, env={"MC_FULL": "2"}, timeout=120), **dict(d, defs=d["defs"] + ["PART=%d" % k])))
        if c in ("base", "gcc17_pfr", "clang20_pfr_auto") or not q:
            for k, what in SHAPES.items():
                if k == 0 or k == 4 or c in ("base", "gcc17_pfr") or not q:
                    us.append(dict(dict(name="c21p_s%d@%s" % (k, c), src="c21p.cpp", opt="-O0", san=False, timeout=120, subject=what if c in LAYOUT and "p" in LAYOUT[c] else ""), **dict(d, defs=d["defs"] + ["SHAPE=%d" % k])))
        for n, parts in OTHERS if "noexcept" not in c else ():   # they throw
            for k in range(max(parts, 1)):
                if not q or (n, k) in SOME.get(c, ()):
                    us.append(dict(dict(name=n + ("_p%d" % k if parts else "") + "@" + c, src=n + ".cpp", opt="-O0", san=False, env={"MC_FULL": "1", "MC_CORE": "1"}, timeout=200),
                                   **dict(d, defs=d["defs"] + (["PART=%d" % k] if parts else []))))
        us.append(dict(dict(name="c21_interface@" + c, src="c21i.cpp", more=["c21i2.cpp"], opt="-O0", san=False, timeout=60), **d))
    return us


def c21_post(results):
    """every digest that differs from the one of the base configuration"""
    out = []
    for n, r in results.items():
        part, _, cfg = n.partition("@")
        if not cfg or cfg == "base":
            continue
        for sec, dig in r["digests"].items():
            group = LAYOUT.get(cfg, "") if sec.endswith("/ layout") else ""
            same = [c for c in CFG if (LAYOUT.get(c, "") if sec.endswith("/ layout") else "") == group and part + "@" + c in results]
            ref = results[part + "@" + same[0]]["digests"].get(sec)
            if ref is not None and ref != dig:
                out.append((n, "%s: observations differ between configurations" % sec, "configuration %s observes something else than %s" % (cfg, same[0])))
    return out


def c18(tier):
    w = [] if tier == "quick" else ["WIDE"]
    return with_configs([dict(name="c18_p%d" % k, src="c18.cpp", defs=[PFR0, "PART=%d" % k] + w, opt="-O0", san=k >= 7, flags=["-pthread"], timeout=120) for k in range(9)], tier)


def c16(tier):
    us = [dict(name="c16_p%d" % k, src="c16.cpp", defs=[PFR0, "PARTS=16", "PART=%d" % k], opt="-O0", san=False, timeout=180) for k in range(16)]
    us += [dict(name="c16c_p%d" % k, src="c16c.cpp", defs=[PFR0, "PARTS=4", "PART=%d" % k], opt="-O0", san=False, timeout=180) for k in range(4)]
    us.append(dict(name="c16b", src="c16b.cpp", defs=[PFR0], opt="-O0", timeout=120))
    return with_configs(us, tier)


def c24(tier):
    # the algorithms are the standard library's: it is the library's checks as compiler assumptions (NDEBUG) and the language modes that matter
    us = []
    for n, d in (("_clang20", dict(cxx="clang++-18", std="c++20")), ("", {}), ("_gcc20", dict(std="c++20", san=False))):
        us += [dict(dict(name="c24_p%d%s" % (k, n), src="c24.cpp", defs=[PFR0, "PART=%d" % k], opt="-O0", timeout=200), **d) for k in range(3)]
    us.insert(0, dict(name="c24_p0_ndebug", src="c24.cpp", defs=[PFR0, "PART=0", "NDEBUG"] + NOVER, opt="-O2", san=False, timeout=200))
    if tier != "quick":
        for k in range(3):
            us += [dict(name="c24_p%d_%s" % (k, n), src="c24.cpp", defs=[PFR0, "PART=%d" % k] + x, timeout=200, **d)
                   for n, x, d in (("gcc23_O2", [], dict(std="c++23", opt="-O2", san=False)), ("clang17_O2", [], dict(cxx="clang++-18", opt="-O2", san=False)), ("gcc20_ndebug", ["NDEBUG"] + NOVER, dict(std="c++20", opt="-O2", san="ub")))]
    return us


def c25(tier):
    # the monitor is the processor's memory protection; a sanitizer would only get in its way
    us = [dict(name="c25_" + g, src="c25.cpp", defs=[PFR0, "GROUP=" + g], opt="-O1", san=False, timeout=120) for g in sorted(GROUPS, key=lambda g: ORDER.index(g) if g in ORDER else 99)]
    return with_configs(us, tier)


LINKS = ["kB", "kQ", "kS", "kP", "kT", "kO", "kV", "kW", "kU"]


def c26(tier):
    q = tier == "quick"
    us = [dict(name="c26_asan_" + k, src="c26.cpp", defs=[PFR0, "KIND=" + k], opt="-O1", env={"MC_NODES": "1" if q else "2", "MC_DEPTH": "2"}, timeout=200) for k in LINKS]
    us += [dict(name="c26_" + k, src="c26.cpp", defs=[PFR0, "KIND=" + k], opt="-O1", san=False, env={"MC_NODES": "3", "MC_DEPTH": "2"}, timeout=200) for k in LINKS]
    if not q:
        us += [dict(name="c26_deep_" + k, src="c26.cpp", defs=[PFR0, "KIND=" + k], opt="-O2", san=False, env={"MC_NODES": "1", "MC_DEPTH": "3"}, timeout=800) for k in LINKS]
        us += [dict(name="c26_clang20_" + k, src="c26.cpp", defs=[PFR0, "KIND=" + k], cxx="clang++-18", std="c++20", opt="-O1", san=False, env={"MC_NODES": "3", "MC_DEPTH": "2"}, timeout=200) for k in LINKS]
    return us


SEQ = ("explicit-state exploration of all operation sequences up to a depth on the real code, in lockstep with a reference model")
ENUM = ("exhaustive enumeration of a bounded configuration space (operation x value category x engagement x payload) on the real code against a reference model")
RULE_SEQ = ("states = distinct model states (pair of option models) visited per payload type; transitions = operations run on the real objects; "
            "traces = complete operation sequences from an initial state to destruction, each step compared with the model")
RULE_ENUM = ("states = configurations enumerated (operation group x payload kind x value category x engagement x variant); transitions = library "
             "operations run in them; traces = scenarios executed on the real code and compared with the reference model to their end")

CHECKS = {
    "C01": dict(level="model_checking", technique=SEQ, units=c01, rule=RULE_SEQ,
                assumptions=["payload operations do not throw (C03 covers throwing ones)"]),
    "C02": dict(level="model_checking", technique=SEQ + "; live-object registry and address sanitizer as monitors", units=c02, rule=RULE_SEQ,
                assumptions=["payload operations do not throw (C03 covers throwing ones)"]),
    "C03": dict(level="fault_enumeration", technique="exhaustive enumeration of throw points of every operation over all short histories on the real code, against a reference model", units=c03,
                rule="evaluations = operations run; distinct_nontrivial = complete histories with at least one injected throw, one per (history, throw point)",
                assumptions=["destructors, swap-by-move of nothrow payloads and trait functions do not throw"]),
    "C04": dict(level="model_checking", technique="exhaustive enumeration of payload values (all 2^32 floats, all one/two-field variations of doubles and pointers, all values of small types) on the real code", units=c04,
                rule="states = payload values (times nesting depth) enumerated; transitions = options built from them and read back; traces = values carried through every way into an option"),
    "C05": dict(level="model_checking", technique="explicit-state exploration of all states and state changes of nested options on the real code against a reference model (a number: the depth of emptiness)", units=c05,
                rule="states = (type, depth-of-emptiness) states visited and traits levels enumerated; transitions = operations from each state; traces = state change sequences compared with the model"),
    "C06": dict(level="model_checking", technique="exhaustive enumeration of all composite payload types generated by a bounded grammar, and of all their states, on the real code against the documented size and level rules", units=c06,
                rule="states = types of the grammar and (type, component value) states enumerated; transitions = library operations; traces = scenarios compared with the rule to their end"),
    "C07": dict(level="model_checking", technique="exhaustive enumeration of all 1600 combinations of special members x engagement x value category on the real code against a reference model", units=c07,
                rule=RULE_ENUM),
    "C08": dict(level="model_checking", technique=ENUM, units=functional("C08"), rule=RULE_ENUM),
    "C09": dict(level="model_checking", technique=ENUM, units=functional("C09", 8), rule=RULE_ENUM),
    "C10": dict(level="model_checking", technique=ENUM, units=functional("C10", 3), rule=RULE_ENUM),
    "C11": dict(level="model_checking", technique=ENUM, units=functional("C11", 4), rule=RULE_ENUM),
    "C12": dict(level="model_checking", technique=ENUM, units=functional("C12", 2), rule=RULE_ENUM),
    "C13": dict(level="model_checking", technique=ENUM, units=functional("C13"), rule=RULE_ENUM),
    "C14": dict(level="model_checking", technique=SEQ + " (all states, all operation sequences)", units=functional("C14", 3), rule=RULE_SEQ),
    "C15": dict(level="model_checking", technique=ENUM, units=functional("C15", 5), rule=RULE_ENUM),
    "C16": dict(level="model_checking", technique=ENUM + " (a reference optional following std::optional's rules)", units=c16, rule=RULE_ENUM),
    "C17": dict(level="model_checking", technique="explicit-state exploration of all operation sequences up to a depth, run both by the compiler's constant evaluator and on the machine, in lockstep with a reference model", units=c17,
                rule="states = (payload, initial pair of states, sequence prefix) enumerated; transitions = operations run; traces = operation sequences whose constant evaluation, execution and model were compared"),
    "C18": dict(level="model_checking", technique="exhaustive enumeration of all 1600 combinations of special members (and 27 of move and swap), alone and in composites, evaluated on the real code against the rule", units=c18,
                rule="states = (payload class, wrapper) pairs enumerated; transitions = properties of the option evaluated and operations run; traces = classes compared with the rule to their end"),
    "C19": dict(level="model_checking", technique=SEQ + "; user-provided traits record every call and judge it against the protocol", units=c19,
                rule=RULE_SEQ + "; for the wrappers, states = (value, depth of emptiness) states enumerated"),
    "C22": dict(level="model_checking", technique="exhaustive enumeration of every accessor, storing operation and iterator operation x state x payload kind x nesting depth on the real code; reports intercepted, or observed in a child process", units=c22,
                rule="states = (payload kind, state, operation) enumerated; transitions = operations run; traces = operations whose report, or silence, was compared with the rule"),
    "C20": dict(level="model_checking", technique=ENUM + "; for reading, every text up to a length over an alphabet; oracle: the same stream given the value, the alternative or nothing", units=functional("C20", 3),
                rule="states = (payload kind, engagement, stream state, text) enumerated; transitions = insertions and extractions; traces = insertions and extractions whose whole effect on the stream and the arguments was compared with the oracle"),
    "C21": dict(level="model_checking", technique=SEQ + "; every sequence and every table run in each configuration, observations compared by digest", units=c21, post=c21_post, rule=RULE_SEQ),
    "C23": dict(level="model_checking", technique=SEQ + " (standard containers of options against containers of numbers); every sequence of elements up to a length for the algorithms", units=c23, rule=RULE_SEQ),
    "C24": dict(level="model_checking", technique="exhaustive enumeration of every standard algorithm and range facility x engagement x value x iterator kind on the real code against the same call on a deque of at most one element", units=c24,
                rule="states = (payload kind, engagement, value) combinations enumerated; transitions = algorithm calls; traces = calls whose results and effects were compared with those on the reference container"),
    "C25": dict(level="model_checking", technique="exhaustive enumeration of operation x state x state x payload kind x placement on the real code; the memory accesses of each are bounded by page protection, and every pair of operations whose access sets are disjoint or read-only commutes", units=c25,
                rule="states = (payload kind, state, state, placement) combinations enumerated; transitions = operations run under page protection; traces = operations whose accesses stayed within the permitted set and whose result was compared with the model"),
    "C26": dict(level="model_checking", technique=SEQ + " (an explicit graph); operations between a link and the links above or below it included", units=c26,
                rule="states = initial pairs of trees enumerated; transitions = operations on the real links; traces = distinct sequences of operations, after each of which the whole structure and the number of live nodes were compared with the graph"),
}
