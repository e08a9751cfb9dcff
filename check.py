#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's current working tree
   check.py --replay FILE  repeat a recorded violation
   check.py --setup        build everything once
Tier and seed come from VERIF_TIER (quick, thorough) and VERIF_SEED.
Exit 0: held on everything explored. 1: VIOLATION. 2: the machinery itself failed."""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
TARGET = os.path.join(WORK, "target")
REPLAYS = os.path.join(HERE, "replays")
sys.path.insert(0, HERE)

# property -> engines, in the order they run
PLAN = {
    "C01": ["native", "checked", "machine"],
    "C02": ["native", "machine"],
    "C03": ["native"],
    "C04": ["native", "checked", "machine"],
    "C05": ["native", "checked", "machine"],
    "C06": ["native", "checked", "machine"],
    "C07": ["native", "gen"],
    "C08": ["gen", "native"],
    "C09": ["gen"],
    "C10": ["native", "gen", "checked"],
    "C11": ["native", "checked"],
    "C12": ["native", "checked", "machine"],
    "C13": ["gen"],
    "C14": ["gen"],
    "C15": ["gen"],
    "C16": ["expand"],
    "C17": ["native", "gen", "checked"],
    "C18": ["author"],
    "C19": ["gen", "bare"],
    "C20": ["gen"],
}
BUDGET = {"quick": 240, "thorough": 3000}

REAL = {
    "native": "real: laby, laby_common (Buffer, escape with all four paths, every Render impl, iterator/raw/format "
    "helpers), raw-cpuid, itoap, ryu, the macros' output, machine code as compiled by rustc. stub: the global "
    "allocator (simulated arena), the allocation-error handler, CPUID/XGETBV answers, the thread scheduler, user "
    "callbacks (instrumented values)",
}


def env():
    e = dict(os.environ)
    e.update(RUSTC_BOOTSTRAP="simrt", CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "LD_PRELOAD"):
        e.pop(k, None)
    return e


class Trouble(Exception):
    pass


def cargo(crate, profile):
    r = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--profile", profile],
        cwd=os.path.join(HERE, crate), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Trouble("build of %s (%s) failed:\n%s" % (crate, profile, r.stdout[-6000:]))


def native(prop, tier, seed, profile, left):
    cargo("native", profile)
    out = os.path.join(WORK, "out-%s-%s.json" % (prop, profile))
    rdir = os.path.join(REPLAYS, profile)
    os.makedirs(rdir, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(TARGET, profile, "native"), prop, "--seed", str(seed), "--tier", tier, "--out", out,
           "--replay-dir", rdir, "--budget", str(int(left))]
    if profile == "checked":
        # the same engine with the library's own assertions on, on other seeds
        cmd[3] = str(seed + 1000003)
    for attempt in range(2):
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 3:
            break
        cmd += ["--timeout", "240"]
    if r.returncode not in (0, 1, 3) or not os.path.exists(out):
        raise Trouble("native engine: exit %d\n%s" % (r.returncode, r.stderr[-4000:]))
    d = json.load(open(out))
    v = d.pop("violation")
    res = {
        "evaluations": d["evaluations"], "distinct": d["distinct"], "states": d["states"],
        "search_s": d["search_s"], "samples": d["samples"], "faults": d["counts"],
        "detail": {k: d[k] for k in ("seed", "epochs", "workers", "digest", "repeat_identical", "sample_epochs",
                                     "cut_short", "foreign", "host")},
        "real_and_stub": REAL["native"], "violations": [],
    }
    if v:
        with open(v["replay"], "a") as f:
            f.write("# engine %s\n" % profile)
        res["violations"].append(v)
    return res


def known(prop):
    """Entries `known: property=<id> class=<class> match=<regex> <what fails>`; `fixed:` lines suppress nothing."""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) class=(\S+) match=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            res.append(m.groups()[1:])
    return res


def check(prop, tier, seed):
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    engines = PLAN[prop]
    parts = {}
    budget = BUDGET[tier]
    for e in engines:
        if e in ("native", "checked"):
            parts[e] = native(prop, tier, seed, {"native": "release"}.get(e, e), budget / len(engines) + 20)
        elif e == "expand":
            import expand
            parts[e] = expand.run(e, prop, tier, seed, budget)
        elif e == "author":
            import author
            parts[e] = author.run(e, prop, tier, seed, budget)
        elif e == "machine":
            import mir
            parts[e] = mir.run(e, prop, tier, seed, budget / len(engines) + 20)
        elif e == "bare":
            import bare
            parts[e] = bare.run(e, prop, tier, seed, budget / len(engines) + 20)
        else:
            import gen
            parts[e] = gen.run(e, prop, tier, seed, budget / len(engines) + 20)
        if parts[e]["violations"]:
            break
    rule = RULES.get(prop, "") or "see DESIGN.md"
    ev = sum(p["evaluations"] for p in parts.values())
    sec = sum(p["search_s"] for p in parts.values())
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": sum(p["distinct"] for p in parts.values()),
        "rule": rule,
        "samples": [s for p in parts.values() for s in p["samples"]][:8],
        "seeds_per_hour": int(ev / sec * 3600) if sec else 0,
        "search_seconds": round(sec, 3),
        "simulated_time": "laby reads no clock; simulated time is counted in machine instructions stepped and in "
                          "entries into user code, see faults_injected",
        "distinct_states": {k: p["states"] for k, p in parts.items()},
        "faults_injected": {k: {n: c for n, c in p["faults"].items() if c} for k, p in parts.items()},
        "components": {k: p["real_and_stub"] for k, p in parts.items()},
        "engines": {k: p["detail"] for k, p in parts.items()},
    }
    viol = [v for p in parts.values() for v in p["violations"]]
    fresh, old = [], []
    for v in viol:
        for cls, rx, what in known(prop):
            if cls == v["class"] and re.search(rx, v["msg"]):
                old.append(what)
                break
        else:
            fresh.append(v)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)},
              open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for w in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for v in fresh:
        print("%s: %s" % (v["class"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if not fresh:
        print("%s held on %d simulated runs (%d distinct, %.0f s)" % (prop, ev, cov["distinct_nontrivial"], time.time() - t0))
    return 1 if fresh else 0


def replay(path):
    text = open(path).read()
    if text.startswith("laby-gen-replay"):
        import gen
        return gen.replay(path)
    if text.startswith("laby-probe-replay"):
        import gen
        return gen.replay_probe(path)
    if text.startswith("laby-expand-replay"):
        import expand
        return expand.replay(path)
    if text.startswith("laby-author-replay"):
        import author
        return author.replay(path)
    if text.startswith("laby-mir-replay"):
        import mir
        return mir.replay(path)
    if text.startswith("laby-bare-replay"):
        import bare
        return bare.replay(path)
    profile = "checked" if "# engine checked" in text else "release"
    cargo("native", profile)
    return subprocess.run([os.path.join(TARGET, profile, "native"), "--replay", path], env=env()).returncode


ASSUME = [
    "the simulated allocator, CPU, scheduler and callbacks behave within what the GlobalAlloc, x86-64 and trait "
    "contracts allow; only behaviour inside those contracts is injected",
    "sampled by seeded search: absence of a violation is evidence for the runs made, not a proof",
]
NAT = ("A case is drawn from the seed: a machine, an allocator behaviour, a tree of renderable values or a history of "
       "buffer operations, faults (panics at entries into user code, refused allocations) and, for threads, a schedule. "
       "It is distinct if its hash was not seen before in the run and non-trivial by construction: it performs at least "
       "one operation on the library whose effect is compared with the reference interpreter. ")
GEN = ("A template program is drawn from the seed and compiled with the real macros; a case is drawn for it: values for "
       "its holes, an allocator behaviour, how often and how it is rendered or abandoned, and panics at entries into "
       "user code. It is distinct if its hash was not seen before in the run and non-trivial if at least one entry "
       "into user code was made or text was written; all entries, drops and output are compared with the reference. ")
EXP = ("An evaluation is one template expanded in one simulated world and compared with its expansion in the first "
       "world. It is distinct by template, world (entropy, clocks, identity, layout, environment) and place in the "
       "order of expansion; those of the first world are not counted.")
MIR = ("A run of the simulated machine is one case (as above) executed by the Miri abstract machine for a simulated "
       "target (word size, byte order, CPU features) under one seed, which decides the thread schedule at every basic "
       "block, the weak memory model's stale reads, and the addresses handed out. It is distinct by case, target and seed. ")
BARE = ("On the machines without std a run is a history of buffer operations and templates, drawn from the addresses the "
        "simulated machine hands out under its seed, and compared step by step with a reference; it is distinct by target, "
        "macro mode and history. ")
AUT = ("An evaluation is one generated template with one injected mistake, compiled in one simulated world; it is distinct "
       "by template, mistake and world. ")
RULES = {p: ((NAT if "native" in e else "") + (GEN if "gen" in e else "") + (MIR if "machine" in e else "") +
             (BARE if "bare" in e else "") + (AUT if "author" in e else "") + (EXP if "expand" in e else "")).strip() for p, e in PLAN.items()}
# for MANIFEST.json
SEARCH = {
    "C01": "strings, buffer fill levels, machines (vector extensions, word size, byte order) and allocator behaviours against a reference escaper",
    "C02": "instruction-level schedules of real threads, first uses included, and schedules and stale reads of a simulated weak-memory machine with race detection",
    "C03": "simulated processors and OS register states, every executed instruction classified",
    "C04": "buffer histories and value trees with moving growth, refused memory and panics, under a checking allocator and on a checking abstract machine",
    "C05": "buffer operation histories against a string model, with growth, moves and faults",
    "C06": "refused and impossible allocations at chosen points, aborting and unwinding, on 64- and 32-bit machines",
    "C07": "value trees rendered while every allocation is refused, and request counts when growing",
    "C08": "random templates compiled with the real macros, rendered with hostile values and panics, against a reference interpreter",
    "C09": "random templates and panics at entries into user code, every entry and drop compared with a reference interpreter",
    "C13": "random components and calls (order, repetition, defaults, rest) with panics against a reference interpreter",
    "C14": "random match and if fragments with panicking conditions, guards and branches against a reference interpreter",
    "C15": "random elements with boolean attributes, constant and computed, with panics, against a reference interpreter",
    "C16": "simulated compiler worlds: entropy, clocks, layout, environment, order and company of expansion",
    "C10": "iterator behaviours, concurrent sources and panics against a reference renderer",
    "C11": "formatter behaviours (pieces, padding, errors, panics) against a reference",
    "C12": "numbers, fill levels, allocator placements and byte orders against exact decimal text",
    "C18": "mistakes injected into the author's templates, compiled in simulated compiler worlds (entropy, layout, order and company of expansion)",
    "C19": "components called through Macros 2.0 and templates without std against the reference, and histories on simulated machines without std",
    "C20": "tasks whose templates suspend, interleaved by a seeded executor, cancelled and panicking at chosen points, against a reference interpreter",
    "C17": "paths a hostile text can take to the output, with panics in between",
}
NOTE = {
    "C01": "Every simulated run compares the whole buffer with a byte-wise reference escaper, on guard-paged memory.",
    "C02": "The schedule decides at instruction granularity; each thread's result is compared with its own solo model and a control run alone.",
    "C03": "All instructions the library executes are decoded by class and checked against the simulated CPU and XCR0.",
    "C04": "Every allocator call is checked for layout and liveness; guard pages, canaries and revoked freed memory catch stray accesses that touch them.",
    "C05": "Content, length, capacity, clones and conversions are compared with a String model after every operation.",
    "C06": "After each injected refusal the surviving content, the outcome and leaks are checked.",
    "C07": "Allocator requests are counted exactly per render; ample-room renders run with every request refused.",
    "C08": "Hundreds of generated templates per run are compiled and rendered in the simulator; exact output, or exact prefix under panics.",
    "C09": "Evaluation, rendering, formatting, iteration and drop of every value are events compared one by one with the reference.",
    "C13": "Generated components with defaults, rest parameters, repeats and generics; order among arguments of one call is left free.",
    "C14": "Generated match, if and if-let fragments with guards; every condition and branch evaluation is compared.",
    "C15": "Generated boolean attributes with literal, identifier and computed names and conditions, among other attributes.",
    "C16": "Real rustc expands generated templates under a preloaded shim that decides its nondeterminism; expansions are diffed token by token.",
    "C10": "The order of calls into the iterator and items is compared with the reference, event by event.",
    "C11": "Output is compared with the escape of the concatenated pieces, whatever the split.",
    "C12": "Text compared with an independent decimal printer; buffers end at guard pages.",
    "C18": "The faulty party is the author: one mistake per template at a seeded place; the compiler must refuse each in every world.",
    "C19": "The generated programs are no_std crates, called by name, by path and across crates; three bare targets are interpreted.",
    "C20": "Templates that await, leave early and use the caller's variables; every poll, evaluation, drop and document is compared.",
    "C17": "Hostile text is sent along every run-time path and the output compared with the reference.",
}


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--replay"]:
            return replay(a[1])
        if a[:1] == ["--setup"]:
            cargo("native", "release")
            cargo("native", "checked")
            import expand, gen
            expand.Compiler()
            gen.prepare(os.path.join(WORK, "gen-setup"), dict(enumerate(gen.programs("C08", 1, 8))), TARGET)
            return 0
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return check(a[0], "thorough" if tier == "thorough" else "quick", seed)
    except Trouble as e:
        print("check: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
