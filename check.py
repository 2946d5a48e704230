#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--seed N] [--replay FILE]

Builds the harness of one property against the current tree of /repo (headers under include/), runs it and
writes evidence/ID.json.  Exit 0: the property held on everything explored; exit 1: a violation, with a line
"VIOLATION property=ID replay=PATH"; exit 2: no answer (the harness does not build or run).
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(HERE, "harness")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CLANG = ["clang++", "-std=c++11", "-O1", "-g1"] + SAN
CLANG0 = ["clang++", "-std=c++11", "-O0"] + SAN
GCC17 = ["g++", "-std=c++17", "-O2", "-g1"] + SAN
# with assertions libstdc++ instantiates std::string here, so that the sanitizer sees what happens inside
TSAN = ["clang++", "-std=c++11", "-D_GLIBCXX_ASSERTIONS", "-O1", "-g1", "-fsanitize=thread", "-pthread", "-DENGINE_THREADS"]
PLAIN = ["g++", "-std=c++11", "-O2", "-g1", "-DNDEBUG"]
CLANG20 = ["clang++", "-std=c++20", "-O1", "-g1"] + SAN
WARN = ["-w"]

# fuzz: sub-properties that are also driven by libFuzzer in the thorough tier, with seconds each
PROPS = {
    "C01": dict(src=["c01.cpp"], fuzz=[("narrow_trees", 60)],
                technique="property-based round-trip testing (generated trees x options), shrinking, libFuzzer over the choice sequence",
                note="Generated value trees, all option combinations, both widths; the oracle is the model tree the value was built from."),
    "C02": dict(src=["c02.cpp"], fuzz=[("narrow_trees", 60)],
                technique="property-based testing against an independent strict RFC 8259 reader and layout checker",
                note="Generated trees and all scalars of the BMP, all option combinations and targets; the oracle is a reader written from the RFC."),
    "C03": dict(src=["c03.cpp"], fuzz=[("commented", 60), ("documents", 30)],
                technique="generation of conforming documents from a randomised writer, compared with the tree they were written from",
                note="Every lexical freedom of RFC 8259 and comments; the oracle is the tree, cross-checked by an independent reader."),
    "C04": dict(src=["c04.cpp"], fuzz=[("inputs", 120), ("wide_units", 40)],
                technique="grammar-based mutation and coverage-guided fuzzing against an independent three-valued reference reader, under sanitizers",
                note="Mutated documents, token, number and string soups, raw bytes, through every source and width; crashes, hangs, UB and other exceptions are violations."),
    "C05": dict(src=["c05.cpp"], fuzz=[("float_literals", 40), ("write_floats", 40)],
                technique="property-based testing against exact decimal arithmetic, strtod and printf, boundary enumeration",
                note="Integer and float literals in every context, and all notations and precisions; mantissas up to 300 digits and magnitudes 1e-290..1e290 for the accuracy bound, only saturation beyond."),
    "C06": dict(src=["c06.cpp"], fuzz=[("mixtures", 40)],
                technique="exhaustive enumeration of code points and enumeration/generation of code unit sequences against a decoder written from the Unicode tables",
                note="All 1,114,112 code points through every codec, and all scalars through documents in both directions; all 1- and 2-byte sequences, class-sampled longer ones, random mixtures."),
    "C07": dict(src=["c07.cpp"], fuzz=[("documents", 60), ("values", 30)],
                technique="differential and metamorphic property-based testing across character types and encodings",
                note="Generated documents, well-formed or not, through 30 source/target combinations that must agree; generated values through 11 combinations that must give the same characters."),
    "C08": dict(src=["c08.cpp", "c08_encodings.cpp"], fuzz=[("read_narrow", 60), ("input_adapter", 30)],
                technique="differential property-based testing of transports, stateful testing of adapter streams against standard string streams",
                note="Every source and sink kind against the string one, narrow and wide, with used targets, chunked buffers and a block encoding of our own; histories of stream operations on adapters. U+FFFF-like end-of-file values are excluded in adapters, block reads stay within the content."),
    "C09": dict(src=["c09.cpp"], fuzz=[("narrow", 60)],
                technique="stateful model-based property-based testing",
                note="Histories of up to 30 operations on a value and the values inside it against a map/vector model, with all observers asked after every operation; out-of-range index erasure and end() erasure are preconditions, not tested."),
    "C10": dict(src=["c10.cpp"], fuzz=[("narrow", 60)],
                technique="stateful model-based property-based testing of a pool of values, with allocation accounting and AddressSanitizer",
                note="Histories of up to 30 copies, moves, swaps and insertions between five values and their parts, the whole pool compared after each; moving or swapping a value with a value inside it (the containing one into the contained one) is excluded, self-move only has to leave a valid value."),
    "C11": dict(src=["c11.cpp"], fuzz=[("narrow", 60)],
                technique="property-based testing of algebraic laws and of agreement with a reference order, on groups of related values",
                note="Groups of four values of which most are small changes of another, all pairs and triples; the order of different kinds, also where it decides inside containers, is not specified; integers within 2^53 where floats occur; no NaN."),
    "C12": dict(src=["c12.cpp", "c12_algorithms.cpp"], fuzz=[("narrow", 60)],
                technique="stateful property-based testing of iterator walks against positions",
                note="Walks of pairs of iterators of all four kinds over generated values, full passes, 36 standard algorithms against the same over a vector (forward and backwards), writes and erasures; moving before the begin or beyond the end is not done."),
    "C13": dict(src=["c13.cpp", "c13_containers.cpp", "c13_nested.cpp", "c13_wide.cpp", "c13_texts.cpp"],
                technique="property-based round-trip testing over a catalogue of C++ types, with a model of what each type corresponds to",
                note="About 75 types (scalars, containers, pointers, nestings, user types), narrow and wide, converted in every spelling, and values that fit or do not fit a type; numbers out of the range of the target type, null or an empty container of the other kind read as a container, and fixed arrays of another length are unspecified."),
    "C14": dict(src=["c14.cpp"] + ["c14_structs_%d.cpp" % i for i in range(1, 8)], cfg=CLANG0,
                technique="property-based round-trip testing of bound structs of every size against a list of their fields",
                note="Structs of 1 to 50 fields of ten types with random content; absent required and optional members, unknown members, containers and nesting. The default of a field is its value-initialised one; members of a wrong kind are not specified."),
    "C15": dict(src=["c15.cpp"], fuzz=[("parse_narrow", 60), ("dump_narrow", 30)],
                technique="differential property-based testing of every error handler against the call without one, over histories of calls sharing their handlers",
                note="Documents and values of which most fail, through string, C string, stream and FILE sources and string, stream and refusing sinks, narrow, wide and across; the outcome without a handler is the oracle. Content of a target after a failure is not specified beyond being usable."),
    "C16": dict(src=["c16.cpp"], level="fault_enumeration",
                technique="property-based generation of operations, with every allocation of each made to fail in turn (once, and from then on)",
                note="Every allocation of an operation up to 40, ends and a sample beyond that; global operator new. get(T&) reports by returning false; bound structs read members through it and are left out; after a failed insertion the container holds what it held, possibly with the new place still null."),
    "C17": dict(src=["c17.cpp"], level="fault_enumeration", fuzz=[("sources_narrow", 40)],
                technique="property-based generation of texts, values and options with the sink or source failing at every position",
                note="Every position of texts up to 30 units, the ends and a sample of longer ones; sinks that refuse or throw, for good or once, with and without buffers, and adapters; sources that end or break, for good or once: streams, adapters, FILEs. Input after an error is not specified."),
    "C18": dict(src=["c18.cpp"], fuzz=[("dump_narrow", 40)],
                technique="metamorphic property-based testing: the same value or text under generated locales and stream states, against the classic locale and the equivalent options",
                note="Locales with other number punctuation and number facets (global and of the stream), all stream flags, width 0 to 5, fill blank or tab, precision 0 to 17, string streams and wide files; other locales are not installed. Facets of the ctype category other than that of C.utf8 are not replaced."),
    "C19": dict(src=["c19.cpp", "c19_containers.cpp", "c19_numbers.cpp", "c19_characters.cpp", "c19_allocators.cpp", "c19_binder.cpp"], cfg=CLANG0,
                technique="differential property-based testing of generated values and documents over a set of instantiations, against a model and the default instantiation",
                note="Some 20 instantiations: deque arrays, insertion-ordered, unordered and multi-argument object containers, 8 to 64 bit and unsigned integers, float to long double, char16_t and char32_t values, named default encodings, a counting and a throwing allocator, a custom binder. Arrays need vector's interface with reserve; strings keep their own allocator where text is read."),
    "C20": dict(src=["c20.cpp"], cfg=TSAN,
                alt=[("clang++ -std=c++11, address and undefined sanitizers", CLANG + ["-pthread", "-DENGINE_THREADS"], 0.5),
                     ("g++ -std=c++17 -O2 -fsanitize=thread", GCC17[:4] + ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=thread", "-pthread", "-DENGINE_THREADS"], 0.5)],
                technique="property-based generation of plans for concurrent threads, executed under ThreadSanitizer, with each plan executed alone as the oracle",
                note="Two to four threads, 21 kinds of operations, narrow and wide; some plans in a fresh process where the threads are the first users of the library. ThreadSanitizer decides races by happens-before on the accesses that occur, not on all schedules; std::string's are instrumented, others inside libstdc++.so are not."),
    "C21": dict(src=["c21.cpp"], cfg=["clang++", "-std=c++11", "-O1", "-g1", "-fsanitize-coverage=edge,trace-pc"],
                alt=[("g++ -std=c++17 -O2, coverage", ["g++", "-std=c++17", "-O2", "-g1", "-fsanitize-coverage=trace-pc"], 1.0)],
                technique="property-based generation of scalable content, with the work of every operation counted at three sizes",
                note="Thirteen shapes of content, forty operations; sizes up to 1,280 elements or characters (one in forty up to 19,200) and 384 levels. Work is executed branch edges (of the library and the standard templates it instantiates) plus bytes allocated, so it is the same in every run; what happens inside libstdc++.so and libc is seen only where it allocates."),
    "C22": dict(src=["c22.cpp"], fuzz=[("narrow", 60)],
                technique="metamorphic property-based testing: the same content built in two random ways, then driven by the same operations",
                note="Trees of up to about twenty nodes, each node built in one of 8 to 16 ways and passed through up to two of 14 further ones, narrow and wide; literals up to five elements (the length is fixed in the source). Which of several members of one name a literal keeps is unspecified."),
    "C23": dict(src=["c23.cpp"], fuzz=[("tokens_read", 60)],
                technique="model-based property-based testing of formats built on the generic reader and writer against a reference parser of token sequences",
                note="A format of one letter per token, with sequences that describe a value and sequences disturbed at up to three places, read through six transports in four character types and written through five, and a format derived of the library's own; narrow and wide values. Several members of one name are not generated."),
}

REDUCTIONS = []

def log(*a):
    print(*a, flush=True)

def compile_(cfg, srcs, out, extra=()):
    """all translation units in parallel, then link"""
    objs, todo = [], []
    for s in srcs:
        objs.append(out + "." + os.path.basename(s) + ".o")
        # a tree that does not take some of the unusual types any more is still checked with the others
        text = open(os.path.join(SRC, s), encoding="utf-8").read()
        todo.append((s, objs[-1], [[]] + ([["-DREDUCED"]] if "REDUCED" in text else []) + ([["-DOMITTED"]] if "OMITTED" in text else [])))
    while todo:
        procs, again, failed = [], [], False
        for s, o, variants in todo:
            cmd = cfg + WARN + list(extra) + variants[0] + ["-I", os.path.join(REPO, "include"), "-I", SRC, "-c", os.path.join(SRC, s), "-o", o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for (s, o, variants), (cmd, p) in zip(todo, procs):
            t = p.communicate()[0]
            if p.returncode == 0:
                if variants[0]:
                    note = "%s compiled with %s: the full set of types does not compile" % (s, variants[0][0])
                    log(note)
                    if note not in REDUCTIONS:
                        REDUCTIONS.append(note)
            elif len(variants) > 1:
                again.append((s, o, variants[1:]))
            else:
                log("harness does not compile:", " ".join(cmd))
                log(t.decode("utf-8", "replace")[:6000])
                failed = True
        if failed:
            return False
        todo = again
    cmd = cfg + list(extra) + objs + ["-o", out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        log("harness does not link:", " ".join(cmd))
        log(p.stdout.decode("utf-8", "replace")[:6000])
        return False
    return True

def known_findings(prop):
    r = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                r.append(line[len("finding: "):])
    return r

def setup():
    """nothing is built ahead of time: the harnesses are compiled from the tree they check"""
    for tool in ("clang++", "g++"):
        if subprocess.call([tool, "--version"], stdout=subprocess.DEVNULL) != 0:
            return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    return 0

def main():
    args = [a for a in sys.argv[1:]]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "quick"
    replay = None
    ids = []
    scale = None
    while args:
        a = args.pop(0)
        if a == "--setup":
            return setup()
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = os.path.abspath(args.pop(0))
        elif a == "--scale":
            scale = args.pop(0)
        elif a in ("quick", "thorough"):
            tier = a
        else:
            ids.append(a)
    if not ids or ids[0] not in PROPS:
        log(__doc__)
        return 2
    prop = ids[0]
    spec = PROPS[prop]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, spec, tier, seed, replay, scale, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def run(prop, spec, tier, seed, replay, scale, bdir, t0):
    rdir = os.path.join(HERE, "replays", prop)
    os.makedirs(rdir, exist_ok=True)
    cfg = spec.get("cfg", CLANG)
    exe = os.path.join(bdir, "h")
    if not compile_(cfg, spec["src"], exe):
        return 2
    if replay:
        return subprocess.call([exe, "--replay", replay])

    total = dict(evaluations=0, distinct=0, discarded=0, inner=0, labels={}, samples=[], rule="", truncated=False)
    builds = []

    def one(exe, name, args):
        out = os.path.join(bdir, "out.json")
        if os.path.exists(out):
            os.unlink(out)
        rc = subprocess.call([exe, "--out", out, "--replay-dir", rdir] + args)
        if rc not in (0, 1) or not os.path.exists(out):
            log("harness run ended with", rc)
            return 2
        d = json.load(open(out))
        if d["infra"]:
            log("a worker was ended from outside; its cases are not counted")
        for k in ("evaluations", "discarded", "inner"):
            total[k] += d[k]
        # distinct within a run; runs with different seeds or builds are counted by the largest of them
        total["distinct"] = max(total["distinct"], d["distinct"])
        total["truncated"] = total["truncated"] or d["truncated"]
        for k, v in d["labels"].items():
            total["labels"][k] = total["labels"].get(k, 0) + v
        if len(total["samples"]) < 12:
            total["samples"] += d["samples"][: 12 - len(total["samples"])]
        total["rule"] = d["rule"]
        builds.append("%s: %d cases in %.1f s" % (name, d["evaluations"], d["wall"]))
        return rc

    budget = "300" if tier == "quick" else "1500"
    base = ["--budget", budget] + (["--scale", scale] if scale else [])
    rc = one(exe, " ".join(cfg[:2]) + " seed %d" % seed, ["--seed", str(seed)] + base + (["--thorough"] if tier == "thorough" else []))
    if rc == 0 and tier == "thorough":
        for name, alt, sc in spec.get("alt", [("g++ -std=c++17 -O2, sanitizers", GCC17, 0.3), ("g++ -std=c++11 -O2 -DNDEBUG, no sanitizers", PLAIN, 1.0)]
                                  + ([] if prop in ("C12", "C18", "C14") else [("clang++ -std=c++20, sanitizers", CLANG20, 0.3)])):
            exe2 = os.path.join(bdir, "h2")
            if not compile_(alt, spec["src"], exe2):
                return 2
            rc = one(exe2, name + " seed %d" % (seed + 1000), ["--seed", str(seed + 1000), "--thorough", "--budget", budget, "--scale", str(sc)])
            if rc:
                break
    if rc == 0 and tier == "thorough" and spec.get("fuzz"):
        fexe = os.path.join(bdir, "fuzz")
        if not compile_(CLANG + ["-fsanitize=fuzzer"], spec["src"], fexe, ["-DENGINE_LIBFUZZER"]):
            return 2
        for sub, secs in spec["fuzz"]:
            fdir = os.path.join(bdir, "corpus-" + sub)
            os.makedirs(fdir, exist_ok=True)
            env = dict(os.environ, FUZZ_SUB=sub)
            cmd = [fexe, fdir, "-seed=%d" % seed, "-max_total_time=%d" % secs, "-fork=8", "-ignore_crashes=0", "-ignore_timeouts=1", "-ignore_ooms=1",
                   "-max_len=4096", "-rss_limit_mb=3000", "-timeout=60", "-artifact_prefix=" + fdir + "-art-", "-print_final_stats=1"]
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=bdir)
            t = p.stdout.decode("utf-8", "replace")
            runs = 0
            for line in t.splitlines():
                if line.startswith("#") and ":" in line:
                    try:
                        runs = max(runs, int(line[1:].split(":")[0].split()[0]))
                    except ValueError:
                        pass
            total["evaluations"] += runs
            builds.append("libFuzzer %s: %d runs in %d s" % (sub, runs, secs))
            arts = [os.path.join(bdir, f) for f in sorted(os.listdir(bdir)) if f.startswith("corpus-" + sub + "-art-")]
            for a in arts:
                if os.path.basename(a).split("-art-")[1].startswith(("oom", "slow", "timeout")):
                    continue
                rc = subprocess.call([exe, "--fuzz-artifact", a, "--fuzz-sub", sub, "--seed", str(seed), "--replay-dir", rdir])
                if rc:
                    break
            if rc:
                break
    if rc not in (0, 1):
        return 2
    for f in known_findings(prop):
        log("KNOWN-FINDING: " + f)
    level = spec.get("level", "exploration")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2),
              coverage=dict(evaluations=max(1, total["evaluations"]), distinct_nontrivial=total["distinct"], rule=total["rule"],
                            samples=total["samples"] or ["(none)"], discarded=total["discarded"], comparisons=total["inner"],
                            classes=total["labels"], runs=builds, cut_by_time_guard=total["truncated"], reduced=REDUCTIONS, violation=bool(rc)))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return rc

if __name__ == "__main__":
    sys.exit(main())
