"""The registered checks: which drivers, configurations and TLC models decide
each property."""
import os
from vf import TraceJob, BindJob, ModelJob, FuncJob, execute, NCPU

INT_TYPES = ["u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "b1"]
FLT_TYPES = ["f64", "f32", "f16"]


def c01(tier, seed):
    q = tier == "quick"
    jobs = [TraceJob("int-%s-%d" % (t, k), "ops", [seed * 100 + k, t, 5 if q else 30, 60 if q else 1500, 0, "op"], "OpsTrace",
                     tlc_timeout=800) for k in range(1 if q else 3) for t in INT_TYPES]
    jobs += [TraceJob("chain-%d" % k, "ops", [seed * 1000 + k, "int", 40, 0, 0, "chain"], "OpsTrace", tlc_timeout=800) for k in range(16 if q else 200)]
    return dict(drivers=["ops"], jobs=jobs, level="exploration",
                assumptions=["shift amounts are smaller than the bit width", "x86-64 LLVM backend"],
                extra_cov=lambda c: ops_cov(c))


def c02(tier, seed):
    q = tier == "quick"
    jobs = [TraceJob("flt-%s-fm%d-%d" % (t, fm, k), "ops", [seed * 100 + 10 + k, t, 5 if q else 30, 80 if q else 1500, fm, "op"], "OpsTrace",
                     tlc_timeout=800) for k in range(1 if q else 3) for t in FLT_TYPES for fm in (0, 1)]
    jobs += [TraceJob("chain-%d-%d" % (k, fm), "ops", [seed * 1000 + k, "flt", 40, 0, fm, "chain"], "OpsTrace", tlc_timeout=800) for k in range(8 if q else 200) for fm in (0, 1)]
    return dict(drivers=["ops"], jobs=jobs, level="exploration",
                assumptions=["NaN payloads and signs are unspecified"], extra_cov=lambda c: ops_cov(c))


def c03(tier, seed):
    q = tier == "quick"
    jobs = [TraceJob("cast-%s-%d" % (t, k), "ops", [seed * 100 + 20 + k, t, 30, 80 if q else 1500, 0, "cast"], "OpsTrace",
                     tlc_timeout=800) for k in range(1 if q else 3) for t in INT_TYPES + FLT_TYPES]
    jobs += [TraceJob("chain-%d" % k, "ops", [seed * 1000 + k, "cast", 40, 0, 0, "chain"], "OpsTrace", tlc_timeout=800) for k in range(16 if q else 200)]
    return dict(drivers=["ops"], jobs=jobs, level="exploration",
                assumptions=["float-to-integer conversions are specified for in-range values only"], extra_cov=lambda c: ops_cov(c))


def ops_cov(c):
    return {"evaluations": c.stats["events_validated"], "distinct_nontrivial": c.stats["events_validated"],
            "rule": "one event per distinct (operation, type, operand values); each was evaluated in up to 9 literal/array "
                    "styles and all distinct results are judged"}


def mut_data(ev):
    """Change one element of the last non-empty array read back"""
    for e in reversed(ev):
        if e["e"] == "data" and e["r"] and e["t"] in ("i32", "u32", "f32", "f64", "i64", "u64"):
            e["r"][-1] += 1
            return True
    return False


def store(profile, prop_off):
    def chk(tier, seed):
        q = tier == "quick"
        jobs = [TraceJob("%s-%d-%d" % (profile, k, sim), "store", [seed * 1000 + k, profile, 700 if q else 1500, sim],
                         "VarStoreTrace", tlc_timeout=800) for k in range(32 if q else 300) for sim in (0, 1)]
        jobs.append(BindJob("bind-" + profile, "store", [seed * 1000 + 999, profile, 200, 0], "VarStoreTrace", mutate=mut_data))
        return dict(drivers=["store"], jobs=jobs, level="exploration",
                    assumptions=["element values are small integers (exact in every type, order of summation irrelevant)",
                                 "indices of active lanes are in bounds (except where debug mode checks them)"],
                    extra_cov=lambda c: {"rule": "one event per API call or observation of a random history; every observed element is judged",
                                         "distinct_nontrivial": c.stats["events_validated"]})
    return chk


def mut_obs(ev):
    """Change one element of the last observed result of a program"""
    for e in reversed(ev):
        if e["e"] == "obs" and "s" in e["v"] and e["v"]["s"][-1]:
            e["v"]["s"][-1][-1] += 1
            return True
    return False


def prog(feat, off, np=14, nc=6, kf=False, seeds=20):
    """Random structured programs, executed in many configurations"""
    def chk(tier, seed):
        q = tier == "quick"
        jobs = [TraceJob("%s-%d-%d" % (feat, k, sim), "prog", [seed * 1000 + off * 100000 + k, feat, np if q else 2 * np, nc, sim],
                         "ProgTrace", tlc_timeout=800) for k in range(seeds if q else 250) for sim in (0, 1)]
        if kf:
            jobs.append(TraceJob("kf", "prog", [1, "kf", 2, 4, 0], "ProgTrace"))
        jobs.append(BindJob("bind", "prog", [seed * 1000 + 999, feat, 3, 2, 0], "ProgTrace", mutate=mut_obs))
        return dict(drivers=["prog"], jobs=jobs, level="exploration",
                    assumptions=["element values are small integers (exact in every type)",
                                 "memory is shared between lanes only through commutative scatter-reductions and read-only gathers"],
                    extra_cov=lambda c: {"rule": "one program event, plus one event per distinct observed outcome of its executions in all configurations",
                                         "distinct_nontrivial": c.stats["events_validated"]})
    return chk


def mut_replay(ev):
    """Change one element of the last observed result of a replay"""
    for e in reversed(ev):
        if e["e"] == "obs" and e["by"] == "replay" and e["s"][-1]:
            e["s"][-1][-1] += 1
            return True
    return False


def c18(tier, seed):
    q = tier == "quick"
    jobs = [TraceJob("freeze-%d-%d" % (k, sim), "freeze", [seed * 1000 + k, "all", 10 if q else 20, 4, sim], "FreezeTrace", tlc_timeout=800)
            for k in range(20 if q else 200) for sim in (0, 1)]
    jobs.append(BindJob("bind", "freeze", [seed * 1000 + 999, "all", 4, 2, 0], "FreezeTrace", mutate=mut_replay))
    return dict(drivers=["freeze"], jobs=jobs, level="exploration",
                assumptions=["element values are small integers (exact in every type)", "the number of workers does not change between recording and replay",
                             "replays of a different width only involve kernels with an input of that width"],
                extra_cov=lambda c: {"rule": "one event per step of the freezing protocol and one per set of results (recorded, aborted or replayed)",
                                     "distinct_nontrivial": c.stats["events_validated"]})


def mut_hr(ev):
    for e in reversed(ev):
        if e["e"] == "hr" and e["v"]:
            e["v"][0] = (e["v"][0] + 1) % 256
            # (the first bytes may be unspecified: require a specified one)
            if any(f["e"] in ("hw", "set") and f.get("h") == e["h"] and f.get("off") == 0 and f.get("n", 1) for f in ev):
                return True
    return False


def mem(profile, off):
    def chk(tier, seed):
        q = tier == "quick"
        jobs = [TraceJob("%s-%d-%d" % (profile, k, sim), "mem", [seed * 1000 + off * 100000 + k, 2000 if q else 4000, sim, 1 + k % 3, profile],
                         "MemTrace", tlc_timeout=800) for k in range(24 if q else 300) for sim in (0, 1)]
        jobs.append(BindJob("bind", "mem", [seed * 1000 + 999, 400, 0, 1, profile], "MemTrace", mutate=mut_hr))
        if profile == "alloc":
            jobs.append(ModelJob("design", "AllocMC", min_states=20000))
        return dict(drivers=["mem"], jobs=jobs, level="exploration", assumptions=["the host accesses ordinary memory only after synchronizing",
                    "at most three threads, which take turns"],
                    extra_cov=lambda c: {"rule": "one event per call or observation of a random history; contents are compared byte by byte (first 64 bytes of each block)",
                                         "distinct_nontrivial": c.stats["events_validated"]})
    return chk


def mut_id(ev):
    for e in reversed(ev):
        if e["e"] == "put" and e["r"] > 0:
            e["r"] += 1
            return True
    return False


def c16(tier, seed):
    q = tier == "quick"
    jobs = [TraceJob("reg-%d-%d" % (k, n), "registry", [seed * 1000 + k, 4000 if q else 8000, n], "RegistryTrace", tlc_timeout=800)
            for k in range(8 if q else 60) for n in (3, 12, 90, 300)]
    jobs.append(BindJob("bind", "registry", [seed * 1000 + 999, 300, 9], "RegistryTrace", mutate=mut_id))
    jobs.append(ModelJob("design", "RegistryMC", min_states=70000))
    return dict(drivers=["registry"], jobs=jobs, level="exploration", assumptions=["strings naming a domain outlive the registry"],
                extra_cov=lambda c: {"rule": "one event per call of a random history; the specification determines every result",
                                     "distinct_nontrivial": c.stats["events_validated"]})


def mut_hit(ev):
    """Pretend that a kernel was found in memory or on disk when it was not, or vice versa"""
    for e in reversed(ev):
        if e["e"] == "run" and e["r"]["k"]:
            e["r"]["k"][-1]["hit"] ^= 1
            return True
    return False


def mut_ls(ev):
    """Hide an entry of the cache directory"""
    for e in reversed(ev):
        if e["e"] == "ls" and e["h"]:
            e["h"].pop()
            return True
    return False


def c17(tier, seed):
    q = tier == "quick"
    jobs = [TraceJob("cache-%d" % k, "cache", [seed * 1000 + k, 220 if q else 400], "CacheTrace", tlc_timeout=800) for k in range(48 if q else 600)]
    jobs.append(BindJob("bind-hit", "cache", [seed * 1000 + 999, 60], "CacheTrace", mutate=mut_hit))
    jobs.append(BindJob("bind-ls", "cache", [seed * 1000 + 998, 60], "CacheTrace", mutate=mut_ls))
    jobs.append(ModelJob("design", "CacheMC", min_states=200000))
    return dict(drivers=["cache"], jobs=jobs, level="exploration",
                assumptions=["at most three processes at a time; a process is interrupted only at file system operations", "the file system is local and honours the order of operations"],
                extra_cov=lambda c: {"rule": "one event per program run (results, kernels, statistics), damage, fault and look at the cache directory",
                                     "distinct_nontrivial": c.stats["events_validated"]})


def mut_use(ev):
    """Change one element that a thread computed from a shared variable"""
    for e in reversed(ev):
        if e["e"] in ("use", "upd"):
            e["r"][-1] += 1
            return True
    return False


def c19(tier, seed):
    q = tier == "quick"
    jobs = [TraceJob("thr-%d" % k, "thr", [seed * 1000 + k, 2 + k % 4, 10 if q else 20], "ThreadsTrace", flavor="mutex", tlc_timeout=800)
            for k in range(48 if q else 600)]
    jobs.append(BindJob("bind-prog", "thr", [seed * 1000 + 999, 2, 2], "ThreadsTrace", flavor="mutex", mutate=mut_obs))
    jobs.append(BindJob("bind-shared", "thr", [seed * 1000 + 999, 2, 6], "ThreadsTrace", flavor="mutex", mutate=mut_use))
    return dict(drivers=["thr"], jobs=jobs, level="exploration", flavors=("mutex",),
                assumptions=["element values are small integers (exact in every type)", "a thread opens a new scope before it uses a variable of another thread",
                             "threads are interleaved where the library releases its lock; data races inside and outside critical sections are not detected"],
                extra_cov=lambda c: {"rule": "one event per program, per set of results of a program, and per operation on a shared variable",
                                     "distinct_nontrivial": c.stats["events_validated"]})


def mut_refs(ev):
    """Pretend that a variable has one more reference"""
    for e in reversed(ev):
        if e.get("add"):
            e["add"][-1]["r"] += 1
            return True
    return False


def mut_accept(ev):
    """Pretend that a refused request was accepted"""
    for e in reversed(ev):
        if e.get("ok") == 0 and e["f"] in ("bin", "fma", "shrink", "write"):
            e["ok"] = 1
            return True
    return False


def life(bad, off, mutate):
    def chk(tier, seed):
        q = tier == "quick"
        jobs = [TraceJob("life-%d-%d" % (k, sim), "life", [seed * 1000 + off * 100000 + k, 400 if q else 900, sim, bad], "LifeTrace", tlc_timeout=800)
                for k in range(24 if q else 300) for sim in (0, 1)]
        jobs.append(BindJob("bind", "life", [seed * 1000 + 999, 120, 0, 40], "LifeTrace", mutate=mutate))
        return dict(drivers=["life"], jobs=jobs, level="exploration",
                    assumptions=["release build (checks of operand types that only exist in debug builds are not expected)",
                                 "computed masks on the mask stack ignore the padding (jit_var_mask_apply)"],
                    extra_cov=lambda c: {"rule": "one event per request of a random history, together with the whole variable graph after it",
                                         "distinct_nontrivial": c.stats["events_validated"]})
    return chk


CHECKS = {"C13": life(3, 13, mut_refs), "C20": life(30, 20, mut_accept), "C17": c17, "C19": c19, "C14": mem("alloc", 14), "C15": mem("queue", 15), "C16": c16, "C18": c18, "C04": store("lazy", 4), "C05": store("cow", 5), "C06": store("gather", 6), "C07": store("red", 7), "C08": store("horiz", 8),
          "C09": prog("loop", 9), "C10": prog("cond", 10), "C11": prog("call", 11), "C12": prog("all", 12, np=8, nc=12), "C22": prog("arr", 22, kf=True, seeds=40),
          "C01": c01, "C02": c02, "C03": c03}


def run(prop, tier, seed):
    spec = CHECKS[prop](tier, seed)
    return execute(prop, tier, seed, **spec)
