"""What every property's check builds and runs."""
import os

from vbuild import (VERIF, PY, add_bin, py_tree, add_proto, HP, LPBASE, ALLEXT, lp_models)

CHECKS = {}
ALL7 = ["BB", "BNB", "DD", "DPD", "GP", "NICH", "NIW"]
MIX6 = ["BB", "BNB", "DD", "DPD", "GP", "NICH"]
NIWONLY = ["common", "special", "random", "vector_math", "clustering", "models/nich", "models/gp", "models/niw"]
BASELIB = ["common", "special", "random", "vector_math", "clustering", "models/nich", "models/gp"]
DOMAIN = ("valid hyperparameters are taken log-uniformly over roughly [0.02, 50], six in a hundred over [0.002, 5000]; single-precision error "
          "bounds follow the tables behind the fast_* approximations")


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def cpp(ck, name, srcs, mons, variant="prod", defs=(), proto=True, want=None, timeout=300, shards=None,
        weight=8.0, env=None, build_weight=8.0, sanitizer=None, qshards=1, only=None, wrap=()):
    """mons: {monitor: (quick cases, thorough cases)}. Thorough runs are split into shards with their own seeds."""
    b = add_bin(ck.graph, name, srcs, variant=variant, proto=proto, defs=list(defs), want=want, weight=build_weight)
    n = (shards or 8) if ck.thorough else qshards
    san = sanitizer or (variant if variant in ("asan", "tsan") else None)
    for i in range(n):
        cmd = list(wrap) + [b] + ["%s=%d" % (m, max(1, int((t if ck.thorough else q)) // n)) for m, (q, t) in mons.items()]
        e = dict(env or {})
        if i:
            e["VERIF_SEED"] = str(ck.seed + 7919 * i)
        ck.job(name + ("" if n == 1 else ".%d" % i), cmd, timeout=timeout if not ck.thorough else 3000,
               env=e, sanitizer=san, weight=weight, only=only)
    return b


def release(ck, name, srcs, mons, **kw):
    """The same monitors on a release build (no assertion is compiled in, errors abort): valid histories only."""
    kw.setdefault("want", BASELIB)
    cpp(ck, "release-" + name, srcs, mons, variant="rel", shards=2, **kw)


def fixed(ck, prefix, src, mons, which=("NIW", "DD"), **kw):
    """The same monitors on the instantiations of fixed (largest) dimension: NIW<2>, NIW<3>, DD<4>, DD<16>."""
    kw.setdefault("shards", 2)
    for m in which:
        for d in {"NIW": (2, 3), "DD": (4, 16)}[m][:2 if ck.thorough else 1]:
            cpp(ck, "%s-%s%d" % (prefix, m, d), [src], mons, defs=["-DMODEL=" + m, "-D%s_DIM=%d" % (m, d)],
                want=None if m == "NIW" else BASELIB, **kw)


def models(ck, prefix, src, mons, which, **kw):
    for m in which:
        want = None if m == "NIW" else BASELIB
        cpp(ck, "%s-%s" % (prefix, m), [src], mons, defs=["-DMODEL=" + m] + list(kw.get("defs", ())), want=want,
            weight=12.0 if m == "NIW" else 8.0, **{k: v for k, v in kw.items() if k != "defs"})


def py(ck, name, script, mons, exts=(), timeout=300, env=None, shards=None, weight=8.0, qshards=4, args=()):
    """mons: {monitor: (quick cases, thorough cases)}, split over the shards."""
    tree, outs = py_tree(ck.graph, list(exts))
    n = (shards or 8) if ck.thorough else qshards
    for i in range(n):
        e = {"PYTHONPATH": tree + ":" + os.path.join(VERIF, "py"), "VH_TREE": tree}
        e.update(env or {})
        if i:
            e["VERIF_SEED"] = str(ck.seed + 7919 * i)
        cmd = [PY, os.path.join(VERIF, "py", script)]
        cmd += ["%s=%d" % (m, max(1, int((t if ck.thorough else q)) // n)) for m, (q, t) in mons.items()]
        ck.job(name + ("" if n == 1 else ".%d" % i), cmd + [str(a) for a in args],
               timeout=timeout if not ck.thorough else 3000, env=e, weight=weight)
    return tree


@check("P01")
def p01(ck):
    ck.rule = ("random histories of add / add_repeated / remove / merge / copy over random hyperparameters; one "
               "distinct case per (hyperparameters, history prefix) whose statistics and scores were compared with a "
               "fresh group")
    ck.assumptions = [DOMAIN]
    models(ck, "model", "model.cc", {"P01": (15000, 400000), "P01-bulk": (10000, 300000)}, ALL7)
    for m in (MIX6 if ck.thorough else ["DPD"]):
        release(ck, "model-" + m, ["model.cc"], {"P01": (3000, 60000)}, defs=["-DMODEL=" + m])
    fixed(ck, "model", "model.cc", {"P01": (2000, 60000), "P01-bulk": (1000, 30000)})
    py(ck, "pymodels", "m_models.py", {"P01": (8000, 300000), "P01-bulk": (800, 20000)}, ALLEXT)
    models(ck, "offset", "model.cc", {"P01-offset": (60000, 2000000)}, ["NICH"])
    py(ck, "pyoffset", "m_models.py", {"P01-offset": (8000, 200000)}, ALLEXT, qshards=1)
    ck.min_events = {"score_comparisons": 1000, "bulk_states": 1000, "offset_states": 1000}


@check("P02")
def p02(ck):
    ck.rule = ("random hyperparameters and data; one distinct case per (hyperparameters, data), each compared for "
               "several candidate values with the ratio of exact marginal likelihoods")
    ck.assumptions = [DOMAIN]
    models(ck, "model", "model.cc", {"P02": (20000, 600000)}, ALL7)
    for m in (MIX6 if ck.thorough else ["DPD"]):
        release(ck, "model-" + m, ["model.cc"], {"P02": (3000, 60000)}, defs=["-DMODEL=" + m])
    fixed(ck, "model", "model.cc", {"P02": (2000, 60000)})
    py(ck, "pymodels", "m_models.py", {"P02": (16000, 600000)}, ALLEXT)
    ck.min_events = {"predictive_comparisons": 1000, "normalisations": 100, "heavy_groups": 50}


@check("P03")
def p03(ck):
    ck.rule = ("random hyperparameters and data in two orders; one distinct case per (hyperparameters, data), whose "
               "data score is compared with the chain of predictive scores and the closed form")
    ck.assumptions = [DOMAIN]
    models(ck, "model", "model.cc", {"P03": (15000, 400000)}, ALL7)
    for m in (MIX6 if ck.thorough else ["DPD"]):
        release(ck, "model-" + m, ["model.cc"], {"P03": (3000, 60000)}, defs=["-DMODEL=" + m])
    fixed(ck, "model", "model.cc", {"P03": (2000, 60000)})
    py(ck, "pymodels", "m_models.py", {"P03": (12000, 500000)}, ALLEXT)
    ck.min_events = {"joint_scores": 1000, "chain_terms": 1000}


@check("P04")
def p04(ck):
    ck.rule = ("random histories of mixture operations; one distinct case per history prefix, after which the cached "
               "scores of several values were compared in every group")
    ck.assumptions = [DOMAIN]
    models(ck, "mix", "mix.cc", {"P04": (6000, 200000)}, MIX6)
    for m in (MIX6 if ck.thorough else ["DPD"]):
        release(ck, "mix-" + m, ["mix.cc"], {"P04": (2000, 60000)}, defs=["-DMODEL=" + m])
    fixed(ck, "mix", "mix.cc", {"P04": (1000, 30000)}, ["DD"])
    py(ck, "pymix", "m_mixture.py", {"P04": (2000, 80000)}, ALLEXT)
    ck.min_events = {"score_comparisons": 10000, "ops": 3000, "hyperparameter_moves": 500, "new_values": 20, "dropped_values": 5, "crowded_mixtures": 60, "heavy_groups": 60}


@check("P05")
def p05(ck):
    ck.rule = ("random sets of groups and hyperparameter grids; one distinct case per set of groups, whose mixture "
               "score and grid scores were compared with sums over groups and exact values")
    ck.assumptions = [DOMAIN]
    models(ck, "mix", "mix.cc", {"P05": (15000, 500000)}, MIX6)
    for m in (MIX6 if ck.thorough else ["DPD"]):
        release(ck, "mix-" + m, ["mix.cc"], {"P05": (3000, 60000)}, defs=["-DMODEL=" + m])
    fixed(ck, "mix", "mix.cc", {"P05": (1000, 30000)}, ["DD"])
    py(ck, "pymix", "m_mixture.py", {"P05": (5000, 200000)}, ALLEXT)
    ck.min_events = {"grid_points": 3000, "data_scores": 3000, "empty_groups": 50, "crowded_mixtures": 300, "heavy_groups": 300}


CLUST = ["common", "special", "random", "vector_math", "clustering"]


@check("P06")
def p06(ck):
    ck.rule = ("random histories of add_value / remove_value (singly and repeated) over the Pitman-Yor (cached and "
               "plain) and low-entropy mixture drivers; one distinct case per history prefix, after which sizes, total, "
               "empty groups and the scores of every group were compared with a plain model")
    ck.assumptions = [DOMAIN]
    cpp(ck, "clustering", ["clustering.cc"], {"P06": (60000, 2000000)}, proto=False, want=CLUST, qshards=6)
    release(ck, "clustering", ["clustering.cc"], {"P06": (10000, 300000)}, proto=False, want=CLUST)
    py(ck, "pymix", "m_mixture.py", {"P06": (3000, 100000)}, ALLEXT)
    ck.min_events = {"states": 10000, "score_checks": 10000, "groups_created": 1000, "groups_deleted": 1000, "hyperparameter_moves": 1000, "crowds": 200, "heavy_groups": 200}


@check("P07")
def p07(ck):
    ck.rule = ("random histories of add_group / remove_group on the id tracker; one distinct case per history prefix, "
               "after which every packed and global id was converted both ways and compared with a plain model, and "
               "stale or out-of-range ids were offered")
    cpp(ck, "clustering", ["clustering.cc"], {"P07": (60000, 2000000), "P07-long": (12, 1000)}, proto=False, want=CLUST, qshards=6)
    release(ck, "clustering", ["clustering.cc"], {"P07": (10000, 300000)}, proto=False, want=CLUST)
    py(ck, "pymix", "m_mixture.py", {"P07": (6000, 200000)}, ALLEXT)
    ck.min_events = {"conversions": 10000, "stale_refused": 100, "long_lives": 6, "global_ids": 200000}


@check("P08")
def p08(ck):
    ck.rule = ("random sets of feature mixtures, drivers and rows driven by the protocol of examples/mixture; one distinct "
               "case per history prefix, after which driver, features and id tracker were compared with a plain model; and "
               "Gibbs sweeps started from exact posterior draws over the partitions of 3 or 4 rows, whose resulting "
               "partitions were compared with the exact posterior by two-stage chi-square tests")
    ck.assumptions = [DOMAIN]
    py(ck, "pymix", "m_mixture.py", {"P08": (4000, 120000), "P08-gibbs": (120, 4000)}, ALLEXT)
    ck.min_events = {"states": 20000, "moves": 2000, "hyperparameter_moves": 500, "score_checks": 50000, "total_scores": 1000, "gibbs_moves": 50000,
                     "laws": 50}


@check("P09")
def p09(ck):
    ck.rule = ("random parameters and partitions; one distinct case per (parameters, partition), whose score_counts was "
               "compared with the exact partition prior and the chain of add scores, and random partitions of small "
               "sets enumerated for normalisation")
    ck.assumptions = [DOMAIN]
    cpp(ck, "clustering", ["clustering.cc"], {"P09": (200000, 6000000)}, proto=False, want=CLUST, qshards=6)
    release(ck, "clustering", ["clustering.cc"], {"P09": (30000, 1000000)}, proto=False, want=CLUST)
    py(ck, "pyclust", "m_clustering.py", {"P09": (4000, 150000)}, ALLEXT)
    ck.min_events = {"py_adds": 1000, "le_adds": 1000, "py_partition_sums": 100, "le_partition_sums": 50, "le_full": 500, "le_many_items": 1000}


@check("P10")
def p10(ck):
    ck.rule = ("random parameters; batches of sampled assignments whose partition frequencies were compared with exact "
               "probabilities by two-stage chi-square tests, and sequential probability integral transforms of larger "
               "partitions; one distinct case per (parameters, batch)")
    ck.assumptions = [DOMAIN]
    cpp(ck, "clustering", ["clustering.cc"], {"P10": (3000, 120000)}, proto=False, want=CLUST, qshards=6)
    release(ck, "clustering", ["clustering.cc"], {"P10": (400, 8000)}, proto=False, want=CLUST)
    py(ck, "pyclust", "m_clustering.py", {"P10": (400, 15000)}, ALLEXT)
    ck.min_events = {"assignments": 500, "laws": 100, "transforms": 100000, "large_partitions": 5}


@check("P11")
def p11(ck):
    ck.rule = ("random score / likelihood / probability vectors of many lengths and spreads; one distinct case per vector: "
               "normalisations compared with exact values, draws from chosen states of the random stream checked for "
               "possible indices, and index frequencies compared with the weights by two-stage chi-square tests")
    cpp(ck, "sampling", ["sampling.cc"], {"P11": (12000, 300000)}, proto=False, want=BASELIB, qshards=6)
    py(ck, "pyrandom", "m_random.py", {"P11": (1600, 50000)}, HP + LPBASE)
    ck.min_events = {"value_checks": 100000, "forced_states": 50000, "frequency_tests": 500, "urns": 500, "crowded_vectors": 30}


@check("P12")
def p12(ck):
    ck.rule = ("random parameters of every continuous and counting sampler; one distinct case per (sampler, parameters), "
               "whose draws were transformed by the exact distribution function and compared with the uniform law by "
               "two-stage tests, with range, simplex and guard checks on every draw")
    ck.assumptions = [DOMAIN]
    cpp(ck, "sampling", ["sampling.cc"], {"P12": (6000, 200000)}, proto=False, want=BASELIB, qshards=6)
    py(ck, "pyrandom", "m_random.py", {"P12": (700, 25000)}, HP + LPBASE)
    ck.min_events = {"laws": 2000, "draws": 1000000, "simplexes": 100000, "close_looks": 30, "wide_int_ranges": 30}


@check("P13")
def p13(ck):
    ck.rule = ("random hyperparameters and data per model; one distinct case per (hyperparameters, data), whose sampled "
               "values (a fresh sampler per value, and sequences from one sampler) were transformed by the exact "
               "predictive law and compared with the uniform law by two-stage tests")
    ck.assumptions = [DOMAIN, "beta negative binomial alpha >= 1.2 when sampling (heavier tails exceed any integer type)"]
    models(ck, "post", "post.cc", {"P13": (1200, 40000), "P13-edge": (20, 400)}, ALL7)
    fixed(ck, "post", "post.cc", {"P13": (200, 5000)})
    py(ck, "pymodels", "m_models.py", {"P13": (2000, 60000)}, ALLEXT)
    ck.min_events = {"laws": 2000, "fresh_draws": 1000000, "sequence_draws": 500000, "close_looks": 100, "edge_draws": 1000, "sampler_totals": 10000}


@check("P14")
def p14(ck):
    ck.rule = ("random, boundary and table-edge arguments over the documented domain of every approximated special "
               "function, compared with double-precision library values; Stirling numbers compared with exact "
               "recurrences")
    cpp(ck, "support", ["support.cc"], {"P14": (60000, 2000000)}, proto=True, want=BASELIB, qshards=6)
    py(ck, "pyrandom", "m_random.py", {"P14": (6000, 200000)}, HP + LPBASE)
    ck.min_events = {"points": 100000, "stirling_rows": 1000}


@check("P15")
def p15(ck):
    ck.rule = ("random lengths, alignments, contents and aliasings; one distinct case per (kernel, length, offsets, "
               "contents), compared element by element with a scalar double-precision evaluation, with guard zones")
    cpp(ck, "support", ["support.cc"], {"P15": (600000, 20000000)}, proto=True, want=BASELIB, qshards=6)
    ck.min_events = {"add": 1000}


@check("P18")
def p18(ck):
    ck.rule = ("random histories of add_value / remove_value / realize / dump and reload over shared DPD state; one "
               "distinct case per history prefix, after which weights, remainder and counts were compared with a plain "
               "model; and random concentrations, for which the shares that new values take of the remainder were compared "
               "with Beta(1, gamma) by two-stage tests")
    cpp(ck, "support", ["support.cc"], {"P18": (60000, 2000000), "P18-law": (6000, 200000)}, proto=True,
        want=BASELIB, qshards=6)
    release(ck, "support", ["support.cc"], {"P18": (10000, 300000)})
    py(ck, "pymisc", "m_misc.py", {"P18": (1200, 60000), "P18-law": (80, 3000)}, ALLEXT)
    ck.min_events = {"states": 50000, "new_values": 5000, "dropped_values": 5000, "realized": 100, "shares": 500000,
                     "laws": 2000}


@check("P23")
def p23(ck):
    ck.rule = ("random histories over the sparse counter, sparse map and packed containers; one distinct case per "
               "history prefix, after which the whole container was compared with a std::map or std::vector model")
    cpp(ck, "support", ["support.cc"], {"P23": (120000, 4000000)}, proto=True, want=BASELIB, qshards=6)
    release(ck, "support", ["support.cc"], {"P23": (20000, 600000)})
    ck.min_events = {"counter_states": 20000, "map_states": 5000, "packed_states": 20000, "many_keys": 100}


@check("P16")
def p16(ck):
    ck.rule = ("random shared hyperparameters and group statistics of every model in every flavour; one distinct case per "
               "(flavour, model, parameters, history), dumped and reloaded through dict, JSON and protobuf, interchanged "
               "between flavours, and offered in malformed forms")
    ck.assumptions = [DOMAIN]
    py(ck, "pymodels", "m_models.py", {"P16": (6000, 200000)}, ALLEXT)
    py(ck, "pyclust", "m_clustering.py", {"P16-clustering": (4000, 100000)}, ALLEXT, qshards=2)
    for m in ALL7:
        models(ck, "proto", "proto.cc", {"P16": (20000, 600000)} if m not in ("DD", "DPD", "NIW") else
               {"P16": (20000, 600000), "P16-malformed": (8000, 200000)}, [m])
    fixed(ck, "proto", "proto.cc", {"P16": (4000, 100000)})
    cpp(ck, "proto-base", ["proto.cc"], {"P16": (20000, 600000)}, proto=True, want=CLUST)
    ck.min_events = {"messages": 20000, "loads_over_state": 20000, "used_messages": 5000,
                     "reloads": 2000, "protobuf_shared": 500, "protobuf_group": 500, "interchanges": 500,
                     "malformed_refused": 5000, "deprecated_aliases": 500}


@check("P22")
def p22(ck):
    ck.rule = ("the same random hyperparameters, history and candidate values driven through the dbg, hp and lp flavours "
               "of every model; one distinct case per history, whose statistics, scores and public interface were "
               "compared across flavours")
    ck.assumptions = [DOMAIN]
    py(ck, "pymodels", "m_models.py", {"P22": (8000, 300000)}, ALLEXT)
    py(ck, "pyclust", "m_clustering.py", {"P22-clustering": (4000, 100000), "P22-student": (6000, 200000)}, ALLEXT, qshards=2)
    ck.min_events = {"histories": 1000, "score_comparisons": 3000}


@check("P24")
def p24(ck):
    ck.rule = ("random probabilities, densities and truncations; one distinct case per set, for which many p-values of samples "
               "that follow it were compared with the uniform law by two-stage tests and samples that clearly do not had to "
               "be rejected; and random samples and scores whose bins, histograms and softmax were recomputed")
    py(ck, "pyutil", "m_util.py", {"P24": (8000, 300000), "P24-calibration": (240, 9000), "P24-discrete": (120, 4000),
                                   "P24-unif01": (100, 4000), "P24-density": (100, 4000)})
    ck.min_events = {"calibrated_pvalues": 50000, "rejections": 300, "softmaxes": 5000, "binnings": 5000, "histograms": 5000}


@check("P17")
def p17(ck):
    ck.rule = ("random sequences of JSON values and of byte records, written by every dumper under random names, suffixes and "
               "missing directories; one distinct case per (writer, items, path), whose file was decoded independently and "
               "read back by every compatible reader")
    ck.assumptions = ["paths that only work under Python 2 (compressed output, stream readers, records) run over files that "
                      "convert between text and bytes as Python 2 does"]
    py(ck, "pystreams", "m_streams.py", {"P17": (1600, 100000), "P17-records": (1600, 100000), "P17-directories": (400, 20000)})
    ck.min_events = {"round_trips": 3000, "stream_reads": 2000, "foreign_refused": 800, "directories": 500, "native": 800,
                     "cut": 6000, "cut_compressed": 800, "cut_refused": 2500}


@check("P19")
def p19(ck):
    ck.rule = ("random scripts of every operation of a model (or of the clusterings, samplers, special functions and vector "
               "kernels) from one seed; one distinct case per script, run again with unrelated work interleaved, with extra "
               "scoring and dumping, from copies of the state and of the random stream, and in other processes whose memory "
               "and history differ, and compared bit for bit")
    mons = {"P19": (2400, 100000), "P19-process": (160, 6000)}
    models(ck, "determinism", "determinism.cc", mons, ALL7)
    cpp(ck, "determinism-base", ["determinism.cc"], mons, proto=False, want=BASELIB)
    py(ck, "pymisc", "m_misc.py", {"P19": (1200, 40000), "P19-rng": (200, 8000), "P19-process": (12, 400)}, ALLEXT)
    ck.min_events = {"interleaved_runs": 1000, "copy_runs": 1000, "read_runs": 1000, "process_pairs": 100, "results": 100000, "python_process_results": 3000}


TSAN = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 suppressions=" + os.path.join(VERIF, "cpp", "tsan.supp")}


@check("P20")
def p20(ck):
    ck.rule = ("random scripts run by several threads at once, on objects of their own or reading one shared object, with "
               "injected yields; one distinct case per (scripts, threads), watched by ThreadSanitizer and compared bit for bit "
               "with sequential runs; and concurrent first requests for Stirling rows in fresh processes")
    ck.assumptions = ["glibc's global signgam (known finding) is suppressed in ThreadSanitizer and watched by a monitor of its own"]
    mons = {"P20-distinct": (240, 12000), "P20-shared": (240, 12000)}
    base = dict(mons)
    base.update({"P20-stirling": (80, 4000), "P20-signgam": (10, 100)})
    for v in ("tsan", "prod"):
        models(ck, "threads-" + v, "threads.cc", mons, ALL7, variant=v, env=TSAN)
        cpp(ck, "threads-%s-base" % v, ["threads.cc"], base, proto=False, want=BASELIB, variant=v, env=TSAN)
    ck.min_events = {"distinct_runs": 1000, "shared_runs": 1000, "thread_switches": 10000, "results_compared": 100000,
                     "stirling_requests": 1000}


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1",
        "UBSAN_OPTIONS": "print_stacktrace=1"}
VALGRIND = ("valgrind", "--quiet", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no")


@check("P21")
def p21(ck):
    ck.rule = ("every workload of the other C++ monitors under AddressSanitizer and UndefinedBehaviorSanitizer, and smaller "
               "ones under valgrind for uninitialised reads; random refused arguments to every operation, after which the "
               "object was compared with its state before and used again; and repeated lifetimes whose heap use was "
               "compared; one distinct case per workload case")
    ck.assumptions = ["leaks are looked for as steady growth of the heap under repetition"]
    bad = {"P21-group": (1600, 60000), "P21-mixture": (1600, 60000), "P21-shared": (600, 20000), "P21-memory": (24, 300)}
    models(ck, "badargs", "badargs.cc", bad, ALL7)
    cpp(ck, "badbase", ["badbase.cc"], {"P21-base": (20000, 600000)}, proto=True, want=BASELIB)
    py(ck, "pymisc", "m_misc.py", {"P21": (2000, 80000), "P21-memory": (24, 400)}, ALLEXT)
    less = {k: (v[0] // 8, v[1] // 8) for k, v in bad.items() if k != "P21-memory"}
    big = ck.thorough
    for v, e, wrap, x in (("asan", ASAN, (), 1.0), ("vg", {}, VALGRIND, 0.05)):
        def vol(**kw):
            return {k.replace("_", "-"): (max(2, int(q * x)), max(2, int(t * x))) for k, (q, t) in kw.items()}
        kw = dict(variant=v, env=e, wrap=wrap, only="P21:", sanitizer=v)
        models(ck, "badargs-" + v, "badargs.cc", {k: (max(2, int(a * x)), max(2, int(b * x))) for k, (a, b) in less.items()},
               ALL7, **kw)
        cpp(ck, "badbase-" + v, ["badbase.cc"], vol(P21_base=(2000, 60000)), proto=True, want=BASELIB, **kw)
        models(ck, "model-" + v, "model.cc", vol(P01=(400, 20000), P02=(400, 20000), P03=(400, 20000)), ALL7, **kw)
        models(ck, "mix-" + v, "mix.cc", vol(P04=(300, 10000), P05=(300, 10000)), MIX6, **kw)
        if v == "asan" or big:
            models(ck, "post-" + v, "post.cc", vol(P13=(10, 200)), ALL7, **kw)
        if v == "asan":
            fixed(ck, "model-" + v, "model.cc", vol(P01=(200, 10000), P02=(200, 10000), P03=(200, 10000)), **kw)
        cpp(ck, "clustering-" + v, ["clustering.cc"], vol(P06=(1000, 40000), P07=(1000, 40000), P09=(1000, 40000),
            P10=(20, 400)), proto=False, want=CLUST, **kw)
        cpp(ck, "sampling-" + v, ["sampling.cc"], vol(P11=(100, 4000), P12=(20, 800)), proto=False, want=BASELIB, **kw)
        cpp(ck, "support-" + v, ["support.cc"], vol(P14=(1000, 40000), P15=(4000, 100000), P18=(1000, 40000),
            P23=(2000, 60000)), proto=True, want=BASELIB, **kw)
    ck.min_events = {"refusals": 20000, "mixtures": 1000, "memory_rounds": 500, "full_shareds": 100}


@check("P25")
def p25(ck):
    ck.rule = ("random numbers, vectors, pairs and protobuf messages of every kind; one distinct case per value, compared both ways "
               "with itself, with versions moved within the tolerance and reordered, and with versions in which one field differs")
    ck.assumptions = ["the tolerance is 0.1 (1 + |x| + |y|), as in assert_close.hpp; keys within a message are unique"]
    for v, k in (("prod", 1), ("asan", 4)):
        cpp(ck, "compare-" + v, ["compare.cc"], {"P25": (40000 // k, 1200000 // k), "P25-numbers": (80000 // k, 2400000 // k)},
            variant=v, proto=True, want=CLUST, qshards=4, env=ASAN if v == "asan" else None)
    ck.min_events = {"accepted": 500000, "rejected": 500000, "fields": 200000, "grown": 30000}


@check("P26")
def p26(ck):
    ck.rule = ("random nested uses of chdir and tempdir whose bodies create files, change directory and raise; one distinct case per "
               "script, after every step of which the working directory and the directory tree were compared with what they must be")
    py(ck, "pyfiles", "m_files.py", {"P26": (12000, 400000)}, qshards=4)
    ck.min_events = {"chdirs": 10000, "tempdirs": 10000, "kept": 1000, "cleaned": 5000, "errors": 3000, "missing": 1000}
