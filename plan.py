"""Which monitors decide which property."""

TUS = {}
for g in range(6):
    TUS["soga%d" % g] = {"src": ["soga.cpp"], "flags": ["-DSM_GROUP=%d" % g]}

PROPS = {}
SOGA_ALL = {"soga%d" % g: ["soga_*"] for g in range(6)}
RULE_SOGA = ("a case is one SOGA run drawn from {selection method, compile-time or run-time chosen, direction, record, landscape, "
             "population 1..24, limits, probabilities, method parameters, re-run / re-initialize / re-configure}; the monitor "
             "compares the population before and after every selection; distinct = different (sizes, best fitness per "
             "generation) traces")
PROPS["C01"] = {"tus": dict(SOGA_ALL), "rule": RULE_SOGA}
PROPS["C02"] = {"tus": dict(SOGA_ALL), "rule": RULE_SOGA}
PROPS["C03"] = {"tus": {"soga%d" % g: ["press_*"] for g in range(6)},
                "rule": "a case is one (method, direction, fitness shape, list order, parameter variant, N, K=N/2); many "
                        "single selections by the library are counted per fitness rank; distinct = different "
                        "(better half, worse half) survival counts"}

PROPS["C28"] = {"tus": {"soga%d" % g: ["draw_*"] for g in range(6)},
                "rule": "a case is one population of one to five survivors out of 2..12 (method, direction, fitness shape with ties "
                        "and outliers, list order, method parameters); thousands of single selections by the library are counted "
                        "per survivor set; distinct = different count vectors"}

for g in range(9):
    TUS["moga%d" % g] = {"src": ["moga.cpp"], "flags": ["-DMO_GROUP=%d" % g]}
N2 = {"moga%d" % g: ["nsga2_*"] for g in (0, 1, 2)}
N3 = {"moga%d" % g: ["nsga3_*"] for g in (3, 4, 5, 6)}
LATT = {"moga7": ["lattice_*"]}
DOM = {"moga8": ["dominance"]}
MOGA_ALL = dict(N2, **N3)
RULE_MOGA = ("a case is one NSGA2/NSGA3 run drawn from {objectives 2..5 fixed and run-time, direction, record, landscape incl. ties, "
             "duplicates and constant objectives, population 1..24, limits, probabilities, reference precision, re-run / "
             "re-initialize / re-configure}; the monitor compares the population before and after every selection; "
             "distinct = different (sizes, ideal point per generation) traces")
PROPS["C07"] = {"tus": dict(SOGA_ALL, **MOGA_ALL), "rule": RULE_SOGA + "; " + RULE_MOGA}
PROPS["C09"] = {"tus": dict(MOGA_ALL, **DOM), "rule": RULE_MOGA + "; plus one case per pair/triple of objective vectors for the dominance laws"}
PROPS["C10"] = {"tus": dict(N2), "rule": RULE_MOGA}
PROPS["C11"] = {"tus": dict(N3, **LATT), "rule": "a case is one (objectives, precision(s)) reference set, or one NSGA3 run; distinct = different sets/traces"}
PROPS["C12"] = {"tus": {n: ["nsga3_*"] + (["share_*"] if n in ("moga3", "moga4") else []) for n in N3}, "rule": RULE_MOGA + "; plus one case per population whose niche choices are repeated a thousand times (share_*)"}

for g in range(5):
    TUS["pso%d" % g] = {"src": ["pso.cpp"], "flags": ["-DPS_GROUP=%d" % g]}
    TUS["aos%d" % g] = {"src": ["aos.cpp"], "flags": ["-DAO_GROUP=%d" % g]}
PSO_ALL = {"pso%d" % g: ["pso_*"] for g in range(5)}
AOS_ALL = {"aos%d" % g: ["aos_*"] for g in range(5)}
RULE_PSO = ("a case is one PSO run drawn from {container, fixed/dynamic dimension, square/per-dimension box, direction, record, "
            "landscape, population 1..24, limits, inertia and learn factors, re-run / re-initialize / re-configure}; the monitor "
            "replays every particle's history of evaluations; distinct = different traces")
RULE_AOS = ("a case is one AOS run drawn from {container, box kind, direction, record, landscape, electrons, layers, photon rate, "
            "limits, re-run / re-initialize}; distinct = different traces")
# the same monitors compiled without OpenMP: the library has separate code for that
SERIAL = {}
for n in ("soga0", "moga0", "moga3", "pso0", "pso2", "aos0", "aos2"):
    TUS[n + "s"] = dict(TUS[n], san="serial")
    SERIAL[n + "s"] = {"s": ["soga_*"], "m": ["nsga*"], "p": ["pso_*"], "a": ["aos_*"]}[n[0]]
PROPS["C14"] = {"tus": dict(PSO_ALL), "rule": RULE_PSO}
PROPS["C15"] = {"tus": dict(AOS_ALL), "rule": RULE_AOS}
ALL_SOLVERS = dict(SOGA_ALL, **MOGA_ALL)
ALL_SOLVERS.update(PSO_ALL)
ALL_SOLVERS.update(AOS_ALL)
ALL_SOLVERS.update(SERIAL)
# and on a stand-in for the OpenMP runtime that draws team sizes and hostile loop schedules
SHIM = {}
for n in ("soga0", "moga0", "moga4", "pso0", "pso2", "aos0", "aos2"):
    TUS[n + "x"] = dict(TUS[n], src=TUS[n]["src"] + ["ompshim.cpp"])
    SHIM[n + "x"] = {"s": ["soga_*"], "m": ["nsga*"], "p": ["pso_*"], "a": ["aos_*"]}[n[0]]
PROPS["C04"] = {"tus": {t: w for t, w in ALL_SOLVERS.items() if t not in ("pso3", "pso4", "aos3", "aos4")}, "rule": "; ".join([RULE_SOGA, RULE_MOGA, RULE_PSO, RULE_AOS])}
PROPS["C05"] = {"tus": dict(ALL_SOLVERS, **SHIM), "rule": "; ".join([RULE_SOGA, RULE_MOGA, RULE_PSO, RULE_AOS])}

for g in range(4):
    TUS["ops%d" % g] = {"src": ["ops.cpp"], "flags": ["-DOP_GROUP=%d" % g]}
for g in range(5):
    TUS["box%d" % g] = {"src": ["box.cpp"], "flags": ["-DBX_GROUP=%d" % g] + (["-std=c++20"] if g == 4 else [])}
PROPS["C08"] = {"tus": {"ops%d" % g: ["ops_*"] for g in range(4)},
                "rule": "a case is one operator call on random parents (size, element type, container, ratio/probability, with and "
                        "without Args) or one box with many operator calls; distinct = different (results) signatures"}
PROPS["C13"] = {"tus": {"box%d" % g: ["box_*"] for g in range(5)},
                "rule": "a case is one box (kind, element type, container, shape, ranges, deltas) with 30 to many initializations, "
                        "constraint applications and deltas; distinct = different value traces"}

for g in range(3):
    TUS["codes%d" % g] = {"src": ["codes.cpp"], "flags": ["-DCD_GROUP=%d" % g]}
TUS["mathrand"] = {"src": ["mathrand.cpp"]}
PROPS["C16"] = {"tus": {"codes%d" % g: ["codes_*"] for g in range(3)},
                "rule": "a case is one exponent (many mantissas), one compile-time number, one quotient or one power; distinct = different codes"}
PROPS["C17"] = {"tus": {"mathrand": ["*"]},
                "rule": "a case is one helper with one argument tuple (many draws, half of them from hostile engine states); distinct = different draws/results"}

for g in range(3):
    TUS["mat%d" % g] = {"src": ["mat.cpp"], "flags": ["-DMT_GROUP=%d" % g]}
for g in range(4):
    TUS["bits%d" % g] = {"src": ["bitset.cpp"], "flags": ["-DBS_GROUP=%d" % g]}
PROPS["C18"] = {"tus": {"mat%d" % g: ["mat_*"] for g in range(3)},
                "rule": "a case is one operation of a random sequence on up to five dynamic matrices, fixed ones and maps, after which all "
                        "of them are compared with their models; distinct = different (shapes, capacities, position in the sequence)"}
PROPS["C19"] = {"tus": {"bits%d" % g: ["bits_*"] for g in range(4)},
                "rule": "a case is one operation of a random sequence on up to five packed arrays, after which all are compared with "
                        "std::vector models through their access paths; distinct = different (contents, capacities)"}

for g in range(3):
    TUS["func%d" % g] = {"src": ["func.cpp"], "flags": ["-DFN_GROUP=%d" % g]}
PROPS["C20"] = {"tus": {"func0": ["so_*"]},
                "rule": "a case is one test function of one container at one point (random in and around the published domain, lattice points, "
                        "known minimizers), with and without Args; distinct = different values"}
PROPS["C21"] = {"tus": {"func1": ["mo_*"], "func2": ["dtlz_*"]},
                "rule": "a case is one test function of one pair of containers, N, M at one point (random, ends of the domain, lattice, "
                        "Pareto-optimal points), with and without Args; distinct = different objective vectors"}

TUS["race_t"] = {"src": ["race.cpp", "ompshim.cpp"], "san": "tsan"}
TUS["race_p"] = {"src": ["race.cpp", "ompshim.cpp"], "san": "plain"}
PROPS["C06"] = {"tus": {"race_t": ["race_*"], "race_p": ["same_*"]},
                "rule": "a case is one solver run (kind, options, landscape, random state) under one thread count and loop schedule, either "
                        "watched by ThreadSanitizer or compared field by field with its serial run; distinct = different chunk-to-thread "
                        "assignments with different loop shapes",
                "assumptions": ["the stand-in OpenMP runtime (ompshim.cpp) implements the entry points gcc emits for the library's loops"]}

FZ = ["-fsanitize=float-cast-overflow", "-D_GLIBCXX_ASSERTIONS"]
C22 = {}
for g in range(5):
    TUS["fuzz%d" % g] = {"src": ["fuzz.cpp"], "flags": ["-DFZ_GROUP=%d" % g] + FZ}
    TUS["fuzz%ds" % g] = {"src": ["fuzz.cpp"], "flags": ["-DFZ_GROUP=%d" % g] + FZ, "san": "serial"}
    TUS["fuzz%dx" % g] = {"src": ["fuzz.cpp", "ompshim.cpp"], "flags": ["-DFZ_GROUP=%d" % g] + FZ}
    TUS["fuzz%dm" % g] = {"src": ["fuzz.cpp"], "flags": ["-DFZ_GROUP=%d" % g], "san": "single",
                          "wrap": ["valgrind", "-q", "--error-exitcode=77"]}
    for i, k in enumerate(("", "s", "x", "m")):
        TUS["fuzz%d%s" % (g, k)]["seed_add"] = 100000 * i  # different sequences in every build
        C22["fuzz%d%s" % (g, k)] = ["fz_*"]
PROPS["C22"] = {"tus": C22, "cpu": 120,
                "rule": "a case is one call of a random legal sequence (configure, initialize, run, re-run, reconfigure smaller or larger, change "
                        "dimension / objectives / precision / box, read and copy everything, destroy) on one solver, with hostile random states; "
                        "distinct = different final states"}

for g in range(8):
    TUS["meta%d" % g] = {"src": ["meta.cpp"], "flags": ["-DME_GROUP=%d" % g]}
for g in (0, 2, 3, 4, 5):
    TUS["meta%dn" % g] = {"src": ["meta.cpp"], "flags": ["-DME_GROUP=%d" % g, "-std=c++20"], "seed_add": 300000}
RULE_META = ("a case is one solver configuration (kind, container, option values, landscape, random state, number of runs) executed by "
             "two or more solvers; distinct = different (visited individuals, population, best, record) digests")
META = {"meta%d%s" % (g, k): ["static_*", "reuse_*"] for g in range(6) for k in ("", "n") if not (k and g == 1)}
PROPS["C23"] = {"tus": dict(META), "rule": RULE_META}
PROPS["C24"] = {"tus": dict(META), "rule": RULE_META}
PROPS["C25"] = {"tus": {"meta6": ["mirror_*"], "meta7": ["mirror_*"]}, "rule": RULE_META}

TUS["programs"] = {"script": "programs.py"}
PROPS["C26"] = {"tus": {"programs": ["programs"]},
                "rule": "a case is one generated program: one to four translation units with random include orders of the public headers, one compiler "
                        "configuration, built, linked and run; distinct = different (include orders, configuration)"}

TUS["traits"] = {"src": ["traits.cpp"]}
TUS["traitsn"] = {"src": ["traits.cpp"], "flags": ["-std=c++20"], "seed_add": 300000}
PROPS["C27"] = {"tus": {"traits": ["traits_*"], "traitsn": ["traits_*"]},
                "rule": "a case is one type with everything the traits say about it, compared with what objects of that type do at run time, or one name; "
                        "distinct = different (type, answers)"}

TUS["outcheck"] = {"script": "outcheck.py"}
PROPS["C29"] = {"tus": {"outcheck": ["builds"]},
                "rule": "a case is one run of a solver (kind, options, landscape, random state) in one of fifteen builds of the same program, with everything "
                        "it prints captured and what it computed compared with the other builds; distinct = different (visited individuals, final state) digests"}
PROPS["C29"]["technique"] = "offline checker over everything the program prints, and digest comparison of fifteen builds of the running library"
