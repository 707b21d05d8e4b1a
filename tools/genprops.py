#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/genprops.py > properties.jsonl)."""
import json
S='HeuristicFlow/src/'
def P(id,title,stmt,over,qtext,why,files,mech,state=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":mech,"where":", ".join(S+f for f in files)}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    print(json.dumps({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}))

NOCHK="The bundled test programs only run the solver and print; none compares anything with an expected value."
P("C01","SOGA selection restores the population size and invents nobody",
 "After the selection of every generation of a single-objective GA the population has exactly the configured size, for each of the ten selection methods, compile-time or run-time chosen, whatever the fitness landscape (plateaus, ties, negative and huge finite values included). Every survivor is an unmodified individual (same decision variable, same fitness) of the population before the selection; apart from Tournament, which may keep copies, no individual survives more often than it was present, and when nothing has to be eliminated nothing is.",
 ["inputs","configurations","histories"],"all selection methods x both fitness directions x record options x population sizes, probabilities, landscapes, seeds; every generation of repeated runs and option changes",
 NOCHK+" One test uses one selection method, one landscape.",
 ["Genetic/SOGASelecters.hpp","Genetic/SOGA.hpp","Genetic/GABase.hpp"],"each selector builds an elimination list, trims it to the surplus and erases it from the std::list population",
 [("population list","individuals alive between generations")])
P("C02","SOGA best gene is the true, live best; elitist selection never loses it",
 "At the end of every generation of a single-objective GA the reported best gene, best fitness and result belong to a living member of the population and no member is better in the configured direction. Under Truncation and EliteReserved selection the best fitness never gets worse from one generation to the next; Truncation keeps exactly the best individuals, and EliteReserved keeps the configured number of elites.",
 ["inputs","configurations","histories"],"all selection methods, directions, tie patterns, seeds, every generation",
 NOCHK+" Whether the best survives depends on random draws and ties.",
 ["Genetic/SOGA.hpp","Genetic/SOGASelecters.hpp"],"updateFailTimesAndBestGene / findCurrentBestGene after erasure",[("_bestGene","iterator to the current best")])
P("C03","Selection pressure always points to the better individuals",
 "For every fitness-driven selection method of the single-objective GA except Probability (Truncation, RouletteWheel, Tournament, LinearRank, ExponentialRank, Boltzmann with a strength of the sign of the direction, StochasticUniversal, EliteReserved) the better ranked half of a population survives selection clearly more often than the worse half, in both fitness directions, with default and user-set parameters. MonteCarlo selection is independent of fitness: every individual survives equally often.",
 ["inputs","configurations"],"selection methods x directions x fitness distributions x method parameters; survival frequencies over many random selections",
 NOCHK+" A frequency over many random selections cannot be seen in one run.",
 ["Genetic/SOGASelecters.hpp"],"weights of the elimination lottery and sort order per method")
P("C04","Solvers stop at their limits and report a faithful training record",
 "Every solver stops no later than its generation limit, and before it exactly when its limit of consecutive non-improving generations is passed (a zero limit in GA and PSO means none; multi-objective solvers only have the generation limit); generation() and failTimes()/earlyStopCounter() report the count of completed evolution steps and of trailing non-improving ones. With recording on, the record holds exactly one entry per evaluated generation, each the best fitness of that generation, starts afresh in a new run (for AOS: after initializePop), and its last entry is the reported best fitness.",
 ["inputs","configurations","histories"],"SOGA, NSGA2, NSGA3, PSO, AOS x limits (0, 1, small, unlimited) x landscapes incl. plateaus x repeated runs",
 NOCHK+" No test reads record(), failTimes() or checks generation().",
 ["Genetic/GABase.hpp","Genetic/SOGA.hpp","PSO/PSOAbstrcat.hpp","AOS/AOSBase.hpp","AOS/AOS4EigenAndStd.hpp"],"__impl_run loops, __impl_recordFitness, fail counters")
P("C05","Fitness is evaluated exactly once per individual and never stale",
 "Every individual a GA or AOS solver creates has its fitness function evaluated exactly once in its life, and every PSO particle exactly once per generation (and once at initialization), whatever the number of threads, tasks or the loop schedule. Whenever selection, best-tracking or a Pareto front looks at an individual, its stored fitness is that of its own current decision variable.",
 ["schedules","inputs","configurations","histories"],"thread counts 1..16, populations from 1 upwards (fewer tasks than threads included), hostile chunk schedules, all solvers",
 "Tests run one population size with two threads and never count evaluations.",
 ["Genetic/GABase.hpp","Genetic/MOGABase.hpp","PSO/PSOAbstrcat.hpp","AOS/AOSBoxed.hpp"],"is_fitness_computed/isComputed flags and the OpenMP evaluation loops")
P("C06","Parallel execution is race-free and equals serial execution",
 "For a pure fitness function, a run from a given random state visits the same individuals and ends with the same population, best solution, Pareto front and record whatever the number of threads and the loop schedule. No two threads ever access the same memory without synchronisation inside the library.",
 ["schedules","configurations"],"SOGA, NSGA2, NSGA3, PSO (Eigen and std containers), AOS x thread counts x permuted chunk schedules with injected delays",
 "Tests run with one fixed thread count, cannot compare schedules and use no race detector.",
 ["Genetic/GABase.hpp","Genetic/NSGABase.hpp","PSO/PSOAbstrcat.hpp","PSO/PSO4Eigen.hpp","PSO/PSO4std.hpp","AOS/AOSBoxed.hpp","Global/Randoms.hpp"],"OpenMP parallel-for regions; shared random engine")
P("C07","Crossover and mutation only append offspring and never touch parents",
 "In every generation of SOGA, NSGA2 and NSGA3 the crossover step pairs distinct individuals without reuse and appends exactly two children per pair, and the mutation step appends one mutant per chosen individual; all individuals present before stay bit-identical and in the population. A probability of 1 takes every individual (less an odd one out in crossover), a probability of 0 practically none, and in between the selected share follows the configured probability.",
 ["inputs","configurations","histories"],"crossover/mutation probabilities in [0,1], population sizes incl. odd and 1, all GA solvers, seeds",
 NOCHK,
 ["Genetic/GABase.hpp","Genetic/GAOption.hpp"],"__impl_crossover / __impl_mutate")
P("C08","Default genetic operators obey their documented gene algebra",
 "Arithmetic crossover gives c1=r*p1+(1-r)*p2 and c2=r*p2+(1-r)*p1 (up to rounding) for the chosen ratio; one-point swap gives children that are p1|p2 and p2|p1 cut at one common random point; random crossover takes every element of each child from the same position of a parent with the chosen probability; children have the parents' size and parents are unmodified. Default initialization fills every element inside the given range, and default mutation (continuous, symbolic or boolean box) copies the parent, changes only one element and stays inside the box; the symbolic mutation moves to any of the other symbols.",
 ["inputs","configurations"],"std::array, std::vector, fixed and dynamic Eigen containers; double, float, integer and bool elements; ratios, dims 1..40; with and without Args",
 NOCHK+" Tests touch one operator with one container each.",
 ["Genetic/Miscellaneous4GA.hpp","EAGlobal/BoxConstraint.hpp"],"GADefaults static operators")
P("C09","Multi-objective fronts are exactly the non-dominated set",
 "After every generation of NSGA2 and NSGA3 the reported Pareto front consists of living population members, no population member dominates any of them (hence they are mutually non-dominated), and every non-dominated member of the population is reported, in the configured fitness direction; all accessors (gene set, fitness list, variable/fitness pairs) agree. Dominance itself is irreflexive, asymmetric and transitive, and agrees with its definition for fixed and run-time objective counts.",
 ["inputs","configurations","histories"],"objective counts 2..10 fixed and dynamic, both directions for NSGA2, duplicates and ties, population smaller/larger than the front",
 NOCHK+" Tests print the front.",
 ["EAGlobal/Pareto.hpp","Genetic/NSGABase.hpp","Genetic/MOGAAbstract.hpp","Genetic/MOGABase.hpp","Genetic/NSGA2.hpp","Genetic/NSGA3Abstract.hpp"],"calculateDominatedNum, divideLayers, updatePF")
P("C10","NSGA2 keeps the least dominated, then the least crowded",
 "After each NSGA2 selection the population has exactly the configured size and all survivors are unmodified members of the pre-selection population; nobody that was dominated by more individuals survives while one dominated by fewer is dropped. Among individuals dominated equally often, of which only some fit, none with a smaller crowding distance survives while one with a larger is dropped; so with room for them the best value reached in each objective never gets lost.",
 ["inputs","configurations","histories"],"2..8 objectives, both directions, sizes, landscapes with ties/duplicates, every generation",
 NOCHK,
 ["Genetic/NSGA2.hpp","Genetic/NSGABase.hpp"],"__impl_select: layer fill then congestion sort",[("dominated_by_num","how many individuals dominate this one"),("congestion","crowding distance")])
P("C11","NSGA3 reference points are the exact simplex lattice",
 "For every objective number M and precision p the single-layer reference set has exactly C(M+p-1,p) points, pairwise distinct, non-negative multiples of 1/p that sum to 1; the double-layer set is the union of the outer lattice and the inner lattice contracted by 1/sqrt(2), with referencePointCount() equal to the number of points. The set is remade by initialization after the precision or the objective number changes.",
 ["inputs","configurations","histories"],"M in 2..10 (fixed and dynamic), p in 1..12, single and double layer, re-initialization",
 NOCHK,
 ["Genetic/NSGA3Abstract.hpp","Genetic/NSGA3Base.hpp","Genetic/NSGA3.hpp","Global/HeuMaths.hpp"],"pri_makeRP recursion, makeReferencePoses, NchooseK")
P("C12","NSGA3 keeps the least dominated and balances reference-point niches",
 "After each NSGA3 selection the population has exactly the configured size, survivors are unmodified members of the pre-selection population, and nobody dominated by more individuals survives while one dominated by fewer is dropped. Objectives are translated by the ideal point and scaled by the extreme-point intercepts, each candidate is attached to its nearest reference line, and the last places go to the reference points with the fewest members first (a point without members takes its closest candidate).",
 ["inputs","configurations","histories"],"3..6 objectives, single/double layer, sizes, precisions, DTLZ and random landscapes, every generation",
 NOCHK,
 ["Genetic/NSGA3Abstract.hpp","Genetic/NSGA3.hpp"],"normalize, associate, nichePreservation",[("closestRefPoint","index of the nearest reference line"),("translatedFitness","normalised objectives")])
P("C13","Box constraints contain every value they produce",
 "For every box constraint (boolean, discrete, continuous, square or per-dimension, run-time or compile-time ranges) initialization, delta mutation and constraint application always yield values inside [min,max] of each dimension, of the box's dimension and shape. Applying the constraint leaves inside values unchanged and clamps outside ones to the nearest bound; a delta changes only the chosen element, by at most delta (one step for discrete boxes, a flip for boolean ones); set ranges and deltas read back unchanged, and initialization reaches both ends of a small integer range.",
 ["inputs","configurations"],"all box classes x std::array/std::vector/Eigen fixed/dynamic vectors and matrices x element types x ranges (negative, asymmetric, tiny, huge)",
 "Boxes test prints some boxes and checks nothing.",
 ["EAGlobal/BoxConstraint.hpp","EAGlobal/SizeBody4BoxConstraint.hpp"],"initialize/applyConstraint/applyDelta/min/max/delta")
P("C14","PSO keeps particles in range and its bests are the best ever visited",
 "After every PSO generation all positions lie inside [posMin,posMax] and all velocities inside [-maxVelocity,maxVelocity]; each particle's personal best is the best of all positions it has been evaluated at and the global best the best of all personal bests, each with the fitness of its stored position, so the reported best never gets worse. Positions advance by exactly the clamped velocity (and are clamped to the range), velocities follow the inertia / personal / global attraction formula with fresh random attraction ratios within [0,1], and ranges that were set read back unchanged.",
 ["inputs","configurations","histories","schedules"],"square and per-dimension boxes x Eigen fixed/dynamic, std::array, std::vector x directions x options x seeds, every generation",
 NOCHK+" Only square Eigen boxes are instantiated.",
 ["PSO/PSOAbstrcat.hpp","PSO/PSO4Eigen.hpp","PSO/PSO4std.hpp","PSO/BoxWithVelocity.hpp"],"updatePopulation, updatePGBest, Box4PSO")
P("C15","AOS keeps its best electron, its box and consistent layers",
 "After every AOS generation at most electronNum electrons remain, these are the best of all candidates (each new one made from an old electron by the photon effect or a bounded local jump), all states lie inside the box, and the reported best electron is a living electron with the best energy, which never gets worse. The layers are non-empty, together hold each surviving electron exactly once, at most maxLayerNum of them, ordered from best to worst energy; binding states and energies of the atom (before the selection) and of each layer are the means over its electrons and each layer's best is its lowest-energy (best) member.",
 ["inputs","configurations","histories"],"square/rectangular/unbounded/compile-time boxes x Eigen and std containers x directions x electron/layer/photon options incl. plateaus, every generation",
 NOCHK+" One compile-time Eigen box is instantiated.",
 ["AOS/AOS.hpp","AOS/AOSBase.hpp","AOS/AOS4EigenAndStd.hpp","AOS/AOSBoxed.hpp"],"selectAndMakeLayers, computeAtomBSBELE, computeLayerBSBELE, photon effects")
P("C16","Compile-time number codes round-trip",
 "encode followed by decode returns the same double or float exactly (the sign of zero aside) for zero, subnormal, normal, infinite and NaN values of both signs, and the code is the number's IEEE bit pattern. DivEncode decodes to the quotient it was made from and PowEncode to its coefficient, read as d.ddd, times its power of ten (up to rounding), at compile time and run time alike.",
 ["inputs"],"structured and random 64-bit patterns; families of (numerator, denominator) and (significand, power)",
 "The encoder test prints a handful of values.",
 ["Global/ConvertDoubleAndBinCode.hpp","Global/TemplateFloat.hpp"],"bit decomposition/recomposition loops; DivCode/PowCode packing")
P("C17","Random helpers stay in range and math helpers match their definitions",
 "randD/randF/randIdx and their ranged and array forms only return values in the documented half-open ranges, reach every index of small ranges about equally often, and the array forms fill exactly the requested elements; normal draws have the requested mean and deviation; logistic chaos sequences follow x->4x(1-x) within [0,1]. fractorial, NchooseK, square, sign, min/max (run-time packs and compile-time) and gaussianCurve agree with their mathematical definitions wherever the result is representable.",
 ["inputs"],"argument ranges exhaustively for small values and randomly for large ones; many draws",
 "MinMaxCompileTime prints one value; randomness is never checked.",
 ["Global/Randoms.hpp","Global/HeuMaths.hpp","Global/LogisticChaos.hpp"],"uniform/normal wrappers and arithmetic helpers")
P("C18","SimpleMatrix containers behave like a column-major matrix value",
 "Dynamic, fixed-size and mapped matrices store and return exactly what was written at every (row, column) and linear index, keep size=rows*cols, iterate each element once in storage order, and copies and moves (construction and assignment, across matrix kinds) preserve contents and are independent of the source. resize and reserve that fit keep the elements and the memory, a growing reserve keeps the elements, and every element object is constructed and destroyed exactly once, for trivial and non-trivial element types, without leaks or invalid accesses.",
 ["histories","inputs"],"random operation sequences against a reference model, element types int/double/std::string/lifetime-counting",
 "The simpleMatrix test prints a few ints.",
 ["SimpleMatrix/MatrixDynamicSize.hpp","SimpleMatrix/MatrixFixedSize.hpp","SimpleMatrix/MatrixMap.hpp","SimpleMatrix/MatrixBase.hpp"],"allocation, index mapping, copy/move, resize")
P("C19","multiBitSet is a faithful packed array",
 "A packed array of k-bit elements returns for every index the last value written there (modulo 2^k), whatever neighbours were written before or after, through every access path (at, subscript, front/back, iterators, references). push/emplace/pop, resize (new elements are 0), reserve, shrink, clear, copying, assignment and moving behave like those of a vector of integers, without leaks or invalid accesses, for every element width and block type.",
 ["histories","inputs","configurations"],"widths 1..8,16,32 x block types 8..64 bits; random operation sequences against std::vector",
 "The multiBitSet test prints a few values for one width.",
 ["SimpleMatrix/MultiBitSet.hpp"],"block/offset arithmetic and masks")
P("C20","Single-objective benchmark functions match their published definitions",
 "Every single-objective test function shipped with the library equals its published formula at every point (up to rounding), for std::array, std::vector and Eigen variables, fixed or run-time dimension, with and without Args; in particular the documented global minimum has the documented value and no sampled point lies below it.",
 ["inputs","configurations"],"random points in and around each published domain, known optima, dims 1..30, four container kinds",
 "The testFunctions test evaluates and prints some of them without comparing.",
 ["EAGlobal/SOFunctions.hpp","EAGlobal/testFunctionsCommon.hpp"],"SOFunctions2 / SOFunctionsX formulas")
P("C21","Multi-objective benchmark functions match their published definitions",
 "Every multi-objective test function (Schaffer, Fonseca-Fleming, Kursawe, Viennet, Binh-Korn, Chankong-Haimes, Poloni, DTLZ1 to 9) equals its published formula at every point of its domain (up to rounding, objectives whose constraint is violated being raised by a penalty of at least 1000), writes exactly its objective vector of the right size and reads exactly its decision variables, for every supported container and objective count. Known Pareto-optimal points satisfy the published front equation.",
 ["inputs","configurations"],"random points of the published domains, Pareto-optimal points, M in 2..8, N, four container kinds",
 "Only a few are run inside solvers and nothing is compared.",
 ["EAGlobal/MOFunctions.hpp"],"MOFunctions formulas")
P("C22","No use of the library corrupts memory or invokes undefined behaviour",
 "Any sequence of legal calls on any solver (configure, initialize, run, re-run, reconfigure to smaller or larger populations, change dimension, copy results, destroy), with any legal option values and any legal fitness landscape, performs no invalid memory access, no use of dead objects, no undefined arithmetic and no infinite loop. This includes extreme populations (1, 2, odd), limits of 0, degenerate objectives (constant, duplicated, infinite fitness aside) and all supported containers.",
 ["histories","configurations","inputs"],"random legal call sequences over all solvers under address+undefined sanitizers, bounded work budget as hang detector",
 "Tests run un-instrumented happy paths once; the bundled SOGA test itself hits a use-after-free that goes unnoticed.",
 ["Genetic/GABase.hpp","Genetic/SOGA.hpp","Genetic/SOGASelecters.hpp","Genetic/NSGA2.hpp","Genetic/NSGA3Abstract.hpp","PSO/PSOAbstrcat.hpp","AOS/AOS.hpp"],"iterators/pointers into std::list populations, uninitialised members, OpenMP chunk arithmetic")
