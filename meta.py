#!/usr/bin/env python3
"""Texts of the properties; `python3 meta.py` writes properties.jsonl and MANIFEST.json."""
import json, os
import props

V = os.path.dirname(os.path.abspath(__file__))
S = "src/"
PR, PC, CT, CM = S + "params.rs", S + "process.rs", S + "process/ctbn.rs", S + "process/ctmp.rs"
SA, TO, PL = S + "sampling.rs", S + "tools.rs", S + "parameter_learning.rs"
SL = S + "structure_learning/"
SF, SB, HT, CB = SL + "score_function.rs", SL + "score_based_algorithm.rs", SL + "hypothesis_test.rs", SL + "constraint_based_algorithm.rs"
RF, RE = S + "reward/reward_function.rs", S + "reward/reward_evaluation.rs"
M = []


def p(id, title, statement, over, quant, tests, files, mech, level_note=None):
    M.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, level_note=level_note))


p("C01", "One parameter index per parent configuration, the same everywhere",
  "For every network, the parameters of a variable are looked up by the mixed-radix number of the states of its parents, lowest-numbered parent least significant: each configuration of the parents has an index of its own inside the table, and variables that are not parents have no influence. Giving the parent set explicitly yields the same index, and joint states and joint indices convert into each other without loss.",
  ["inputs", "configurations"], "every parent set and every pair of joint states of networks of a few variables with mixed cardinalities",
  "The tests look at a handful of states of two or three networks; a bijection over all parent sets and states is a statement about all of them.",
  [CT, PC], [("index from the adjacency matrix", CT + " get_param_index_network"), ("index from a given set", CT + " get_param_index_from_custom_parent_set"), ("joint index to state", CT + " idx_to_state")])
p("C02", "Edges, parents, children and nodes agree and change only as asked",
  "After any sequence of node additions, edge additions and structure resets, a variable's parents and children are exactly the sources and targets of the edges added since the last reset, and every other edge is as before. Nodes get consecutive numbers and keep name and domain; a reset leaves no edges.",
  ["histories", "configurations"], "every starting graph over two and three variables (self loops included) and every next operations",
  "Tests add one or two edges to one network; the claim is about every history.",
  [CT], [("adjacency matrix updates", CT + " add_edge, initialize_adj_matrix, add_node"), ("reading it back", CT + " get_parent_set, get_children_set")])
p("C03", "Stored parameters always fit the current parents of their variable",
  "Whatever is done to the structure of a network (edges added, the structure reset, a variable added, a random graph generated), the intensity matrices and statistics a variable still holds have one table per configuration of its current parents. Variables whose parents did not change keep their parameters, and a variable that gains a parent loses its own.",
  ["histories", "configurations"], "every graph over three variables with all parameters set, then every structure-changing operation",
  "Tests set parameters once after building the structure; stale parameters need a particular order of operations.",
  [CT, PR, TO], [("discarding parameters", CT + " add_edge, reset_params_with_parents"), ("reset", PR + " reset_params")])
p("C04", "A variable accepts exactly the valid intensity matrices",
  "Setting an intensity matrix succeeds when every table is square over the variable's domain with non-negative rates off the diagonal, a negative diagonal and rows that sum to zero, and then the matrix is stored unchanged. It fails, leaving no matrix behind, when the shape is wrong, an entry is not a finite number, a rate is negative, a diagonal is not negative or a row does not sum to zero beyond rounding.",
  ["inputs"], "every matrix of real entries of up to two tables over two states or one table over three states; one bad entry anywhere; all small shapes",
  "Tests try five matrices; acceptance is a statement about all real matrices.",
  [PR], [("validation", PR + " validate_params"), ("storing", PR + " set_cim")])
p("C05", "The next state follows the rates of the current row",
  "When a variable leaves a state, the next state is another state of its domain, each being chosen on a share of the random draws equal to its rate divided by the rate of leaving, under the given configuration of the parents; a state of rate zero is never chosen, also when rates are rounded. A start state is an unbiased draw from the domain, and without an intensity matrix an error is returned.",
  ["inputs"], "every row of real rates of variables with up to four states, every draw of the generator",
  "A test draws a few samples with one seed; that every draw leads to the right state for all rates is out of its reach.",
  [PR], [("cumulated rates against a uniform draw", PR + " get_random_state"), ("uniform start", PR + " get_random_state_uniform")])
p("C06", "Residence times are exponential with the rate on the diagonal",
  "The time a variable stays in a state is minus the logarithm of a fresh uniform draw divided by the rate of leaving that state under the given configuration of the parents, so it is never negative and its mean is the inverse of the rate.",
  ["inputs"], "every intensity matrix with three configurations over two and three states, every state and configuration, every draw",
  "A test compares an average over many draws of one matrix.",
  [PR], [("inverse transform", PR + " get_random_residence_time")])
p("C07", "Forward sampling is the race of the network's exponential clocks",
  "A sampled trajectory starts at time zero in the initial state (drawn per variable if none is given); every further sample is the transition of the variable whose clock fires first, at that time, to a state drawn from its row under its parents' states, all others staying as they are. Only the variable that moved and its children get new clocks, and a reset starts over with no clock left.",
  ["inputs", "histories", "configurations"], "every stream of draws for networks of up to three variables over three to four samples, all graphs over two variables, all initial states, arbitrary rates over two binary variables",
  "Tests run a few seeded steps; which clock wins and which clocks are redrawn depends on the draws.",
  [SA], [("clock race", SA + " next"), ("restart", SA + " reset")])
p("C08", "Generated datasets are well formed and reproducible",
  "A generated dataset has as many trajectories as asked for; each starts at time zero, ends at the requested time with the last state repeated, has ordered times and states inside the domains, and exactly one variable changes at each time in between. They are the sampler's trajectories cut at the end time, nothing lost, and the same seed gives the same dataset.",
  ["inputs", "configurations"], "every seed stream that ends within the bound on draws, every end time, networks of one and two variables",
  "Tests check lengths of two datasets with fixed seeds.",
  [TO, SA], [("collecting samples up to the end time", TO + " trajectory_generator")])
p("C09", "Sufficient statistics count exactly what the data contains",
  "For every dataset, variable and parent set, the transition counts are the numbers of observed changes of the variable under each configuration of the parents (as it was when the variable left its state), and the residence times are the total times spent in each state under each configuration. Diagonal counts are zero, residence times add up to the observed time, and trajectories contribute independently.",
  ["inputs", "histories"], "every history of up to four time points (one or two trajectories) over up to four variables with mixed cardinalities, arbitrary times",
  "Tests use one generated dataset and compare with recorded numbers.",
  [PL], [("accumulation over trajectories", PL + " sufficient_statistics")])
p("C10", "Maximum likelihood parameters are counts over residence times",
  "Maximum likelihood learning gives each variable, under each configuration of the parents, the rate count over residence time for every transition out of a visited state, with rows that sum to zero, and attaches the statistics used. The variable keeps name and domain, the parent set is the network's own when none is given, and the network itself is left alone.",
  ["inputs", "histories", "configurations"], "every history of a few time points over up to four variables, arbitrary times, parent set given or taken from the network",
  "Tests compare a learned matrix of one network with the true one up to a tolerance.",
  [PL], [("ratio and diagonal", PL + " impl ParameterLearning for MLE")])
p("C11", "Bayesian parameters smooth counts and times by the prior",
  "Bayesian learning gives the rate (count + alpha/k) / (residence time + tau/k), k being the number of configurations of the parents, with rows that sum to zero; with a positive prior every learned matrix is a valid intensity matrix, also for states never visited. The statistics attached are those of the data without the prior.",
  ["inputs", "histories", "configurations"], "every history of a few time points, arbitrary times, every alpha up to 1000, every positive tau",
  "Tests compare a learned matrix of one network with the true one up to a tolerance.",
  [PL], [("imaginary counts", PL + " impl ParameterLearning for BayesianApproach")])
p("C12", "The log-likelihood score is the marginal log-likelihood of the family",
  "For every dataset, variable and parent set the score is the logarithm of the marginal likelihood of the variable's history given its parents, under the gamma prior on exit rates and the Dirichlet prior on destinations with the given imaginary counts and time, both divided by the number of configurations of the parents. A negative imaginary time is refused.",
  ["inputs", "histories"], "every history of a few time points over up to four variables, arbitrary times and positive tau, alpha 1 and 2",
  "Tests compare one score with one number.",
  [SF], [("sum over configurations and states", SF + " LogLikelihood::compute_score")])
p("C13", "BIC is the log-likelihood minus the complexity penalty",
  "For every dataset, variable and parent set the BIC score is the log-likelihood score minus half the logarithm of the number of observed intervals in all trajectories times the number of free parameters, which is configurations of the parents times states times states minus one.",
  ["inputs", "histories"], "as for the log-likelihood score",
  "Tests compare one score with one number.",
  [SF], [("penalty", SF + " impl ScoreFunction for BIC")])
p("C14", "Hill climbing ends in a structure no single change improves",
  "Score-based learning gives every variable a parent set within the limit, not containing the variable itself, whose score no addition (within the limit) or removal of one parent improves and which is not worse than having no parents. Each variable is searched with its own score, whatever edges the given network had, and a dataset that does not fit the network is refused.",
  ["inputs", "configurations"], "every real-valued score of every parent set of a variable in networks of two and three variables, limits zero to none, several given structures",
  "Tests recover the structure of one or two generated datasets; local optimality for every score function is never looked at.",
  [SB], [("greedy search", SB + " impl StructuralLearningAlgorithm for HillClimbing")])
p("C15", "Constraint-based learning keeps the parents no test separates",
  "Constraint-based learning removes a candidate parent exactly when, for some set of the candidates remaining at the start of the current round and of the current size, both the test of the exit rates and the test of the destinations find the variable independent of it; sizes grow from zero until they reach the number of candidates left. The order of the candidates does not matter, nodes stay as they are, and each variable is learned from its own parameters.",
  ["inputs", "configurations"], "every assignment of exit rates to chosen parent sets (and chosen differing counts) of a variable in networks of three and four variables",
  "Tests recover the structure of one generated dataset with one implementation path.",
  [CB, HT], [("shrinking candidate sets", CB + " impl StructuralLearningAlgorithm for CTPC")])
p("C16", "The cache of learned parameters is transparent",
  "Whatever sequence of requests is made, the cache answers each request for a variable and a parent set with what the learning method gives for that variable and that parent set.",
  ["histories"], "every sequence of two or three requests over two and three variables and all parent sets",
  "Structure learning tests use one cache per variable and never mix requests.",
  [CB], [("lookup and insertion", CB + " Cache::fit")])
p("C17", "The destination test is the two-sample chi-squared test",
  "Two tables of transition counts are declared different exactly when for some state the two-sample chi-squared statistic of its destinations, scaled for unequal totals, exceeds the quantile at the given level of the chi-squared distribution with as many degrees of freedom as the variable has states, minus one; transitions and states never observed do not count, and proportional tables are never declared different.",
  ["inputs"], "every small table of counts for the row under test over two and three states, every level",
  "Tests compare three pairs of matrices.",
  [HT], [("statistic per row", HT + " ChiSquare::compare_matrices")])
p("C18", "The exit-rate test is the two-sided F test",
  "The exit rates of two configurations are declared different exactly when for some state left under both the ratio of the rates falls in either tail of the F distribution with the two numbers of transitions as degrees of freedom, each tail of half the given level. States never left do not count.",
  ["inputs"], "all positive rates, every level, every small table of counts over two and three states",
  "Tests compare three pairs of matrices.",
  [HT], [("ratio and tails", HT + " F::compare_matrices")])
p("C19", "Conditional tests compare each configuration with the one it extends",
  "A variable is found independent of a candidate parent given a set exactly when for every joint configuration of the set and the candidate the comparison with the same configuration of the set alone, without the candidate, finds no difference, whatever the position of the candidate among the others and the cardinalities.",
  ["inputs", "configurations"], "ten shapes with the candidate before, between and after the separating variables; every assignment of exit rates; every choice of two differing count tables",
  "Tests look at one network with one separating set.",
  [HT], [("loops over configurations", HT + " impl HypothesisTest for F, ChiSquare")])
p("C20", "The amalgamated process is the joint process of the network",
  "The amalgamation of a network is a process over its joint states: between joint states that differ in one variable it has that variable's rate given its parents, between others that differ zero, and on the diagonal minus the total rate of leaving.",
  ["inputs", "configurations"], "all rates, over graphs (cyclic ones included) on one to three variables with mixed cardinalities",
  "A test compares one amalgamated matrix with recorded numbers.",
  [CT], [("building the matrix", CT + " amalgamation")])
p("C21", "Factored rewards add up over the variables",
  "The instantaneous reward of a state is the sum of the rewards of the variables' states; a transition earns the transition reward of the variable that changed, from its old to its new state, and no transition earns none. Rewards start at zero and fit the network.",
  ["inputs"], "all real rewards, all states and single changes of networks of up to four variables",
  "Tests use binary and ternary examples with few transitions.",
  [RF], [("sum over variables", RF + " FactoredRewardFunction::call")])
p("C22", "The Monte-Carlo value is the mean return of sampled trajectories",
  "The value of a state is the mean, over trajectories sampled from that state up to the end time, of the reward rate of each state integrated over the time spent in it plus the reward of each transition, both discounted at the given rate if asked for. Sampling stops at the given number of trajectories or as soon as the estimate is within the requested error at the requested confidence.",
  ["inputs", "histories"], "all real rewards, end times and discount factors, every stream of draws that ends within the bound, networks of one and two variables, one and two trajectories; stopping over up to five trajectories",
  "Tests compare averages with expected values for constant rewards up to a tolerance.",
  [RE], [("accumulation and stopping", RE + " MonteCarloReward::evaluate_state")])
p("C23", "Evaluating the state space evaluates every joint state by itself",
  "Evaluating the whole state space yields a value for every joint state of the network and for nothing else, and the value of each is the one its own evaluation gives.",
  ["inputs", "configurations"], "networks of one to four variables; every stream of draws within the bound",
  "Tests look at a few states of a two-variable network.",
  [RE], [("enumeration of states", RE + " MonteCarloReward::evaluate_state_space")])
p("C24", "Relative rewards compare a state with its neighbours",
  "The relative reward of a state is the largest ratio of its value to the value of a state that differs from it in exactly one variable, and at least one; every state gets one.",
  ["inputs", "configurations"], "arbitrary positive values for chosen states of networks of one to three variables",
  "A test checks one three-variable example.",
  [RE], [("neighbours", RE + " NeighborhoodRelativeReward::evaluate_state_space")])
p("C25", "Random graphs have each edge independently with the given density",
  "A generated graph replaces the edges of the network: each edge between two different variables is present on a share of the random draws equal to the density, using a draw of its own, and no variable is its own parent. Density zero gives no edges, density one all; densities outside zero to one are refused; nodes stay as they are.",
  ["inputs", "configurations"], "every draw, five densities, two and three variables; every real density for acceptance",
  "Tests compare edge counts of a large graph with the expectation.",
  [TO], [("edge draws", TO + " UniformGraphGenerator::generate_graph")])
p("C26", "Random parameters are valid and lie in the given interval",
  "Generated parameters give every variable one valid intensity matrix per configuration of its parents, with exit rates inside the given interval and rows that sum to zero, and leave the structure alone. Intervals with negative bounds are refused.",
  ["inputs", "configurations"], "every draw (except rates drawn as exactly zero), every interval within 0..20, networks of one to three variables",
  "Tests validate one generated network.",
  [TO], [("drawing matrices", TO + " UniformParametersGenerator::generate_parameters")])
p("C27", "Inputs that do not fit together are refused, others are accepted",
  "A trajectory needs as many times as rows of states, a dataset trajectories over the same number of variables, and structure learning a dataset over as many variables as the network; otherwise they are refused at once, and if they fit they are accepted and kept as they are.",
  ["inputs"], "all small shapes, arbitrary contents",
  "Tests try one misfit each.",
  [TO, SB, CB, SF], [("checks", TO + " Trajectory::new, Dataset::new"), ("checks", SB + " fit_transform"), ("checks", CB + " fit_transform")])
p("C28", "A Markov process is a network of a single variable",
  "A continuous-time Markov process takes exactly one variable, which has no parents and no children and reads its only intensity matrix in every state; operations on edges or on other variables are refused. Sampling it follows that matrix.",
  ["inputs", "histories"], "processes of two to five states, every state, every operation on a missing variable, every stream of draws over three samples",
  "Tests call each operation once.",
  [CM, SA], [("single parameter", CM)])
p("C29", "Results do not depend on the order in which parallel tasks run",
  "Learning a structure with either algorithm and evaluating the state space give the same result in whatever order the parallel tasks run.",
  ["schedules"], "all orders of the first eight (six) fork-join pairs; networks of up to four variables",
  "Tests run once under one schedule.",
  [SB, CB, RE], [("independent tasks per variable", SB), ("collecting results", CB), ("parallel state space", RE)])
p("C30", "What is learned about a variable depends on its family only",
  "Statistics, parameters and scores of a variable for a parent set are the same whatever the other variables do in the data, whatever edges the network has and whatever parameters are set in it. If no parent set is given, the network's own is used.",
  ["inputs", "histories", "configurations"], "every history of the family and a different one of the other variables, over two to four variables, against the empty and the complete network",
  "Tests never vary the rest of the network.",
  [PL, SF], [("projection on the family", PL + " sufficient_statistics, fit"), ("scores", SF)])


def main():
    with open(V + "/properties.jsonl", "w") as h:
        for m in M:
            h.write(json.dumps({"id": m["id"], "title": m["title"], "statement": m["statement"], "quantifier": {"over": m["over"], "text": m["quant"]}, "why_tests_cant": m["tests"],
                                "anchors": {"files": m["files"], "mechanism": [{"name": a, **({"where": b})} for a, b in m["mech"]]}}) + "\n")
    ck = [{"property": m["id"], "quick_cmd": "python3 check.py %s quick" % m["id"], "thorough_cmd": "python3 check.py %s thorough" % m["id"],
           "technique": "symbolic execution of the crate's LLVM IR with z3 deciding every branch and assertion", "level": "model_checking",
           "level_note": "Holds for every value within the bounds: " + props.P[m["id"]]["bounds"] + ". Floating point is read as real arithmetic; random streams are arbitrary; rustc/LLVM, the engine and z3 are trusted, sampled paths are replayed natively."} for m in M if m["id"] in props.P]
    na = [{"property": m["id"], "reason": m["level_note"]} for m in M if m["id"] not in props.P]
    with open(V + "/MANIFEST.json", "w") as h:
        json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": ck, "not_applicable": na,
                   "notes": "No hooks in /repo are needed: the checks compile /repo's working tree with the harness crate in /verif/harness."}, h, indent=1)
        h.write("\n")


if __name__ == "__main__":
    main()
