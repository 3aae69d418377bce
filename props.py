"""What each check runs: entry points, parameters per tier, labels that must be reached, bounds."""
import itertools


def grid(*r):
    return [tuple(x) for x in itertools.product(*r)]


P = {}


# entries that use one object several times
AGAIN = {"C10": "two datasets in turn",
         "C11": "two datasets in turn",
         "C12": "one score asked about two datasets in turn",
         "C13": "one score asked about two datasets in turn",
         "C14": "one algorithm object on two datasets in turn",
         "C15": "one algorithm object on two datasets in turn",
         "C20": "amalgamation repeated after changes",
         "C22": "one evaluator on two rewards, networks and states in turn",
         "C23": "one evaluator on two rewards and four networks in turn",
         "C24": "two networks in turn",
         "C26": "three calls with structure changes in between"}


def prop(id, entries, bounds, reach=(), assumptions=(), **kw):
    if id in AGAIN:
        bounds += "; " + AGAIN[id]
    P[id] = dict(entries=entries, bounds=bounds, reach=list(reach), assumptions=list(assumptions), **kw)


def E(fn, quick=((),), thorough=None, **kw):
    d = dict(fn=fn, quick=list(quick), **kw)
    if thorough is not None:
        d["thorough"] = list(thorough)
    return d


LOG0 = "uniform draws of exactly zero (probability 2^-52 each, infinite residence time) are left out"

prop("C01", [E("c01_network_index", grid(range(3), range(4))), E("c01_joint_index", grid(range(3))), E("c01_custom_set", grid(range(3))),
               E("c01_large", [(12, 4095, 0), (10, 0b1110110101, 1), (3, 7, 2), (9, 511, 3), (20, 2 ** 20 - 1, 0)], [(12, 4095, 0), (12, 4095, 1), (12, 0b101101110101, 1), (3, 7, 2), (5, 31, 2), (9, 511, 3), (20, 2 ** 20 - 1, 0), (34, 2 ** 34 - 1, 0)])],
     "4 variables with cardinalities (2,3,2,3), (3,2,4,2) or (2,2,3,5); every parent set (the variable itself included) and every pair of joint states", ["several parents"])
prop("C02", [E("c02_large", [(40, 60, 1), (3, 3, 300), (70, 100, 1), (2, 1, 70000)], [(40, 60, 1), (40, 1000, 2), (3, 3, 300), (70, 300, 1), (2, 2, 70000)]), E("c02_operations", [(2, m, 2) for m in range(16)] + [(3, m, 1) for m in range(64)], [(2, m, 3) for m in range(16)] + [(3, m, 2) for m in range(64)]), E("c02_nodes")],
     "every starting graph over 2 variables and any 2 further edges (thorough 3), over 3 variables and any further edge (thorough 2); graphs of up to 70 variables and edges added up to 70000 times, and one edge more; up to 4 variables of 1 to 3 states added one after the other with edges in between", ["edge added"])
prop("C03", [E("c03_history", [(3,)], [(4,)]), E("c03_wide", [(1,), (2,)], grid(range(8))), *[E(f, grid(range(8))) for f in ("c03_add_edge", "c03_reinitialize", "c03_add_node", "c03_generate_graph")]],
     "every graph without self loops over 3 variables with cardinalities (2,3,2) and all parameters and statistics set; one structure-changing operation, then any edge; every history of 3 (thorough 4) operations on a network of 2 variables that grows; graphs over 7 variables of 2 to 4 states")
prop("C04", [E("c04_one_entry", [(6, 5), (40, 2), (1, 30), (200, 3)]), E("c04_entries", [(1, 2), (2, 2), (1, 3)], [(1, 2), (2, 2), (1, 3), (3, 2), (2, 3)]), E("c04_not_a_number", [(1, 2), (2, 3)]), E("c04_shapes")],
     "every matrix of real entries of 1 or 2 tables over 2 states or 1 table over 3 states (thorough: 3 and 2 tables); one NaN or infinite entry anywhere; a valid matrix of up to 200 tables or 30 states with one entry replaced by any number; all shapes up to 2x4x4 for 2 to 4 states", ["accepted", "rejected", "right shape"],
     ["entries and row sums between 'valid' and 'off by more than 1e-6 of the row' may go either way"])
prop("C05", [E("c05_wide", [(12, 1), (5, 40), (70, 3)], [(12, 1), (5, 40), (70, 3), (300, 1)]), E("c05_next_state", [(2, 0, 0), (2, 1, 0), (3, 0, 0), (3, 1, 0), (3, 2, 0), (3, 0, 2), (3, 0, 4), (3, 1, 1), (3, 1, 4), (4, 1, 0), (4, 2, 3), (4, 0, 4), (4, 3, 2)],
               [(d, x, z) for d in (2, 3, 4, 5) for x in range(d) for z in range(1 << d) if not z >> x & 1 and z | 1 << x != (1 << d) - 1]),
             E("c05_rounded_rows", [(2, 0), (3, 0), (3, 1), (3, 2)]), E("c05_floats", [(2, 0, 0), (3, 1, 0), (3, 0, 2), (3, 2, 2), (4, 1, 5)], [(d, x, z) for d in (2, 3, 4) for x in range(d) for z in range(1 << d) if not z >> x & 1 and z | 1 << x != (1 << d) - 1]), E("c05_uniform_state"), E("c05_no_matrix")],
     "variables of 2 to 4 states (thorough 5), every row of positive or zero rates, every draw; fixed rates of up to 70 states (thorough 300) or 40 configurations and every draw; rounded arithmetic for 5 shapes of rows (thorough all of 2 to 4 states) with rates from 1e-3 to 1e3; start states of 1 to 5 states over 3 draws", ["last state"],
     ["draws that fall exactly on the boundary between two states may go either way"])
prop("C06", [E("c06_wide", [(6, 40), (30, 2)]), E("c06_residence", [(2,), (3,)], [(2,), (3,), (4,)]), E("c06_floats", [(2,), (3,)], [(2,), (3,), (4,)])], "3 configurations, 2 and 3 states (thorough 4), all rates, two consecutive draws; 40 configurations, 30 states and five draws with one arbitrary rate; rounded arithmetic with rates from 1e-6 to 1e6", (), [LOG0])
prop("C07", [E("c07_race", [(0, m, 4) for m in range(4)] + [(1, 1, 3), (1, 3, 3), (2, 0, 3), (2, 9, 3), (2, 63, 3), (3, 0, 4), (4, 7, 3), (4, 4095, 3), (5, 31, 3), (6, 0, 150)],
               [(0, m, 5) for m in range(4)] + [(1, m, 4) for m in range(4)] + [(2, m, 3) for m in range(64)] + [(3, 0, 5)]),
             E("c07_long", [(0, 1, 16, 0x5555), (0, 3, 16, 0x3333), (0, 0, 16, 0x7f7f), (1, 3, 12, 0x6a6a)]), E("c07_any_rates", [(m, 3) for m in range(4)], [(m, 4) for m in range(4)]), E("c07_reset", [(1, 1), (3, 2)], [(m, k) for m in range(4) for k in (1, 2, 3)]), E("c07_drawn_start")],
     "3 or 4 samples (thorough up to 5) of networks with cardinalities (2,2) over all graphs, (2,3), (2,2,2), (3) with pairwise different rates; all rates for (2,2) over 3 samples; 2 and 3 samples of networks of 4 and 6 binary variables, 150 of one variable, 12 and 16 samples of two variables that move in a given order; every stream of draws and initial state", ["second node moves", "reset"], [LOG0])
prop("C08", [E("c08_well_formed", [(0, 0, 1, 12), (0, 1, 1, 12), (0, 3, 1, 13), (1, 2, 1, 11), (2, 0, 2, 15)], [(0, 0, 1, 13), (0, 1, 1, 14), (0, 3, 1, 15), (1, 2, 1, 12), (2, 0, 2, 18), (2, 0, 3, 21)]),
             E("c08_long", [(2, 0, 3, 1, 0, 22), (2, 0, 4, 0, 0, 21), (2, 0, 1, 30, 0, 66)], [(2, 0, 3, 1, 0, 22), (2, 0, 4, 2, 0, 37), (2, 0, 6, 0, 0, 31), (2, 0, 1, 60, 0, 126), (0, 3, 1, 4, 0x3a3a, 30)]), E("c08_reproducible", [(0, 1, 1, 12), (2, 0, 2, 15)], [(0, 1, 1, 13), (0, 3, 1, 14), (2, 0, 2, 18)])],
     "one or two trajectories using at most 11 to 15 draws in all (thorough 21), of networks with cardinalities (2,2), (3,2) and (2); one trajectory of 30 transitions and three or four of one or none of a two-state process; every end time and stream of draws", ["transition before the end"], [LOG0])
L12 = grid(range(12))
FAM = "12 families of up to 4 variables with cardinalities 2 and 3, up to 3 parents, histories of up to 4 time points in one or two trajectories, every state sequence and all times"
BIG = "; 8 larger cases (up to 66000 time points, 300 trajectories, 9 parents, 12 states, 20 variables) with one history each and all times"
prop("C09", [E("c09_statistics", grid(range(12), [1]), grid(range(14), [1])), E("c09_large", [(i,) for i in range(8)], [(i,) for i in range(8)]), E("c09_additive", [(1,), (2,), (5,)], [(i,) for i in range(8)])], FAM + BIG, ["two trajectories"])
prop("C10", [E("c10_again"), E("c10_mle", grid(range(12), [0, 1]), grid(range(14), [0, 1])), E("c10_large", [(i,) for i in range(8)], [(i,) for i in range(8)])], FAM + BIG, ["a transition"], ["rates out of states that are never visited are not looked at (the quotient is 0/0)"])
prop("C11", [E("c11_again"), E("c11_bayes", grid(range(12), [0, 1]), grid(range(14), [0, 1])), E("c11_large", [(i,) for i in range(8)], [(i,) for i in range(8)])], FAM + BIG + "; alpha up to 1000 (100000 in the larger cases), every positive tau", ["positive prior"])
prop("C12", [E("c12_again"), E("c12_log_likelihood", grid(range(12), [1, 2]), grid(range(14), [1, 2, 3])), E("c12_large", [(i, a) for i in range(7) for a in (1, 300)] + [(7, 300)], [(i, a) for i in range(8) for a in (1, 300, 70000)]), E("c12_tau")], FAM + BIG + "; alpha 1 and 2 (1 and 300 in the larger cases), every positive tau; the log-gamma function is abstract (one value per argument, shared with the oracle)")
prop("C13", [E("c13_again"), E("c13_bic", grid(range(12), [1, 2]), grid(range(14), [1, 2, 3])), E("c13_large", [(i, a) for i in range(7) for a in (1, 300)] + [(7, 300)], [(i, a) for i in range(8) for a in (1, 300, 70000)]), E("c13_tau")], FAM + BIG + "; alpha 1 and 2 (1 and 300 in the larger cases), every positive tau")
prop("C14", [E("c14_again", [(2,)], [(2,), (3,)]), E("c14_many", [(6, 2, 99, 1, 2), (8, 0, 99, 1, 1), (8, 7, 4, 1, 1), (9, 3, 99, 2, 1)], [(6, 2, 99, 1, 3), (7, 2, 99, 2, 3), (8, 0, 99, 1, 2), (8, 7, 4, 1, 2), (9, 3, 99, 2, 2), (10, 9, 99, 1, 1)]), E("c14_local_optimum", [(2, 0, 9, 0), (2, 1, 1, 3), (3, 0, 9, 0), (3, 1, 9, 63), (3, 2, 1, 5), (3, 0, 0, 0), (3, 2, 2, 0), (4, 1, 9, 0), (4, 2, 2, 7), (4, 0, 3, 0), (4, 3, 9, 4095), (5, 2, 3, 0)],
               [(2, 0, 9, 0), (2, 1, 1, 3)] + [(3, f, l, g) for f in range(3) for l in (0, 1, 2, 9) for g in (0, 5, 63)] + [(4, f, l, 7) for f in range(4) for l in (1, 2, 3, 9)] + [(5, f, l, 0) for f in range(5) for l in (2, 3, 9)]), E("c14_mismatch")],
     "all scores, ties included, of one variable of a network of 2 to 5 variables, limits 0 to 3 and none, structures given before; networks of 6, 8 and 9 variables (thorough 10) with fixed scores of all parent sets and arbitrary weights of one or two parents (thorough three)", ["parents found"])
prop("C15", [E("c15_again", [(3,)], [(3,), (4,)]), E("c15_pc_stable", [(5, 0, 18093121, 0, 0, 0), (5, 1, 1, 16777216, 0, 0), (5, 0, 1077952512, 0, 0, 1), (6, 2, 576469548530663424, 0, 0, 1), (3, 0, 0x55, 0, 0, 0), (3, 1, 0x33, 0, 63, 0), (3, 2, 0x0f, 10, 0, 0), (3, 0, 0x55, 16, 0, 0), (4, 1, 0x0313, 0, 0, 0), (4, 1, 0x1311, 0x20, 0, 0), (4, 0, 0x0055, 0x5000, 0, 0), (4, 2, 0x0307, 0, 0, 0), (4, 3, 0x2d, 0x80, 0, 0)],
               [(5, 0, 18093121, 0, 0, 0), (5, 1, 1, 16777216, 0, 0), (5, 0, 1077952512, 0, 0, 1), (6, 2, 576469548530663424, 0, 0, 1), (3, 0, 0x55, 0, 0, 0), (3, 1, 0x33, 0, 63, 0), (3, 2, 0x0f, 10, 0, 0), (3, 0, 0x55, 16, 0, 0), (4, 1, 0x0313, 0, 0, 0), (4, 1, 0x1311, 0x20, 0, 0), (4, 0, 0x0055, 0x5000, 0, 0), (4, 2, 0x0307, 0, 0, 0), (4, 3, 0x2d, 0x80, 0, 0),
                (5, 2, 65799, 0, 0, 0), (5, 3, 15204480, 0, 0, 1), (6, 5, 3766484992, 0, 0, 1), (4, 1, 0x3333, 0, 0, 0), (4, 3, 0xff, 0, 0, 0), (4, 0, 0x5555, 0, 9, 0)])],
     "networks of 3 to 6 variables; the exit rates of one variable of three states are arbitrary for up to 4 parent sets (thorough all 8), the counts of chosen parent sets differ; the tests themselves run as they are over an abstract F and chi-squared distribution",
     ["no parents", "one parent", "two parents", "three parents", "more parents", "separated by a non-empty set", "separated by three or more"])
prop("C16", [E("c16_transparent", [(2, 3), (3, 2), (4, 2)], [(2, 4), (3, 3)]), E("c16_levels", [(3, 2, 1), (4, 3, 1), (5, 2, 1)], [(3, 2, 2), (4, 3, 2), (4, 2, 2), (5, 4, 1), (6, 3, 1)]), E("c16_far", [(2,)], [(3,)])], "2 variables and 3 requests, 3 and 4 variables and 2 requests (thorough up to 4), every sequence; all requests with up to 3 parents of 3 to 5 variables by size and any request after that; 2 requests about 5 variables of 258", ["repeated request"])
prop("C17", [E("c17_large", [(5, 0), (8, 1), (3, 2)], [(d, k) for d in (2, 3, 5, 8, 12) for k in (0, 1, 2)]), E("c17_rows", [(2, 0, 3, 0), (2, 1, 3, 1), (3, 1, 2, 0)], [(2, 0, 6, 0), (2, 1, 6, 1), (3, 0, 3, 0), (3, 1, 3, 0), (3, 2, 3, 1)]), E("c17_unobserved", [(2, 0, 3, 0), (3, 1, 2, 0), (3, 1, 1, 9)], [(2, 0, 6, 0), (2, 1, 6, 1), (3, 0, 2, 0), (3, 2, 2, 1), (3, 1, 1, 9)]), E("c17_proportional")],
     "2 states with counts up to 3, 3 states with counts up to 2 in the row under test (thorough 6 and 3), every level; 20 and 30 tables of 3, 5 and 8 states (thorough 2 to 12) with counts up to 3 billion that differ in one place; proportional tables of 2 and 3 states", ["same", "different", "same but for transitions never observed", "different, with transitions never observed"],
     ["the chi-squared distribution function is abstract, monotone, with values in [0,1]; a statistic exactly at the limit may go either way"])
prop("C18", [E("c18_large", [(4, 0), (7, 1), (3, 2)], [(d, k) for d in (2, 4, 7, 12) for k in (0, 1, 2)]), E("c18_rates", [(2, 2), (3, 1)], [(2, 4), (3, 1)]), E("c18_never_left", [(2, 2), (3, 1)], [(2, 4), (3, 1)])], "all positive exit rates, every level, 2 states with counts up to 2 (thorough 4), 3 states with counts up to 1; 20 and 30 tables of 3, 4 and 7 states (thorough 2 to 12) with counts up to 70000 and arbitrary rates of one state", ["same", "different"],
     ["the F distribution function is abstract, monotone, with values in [0,1]"])
prop("C19", [E("c19_f", grid(range(14))), E("c19_chi2", grid(range(14)))], "10 shapes of up to 4 variables; all exit rates from one state of every configuration; every choice of up to two configurations with differing counts; 4 larger shapes (up to 8 variables and 192 configurations) with one configuration, any of them, that differs", ["independent", "dependent"])
prop("C20", [E("c20_again", grid(range(4))), E("c20_large", [(0, 0b110011), (2, 1), (4, 0)], [(0, 0b110011), (1, 0b100000100000100000100000100000100000100000), (2, 1), (3, 0b100101000110), (4, 0)]), E("c20_any_rates", [(0, m) for m in range(4)] + [(1, m) for m in range(4)] + [(2, 3), (3, 0), (3, 21), (3, 63), (4, 9), (4, 42), (5, 63), (6, 0), (7, 0b100010011000)],
               [(0, m) for m in range(4)] + [(1, m) for m in range(4)] + [(2, m) for m in range(4)] + [(3, m) for m in range(64)] + [(4, m) for m in range(0, 64, 5)] + [(5, 63), (6, 0), (7, 0b100010011000), (7, 4095)]), E("c20_index")],
     "all rates; cardinalities (2,2), (2,3), (3,2), (2,2,2), (2,3,2), (3,2,2), (3), (2,2,2,2) over chosen graphs (thorough: all graphs over (2,2,2)); fixed rates, and arbitrary ones of one variable, over (3,4,5), (17,6), (100) (thorough also seven binary variables and (2,3,4,5))", ["two parents"])
prop("C21", [E("c21_many", [(1,)], [(i,) for i in range(4)]), E("c21_rewards", grid(range(4)))], "networks with cardinalities (2,3), (3,2,2), (2), (2,2,3,2); all real rewards, all states and single changes; 15 variables of 2 to 7 states with one joint state (thorough four) and all single changes")
prop("C22", [E("c22_again", [(6,)], [(8,)]), E("c22_long", [(20, 1), (30, 2)], [(20, 1), (40, 2), (80, 3), (40, 4)]), E("c22_return", [(0, 1, 8, 0), (0, 1, 8, 1), (0, 2, 10, 0), (1, 1, 8, 0), (1, 1, 8, 1), (2, 1, 8, 0)], [(0, 1, 10, 0), (0, 1, 10, 1), (0, 2, 12, 0), (0, 2, 10, 1), (1, 1, 9, 0), (1, 1, 9, 1), (2, 1, 9, 0), (2, 1, 9, 1), (3, 1, 8, 0)]),
             E("c22_stop_any", [(5, 30, 1)], [(5, 30, 1), (5, 30, 0), (6, 36, 1)]), E("c22_stop", [(5, 24), (6, 28)], [(5, 26), (6, 28), (7, 32)])],
     "networks with cardinalities (2), (2,2), (3), one and two trajectories, at most 8 to 10 draws (thorough 12); all real rewards, end times and discount factors; stopping over up to 5 trajectories (thorough 7) of a two-state process, for counts of transitions with errors on both sides of every threshold, and for arbitrary returns with any error and confidence; up to 30 trajectories (thorough 80) that move or not in a given pattern",
     ["no transition", "one transition", "stopped early", "not converged"], [LOG0, "the normal distribution function is abstract, monotone, with values in [0,1]"])
prop("C23", [E("c23_again"), E("c23_same", [(0, 6), (1, 6)], [(0, 8), (1, 6), (2, 6)]), E("c23_keys", grid(range(15))), E("c23_own_value", grid(range(6)))], "networks with cardinalities (2,2), (2,3), (3,2,2), (2,2,3,2), (5), (4,3), for the set of states also (1,3), (3,1,2), (4,2,3,2), (2,2,2,2,2), (3,4,5,6), (17,19), (300), nine and twelve binary variables; values compared for one trajectory of at most 6 draws", (), [LOG0])
prop("C24", [E("c24_again"), E("c24_relative", [(0, 15), (1, 0b001011), (2, 0b10000111), (3, 7), (4, 3), (5, 0b111), (6, 0b11), (7, 3), (8, 1), (10, 7)], [(0, 15), (1, 0b111111), (2, 0b10010111), (3, 7), (4, 3), (5, 0b110011), (6, 0b1111), (7, 3), (8, 3), (9, 7), (10, 7)])],
     "networks with cardinalities (2,2), (2,3), (2,2,2), (3), (2), (3,3), (2,3,2), seven binary variables, (5,6,4), (40) (thorough also (2,2,3,2,3)); arbitrary positive values for 1 to 4 joint states, fixed ones for the others")
prop("C25", [E("c25_many", [(5, 1, 3), (9, 2, 0)], [(5, 1, 3), (9, 2, 0), (20, 3, 1), (9, 5, 4)]), E("c25_edges", [(2, 0, 0), (2, 3, 3), (3, 1, 9), (3, 4, 63)], [(2, k, 0) for k in range(5)] + [(3, k, 9) for k in range(5)]), E("c25_extremes"), E("c25_domain")],
     "2 and 3 variables, densities 1/4, 1/3, 1/2, 0.9 (thorough 3/4), every draw, two graphs in a row for 2 variables; 5 and 9 variables (thorough 20) with three arbitrary draws and the others on a given side of the density", ["complete", "empty", "second graph", "refused", "accepted"], ["draws within 1e-12 of the density may go either way"])
prop("C26", [E("c26_again"), E("c26_matrices", [(0, 0), (1, 0), (2, 1), (2, 3), (3, 1), (4, 2), (5, 9), (7, 1 << 5 | 1 << 10 | 1 << 15 | 1 << 20), (8, 0), (9, 0)], [(0, 0), (1, 0), (2, 1), (2, 3), (3, 1), (4, 2), (5, 9), (6, 9), (7, 1 << 5 | 1 << 10 | 1 << 15 | 1 << 20 | 1 << 25), (8, 0), (9, 0), (10, 63)]), E("c26_domain")],
     "networks with cardinalities (2), (3), (2,2), (2,3), (3,2), (2,2,2), (7), nine binary variables without edges, six with a variable of four parents (thorough five); intervals within 0..20, every draw", ["refused", "accepted"], ["a rate drawn as exactly zero (probability 2^-53) is left out"])
prop("C27", [E("c27_long", [(300,), (5000,)]), E("c27_many", [(40, 3), (7, 20)]), E("c27_trajectory"), E("c27_dataset"), E("c27_learning", [(0,), (1,)]), E("c27_still"), E("c27_score_domain")], "up to 4 times and rows, up to 3 trajectories, up to 4 variables; 300 and 5000 rows, 7 and 40 trajectories of 20 and 3 variables with one, any of them, that does not fit", ["fits", "does not fit"])
prop("C28", [E("c28_one_variable"), E("c28_index"), E("c28_refuses"), E("c28_sampled", [(2, 3), (3, 3), (9, 2)], [(2, 3), (3, 3), (4, 3), (2, 8), (12, 2)])], "processes of 2 to 5 states; three samples of processes of 2 and 3 states, two of one of 9 (thorough 12; eight samples of 2 states)", (), [LOG0, "sampling reads the process through a view that answers 0 for the matrix index (see the known finding)"])
prop("C29", [E("c29_hill_climbing", grid([3, 4], range(2)), grid([3, 4], range(6))), E("c29_constraint", grid([3], range(3)), grid([3, 4], range(4))), E("c29_rewards", [(0, 8, 10), (0, 1, 16), (1, 4, 5)], [(0, 8, 14), (0, 2, 20), (1, 4, 8), (2, 3, 8)]), E("c29_repeat", [(0, 10), (1, 10)], [(0, 16), (1, 16)])],
     "either order of each of the first 8 fork-join pairs (4 for two-variable rewards); networks of 1 to 4 variables, fixed tables of scores and rates", ["edges learned"],
     [LOG0, "a task runs to its end before its sibling starts: the tasks share no mutable state (Rust's Sync, no interior mutability in the crate)"])
prop("C30", [E("c30_large", grid([1, 4, 6], range(2)), grid(range(1, 6), range(2))), E("c30_locality", grid(range(6), range(5))), E("c30_own_parents", [(0,), (9,), (42,), (63,)], [(m,) for m in range(64)])],
     "6 families over 2 to 4 variables, histories of 2 to 4 time points; the other variables follow any history and its cyclic shift; empty network against a complete one, one with other edges and one with just the family, all with parameters and statistics of something else; the larger cases of the learning checks, against the empty network and a ring")
