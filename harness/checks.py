"""Which design modules are model checked for each property."""


def stats_mc(which, quick=6, thorough=9):
    return lambda tier: [("MC_Stats", {"MC_WHICH": which, "MC_L": str(quick if tier == "quick" else thorough)}, {})]


def aux_mc(which, quick, thorough):
    return lambda tier: [("MC_Aux", {"MC_WHICH": which, "MC_L": str(quick if tier == "quick" else thorough)}, {})]


def both(*fs):
    return lambda tier: [x for f in fs for x in f(tier)]


def rt_gen(auto):
    return lambda tier, seed: [("rt", "GenRealtime", {"GEN_D": "45", "GEN_AUTO": str(auto)},
                                ("-simulate", "num=%d" % (60 if tier == "quick" else 400), "-depth", "80", "-seed", str(seed)))]


def purity_gen(tier, seed):
    return [("calls", "GenPurity", {"GEN_D": "22", "GEN_NF": "92"},
             ("-simulate", "num=%d" % (70 if tier == "quick" else 500), "-depth", "60", "-seed", str(seed)))]


def ds_gen(mode, num, depth):
    return lambda tier, seed: [("ds", "GenDataset", {"GEN_D": str(depth), "GEN_MODE": mode},
                                ("-simulate", "num=%d" % (num if tier == "quick" else 6 * num), "-depth", "80", "-seed", str(seed)))]


def plot_gen(tier, seed):
    """and a few histories that keep adding curves to the same plot"""
    return ds_gen("plot", 80, 22)(tier, seed) + [
        ("long", "GenDataset", {"GEN_D": "60", "GEN_MODE": "curves"},
         ("-simulate", "num=%d" % (4 if tier == "quick" else 24), "-depth", "80", "-seed", str(seed)))]


def mc(module, name, quick, thorough):
    return lambda tier: [(module, {name: str(quick if tier == "quick" else thorough)}, {})]


def ci_mc(*ws):
    return lambda tier: [("MC_Ci", {"MC_WHICH": w, "MC_L": str(q if tier == "quick" else t)}, {}) for w, q, t in ws]


def noise_mc(*ws):
    return lambda tier: [("MC_Noise", {"MC_WHICH": w, "MC_L": str(q if tier == "quick" else t)}, {}) for w, q, t in ws]


def noise_gen(tier, seed):
    return [("noise", "GenNoise", {"GEN_D": "20"}, ("-simulate", "num=%d" % (60 if tier == "quick" else 400), "-depth", "60", "-seed", str(seed)))]


def none(tier):
    return []


CHECKS = {
    "C01": {"mc": stats_mc("allan")},
    "C02": {"mc": stats_mc("mod")},
    "C03": {"mc": stats_mc("tot", 6, 8)},
    "C04": {"mc": stats_mc("tie")},
    "C05": {"mc": aux_mc("taus", 10, 16)},
    "C06": {"mc": aux_mc("taus", 8, 12)},
    "C07": {"mc": aux_mc("conv", 7, 10)},
    "C08": {"mc": mc("MC_Purity", "MC_L", 5, 8), "gen": purity_gen},
    "C09": {"mc": mc("MC_Realtime", "MC_L", 6, 8), "gen": rt_gen(0)},
    "C10": {"mc": mc("MC_Realtime", "MC_L", 6, 8), "gen": rt_gen(1)},
    "C11": {"mc": both(stats_mc("allan"), aux_mc("gap", 5, 6))},
    "C12": {"mc": aux_mc("cross", 4, 5)},
    "C13": {"mc": mc("MC_Dataset", "MC_L", 5, 6), "gen": ds_gen("life", 120, 25)},
    "C14": {"mc": mc("MC_Dataset", "MC_L", 4, 6), "gen": ds_gen("write", 120, 25)},
    "C15": {"mc": mc("MC_Dataset", "MC_L", 4, 6), "gen": plot_gen},
    "C16": {"mc": ci_mc(("edf", 4, 8), ("tab", 4, 8))},
    "C17": {"mc": ci_mc(("chi", 4, 8), ("nid", 0, 2))},
    "C18": {"mc": ci_mc(("nid", 1, 3),)},
    "C19": {"mc": noise_mc(("pink", 14, 40), ("fix", 1, 5))},
    "C20": {"mc": noise_mc(("fix", 1, 6)), "gen": noise_gen},
    "C21": {"mc": mc("MC_Psd", "MC_L", 1, 6)},
    "C22": {"mc": mc("MC_Psd", "MC_L", 1, 6)},
    "C23": {"mc": noise_mc(("fix", 2, 7))},
    "C24": {"mc": mc("MC_Mask", "MC_L", 10, 200)},
    "C25": {"mc": stats_mc("all", 6, 8)},
}

TV = "TLA+ specification model checked with TLC; trace validation: recorded calls of the library are steps of the specification (%s), compared in exact rational arithmetic"
RP = "TLA+ specification model checked with TLC; histories generated by TLC are replayed into the library and the recorded steps validated against the specification (%s)"
END = " Bounded on the model side by the constants given, on the code side by the generated calls; not a proof for all inputs."
SMALL = "Design model: every series over a 3-letter alphabet up to 6 points (thorough %d), every averaging factor, definitions against independent formulations. Calls judged to 1e-9 plus rounding of the data."
META = {c: (t, n + END) for c, t, n in (
    ("C01", TV % "Stats/StatLib", SMALL % 9),
    ("C02", TV % "Stats/StatLib", SMALL % 9),
    ("C03", TV % "Stats/StatLib", SMALL % 8),
    ("C04", TV % "Stats/StatLib", SMALL % 9),
    ("C05", TV % "Taus", "Design model: every request of up to two entries x lengths x limits is answered in exactly one way unless tied; keyword grids. Ties in round(tau*rate) accept both neighbours."),
    ("C06", TV % "Taus/StatLib", "Design model as C05 plus the kept/dropped boundary. All statistics at N=2..12 and every factor around the last estimable one, refusals, zero deviations."),
    ("C07", TV % "LibOps", "Design model: round trips on every series up to 7 (10) points. Conversions with leading, trailing and interior gaps; duality of every statistic."),
    ("C08", RP % "Purity, GenPurity", "Design model: all histories of 5 (8) calls over a library that is pure or broken in eight ways, calls in two threads overlapping; the monitor accuses exactly the broken ones. Reference answers come from a fresh process."),
    ("C09", RP % "Realtime, GenRealtime", "Design model: every stream of 6 (8) points over 3 letters, equality with the batch definitions of Stats. Streams to 4000 points, up to three interleaved objects."),
    ("C10", RP % "Realtime, GenRealtime", "Design model: growth of the factor list on every stream of 6 (8) points. Grids with 1-12 points per decade, streams to 4000 points."),
    ("C11", TV % "LibOps GradVerdict", "Design model: every gap pattern on series up to 5 (6) points. Error columns are judged by C17."),
    ("C12", TV % "LibOps", "Design model: polarisation, Cauchy-Schwarz and hat identities on every pair of small series. The hat of htotdev on phase data is not judged."),
    ("C13", RP % "Dataset, GenDataset", "Design model: all histories of two datasets up to 5 (6) actions. The expected output of a compute is the function's own answer on copies of the arguments."),
    ("C14", RP % "Dataset, GenDataset", "Design model: all histories of two datasets up to 4 (6) actions. The stored results are taken as observed; the file text is parsed back field by field."),
    ("C15", RP % "Dataset, GenDataset", "Design model: all histories of two datasets and a plot up to 4 (6) actions. Observed on matplotlib artists with the Agg backend; saved pictures against a rendering of the plot's own figure."),
    ("C16", TV % "Ci", "Design model: case selection, range of the edf, each table row within 3-4 % of the sum it replaces. d <= 3 and records not shorter than the filter."),
    ("C17", TV % "Ci, Elem", "Chi-squared distribution function evaluated to 20 digits at the reported ends (1e-7 on tail probabilities). Levels 0.5..0.99999."),
    ("C18", TV % "Ci", "Exact detrending and lag-1 autocorrelation; both outcomes accepted within 1e-7 of a decision limit."),
    ("C19", TV % "Noise", "Design model: the pink machine with symbolic draws, Parseval for both spectra. The normal draws after the same numpy seed are part of the event; draw roles of pink may be permuted."),
    ("C20", RP % "Noise, GenNoise", "Design model: semigroup of the filters, predicted levels against numerical integrals. Predicted levels only for b = 0..-4."),
    ("C21", TV % "Psd", "Spectra for which the cubic interpolant is exact (polynomials up to degree 3) plus arbitrary short vectors; linearity and axis scaling."),
    ("C22", TV % "Psd", "Closed forms, power and asymptotic series of the sin^4/sin^6 integrals checked against each other; up to six segments."),
    ("C23", TV % "Noise", "Design model: the transform of the synthesis is the amplitudes. The four natural orders of the draws are accepted."),
    ("C24", TV % "Mask", "Design model: positivity and monotonicity on a refined grid. Boundaries, their neighbouring doubles, integers and numpy scalars."),
    ("C25", TV % "LibOps relations", "Design model: the same relations as invariants over every small series. Relations between pairs of calls, judged to rounding."),
)}
