"""Per property: (deciding method, assurance note)."""
_S = "Held on the generated cases only; trusts the oracle in checks/, numpy and scipy. "
HOW = {
"C01": ("label panels against an independent dictionary count, metamorphic unit/panel relations", _S + "Panels up to 70 units, 14 periods, 14 classes."),
"C02": ("sparse count matrices against graph closure (Floyd-Warshall) and parsed summaries", _S + "k up to 14."),
"C03": ("structured chains against exact rational null-space solutions", _S + "k up to 7 dense, more for block structures."),
"C04": ("structured chains against exact rational hitting-time systems and reachability", _S + "Exact up to k=13, float systems up to 46."),
"C05": ("irreducible chains against exact rational second-moment systems", _S + "Exact up to k=13, float systems up to 46."),
"C06": ("chains with absorbing and empty states against the formula, captured output", _S),
"C07": ("series, weights and cutoffs with boundary values against own discretisation", _S + "Quantile classes trust mapclassify's quantile bins as documented."),
"C08": ("count stacks and panels against a direct tally per lag class", _S),
"C09": ("labelled maps against own weighted mode with ties", _S),
"C10": ("crafted conditional chains against exact long-run solutions", _S),
"C11": ("count matrices against definitional chi-square statistics", _S),
"C12": ("regime count stacks against exact definitional sums, metamorphic reorderings", _S),
"C13": ("parsed summaries and LaTeX exports against computed attributes", _S),
"C14": ("differential against the object without permutations, enumerated/statistical support of realizations", _S + "Randomness judged at 8 standard errors."),
"C15": ("panels against own Moran quadrants, seeded differential for p-values", _S + "Local Moran p-values are esda's."),
"C16": ("panels against own expected transitions, differential between quadrant schemes", _S + "One known finding (transposed series), listed in KNOWN_FINDINGS.txt."),
"C17": ("panels with controlled significance against union-find clusters", _S),
"C18": ("tied and distinct panels against own ranking and rank-move counts", _S),
"C19": ("stochastic matrices against index formulas", _S),
"C20": ("panels and regimes against definitional theta, p-values recomputed from exposed simulations", _S),
"C21": ("vector pairs with ties and extreme magnitudes against quadratic pair count, metamorphic relations", _S),
"C22": ("vector pairs on mutual neighbour graphs against pair-by-pair counts", _S + "2-12 units."),
"C23": ("vector pairs and weights against averages of explicit pair signs", _S + "2-14 units."),
"C24": ("vector pairs with regimes against means over listed pairs", _S + "2-16 units, up to 6 regimes."),
"C25": ("simulated statistics against those of all permutations, p-values recounted", _S + "Randomness judged at 8 standard errors."),
"C26": ("two-period maps against dense-weight moves and exact sector membership", _S + "1-1000 sectors."),
"C27": ("histories of permute calls against all row permutations, p-values recounted", _S + "Randomness judged at 8 standard errors."),
"C28": ("sequences and cost matrices against a memoised alignment", _S + "Up to 14 classes, length 8."),
"C29": ("sequences of one length against recomputed costs and a memoised alignment", _S + "Up to 14 classes, length 7."),
"C30": ("matrices and stacks against cell-by-cell definitions, uniformity of shuffles", _S),
"C31": ("subsets and graphs against union-find components", _S + "Graphs of up to 5000 nodes."),
"C32": ("rose figures read back from matplotlib against a table of esda's local Morans", _S + "Local Morans are esda's."),
"C33": ("figures read back from matplotlib, global state compared around valid and failing calls", _S + "Map fills are those esda draws."),
"C34": ("random calls and call sequences on a shared pool of inputs, inputs compared bytewise", _S + "The calls of checks/catalog.py."),
"C35": ("random histories, attribute access orders and inputs changed in place, differential against fresh objects", _S + "The calls of checks/catalog.py."),
}
