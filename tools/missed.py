"""Planted bugs which the checks missed at first, and what was added."""
MISSED = {
    "c02-near-absorbing": "missed; nearly absorbing chains (stays multiplied by up to 10^6, long panels)",
    "c06-isclose": "missed; nearly absorbing chains",
    "c08-uint8": "missed; tables with more than 256 cells",
    "c17-id-order": "missed; weights whose dictionaries are filled in another order than the ids",
    "c03-rounded": "missed; chains with very rare states, tighter comparison of small probabilities",
    "c06-int": "missed; integer matrices of chains with sure moves",
    "c13-append": "missed; repeated exports to one file and over an older file",
    "c27-uint8": "missed; maps of 130-420 units",
    "c28-trunc": "missed; sequences of lengths up to 150 with chosen numbers of mismatches",
    "c33-alpha-zero": "missed; alpha of 0 and 1",
    "c33-pattern": "missed; column names which contain the pattern elsewhere than at the end",
    "c10-F-in-place": "missed; s, f, S, F read in assorted orders",
    "c18-geo-float32": "missed; values which differ in their last digits",
    "c33-arrow-half": "missed; maps of up to 110 units",
    "c34-cutoffs": "missed; lists of cutoffs in descending order",
    "c34-subs-mat": "missed; up to eight sequences in the pool",
    "c35-mfpt-cache": "missed; calls on similar inputs against the call in a fresh process",
    "c21-large-p": "missed; 1500-24000 units",
    "c22-int16": "missed; nearly complete maps of up to 330 units",
    "c24-denom": "missed; regimes with tens of thousands of pairs",
    "c33-composite-rc": "missed; every plot under settings other than the defaults",
    "c34-perm-buffer": "missed; permuting twice, the first results kept",
    "c19-ini-norm": "missed; initial distributions with very unequal shares",
    "c13-long-title": "missed; long titles and names",
    "c01-many-periods": "missed; panels of up to 1080 periods",
    "c12-many-regimes": "missed; up to 300 regimes",
    "c27-uint8-larger": "missed; up to 999 permutations",
    "c28-many-sequences": "missed; up to 130 different sequences",
    "c29-many-classes": "missed; 15-40 classes",
    "c32-int8": "missed; 150-900 units which change alike",
    "c05-large": "missed; chains of 14-46 states",
    "c19-l2-power": "missed; chains of up to 34 states",
    "c26-many-sectors": "missed; up to 1000 sectors",
    "c18-int-ranks": "missed; integers beyond the precision of floats",
    "c11-cdf-large": "missed; up to 40 classes",
    "c20-blanks": "missed; labels that only differ by case or a blank",
    "c21-p-floor": "missed; p-values compared relatively",
}
