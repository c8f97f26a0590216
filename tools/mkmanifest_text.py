M = "runtime monitoring: "
TECHNIQUE = {
    "P01": M + "independent reference model judges every configuration sampling returns",
    "P02": M + "differential monitor of accept/refuse verdicts and error kinds against a reference model",
    "P03": M + "reference-model monitor of default configurations along histories of additions",
    "P04": M + "three-way agreement monitor of condition evaluation plus reference model",
    "P05": M + "three-way agreement monitor of forbidden clauses plus reference model",
    "P06": M + "round-trip and order invariants monitored on every conversion",
    "P07": M + "differential monitor of legality answers against the declared domain",
    "P08": M + "statistical monitor of observed samples against the declared distribution",
    "P09": M + "numeric invariant monitor of reported densities",
    "P10": M + "invariant and completeness monitor of returned neighbors",
    "P11": M + "reference-model monitor of every yielded neighbor and of completeness",
    "P12": M + "reference-model monitor of returned neighbors and of refusals",
    "P13": M + "shadow-state monitor along random assignment histories",
    "P14": M + "mapping-protocol and equality/hash invariant monitor along operation histories",
    "P15": M + "structure monitor comparing reported parts with those added, over permuted histories",
    "P16": M + "snapshot monitor around every refused addition",
    "P17": M + "round-trip monitor with structural, sampling and input-mutation oracles",
    "P18": M + "round-trip monitor with structural and behavioural oracles",
    "P19": M + "reference-model monitor of nested spaces and of the untouched source",
    "P20": M + "differential monitor of spaces before and after removing priors",
    "P21": M + "reference enumeration compared with the generated grid",
    "P22": M + "trace comparison monitor over interleavings and processes",
    "P23": M + "reference-model monitor of imputation and deactivation",
    "P24": M + "call-count monitor on families of growing spaces",
    "P25": M + "differential monitor of accepted and refused definitions",
    "P26": M + "differential monitor of numeric helpers against their definition",
    "P27": M + "enumeration monitor of size estimates",
    "P28": M + "round-trip monitor of typed configurations",
    "P29": M + "equality-axiom and copy-independence monitor over single-parameter variations",
    "P30": M + "statistical monitor of observed joint frequencies against the enumerated distribution and a reference sampler",
    "P31": M + "reference-model monitor of several spaces that share parts, with snapshots around every addition",
    "P32": M + "differential monitor of deprecated names against their replacement",
    "P33": M + "differential monitor of changed copies against written out definitions",
    "P34": M + "reference model and distribution monitors on user-defined hyperparameter types, round-trip monitor with user-defined encoders",
    "P35": M + "invariant monitor comparing the space, all configurations handed out, all arguments and a twin space before and after every question of generated histories",
    "P36": M + "fault injection at every call of user-supplied code, with a monitor comparing the space, its configurations and the repeated operation against a twin that saw no fault",
    "P37": M + "a twin space given in plain Python values is compared with one given in numpy scalars and other collections after every operation",
    "P38": M + "each converted hyperparameter is compared with the definition written out from the original one, in contents and behaviour",
}
BASE = (
    "Exploration: held on every execution observed in this run (counts in the evidence file); "
    "trusts the reference model in rv/model.py and CPython/numpy/scipy. "
)
NOTE = {k: BASE for k in TECHNIQUE}
NOTE["P08"] += "Statistical verdicts use thresholds with a false alarm probability below 1e-9 per run. "
NOTE["P30"] += "Statistical verdicts use thresholds with a false alarm probability below 1e-9 per run. "
NOTE["P24"] += "Counts function calls, never wall-clock time. "
