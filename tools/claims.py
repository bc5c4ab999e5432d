GV = "static analysis: gated value-graph (GVN-style) dataflow over type-checked SSA, compared with a reference definition"
GVN = "Static dataflow analysis; covers all inputs of the analysed entry points, trusting the reference definitions and the SSA builder; not a machine-checked proof."
OB = "static analysis: gated value-graph dataflow; bounds, nil and type-assertion obligations discharged in a linear-inequality domain"
OBN = "Static dataflow analysis; covers every potentially failing operation of the analysed ABI entry points, trusting the abstract domain and the SSA builder; not a machine-checked proof."
GVO = "static analysis: gated value-graph dataflow compared with a reference definition of what is accepted; panic and allocation obligations discharged in a linear-inequality domain"
EF = "static analysis: forward dataflow over SSA from every fallible call, assuming it failed; every return reached must carry a failure; the binary readers' value graphs accept nothing beyond their references"
EFN = "Static dataflow analysis; covers every call with an error or result in the repository's functions, trusting the SSA builder and that callees report failure through their error or result; not a machine-checked proof."
TH = "static analysis: interprocedural may-throw effect analysis over the call graph with handler dominance; dataflow on failed results; panic obligations of the productions discharged in a linear-inequality domain"
THN = "Static effect analysis; covers every exported function of the text packages, trusting the SSA builder and the call graph; not a machine-checked proof."
GP = "static analysis: gated value-graph dataflow over token positions, each production compared with a reference production"
GPN = "Static dataflow analysis; covers every token sequence, production by production, trusting the reference productions and the SSA builder; not a machine-checked proof."
AU = "static analysis: finite automata extracted from the value graphs of the lexer rules and compared with the grammar's machine; gated value-graph dataflow for the longest-match loop and word classification"
AUN = "Static dataflow analysis; covers every byte in every automaton state and every text for the classification functions, trusting the reference machine and the SSA builder; not a machine-checked proof."
CLAIMS = {
    "P01": (GV, GVN),
    "P02": (GV, GVN),
    "P03": (GV, GVN),
    "P04": (OB, OBN),
    "P05": (GV, GVN),
    "P06": (GV, GVN),
    "P07": (GV, GVN),
    "P08": (GV, GVN),
    "P09": (GV, GVN),
    "P10": (GV, GVN),
    "P11": (GV, GVN),
    "P12": (GV, GVN),
    "P13": (GV, GVN),
    "P14": (GV, GVN),
    "P15": (GV, GVN),
    "P16": (GV, GVN),
    "P17": (GV, GVN),
    "P18": (EF, EFN),
    "P19": (OB, OBN),
    "P20": (GV, GVN),
    "P21": (GV, GVN),
    "P22": (GVO, GVN),
    "P23": (GV, GVN),
    "P24": (AU, AUN),
    "P25": (GV, GVN),
    "P26": (TH, THN),
    "P27": (GP, GPN),
    "P28": (GP, GPN),
    "P29": (GP, GPN),
    "P30": (GP, GPN),
    "P31": (GV, GVN),
}
NA = {}
NOTES = "All checks are one static analyser (checker/, built by setup.sh into .bin/vc) run against /repo's working tree; nothing in /repo is executed."
