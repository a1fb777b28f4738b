"""what each check does, for MANIFEST.json and the evidence files"""
VN = "abstract interpretation of MIR to a gated value graph; global value numbering against the reference equations"
TRUST = ("Trusted: rustc's MIR, the interpreter of MIR (engine/absint.py), the reference tables of engine/tables.json (checked against the printed verification "
         "values of the releases), libm's exp, ln, pow, sqrt being those functions. ")
NOTE = {
 "C01": (VN, "Every property graph is compared with the IF97 basic equations by value number, for every feasible arm reached by the representative states of the region. Rounding order is not part of the property."),
 "C02": (VN, "As C01 with the defining identities of the derived properties."),
 "C03": (VN, "As C01 with the 26 subregion equations and the boundary decision tree; states within rounding of a boundary are left out."),
 "C04": (VN, "As C01 with the region 4 equation in both directions."),
 "C05": (VN, "As C01 with the backward equations; the named region and the region found."),
 "C06": (VN, "As C01 with the (h,s) backward equations; wet steam with Tsat(h,s) on its published range."),
 "C07": (VN, "As C01 with the IAPWS transport releases in the documented scope (conductivity without critical enhancement)."),
 "C08": ("region decision graph against a piecewise reference map, on both sides of every case distinction of either", "The region graph's arm is compared with the reference map at states placed on both sides of every comparison border of the code and of the reference. A deviation confined to a cell no representative reaches goes unseen."),
 "C09": ("region decision graph against a piecewise reference map, on both sides of every case distinction of either", "As C08; a band around borders as wide as the accuracy of the backward equations is left out."),
 "C10": ("region decision graph against a piecewise reference map, on both sides of every case distinction of either", "As C09; the band at the 100 MPa isobar is left out."),
 "C11": ("region decision graph against a piecewise reference map, on both sides of every case distinction of either", "As C09; states of (t,h) that two pressures share are left out."),
 "C12": (VN, "As C01 with the lever rule on the saturated states; the quality of every pair."),
 "C13": ("dispatch analysis: classes of identifiers distinguished by the code, selected alternatives of the value graph", "All 32-bit identifiers are covered by classes; documented ones by value number of the forward property in every region and pair."),
 "C14": ("dataflow from argument to result; guard analysis of the quality functions", "Echo is decided by identity of the value graph with the argument; range guards on both sides of each limit."),
 "C15": ("value-number equality of the automatic and the explicit path", "Both paths' graphs are compared at representatives of every region and of every case distinction of the automatic path."),
 "C16": (VN, "As C01, each pair: every property against the forward equations at the pressure, temperature and density the same pair reports."),
 "C17": ("loop-invariant analysis: residual, starting points, update and exit test of every loop by value number", "Decides that the iteration solves the right equation and stops by the right test, not that it converges (N01)."),
 "C18": ("panic reachability: path conditions of every assert, index and panic call in the value graph", "A panic is reported when a representative argument satisfies its path condition; path conditions no representative reaches are counted as undecided."),
 "C19": ("loop bound analysis (integer counters with constant bounds) and recursion analysis over the call graph", "Covers every loop and call cycle reachable from the API of all configurations."),
 "C20": ("effect analysis over the call graph: statics, interior mutability, foreign and effectful calls", "Covers everything reachable from the API including the standard library functions it calls, up to the listed pure primitives."),
 "C21": ("value-graph identity of bindings and API in every feature configuration; syntax analysis of the Python package", "The pyo3 glue is trusted."),
 "C22": ("analysis of exported items: ABI, symbol, signature in both C configurations against the documentation", "The linker's export of no_mangle items is trusted; the stdcall ABI is analysed with the ABI name substituted on x86_64."),
 "C23": ("taint analysis of error constants through the value graph", "An operand that is an error constant on the selected arm of arithmetic or ordering is a violation."),
 "C24": ("table agreement between Rust constants, Python constants and documentation", "Complete over the 36 identifiers."),
}
