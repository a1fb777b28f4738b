import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
API=["pt","ph","ps","hs","pv","tv","th","ts","px","tx","hx","sx"]
p("C01","Basic IF97 equations: v, u, h, s, cp, cv, w in regions 1, 2, 3 and 5",
  "For every pressure and temperature of region 1, 2 or 5 the specific volume, density, internal energy, enthalpy, entropy, isobaric and isochoric heat capacity and speed of sound are the ones derived from the IAPWS-IF97 Gibbs equation of that region, with its published coefficients, exponents and reducing quantities. In region 3 they are the ones derived from the Helmholtz equation at the temperature and density of the state, and so is the pressure.",
  ["inputs"],"every (p,T) inside regions 1, 2, 5 and every (T,density) of region 3; all eight quantities; with an explicit region and without one",
  "The tests compare a few tabulated states per region with tolerances; a slip in one coefficient, exponent or term, or one that acts only in part of the region, moves most tabulated values by less than the tolerance or not at all.",
  ["src/r1/region1_gfe.rs","src/r1/region1_pT.rs","src/r2/region2_gfe.rs","src/r2/region2_pT.rs","src/r3/region3_hfe.rs","src/r3/region3_Td.rs","src/r5/region5_gfe.rs","src/r5/region5_pT.rs","src/algo/polynomial.rs","src/algo/polynomial_steps.rs"],
  [("dimensionless Gibbs energy and its derivatives","src/r1/region1_gfe.rs, src/r2/region2_gfe.rs, src/r5/region5_gfe.rs"),("dimensionless Helmholtz energy and its derivatives","src/r3/region3_hfe.rs"),("unrolled power-sum kernels","src/algo/polynomial_steps.rs")],obs=["pt","ph","ps","hs"])
p("C02","Derived thermodynamic properties obey their defining identities",
  "In single-phase states every derived property - Helmholtz and Gibbs energy, exergy, compressibility factor, isentropic exponent, fugacity and its coefficient, volume expansion and compressibility coefficients, pressure coefficients, the partial derivatives of volume and pressure, Joule-Thomson and isothermal throttling coefficients - equals its thermodynamic definition, in the documented unit, applied to the basic equation of the state's region (the fugacity coefficient is exp(g/RT) in regions 1 and 3 and exp((g-g_ideal)/RT) in regions 2 and 5, as documented). This includes the sign of each partial derivative and the variable held constant.",
  ["inputs"],"every state of regions 1, 2, 3 and 5 and every derived property",
  "The suite checks only a handful of derived properties at a handful of points and none of the partial derivatives in every region.",
  ["src/r1/region1_pT_ext.rs","src/r2/region2_pT_ext.rs","src/r3/region3_Td_ext.rs","src/r5/region5_pT_ext.rs","src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs","src/r5/region5.rs"],
  [("per-region extended property functions","src/r*/region*_ext.rs"),("property selection","src/r1/region1.rs, src/r2/region2.rs, src/r3/region3.rs, src/r5/region5.rs")],obs=["pt"])
p("C03","Region 3 volume from (p,T): subregion selection and equations",
  "For every (p,T) of region 3 the specific volume is the one given by the IF97 auxiliary equation of the subregion 3a to 3z that the published boundary equations assign to that state. All other properties are evaluated at exactly that density.",
  ["inputs"],"every (p,T) of region 3, each of the 26 subregions, boundary lines excepted",
  "Only a few points per subregion are tabulated; a wrong boundary comparison or coefficient misplaces states between the tabulated ones.",
  ["src/r3/region3_v_pT.rs","src/r3/region3_v_subregion_pT.rs","src/common/boundaries.rs"],
  [("subregion decision tree","src/r3/region3_v_pT.rs"),("26 subregion equations","src/r3/region3_v_subregion_pT.rs")],obs=["pt"])
p("C04","Saturation line: p(T) and T(p) are the IF97 region 4 equations",
  "Saturation pressure from temperature and saturation temperature from pressure are the two branches of the single IF97 saturation equation, over the whole range from 273.15 K (611.213 Pa) to the critical point. The same pair of equations underlies quality-based lookups and every single- versus two-phase decision.",
  ["inputs"],"every temperature and pressure of the saturation line and just beyond both of its ends",
  "Three pressures and three temperatures are tabulated.",
  ["src/r4/region4_sat_pT.rs","src/r4/region4_pTx.rs"],
  [("p_saturation, T_saturation","src/r4/region4_sat_pT.rs")],obs=["px","tx"])
p("C05","(p,h) and (p,s): backward equations and the subregion they belong to",
  "For (p,h) and (p,s) in regions 1, 2 and 3 the temperature - and in region 3 also the volume - is the one given by the published backward equation of the subregion (2a, 2b, 2c, 3a, 3b) in which the state lies. Every other property is the forward property of the state so found together with the given pressure or density.",
  ["inputs"],"every (p,h) and (p,s) of regions 1, 2 and 3, subregion borders excepted; every property",
  "Each backward equation is checked at three tabulated states; exponents, coefficients and subregion borders are not covered between them.",
  ["src/r1/region1_T_phps.rs","src/r2/region2_T_ph.rs","src/r2/region2_T_ps.rs","src/r3/region3_Tv_phps.rs","src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs"],
  [("backward polynomials","src/r1/region1_T_phps.rs, src/r2/region2_T_ph.rs, src/r2/region2_T_ps.rs, src/r3/region3_Tv_phps.rs"),("subregion borders 2b/2c, 3a/3b","src/r2/region2_T_ph.rs, src/r3/region3_Tv_phps.rs")],obs=["ph","ps"])
p("C06","(h,s): backward equations and the subregion they belong to",
  "For (h,s) in regions 1, 2 and 3 the pressure is the one given by the published backward equation of the subregion in which the state lies, and the temperature (and in region 3 the volume) follows from that pressure through the (p,h) or (p,s) backward equation. For wet steam with entropy above that of saturated vapour at 623.15 K the saturation temperature is the published backward function of (h,s) where it is defined.",
  ["inputs"],"every (h,s) of regions 1, 2, 3 and of the wet-steam region, subregion borders excepted; every property",
  "A few tabulated states per subregion.",
  ["src/r1/region1_p_hs.rs","src/r2/region2_p_hs.rs","src/r3/region3_p_hs.rs","src/r4/region4_T_hs.rs","src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs","src/r4/region4.rs"],
  [("p(h,s) polynomials","src/r1/region1_p_hs.rs, src/r2/region2_p_hs.rs, src/r3/region3_p_hs.rs"),("Tsat(h,s)","src/r4/region4_T_hs.rs")],obs=["hs"])
p("C07","Transport and further properties follow the IAPWS releases",
  "Dynamic and kinematic viscosity, thermal conductivity (without the critical enhancement), thermal diffusivity, Prandtl number, static dielectric constant and surface tension equal the IAPWS correlations evaluated at the temperature and density of the state, in every single-phase region. Quantities combining them (kinematic viscosity, diffusivity, Prandtl number) use that same state's density and heat capacity.",
  ["inputs"],"every state of regions 1, 2, 3 and 5 and every transport or further property",
  "The suite evaluates the correlations at a few densities and temperatures only and not at all through most input pairs.",
  ["src/common/transport_further.rs","src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs","src/r5/region5.rs"],
  [("viscosity, thcond, static dielectric, surface tension","src/common/transport_further.rs")],obs=["pt"])
p("C08","(p,T): every state gets the IF97 region its pressure and temperature lie in",
  "For every pressure and temperature the reported region is 1, 2, 3 or 5 exactly as the IF97 region map (saturation line, 623.15 K line, 2-3 boundary, 1073.15 K line, 100 and 50 MPa limits, 2273.15 K limit) assigns it, and a state outside the map is refused. Points on the saturation line itself are refused as ambiguous.",
  ["inputs"],"every (p,T) of the plane inside and outside the validity range, boundary lines within rounding excepted",
  "Only a few points per region are sampled, none systematically next to the borders or the corners of the map.",
  ["src/common/region.rs","src/common/boundaries.rs","src/rust_if97.rs"],
  [("pT_sub_region","src/common/region.rs"),("B23 equations","src/common/boundaries.rs")],obs=["pt"])
p("C09","(p,h) and (p,s): every state gets the IF97 region it lies in",
  "For every (p,h) and (p,s) the reported region is the one whose (p,T) state has those coordinates: 1, 2, 3, 5, or 4 between the saturation curves. A pair outside the validity range is refused.",
  ["inputs"],"every (p,h) and (p,s), the neighbourhood of border curves within the accuracy of the backward equations excepted",
  "Sampled states only; the border curves are piecewise and each piece is used in a small pressure window.",
  ["src/common/region.rs","src/common/boundaries.rs","src/rust_if97.rs"],
  [("ph_sub_region, ps_sub_region","src/common/region.rs")],obs=["ph","ps"])
p("C10","(h,s): every state gets the IF97 region it lies in",
  "For every (h,s) the reported region is the one whose (p,T) state has those coordinates: 1, 2, 3, 5, or 4 below the saturation curves, following the published (h,s) boundary equations. A pair outside the validity range is refused.",
  ["inputs"],"every (h,s), the neighbourhood of border curves (in particular of the 100 MPa isobar) excepted",
  "Sampled states only.",
  ["src/common/region.rs","src/common/boundaries.rs","src/rust_if97.rs"],
  [("hs_sub_region","src/common/region.rs"),("h'1(s), h'3a(s), h''2ab(s), h''2c3b(s), hB13(s), TB23(h,s)","src/common/boundaries.rs")],obs=["hs"])
p("C11","(p,v), (t,v), (t,h), (t,s): every state gets the IF97 region it lies in",
  "For every (p,v), (t,v), (t,h) and (t,s) the reported region is the one whose (p,T) state has those coordinates: 1, 2, 3, 5, or 4 between the saturation curves. A pair outside the validity range is refused; a (t,h) or (p,v) that two states share may be answered as either of them.",
  ["inputs"],"every (p,v), (t,v), (t,h), (t,s); border curves and the (t,h) and (p,v) pairs that two states share excepted",
  "Sampled states only, with entire pieces of the region map never entered.",
  ["src/common/region.rs","src/common/boundaries.rs","src/rust_if97.rs"],
  [("pv_sub_region, Tv_sub_region, Th_sub_region, Ts_sub_region","src/common/region.rs")],obs=["pv","tv","th","ts"])
p("C12","Wet steam: mixture properties follow the lever rule on the saturation states",
  "For a quality x between 0 and 1 volume, enthalpy, entropy, internal energy, Helmholtz and Gibbs energy are y' + x (y'' - y') of saturated liquid and vapour at the state's temperature or pressure, density is the reciprocal of the volume, and x = 0 or x = 1 gives all properties of the saturated phase. For pairs inside the two-phase region the quality is (y - y')/(y'' - y') of the given property, and properties undefined for a mixture are refused.",
  ["inputs"],"every quality in [0,1] at every saturation temperature and pressure, and every two-phase (p,h), (p,s), (h,s), (p,v), (t,v), (t,h), (t,s)",
  "Few wet-steam states are tested, hardly any near the critical point where the saturated states come from region 3.",
  ["src/r4/region4.rs","src/r4/region4_pTx.rs","src/r4/region4_pair_ext.rs","src/r4/region4_T_hs.rs"],
  [("px_reg4, Tx_reg4, ph_reg4, ...","src/r4/region4.rs"),("saturated liquid and vapour values","src/r4/region4_pTx.rs")],obs=["px","tx","ph","ps","hs","pv","tv","th","ts"])
p("C13","Every property identifier and region value has a defined answer",
  "Every one of the 36 documented property identifiers is computed by every single-phase region for every input pair that supports it and means the same property in all of them, the region identifier yields the region number, and an identifier outside the documented set yields the documented error value. A state that belongs to no region yields the documented error code of its input pair for every property that is not an echo of an input.",
  ["inputs"],"every 32-bit property identifier and region number, for every function of the API",
  "Tests ask for a few identifiers per function; a dropped or swapped match arm for another one is invisible.",
  ["src/rust_if97.rs","src/common/propertry_id.rs","src/common/constant.rs","src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs","src/r4/region4.rs","src/r5/region5.rs"],
  [("pair_properties and per-region match on the identifier","src/rust_if97.rs, src/r*/region*.rs")],obs=API)
p("C14","Inputs are echoed unchanged and quality inputs are range-checked",
  "Asking a function for one of its own input properties returns exactly the given value. The quality-based functions refuse a quality outside [0,1] and a pressure or temperature outside the saturation line with the documented error value before computing anything else.",
  ["inputs"],"every input value of every function",
  "Tests never ask for the inputs back and try one or two invalid values.",
  ["src/rust_if97.rs"],[("match o_id echo arms and range guards","src/rust_if97.rs")],obs=API)
p("C15","An explicit region gives the same values as automatic region detection",
  "For every input pair, naming the region that automatic detection would find gives bit-for-bit the same value of every property as leaving it out. Naming a region that does not exist is refused with the documented error code.",
  ["inputs"],"every pair of inputs, region number and property identifier",
  "Tests pass explicit regions at a few states.",
  ["src/rust_if97.rs","src/common/propertry_pairs.rs"],[("region argument handling","src/rust_if97.rs, src/common/propertry_pairs.rs")],obs=["pt","ph","ps","hs","pv","tv","th","ts"])
p("C16","All properties reported for one state belong to one thermodynamic state",
  "For every input pair and every region the pressure, temperature and density reported for a state determine all other reported properties: each equals the forward property at that same state, in the documented unit (MPa, degrees Celsius, kg/m3, kJ/kg). In particular v is 1/d, u is h - p v, f is u - T s and g is h - T s of the same answers.",
  ["inputs"],"every input pair, every region, every property",
  "The tests check single values, not the mutual consistency of all properties of a state, and not for all pairs.",
  ["src/r1/region1.rs","src/r2/region2.rs","src/r3/region3.rs","src/r5/region5.rs","src/r1/region1_pair_ext.rs","src/r2/region2_pair_ext.rs","src/r3/region3_pair_ext.rs","src/r5/region5_pair_ext.rs","src/r5/region5_ph_ps_hs.rs"],
  [("per-pair property functions of each region","src/r*/region*.rs"),("pair to (p,T) or (T,d) conversions","src/r*/region*_pair_ext.rs")],obs=["pt","ph","ps","hs","pv","tv","th","ts"])
p("C17","Iterative solutions solve the forward equation for the value that was given",
  "Where an input pair has no closed-form equation, the answer is an iterate whose residual is the difference between the given value and the forward property of that same region at that iterate and the other given input, and the starting residuals belong to the starting points. Each step goes to where the line through the last two points meets the given value, or halves an interval around the solution. Iteration stops only when the correction (relative to the size of the unknown) or the residual (relative to the size of the given value; quality on a scale of 1, enthalpy of at least 100 kJ/kg, entropy of at least 0.3 kJ/(kg K)) is within its tolerance (at most 1e-4), the residual vanishes or the iteration budget of at least 20 steps is spent, and the reported state is the one it ended at.",
  ["inputs"],"every iterative solution of every input pair and region",
  "Tests look at a few converged results; a residual bound to the wrong property, input or region converges to a wrong state elsewhere.",
  ["src/algo/root.rs","src/r1/region1_pair_ext.rs","src/r2/region2_pair_ext.rs","src/r3/region3_pair_ext.rs","src/r5/region5_pair_ext.rs","src/r5/region5_ph_ps_hs.rs","src/r4/region4_pair_ext.rs"],
  [("secant solvers","src/algo/root.rs"),("solver call sites","src/r*/region*_pair_ext.rs, src/r5/region5_ph_ps_hs.rs")],obs=["pv","tv","th","ts","ph","ps","hs","hx","sx"])
p("C18","No input makes the library panic",
  "No call panics, overflows an integer, indexes out of bounds or aborts, whatever the input values (including NaN and infinities), property identifier and region number. Errors are reported through the documented error values only.",
  ["inputs"],"every f64 and i32 argument of every public function, in the Rust API and in the C bindings",
  "Tests call a few valid states.",
  ["src/rust_if97.rs","src/algo","src/r1","src/r2","src/r3","src/r4","src/r5","src/common","src/cdecl_c_if97.rs","src/stdcall_c_if97.rs"],
  [("integer arithmetic, indexing and asserts of every reachable function","src/")],obs=API)
p("C19","Every call terminates: all loops have a bound independent of the data",
  "Every loop reachable from the API ends after a number of steps fixed by the code, whatever the inputs, including NaN and states where an iteration does not converge. There is no unbounded recursion.",
  ["inputs"],"every loop and call cycle reachable from a public function",
  "Tests run converging inputs.",
  ["src/algo/root.rs","src/algo/polynomial.rs","src/algo/polynomial_steps.rs","src/r4/region4_pair_ext.rs","src/r4/region4_T_hs.rs","src/r2/region2_pair_ext.rs","src/common/region.rs"],
  [("iteration counters","src/algo/root.rs, src/r2/region2_pair_ext.rs, src/r4")],obs=API)
p("C20","Calls are pure: no state, no effects, safe from any thread",
  "A result depends only on the arguments of the call: no call reads or writes state that another call can change, and none performs input, output or another effect. Hence calls may run concurrently and in any order with identical results.",
  ["inputs","schedules","histories"],"every function reachable from the API, every history of earlier calls and every interleaving of threads",
  "Tests run each call once, in one thread.",
  ["src/lib.rs","src/rust_if97.rs","src/algo","src/r1","src/r2","src/r3","src/r4","src/r5","src/common"],
  [("absence of mutable statics, interior mutability, thread locals and effects","src/")],obs=API)
p("C21","The C and Python bindings compute what the Rust API computes",
  "Every function exported by the cdecl, stdcall and Python bindings returns for all arguments the same value as the Rust function of the same name, with the arguments in the same order. A Python convenience function named after its inputs and one output returns that output.",
  ["inputs","configurations"],"all exported functions in all three binding configurations and all arguments",
  "The bindings are compiled only with their features on; no test runs them.",
  ["src/cdecl_c_if97.rs","src/stdcall_c_if97.rs","src/python_if97.rs","python/seuif97/__init__.py"],
  [("binding wrappers","src/cdecl_c_if97.rs, src/stdcall_c_if97.rs, src/python_if97.rs")],obs=["C symbols","Python module functions"])
p("C22","The exported C interface has the documented names, types and conventions",
  "With the cdecl or stdcall configuration the library exports an unmangled C symbol for each of the twelve documented functions, with the documented argument and result types, the C calling convention in the cdecl build and stdcall in the stdcall build. No exported function lets a Rust-only ABI or type cross the boundary.",
  ["configurations"],"all exported functions of both C configurations",
  "No test links against the exported symbols.",
  ["src/cdecl_c_if97.rs","src/stdcall_c_if97.rs","src/lib.rs","README.md"],
  [("no_mangle extern functions","src/cdecl_c_if97.rs, src/stdcall_c_if97.rs")],obs=["exported symbols"])
p("C23","Error values never enter a computation",
  "With automatic region detection an internal error value or error code is returned to the caller as it is or replaced by another documented one; other than being recognised as an error value, it is never compared, added, multiplied or otherwise processed as if it were a physical quantity. So no answer is computed from a failed intermediate result.",
  ["inputs"],"every path from a point where an error value arises to the result, over all functions of the API",
  "Tests hardly reach any state where an intermediate step fails.",
  ["src/common/constant.rs","src/r4","src/r3","src/r2","src/r1","src/common/region.rs","src/rust_if97.rs"],
  [("error constants and their checks","src/common/constant.rs and users")],obs=API)
p("C24","Property numbering is one table everywhere",
  "The numeric identifiers 0 to 35 denote the same property, unit and symbol in the Rust constants, the Python package and the documentation tables, without gaps or duplicates. Reordering or renumbering one of them silently changes what every caller gets.",
  ["configurations"],"all 36 identifiers in all places that define or document them",
  "Tests refer to the constants by name and would follow a renumbering.",
  ["src/common/propertry_id.rs","python/seuif97/__init__.py","README.md","README_Python.md"],
  [("o_id constants","src/common/propertry_id.rs"),("documentation table","README.md")],obs=["README property table","Python constants"])
p("N01","Iterative solutions converge to the requested accuracy everywhere",
  "Every iteratively solved state reproduces the given inputs within the iteration tolerance for every valid input.",
  ["inputs"],"every valid input of the iteratively solved pairs","Sampled states only.",
  ["src/algo/root.rs","src/r3/region3_pair_ext.rs","src/r4/region4_pair_ext.rs"],[("secant iteration","src/algo/root.rs")])
p("N02","Backward equations agree with the forward equations within IF97 tolerances",
  "Temperatures, pressures and volumes from the backward equations reproduce the forward equations within the numerical consistency limits published with IF97.",
  ["inputs"],"every state of regions 1 to 3","Sampled states only.",
  ["src/r1","src/r2","src/r3"],[("backward polynomials","src/r*/")])
p("N03","Properties are continuous and monotonic across region borders within IF97 limits",
  "Crossing a region border changes no property by more than the inconsistency IF97 permits.",
  ["inputs"],"every border point","Sampled states only.",
  ["src/common/region.rs"],[("region selection","src/common/region.rs")])
p("N04","The shortest-addition-chain power kernels are faster than plain powers",
  "The library computes a property several times faster than straightforward evaluation with powi.",
  ["inputs","configurations"],"all properties on all supported platforms","Benchmarks are not asserted.",
  ["src/algo/polynomial_steps.rs","benches/speed_benchmark.rs"],[("power kernels","src/algo/polynomial_steps.rs")])
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        jsonschema.validate(x,S)
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
