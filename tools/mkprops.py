# generates properties.jsonl
import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    P.append(d)
p("C01","Overlap and kinetic-energy integrals are exact for every pair of shells",
 "For any two shells (any angular momentum up to the library limit, any primitives, any centres, including identical centres) each returned overlap and kinetic-energy integral equals the analytic sum over all primitive pairs of coefficient times coefficient times the Gaussian integral. Every Cartesian component pair of every shell pair has exactly one output slot, in the documented canonical order (first shell slower, x before y before z).",
 ["inputs"],"all shell pairs, angular momenta up to the library maximum, all centres/exponents/coefficients",
 "The one-electron tests only check that the program exits; no value is ever compared, so any wrong term, index or power passes.",
 ["skel/simint/osoei/osoei_overlap.c","skel/simint/osoei/osoei_ke.c","skel/simint/osoei/osoei_terms.c","skel/simint/simint_oneelectron.c"],
 [("one-dimensional overlap/kinetic recurrences","skel/simint/osoei/osoei_terms.c"),("component loops","skel/simint/osoei/osoei_overlap.c, osoei_ke.c")])
p("C02","Nuclear-attraction integrals are exact for every shell pair",
 "For any two shells and any set of point charges each returned potential integral equals the sum over charges and primitive pairs of minus charge times the analytic nuclear-attraction integral, for every Cartesian component pair and in the canonical order. The intermediate storage it uses is large enough for every angular-momentum pair.",
 ["inputs"],"all shell pairs, angular momenta, charges and positions",
 "The potential test only checks the exit status; no value is compared, and no test uses an asymmetric or high angular-momentum pair.",
 ["skel/simint/osoei/osoei_potential.c","skel/simint/simint_oneelectron.c"],
 [("vertical recurrence over first then second shell","skel/simint/osoei/osoei_potential.c")])
p("C03","Shell-pair batches hold every primitive pair once, padded neutrally",
 "A multi-shell-pair built from two shell lists contains, for every requested shell pair and every primitive pair kept by the chosen screening, exactly one entry with the correct Gaussian-product data (prefactor, centre, displacements, exponent sums and derivative exponents), with the off-diagonal factor of two when a shell is paired with itself. Entries that only fill up a vector batch contribute nothing, and the recorded counts, sizes and per-pair vectors describe exactly what was stored, in batches of the fixed batch size.",
 ["inputs","histories"],"all shell lists, primitive counts, centres, screening choices and reuse of a previously filled object",
 "Tests build pairs from a few basis sets only and see the pair data only through the final integrals; primitive counts, alignment remainders and same-shell screening combinations are sampled sparsely.",
 ["skel/simint/shell/shell.c","skel/simint/shell/shell.h"],
 [("pair filling loops","skel/simint/shell/shell.c: simint_fill_multi_shellpair2"),("create wrappers","skel/simint/shell/shell.c")])
p("C04","Concatenating shell pairs and copying shells preserve their contents",
 "Concatenating several multi-shell-pairs gives an object equivalent to having filled it with all the pairs in order: same pairs, same primitives and data for each pair, same counts, with padding that contributes nothing. Copying a shell gives an independent shell with identical data, whatever the destination held before.",
 ["inputs","histories"],"all lists of multi-shell-pairs (any number of pairs, primitives, batch remainders), all prior states of the destination",
 "No test calls the concatenation functions, and copying is only exercised into fresh shells.",
 ["skel/simint/shell/shell.c"],
 [("concatenation","skel/simint/shell/shell.c: simint_cat_multi_shellpair, simint_cat_shellpairs"),("copy","skel/simint/shell/shell.c: simint_copy_shell")])
p("C05","Shell normalisation produces unit-normalised contracted functions",
 "Normalising a list of shells scales the coefficients of every shell so that the axis-aligned (all quanta on one axis) contracted Cartesian function has unit self-overlap, for every angular momentum the library allows, and leaves exponents and centres untouched. The tabulated normalisation and double-factorial constants equal their closed forms.",
 ["inputs"],"all angular momenta in the tables, any number of primitives, any exponents and coefficients",
 "Tests normalise shells up to f and compare downstream integrals only; constants for higher angular momenta are never used by them.",
 ["skel/simint/shell/shell.c","skel/simint/shell/shell_constants.c","skel/simint/constants.h"],
 [("normalisation","skel/simint/shell/shell.c: simint_normalize_shells"),("constants","skel/simint/shell/shell_constants.c, skel/simint/constants.h")])
p("C06","The Boys function is evaluated correctly for every order and argument",
 "For every order the table supports (its maximum less the expansion's extra terms) and every non-negative argument the evaluated Boys function is the nearest-grid-point Taylor expansion below the switch-over argument, with a tabulated value that equals the Boys function at that grid point, and the asymptotic form above it, for every lane and every order independently. Table lookups stay inside the table for every argument below the switch-over.",
 ["inputs"],"all orders 0..max, all arguments, all lanes of every vector width, all instruction sets",
 "Tests reach only orders and arguments occurring in a few small molecules; a wrong grid value, an unused high order or a boundary argument is never touched.",
 ["skel/simint/boys/boys.h","skel/simint/boys/boys_taylor.h","skel/simint/boys/boys_long.h","skel/simint/boys/boys_longfac.h","skel/simint/boys/boys_shortgrid.c"],
 [("Taylor branch","skel/simint/boys/boys_taylor.h"),("asymptotic branch","skel/simint/boys/boys_long.h"),("tables","skel/simint/boys/boys_shortgrid.c, boys_longfac.h")])
p("C07","Component-ordering and recurrence tables are mutually consistent and complete",
 "For every angular momentum the runtime tables list each Cartesian component exactly once in the canonical order, and for every component the recorded direction and raise/lower indices name exactly the component with that quantum number changed. The code generator's default ordering and both runtime copies describe the same ordering; the alternative generator ordering is complete and self-consistent.",
 ["inputs"],"every component of every angular momentum in the tables",
 "Only rows for small angular momenta are used by the tests; a wrong row for a high angular momentum is never read.",
 ["skel/simint/recur_lookup.c","skel/simint/ostei/recur_lookup.c","generator/Ordering_Psi4.cpp","generator/Ordering_GAMESS.cpp"],
 [("recurrence table","skel/simint/recur_lookup.c, skel/simint/ostei/recur_lookup.c"),("generator orderings","generator/Ordering_*.cpp")])
p("C08","General recurrence routines implement the exact relations for all quartets",
 "For every combination of four angular momenta and any requested number of auxiliary orders, the general vertical routines for each of the four positions write every output component and order with the value the eight-term Obara-Saika relation gives from the supplied lower intermediates, and the general horizontal routines write the Head-Gordon-Pople transfer value. Nothing outside the output is written, and only intermediates the relation needs are read.",
 ["inputs"],"all angular-momentum combinations, positions and auxiliary counts; all input values; fast-path and full-path variants",
 "Tests go through the general routines only for quartets up to f and only for those combinations the default strategy generates.",
 ["skel/simint/ostei/ostei_general_vrr.c","skel/simint/ostei/ostei_general_hrr.c"],
 [("vertical","skel/simint/ostei/ostei_general_vrr.c"),("horizontal","skel/simint/ostei/ostei_general_hrr.c")])
p("C09","Every generated integral routine computes the exact electron-repulsion integrals",
 "For every quartet of angular momenta the generator is asked for, and every choice of inline, separate-file or general recurrence code, the generated routine's output is, component by component, the contracted electron-repulsion integral defined by the Obara-Saika and Head-Gordon-Pople relations from the Boys function, each component in its canonical slot. Generated vertical and horizontal helper routines satisfy their relation on every component, including those only emitted for other strategies.",
 ["configurations","inputs"],"all quartets, generator strategies and inputs",
 "The tests build three generator configurations and compare integrals for basis sets up to d/f with one or two molecules; other strategies or higher quartets are never compiled.",
 ["generator/ostei/OSTEI_Writer.cpp","generator/ostei/OSTEI_VRR_Writer.cpp","generator/ostei/OSTEI_HRR_Writer.cpp","generator/ostei/Makowski.hpp"],
 [("routine writer","generator/ostei/OSTEI_Writer.cpp"),("recurrence emission","generator/ostei/OSTEI_VRR_Writer.cpp, OSTEI_HRR_Writer.cpp"),("target selection","generator/ostei/OSTEI_VRR_Algorithm_Base.cpp, OSTEI_HRR_Algorithm_Base.cpp")])
p("C10","First-derivative routines return the exact gradient for all four centres",
 "For every quartet for which first derivatives are generated, each component has twelve consecutive output values: the derivatives of the contracted integral with respect to x, y, z of the first, second, third and fourth centre in order. The centre whose derivative is not computed directly is minus the sum of the other three, on every component.",
 ["configurations","inputs"],"all quartets and generator strategies for first derivatives, all inputs",
 "Derivative tests cover quartets up to p/d in three configurations.",
 ["generator/ostei/OSTEIDeriv1_Writer.cpp","generator/ostei/OSTEI_HRR_Algorithm_Base.cpp"],
 [("derivative writer","generator/ostei/OSTEIDeriv1_Writer.cpp")])
p("C11","Permuted quartets return the same integrals rearranged",
 "For every quartet handled by swapping shells within the bra and/or the ket, the returned block is exactly the block of the directly computed quartet with indices (and, for derivatives, centres) permuted back, for every shell pair of the batch. The caller's shell pairs are presented to the direct routine with displacements and derivative exponents exchanged consistently.",
 ["configurations","inputs"],"all quartets and permutations, any number of shell quartets in a batch",
 "Tests cover quartets up to f; each wrapper is a separately emitted routine.",
 ["generator/ostei/OSTEI_Writer.cpp"],
 [("permutation wrappers","generator/ostei/OSTEI_Writer.cpp: Write_Permute")])
p("C12","Dispatch reaches the routine for exactly the requested quartet",
 "A request for any four angular momenta up to the built maximum is dispatched to the routine generated for exactly those four angular momenta in that order, for energies and for first derivatives. No entry up to the built maxima is left empty or refers to a routine that was not generated. A batch screened out as a whole (tolerance positive and the product of the two maximum bounds below its square) returns the screened-out code without computing; otherwise shell pairs, squared tolerance, workspace and output reach the routine unchanged and its result is returned.",
 ["inputs","configurations"],"all quartets of angular momenta, all built maxima",
 "Tests only dispatch quartets up to the built test maxima; entries for larger maxima are never compiled.",
 ["skel/simint/ostei/ostei_init.c","skel/simint/ostei/ostei_deriv1_init.c","skel/simint/ostei/ostei.c","skel/simint/simint_eri.c"],
 [("dispatch tables","skel/simint/ostei/ostei_init.c, ostei_deriv1_init.c"),("entry points","skel/simint/simint_eri.c, skel/simint/ostei/ostei.c")])
p("C13","The advertised workspace is sufficient for every routine",
 "A caller who allocates the advertised workspace for a derivative order and maximum angular momentum never has it overrun: every generated routine for angular momenta up to that maximum uses no more than that, in every strategy. Distinct intermediates live in disjoint parts of the workspace.",
 ["configurations","inputs"],"all quartets up to the maximum, all derivative orders, all strategies and vector widths",
 "A small overrun lands in heap slack or another quartet's larger reservation, so tests pass; they never allocate for one quartet only.",
 ["generator/ostei/OSTEI_Writer.cpp","create.py","skel/simint/ostei/ostei_config.h.in","skel/simint/simint_eri.c"],
 [("workspace layout","generator/ostei/OSTEI_Writer.cpp"),("maximum collection","create.py"),("size query","skel/simint/simint_eri.c")])
p("C14","Screening only drops negligible work and never disturbs surviving results",
 "With the Schwarz method the screening value of a primitive pair is the largest absolute diagonal integral (ij|ij) over its Cartesian components (of a shell pair, the largest integral of (ab|ab)); with the fast method it is the s-type estimate of that integral. The maximum reported with a batch is the largest of its values. A primitive quartet is skipped only if the product of its two values is below the tolerance handed to the routine, and skipping one never changes where or how any other quartet's contributions are accumulated. With a zero tolerance nothing is skipped.",
 ["inputs","histories"],"all tolerances, shell-pair batches and patterns of screened and surviving primitives",
 "Whether a skip is taken depends on data; tests use one tolerance and compare with a loose threshold.",
 ["skel/simint/shell/shell_screen.c","generator/ostei/OSTEI_Writer.cpp","skel/ostei_s_s_s_s.c"],
 [("bounds","skel/simint/shell/shell_screen.c"),("skips","generator/ostei/OSTEI_Writer.cpp")])
p("C15","Batching and vector width never mix shell quartets",
 "For any number of bra and ket shell pairs with any primitive counts, every primitive contribution is added to the output of exactly the shell quartet it belongs to, each shell quartet gets its own contiguous output block in bra-major order, and unused vector lanes contribute nothing. The result does not depend on the vector width or on how pairs are split into batches.",
 ["inputs","configurations"],"all numbers of shell pairs, primitive counts, vector widths and instruction sets",
 "Tests use uniform basis sets on two vector widths; boundary cases (a pair starting mid-vector, remainder lanes, several pairs in one vector) occur for few patterns.",
 ["generator/ostei/OSTEI_Writer.cpp","skel/simint/vectorization/vectorization.h","skel/ostei_s_s_s_s.c"],
 [("batch loops","generator/ostei/OSTEI_Writer.cpp"),("lane contraction","skel/simint/vectorization/intrinsics_*.h")])
p("C16","All instruction-set back ends implement the same lane-wise operations",
 "Every vector operation the library uses has, on every supported instruction set including those not built here, the same lane-by-lane meaning as the scalar version: arithmetic, fused operations, loads, masked loads, minima and maxima, contractions and (where provided) screening counts. Every vector access is aligned as the instruction requires. The advertised vector length equals the number of lanes actually processed.",
 ["configurations"],"all supported instruction sets and operations",
 "The tests compile three of the instruction sets; the others are never even parsed.",
 ["skel/simint/vectorization/vectorization.h","skel/simint/vectorization/intrinsics_*.h"],
 [("back ends","skel/simint/vectorization/intrinsics_*.h")])
p("C17","Integral routines are reentrant and leave their inputs untouched",
 "Computing integrals reads only its arguments and constant tables and writes only the caller's output and workspace: shell pairs and shells passed in keep all their contents, and no process-wide state is modified after initialisation. Two threads may therefore compute at the same time with separate outputs and workspaces.",
 ["schedules","histories"],"all entry points that compute, all quartets, concurrent callers sharing shell pairs",
 "Tests are single threaded or share read-only data without race checking, and never compare inputs before and after.",
 ["generator/ostei/OSTEI_Writer.cpp","skel/ostei_s_s_s_s.c","skel/simint/ostei/ostei.c","skel/simint/simint_eri.c","skel/simint/osoei"],
 [("compute entry points","skel/simint/simint_eri.c, skel/simint/simint_oneelectron.c")])
p("C18","Library memory is always large enough, freed once, and never used after release",
 "For every history of initialise, allocate, create, fill, copy and free calls on shells and multi-shell-pairs, each object owns storage large enough for everything written to it, growing it releases the old storage, freeing releases everything once and leaves the object reusable, and temporary storage of every computation is released on every path.",
 ["histories","inputs"],"all call histories on shells and multi-shell-pairs, all sizes, screening choices",
 "Tests run a fixed create/compute/free order; small overruns, leaks and double frees do not change exit status.",
 ["skel/simint/shell/shell.c","skel/simint/shell/shell_screen.c","skel/simint/osoei/osoei_potential.c","skel/simint/osoei/osoei_overlap.c","skel/simint/osoei/osoei_ke.c"],
 [("allocation and release","skel/simint/shell/shell.c")])
p("C19","Fortran interfaces match the C library",
 "Every procedure and type the Fortran module binds exists in the C library with the same name, argument count, argument passing and types, struct fields in the same order and size, and constants with the same values. A call from Fortran therefore has the same effect as from C.",
 ["inputs"],"all bound procedures, types and constants",
 "The Fortran test exercises a few procedures; a mismatch in another one, or one that needs large values, does not surface.",
 ["skel/simint/simint.f90","skel/simint/simint.h","skel/simint/shell/shell.h","skel/simint/simint_init.h"],
 [("bindings","skel/simint/simint.f90")])
p("C20","A generated library is complete: everything called is generated and listed",
 "For every accepted set of generation options, each routine referenced by a generated source is itself generated, declared and listed for compilation, together with every dispatch target up to the requested maxima. The recorded maxima match what was generated.",
 ["configurations"],"all combinations of maximum angular momentum, derivative order, permutation, inline/external/general thresholds",
 "Only three option sets are built; other combinations are never linked.",
 ["create.py","generator/ostei/OSTEI_VRR_Writer.cpp","generator/ostei/OSTEI_HRR_Writer.cpp","generator/ostei/OSTEI_Writer.cpp"],
 [("driver","create.py")])
p("C21","Floating-point results meet the documented accuracy",
 "Integrals agree with exact arithmetic to the documented absolute and relative accuracy for every molecule, basis set and angular momentum.",
 ["inputs"],"all inputs",
 "Tests compare a few molecules against stored references.",
 ["skel/simint/boys/boys.h","generator/ostei/OSTEI_VRR_Writer.cpp"],[("arithmetic","whole library")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
