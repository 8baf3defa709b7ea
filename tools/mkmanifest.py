# generates MANIFEST.json from the checks that exist
import json,os,re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI="abstract interpretation of the compiled LLVM IR over an algebraic (exact polynomial / value-numbering) domain, compared with closed-form reference formulas"
T={
'C01':(AI,'Every output component of every shell-pair type up to the analysed angular momenta is shown algebraically equal to the analytic formula, for all real inputs and every number of primitives; exact real arithmetic, no rounding.'),
'C02':(AI,'As C01, for the nuclear-attraction routine, with loop summaries over charges and primitives; exact real arithmetic, no rounding.'),
'C05':(AI,'All angular momenta, all primitive counts; constants are compared with closed forms to double precision.'),
'C06':(AI+'; table entries compared with interval-bounded Boys values','All orders supported by the table and all arguments >= 0, split at the switch-over; Taylor truncation error itself is not bounded.'),
'C08':(AI.replace('closed-form reference formulas','the Obara-Saika and Head-Gordon-Pople recurrences'),'All inputs for each enumerated step (angular momenta up to total 5, and 13 for single-centre steps); scalar and AVX2 builds.'),
'C12':('abstract interpretation of initialisation and dispatch (function-pointer table analysis) over LLVM IR','All quartets, for every built maximum 0..7 and derivative order; symbolic shell pairs and tolerance.'),
'C16':('abstract interpretation of every vector operation on every instruction set (x86-64 and AArch64 LLVM IR), against the scalar meaning','All back ends the build system names, both compiler branches; NaN-free exact arithmetic; extrema by order reasoning over comparison outcomes; contractions for finitely many element counts.'),
'C07':('exhaustive consistency analysis of constant tables taken from the IR and the C++ syntax tree','Every row of every table.'),
'C03':('abstract interpretation of the shell-pair routines over concrete memory shapes and an algebraic value domain, compared with the declared contents and padding of the data structure','All real inputs for each enumerated shape (batch sizes, primitive counts, skipped shells, screening methods, vector lengths); memory accesses are bounds-checked against the allocation.'),
'C04':('abstract interpretation of copy, append and concatenation routines over concrete memory shapes, compared with the declared contents','All real inputs for each enumerated shape and history of allocation; accesses bounds-checked.'),
'C18':('typestate and ownership analysis of allocation and release over LLVM IR (CFG dataflow) plus abstract interpretation of create/free/reallocate histories','Every allocation site and path in the library for leak, double free and use after free; enumerated histories for the structures\' own invariants.'),
}
TV="typed abstract interpretation of the generated C's LLVM IR (translation validation): every stored value is matched against the instance of a recurrence it must be, over exact polynomials; nothing is executed"
T.update({
'C09':(TV,'All real inputs for each analysed routine: every quartet and generator strategy within the tier\'s size (quick: to p/d in four strategies plus selected high quartets and every helper routine alone); exact real arithmetic, no rounding; one primitive pair per side (batching is C15).'),
'C10':(TV+'; outputs compared with the derivative identities on all four centres','As C09, for first-derivative routines.'),
'C11':(TV.replace('every stored value is matched against the instance of a recurrence it must be','a permutation wrapper is interpreted with the direct routine replaced by its contract, and each output slot and presented field is compared'),'Every wrapper emitted up to the analysed maximum, for enumerated batch shapes; exact.'),
'C14':('abstract interpretation of the screening routines over an algebraic domain with a maximum operator, and typed abstract interpretation of the generated loops under enumerated screening patterns, per vector back end','Screening formulas: all real inputs for enumerated primitive counts and angular momenta. Loops: all real inputs for enumerated batch shapes and patterns of negligible vectors; control flow depends on screening values only through comparisons.'),
'C13':('abstract interpretation of the generated routines and of the work-size functions over exact addresses and a dependence domain (every access placed in its workspace region)','All inputs for each enumerated routine and batch shape; regions checked for bounds, overlap and reads of unwritten data.'),
'C17':('effect analysis: inclusion-based points-to analysis over LLVM IR, functions cloned per call string, attributing every reachable store, copy, fill, release and external call to the objects it may modify','All inputs, schedules and paths of every exported computing function and of every generated routine of the analysed libraries.'),
'C15':(TV+'; contributions are tracked per primitive pair through vector lanes on each back end','All real inputs for enumerated batch shapes placed around every batch and vector boundary, on scalar, SSE, AVX2 and AVX-512 back ends; control flow depends on nothing but the shape.'),
})
T.update({
'C19':("cross-language signature and layout comparison: gfortran's description of the module's bound entities and the IR of its wrappers (dataflow from argument to C parameter) against the C declarations and layouts",'Every bound type, procedure and wrapper of the Fortran module, for both derivative levels, both build generators and the flags cmake derives; nothing is run.'),
'C20':('exhaustive cross-referencing of the generated tree: definitions and references collected from LLVM IR, joined with the file lists, dispatch tables and recorded maxima the build uses','All references, sources and table entries of each enumerated option set (quick: a dozen; thorough: over a hundred), for every maximum and derivative level the build can select.'),
})
EXTRA={}
p=os.path.join(H,'tools','manifest_extra.json')
if os.path.exists(p): EXTRA=json.load(open(p))
for k,v in EXTRA.get('checks',{}).items(): T[k]=tuple(v)
props=[json.loads(l)['id'] for l in open(H+'/properties.jsonl')]
NA={'C21':'Rounding-error accuracy quantifies over run-time floating-point values (cancellation in the recurrences for arbitrary geometries); no sound static bound is in reach, and a run-time comparison would be another technique.'}
NA.update(EXTRA.get('na',{}))
ck=[];na=[]
for p in props:
    if p in T and os.path.exists(H+'/checks/%s.py'%p):
        ck.append(dict(property=p,quick_cmd='python3 checks/%s.py --tier quick'%p,thorough_cmd='python3 checks/%s.py --tier thorough'%p,technique=T[p][0],level=re.search(r"report\.main\('%s','(\w+)'"%p,open(H+'/checks/%s.py'%p).read()).group(1),level_note=T[p][1]))
    else: na.append(dict(property=p,reason=NA.get(p,'not yet built: the static analysis for this property is designed in DESIGN.md but no check exists yet')))
json.dump(dict(version=1,setup_cmd='python3 tools/selfcheck.py',checks=ck,not_applicable=na),open(H+'/MANIFEST.json','w'),indent=1)
print(len(ck),'claimed',len(na),'not applicable')
