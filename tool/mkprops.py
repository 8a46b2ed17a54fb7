import json
exec(open('/verif/tool/props.py').read())
exec(open('/verif/tool/props2.py').read())
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
T={"C01":("interprocedural effect analysis of OpenMP regions","Sound for the modelled language subset under the listed assumptions; every shared write in every region must be proven iteration-disjoint."),
"C02":("symbolic abstract interpretation: throw sites, library failures and tree searches feasible inside parallel loops","Every throw on a path that stays feasible inside a parallel loop must be caught in its body; exceptions from memory exhaustion are not considered."),
"C06":("symbolic abstract interpretation: coordinate-type equality at every normal exit and at every derived location","Every normal exit of a function with two location sets must entail equal coordinate types; every derived location must be given the type of one of the sets involved."),
"C03":("symbolic abstract interpretation (linear facts over extents) of every public function","Every normal exit must entail the specified size relations; relations that mention values the analysis does not track count as undecided."),
"C04":("symbolic abstract interpretation with loop invariants: bounds of every element access","Accesses with indices over extents, counters and parameters are proved or reported; data-dependent indices that are not proved count as undecided."),
"C05":("symbolic abstract interpretation: extents of results at every normal exit","Symbolic identity over the extents of the arguments at every normal exit."),
"C07":("interprocedural effect analysis, taint of clock/random/environment values, definite assignment","Stores, hidden inputs and unassigned reads are decided for every function of the library; external libraries are assumed to be pure."),
"C08":("definite assignment of array elements over the loops that fill results; branches taken for missing values","Results that start as a number must have every element stored on every path; loop bounds not written as extent minus constant are taken as whole extents."),
"C10":("interprocedural may-dependence analysis (data and control, per field), forwarding between overloads","A parameter counts when it may influence the result on some path; one that is dropped only in particular cases is not reported."),
"C12":("alignment analysis: abstract interpretation of array indices relative to the indices of the result, with loop variables as symbols that turn into any-position when their iteration ends; obligations per function and axis in gpa/spec/axes.txt","Indices computed by arithmetic that is not followed leave an obligation undecided (about one sixth); equal values at different positions are not recognised."),
"C13":("option analysis: option reads, help texts, factories and enumerations compared in the typed syntax tree; def-use of the variables and members that options are read into; state-reset analysis of the argument parser","Values computed from an option are followed to a use, not to the output. Options whose name is built at run time are not compared with the help text."),
"C14":("interprocedural effect analysis, taint of clock/random/environment values, definite assignment of members and locals, typestate of cached look-ups","Caches kept on purpose are listed with reasons in rules/state.py."),
"C18":("partial evaluation: every function that takes a choice is specialised for each choice by interprocedural constant propagation; the residual programs must be refused or pairwise different and have the traits of the choice","Traits stand for formulas: division, square root, quantile level, oriented comparison, arguments of scores, slopes. Choices that are merged only for some data are not found."),
"C19":("enumeration of the paths once around every loop with their effects and guards; progress, direction and state-cycle rules; must-call analysis for recursion","A path that changes what its conditions depend on is taken to make progress: no decreasing measure is proved. Conditions on variables declared inside a loop, and functions of other libraries, are not followed."),
"C17":("forward dataflow analysis of possibly-missing values with refinement at validity tests, copy and truth-value aliases, companion variables and function summaries","Every operand of a calculation must be proven not to be missing; sources are fields, altitudes, land fractions and literal missing values. sources also include parameters of parameter files and options that were not given. Fields in the optimal interpolation calibrator are trusted.",),
"C16":("type inference by unification: integers are typed as rows or columns of a grid, members or times, arrays by their axes and contents, coordinates by kind; own functions are polymorphic and instantiated at each call","Places that are computed by arithmetic on products (flattened indices) lose their type; the memory layout of NetCDF variables is not typed."),
"C15":("path-sensitive typestate of statuses and streams: each operation that can fail is an obligation that must be discharged by a check that does not survive the failure, a value passed to the caller or a default; function summaries for helpers","NetCDF calls return zero exactly on success (their contract); that a line longer than the reading buffer ends a text file is not covered."),
"C11":("field-wise may-dependence of copies and derived objects; role checking of location attributes in the typed syntax tree","Roles come from the names of members, getters, parameters and variables."),
"C09":("symbolic abstract interpretation: restrictions on scalar arguments at every normal exit","Every normal exit must entail the specified restriction, including the missing and infinite cases."),
}
m=dict(version=1,setup_cmd="python3 -m gpa.build",checks=[dict(property=p["id"],quick_cmd="python3 -m gpa.check %s"%p["id"],technique=T[p["id"]][0],level="other",level_note=T[p["id"]][1]) for p in P if p["id"] in T],not_applicable=NA)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
