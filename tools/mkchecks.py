import json
c={}
def a(i,t,n): c[i]={"technique":"property-based testing: "+t+", with shrinking","note":n+" Assurance is that of the explored sample (fixed seed, counts in the evidence)."}
a("C01","random literal text around constructs against a reference renderer","Every generated template's output equals, byte for byte, what a reference renderer makes of the same syntax tree; trusts that renderer and the printer.")
a("C02","token, mutation and grammar fuzzing with a validity oracle by construction","Random bytes, token soups and mutated templates never panic or hang and compile to the same outcome twice; templates valid or invalid by construction are accepted or rejected as they must.")
a("C03","random typed expression trees against a reference evaluator","Every operand source and every place an expression can stand gives the value of an independent evaluator.")
a("C04","random programs against a reference interpreter","Every generated program's output and the final value of every variable agree with an independent interpreter over Go values.")
a("C05","random assignment histories against a reference interpreter, comparing the whole state","After each program all variables (and what they reach) equal the model's, so a copy that is too wide, too narrow or to the wrong place shows.")
a("C06","run-time generated struct types and paths against reflection","Generated struct types with nesting, embedding, pointers, tags; all paths of a case are read and compared with what Go reflection reads; bad paths must be rejected.")
a("C07","random containers and indexes against reflection","Elements, map values, missing keys and indexes out of range (which must panic) over generated containers reached in every way.")
a("C08","differential testing against strconv, fmt and encoding/json; stateful buffer model","Buffer operation sequences against bytes.Buffer, integer formatting against strconv, rendering of generated values at several buffer sizes.")
a("C09","random programs against a reference interpreter with escaping, and a metamorphic relation of escaped and unescaped runs","Outputs agree with a model that escapes exactly the rendered values; variables end the same with and without escaping.")
a("C10","differential testing of all namespace functions against the standard library","Every function of every namespace is called with generated arguments through literals, variables, fields and nested calls.")
a("C11","generated functions and call trees with a recorded call trace against a reference interpreter","The trace of calls with all arguments, the output and all variables agree with the model.")
a("C12","injected failures at generated places (errors, panics, typed nil errors) against a reference interpreter","Where execution stops, what was rendered and called before, and the error returned verbatim agree with the model, with and without PanicOnError.")
a("C13","metamorphic: evaluated text against the same text inlined, and random programs against a reference interpreter","Texts evaluated from variables, with every cache size and repeated executions, render as the same template compiled in place.")
a("C14","stateful: histories of executions over planners, plans and states against a reference model","Every execution of a history gives the model's output and variables whatever ran before on the same or other states, plans and planners.")
a("C15","randomised concurrent schedules under the race detector, compared with serial executions","Goroutines share plans or compile their own; every result equals the serial one and the race detector stays silent. Schedules are sampled, not enumerated.")
a("C16","stateful: histories of definitions, embeddings, SetValue/EmbedValue and reads over several states against a map model","Every variable of every state holds exactly what was last set, whatever else is defined, set or rendered before, between and after, including definitions made after a state was created.")
a("C17","stateful: histories of get, set, execute and put over pools of all sizes against a model of ownership","No state is handed out twice, a handed out state is clean, and renders as a new state would.")
a("C18","metamorphic: random respellings and concatenations of random programs","The same program printed plainly and with random equivalent spellings, and concatenations of programs against their parts, render and leave the same.")
a("C19","random pairs of pointers and values of all 14 kinds against exact arithmetic","All six operators over operands from every source agree with arbitrary precision comparison of the pointed-to values.")
a("C20","random maps, slices and keys against direct inspection of the data","HasKey, the maps functions, IndexBy and lookups in its result agree with the contents of generated containers for keys of all forms.")
a("C21","differential against encoding/json over random types, values, texts and sources","Marshal, UnmarshalInto, their composition and the use of decoded values agree with encoding/json; malformed texts, bad sources and unknown types are errors.")
a("C22","random calls that do not fit generated functions, inside call trees, against a reference interpreter with a call trace","The calls that happen and their arguments, the number of recorded errors, the output and the variables agree with the model, with and without PanicOnError.")
a("C23","random well-typed programs with one ill-typed construct inserted, and the same with a well-typed one","Compile must reject the one and accept the other; the ill-typed forms are those listed in the property.")
a("C24","random programs with garbage collected at generated points against a reference interpreter, with freed memory overwritten","Output, call arguments and all variables agree with the model when garbage is collected before, during and after executions and only the plan and state stay reachable; the points of collection are those between the steps and in called functions.")
a("C25","stateful: histories of registrations and calls over several registries and planners against a model registry","Each registration is accepted or refused, and each call rejected or answered by the function the model names; earlier plans are executed again at the end.")
a("C26","stateful: histories of operations on registries against map models, and a differential of the functions they describe against those of a planner","All registries equal their models after each operation; templates of random calls of every builtin function do the same with the entries of a copy as with a new planner.")
json.dump(c,open('/verif/tools/checks.json','w'),indent=1)
