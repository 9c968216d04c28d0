prop("P01", "SMT-LIB text of an expression means what the expression means",
     "For every well-typed expression in the solver's vocabulary, the SMT-LIB text printed for it is exactly one well-formed term whose value, under every assignment of its variables and every interpretation of its uninterpreted functions, is the value of the expression: every operand appears once, in its place, inside the right operator, and integer literals are numerals. Function definitions, declarations, axioms and assertions print the right command with name, every parameter with its own sort in order, the return sort and the body.",
     ["inputs", "programs"], "all expressions (any nesting, any number of operands) and all declarations; n-ary operators with at least two operands (one for and/or)",
     "tests compare the text of a handful of expressions; the claim is about every nesting, operand count and literal value",
     ["metalift/ir.py"], [("toSMT of every expression and declaration class", "metalift/ir.py"), ("Expr.toSMTSimple", "metalift/ir.py")],
     observe=["the text handed to cvc5"])
prop("P02", "Rosette text of an expression means what the expression means",
     "For every well-typed expression, the Rosette text printed for it is exactly one s-expression with the same meaning: the operator or library function that implements the called operation, and every operand once, in order; equality on sets is set equality. Function definitions print name, every parameter in order and the body, and a bodyless (uninterpreted) function prints a symbolic declaration with the Rosette type of each parameter and of the result.",
     ["inputs", "programs"], "all expressions and declarations; library calls with the number of arguments the library function takes",
     "tests print a few expressions; the table of library names and the operand order must hold for every call and nesting",
     ["metalift/ir.py", "metalift/utils/utils.rkt"], [("to_rosette of every expression and declaration class", "metalift/ir.py"), ("Call.to_rosette name table", "metalift/ir.py")],
     observe=["the .rkt file handed to Rosette"])
prop("P03", "Python text of an expression evaluates to the expression's value",
     "For every expression that has a Python form, the Python text printed for it is one expression that evaluates to the value of the expression in every environment: grouping survives Python's precedence at every nesting, list operations become the corresponding indexing, slicing and list displays, and tuples become Python tuples of the same length. A function definition prints a Python function with the same name, the parameters in order with their types, and the body as its result; expressions without a Python form are refused with an exception.",
     ["inputs", "programs"], "all expressions and declarations", "tests print a few programs; precedence and operand order must be right for every nesting",
     ["metalift/ir.py"], [("to_python of every expression and declaration class", "metalift/ir.py")], observe=["the Python source printed for a lifted program"])
prop("P04", "Rewriting an expression touches only what it is asked to touch",
     "Mapping a function over an expression (map_args) rebuilds the same operator with the same type, every operand replaced by its image, once, in its place, and leaves the original expression unchanged; the same holds for function declarations and axioms. Substitution (rewrite) replaces all occurrences of the mapped variables simultaneously and nothing else and does not change the mapping; replacing common subexpressions by names (replaceExprs) replaces exactly the occurrences equal to a listed expression by the name carrying that expression's position, and with skipTop only below the top; counting variables (count_variable_uses) adds exactly the number of occurrences of each variable; choosing arbitrarily keeps everything but choices, each of which becomes one of its alternatives.",
     ["inputs", "programs"], "all expressions and declarations; no variable name at two types",
     "tests never look at these helpers; every operand position of every operator must be right for every nesting",
     ["metalift/ir.py"], [("Expr.map_args", "metalift/ir.py"), ("Expr.rewrite", "metalift/ir.py"), ("Expr.replaceExprs", "metalift/ir.py"), ("Expr.count_variable_uses", "metalift/ir.py"), ("Expr.chooseArbitrarily", "metalift/ir.py")],
     observe=["the verification condition and the printed grammars"])
prop("P05", "Simplifying and optimising a verification condition never makes it easier",
     "simplify returns an expression with the same type and the same value in every environment. optimize_useless_equality, given the use counts of all variables, returns a condition that is valid only if the original is: in every environment where the original is false, some value of the recorded fresh boolean variables makes the result false; without implications the result can take exactly the original's value. Fresh variables are distinct, boolean and recorded, and an equality is dropped only when one of its sides is a variable used nowhere else. The counts and the input expression are not changed and no input makes it fail.",
     ["inputs", "programs"], "all conditions without let bindings; proved where implications occur positively (as in the conditions the front ends generate), an implication below a negation is a known finding",
     "tests accept whatever the optimised condition proves; an unsound rewrite shows only on conditions that should not verify",
     ["metalift/ir.py"], [("Expr.simplify", "metalift/ir.py"), ("Expr.collectKnowledge", "metalift/ir.py"), ("Expr.rewrite", "metalift/ir.py"), ("Expr.optimize_useless_equality", "metalift/ir.py")],
     observe=["the condition handed to the synthesizer and the verifier"])
prop("P06", "Expression equality is structural identity",
     "Expr.__eq__ on two expressions is true exactly when they have the same operator and the same number of operands and the operands are equal pairwise, recursively; names are compared as names and literals by value and kind, so an integer literal never equals a boolean one. __ne__ is its negation, equal expressions have equal hashes, an expression is not comparable with anything else, and wrapped objects compare by the expression they wrap. The search for common subexpressions lists every distinct subexpression once, in the order it is met, with the number of times it is met.",
     ["inputs", "programs"], "all pairs of expressions; types of variables and calls are not part of the comparison (one name has one type)",
     "tests never compare expressions that differ only slightly; equality decides which grammar alternatives and subexpressions are merged",
     ["metalift/ir.py"], [("Expr.__eq__/__ne__/__hash__", "metalift/ir.py"), ("Expr.findCommonExprs", "metalift/ir.py")],
     note="equality and hash: unbounded proof; findCommonExprs: bounded comparison with an independent traversal", observe=["which alternatives of a grammar are shared"])
prop("P08", "Expression constructors accept exactly well-typed operands and record them",
     "Building an arithmetic operator, a comparison or a choice succeeds only with the right number of operands (Add, Mul, Choose: at least one; Sub, Div, Mod and comparisons: two) that all have one type, And/Or (at least one operand), Not and Implies only with boolean operands, a conditional only with a boolean condition and branches of one type; anything else raises, and nothing well typed is refused. The expression built is of that operator, holds exactly the given operands in order, and has the right type: Int for arithmetic, Bool for comparisons and connectives, the operands' type for a choice, the branches' type for a conditional, the body's type for let, the declared result type for calls, the function type's result for calls of function values, the tuple of the component types for tuples, the function type of result and parameters for declarations. Accessors return the operand they name and the setters of a declaration replace that part and no other.",
     ["inputs", "programs"], "all operand lists of any length and any types", "tests only build well-typed expressions; the checks matter on the inputs a grammar or a solver answer gets wrong, at any operand position",
     ["metalift/ir.py"], [("constructors of the expression classes", "metalift/ir.py")], observe=["expr.type, expr.args", "exceptions"])
prop("P07", "Operators and methods of IR objects build the operation they stand for",
     "Arithmetic and comparison operators of Int (also reflected, with Python integers on either side, and with a List or Matrix as right operand), And/Or/Not/==/!= of Bool, indexing, slicing (tail, take, slice), slice_with_length, len, in-place set/append/prepend, concatenation, equality and emptiness of lists, nested lists, matrices and 3D tensors, matrix column slices and transpose, element-wise and scalar arithmetic of integer lists and matrices, set add/remove/singleton/union/difference/membership/equality, tuple indexing and length, and choose, ite, implies, call, call_value, make_tuple, fn_decl, fn_decl_recursive, synth and create_object each return an object of the right class and type whose expression is the named operation applied to exactly the given operands in the order the operation takes them (a scalar comes first in vec_scalar_*/scalar_vec_*), leave every operand unchanged, except that set, append and prepend replace the list's own expression, and refuse elements, lists and sets of another type (== of two lists of different types is the literal false).",
     ["inputs", "programs"], "all operands: expressions of any shape and, for containers, any element type; tuples of 1 to 4 integer or boolean components where a tuple is indexed; concatenation of 3D tensors is not covered",
     "tests build a handful of programs; a swapped operand or a wrong library function only shows for particular kinds, positions or element types",
     ["metalift/ir.py"], [("methods of Int, Bool, List, Matrix, Tensor3D, Set, Tuple", "metalift/ir.py"), ("choose, ite, implies, call, call_value, make_tuple, fn_decl, synth, create_object", "metalift/ir.py")],
     observe=["object.src, object.type", "exceptions"])
prop("P09", "Metalift types print as their SMT sort, type name and Python type, and distinct types print differently",
     "The SMT sort of Int and Bool is Int and Bool, of a list (MLList S), of a matrix and a 3D tensor the sort of a list of lists and of a list of matrices, of a set (Set S), of a tuple (TupleN S1 .. SN). The type name is Int, Bool, List T, List List T, List List List T, the sort for a set, Tuple followed by the component sorts, and Function followed by the sorts of result and parameters (a function type among them in parentheses). The Python type is int, bool, List[..] nested once per dimension, Set[..], Tuple[..] and Callable[[parameters], result], as a text and as a typing object. These hold for every component type, at any depth, with any number of components. Reading a sort or a type name gives the type back, so two types (without function types) share one only if they differ in writing a matrix or tensor for nested lists. get_type_str is the type's name. The predicates is_list_type (lists, matrices, tensors), is_matrix_type, is_tensor3d_type, is_set_type, is_tuple_type, is_fn_decl_type, is_primitive_type, is_pointer_type, is_nested_list_type (a list type whose type argument is a list type) and is_new_object_type hold of exactly those types, element, result and parameter types are the type arguments, and parse_type_ref_to_obj maps the LLVM names it knows to their metalift types and refuses others.",
     ["inputs", "programs"], "all types without function types inside lists, sets and tuples; parse_type_ref_to_obj on its table of names; the typing objects (to_python_type) on concrete types",
     "tests use integers and lists of integers; the sort of a declaration is what the solver checks against, and two types with one name are taken for the same type by every constructor",
     ["metalift/ir.py"], [("cls_str/toSMTType/to_python_type(_str) of the object classes", "metalift/ir.py"), ("get_type_str and the type predicates", "metalift/ir.py"), ("parse_type_ref_to_obj", "metalift/ir.py")],
     note="texts, predicates, element types and the unambiguity of sorts and names: unbounded proof (induction lemmas over the texts proved for the code); to_python_type objects and parse_type_ref_to_obj: bounded comparison",
     observe=["the texts in emitted SMT, Rosette and Python files"])
prop("P10", "A function body read back from the Rosette solution is the expression the solution denotes",
     "to_expr turns each form of a solution into the IR expression it denotes: for arithmetic, comparison, boolean, conditional, let, tuple, choose and define forms, numerals, booleans and names, and for every list, matrix, 3D tensor, set and integer library function, the operator is the corresponding one, the operands are those of the form, in order, each the expression its own form denotes, and the type of the result is the type that the operator has on the operand types (a matrix counting as a list of lists). A name has its declared type; inside the body of a let its variable has the type of the bound value and outside it the type it had before; the tables of variables and functions are not changed. A call of a synthesized function has its declared result type and an unknown head is refused. Printing an expression for Rosette and reading it back gives the same expression; references to grammar rules left in a solution are replaced by what the rule denotes, also through other rules, and the definitions of a solution laid out over several lines are found completely and in order.",
     ["inputs", "programs"], "all forms with operands of any shape; tuples indexed at a literal position; maps and lambdas are not covered",
     "tests never run a synthesizer, so no solution is ever read; a swapped operand or a wrong type shows only for particular library functions",
     ["metalift/synthesize_rosette.py"], [("to_expr", "metalift/synthesize_rosette.py"), ("generate_types, generate_ast, parse_output", "metalift/synthesize_rosette.py")],
     note="to_expr on every head and generate_types: unbounded proof; generate_ast, parse_output, convert_expr and rule references: bounded comparison",
     observe=["the functions returned by synthesize"])
prop("P11", "The verification condition of a Python function says exactly that its invariants and postcondition hold",
     "For a function of the supported Python subset the assertions collected hold, under any interpretation of the predicates, exactly when on every path from the start: each loop's invariant holds of the values the variables have when the loop is entered, it holds again after each iteration that starts with arbitrary values of the variables the loop changes, the invariant and the condition, and at every reachable return the postcondition holds of the arguments as they were given, in order, followed by the value returned. What is known at a point is that the path leads there: conditions of the branches taken, the invariant and the negated condition after a loop, the postconditions of earlier calls of analyzed functions (of their arguments, then their result). Code after a return contributes nothing. After an if each variable has the value of the branch taken. Expressions have the value Python gives them, chained comparisons, and/or, append, add and remove included. Each result of a call and each value of a changed variable gets a variable that is not used otherwise; all variables are declared; a function is refused when called with another number or other types of arguments; analyses do not influence each other except through the driver; the predicates to synthesize are those named in the assertions, with the same parameters.",
     ["inputs", "programs"], "functions over integers, lists and sets of integers without aliasing, with assignments to one variable, append/add/remove as statements, if, while (with else), return, integer arithmetic (// with positive divisor), comparisons, and/or, len, indexing in range, tuples and uninterpreted functions; type-correct programs in which each variable has one type, without unreachable code inside loops (mypy gives it no types: such a function is refused)",
     "tests never solve a verification condition; a fact assumed on the wrong path or a variable not havocked shows only for particular combinations of branches, loops and returns",
     ["metalift/frontend/python.py", "metalift/vc_util.py", "metalift/frontend/utils.py"],
     [("VCVisitor", "metalift/frontend/python.py"), ("MetaliftFunc.__call__", "metalift/frontend/python.py"), ("Predicate, PredicateTracker, RWVarsVisitor, Driver.fresh_name", "metalift/frontend/python.py"), ("and_objects, or_objects", "metalift/vc_util.py")],
     note="visit methods, merging, loops (invariant rule), calls, and/or over lists: unbounded proof function by function, sub-statements and sub-expressions by contract; RWVarsVisitor (which variables a loop changes) and the mypy types it relies on: assumed contract, bounded comparison with real executions",
     observe=["driver.asserts", "driver.postconditions", "the functions handed to the synthesizer"])
prop("P12", "The verifier's list library defines the functions it names and assumes nothing false",
     "In the SMT prelude every defined function computes what its name says for all arguments in its range: length, get, take, tail, append, prepend, concatenation and slices of lists, of lists of lists and of 3D lists, column slices, the first column, the remaining columns and the transpose of a matrix, list membership, the exponential, and the tuple accessors. Every assertion of the prelude is true of these functions, for all values of its variables, the assertions about a function that is only declared determine its values in range, and every recursive definition reaches its end on all arguments: the prelude alone is satisfiable, so it never makes the verifier accept a condition that is not valid.",
     ["inputs"], "all lists of any length and all integers; integer_sqrt has no contract (its definition is only shown to end)",
     "a quantified axiom that is false at one index or a definition that does not end makes the theory inconsistent: every candidate is then accepted; the tests verify a handful of programs that are correct anyway",
     ["metalift/utils/list-axioms.smt", "metalift/utils/integer-fn-axioms.smt", "metalift/utils/tuples.smt"],
     [("definitions and assertions", "metalift/utils/list-axioms.smt"), ("integer functions", "metalift/utils/integer-fn-axioms.smt"), ("tuple accessors", "metalift/utils/tuples.smt")],
     tech="contract-based deductive verification: the SMT-LIB definitions are read from /repo on every run, VCs against per-function contracts and induction lemmas, discharged by z3",
     note="unbounded proof of every definition and assertion (structural induction); additionally cvc5 is asked whether the prelude alone is unsatisfiable and whether it settles ground facts (bounded)",
     observe=["answers of the verifier"])
prop("P13", "The synthesizer's list library computes what the verifier's theory says",
     "The functions of utils.rkt compute the same values as the functions of the SMT prelude they stand for, for all arguments in range: element access, tail, take, append, prepend, concatenation, slices with end or length, length and emptiness for lists, matrices, 3D tensors and lists of tuples, column slices, first column, remaining columns and transpose of a matrix with non-empty rows, the exponential, tuple construction and access, truncated division. Sets are strictly increasing lists, and union, insertion, difference, membership, subset and equality give the sorted list of exactly the right members. Maps are lists of entries: insertion, lookup and membership agree with a finite map. No function raises an error or runs without end on arguments in range.",
     ["inputs"], "all lists of any length and all integers; rows without elements are outside the range of the matrix functions; integer-sqrt and map-normalize have no contract",
     "no test runs Racket; where the two libraries differ the synthesizer proposes candidates that never verify, or never proposes the right one",
     ["metalift/utils/utils.rkt"], [("list, matrix, tensor, set and map functions", "metalift/utils/utils.rkt")],
     tech="contract-based deductive verification: the Racket definitions are read from /repo on every run, VCs against per-function contracts and induction lemmas, discharged by z3",
     note="unbounded proof of every function (structural induction); failures are replayed by an interpreter of the Racket subset, since Racket is not installed",
     observe=["values computed by the library"])
prop("P14", "The tensor operations compute what they are named after and their axioms are theorems",
     "vec/matrix/tensor3d_elemwise_add/sub/mul/div of two tensors of the same shape, vec/matrix_scalar_add/sub/mul/div (tensor op scalar) and scalar_vec/matrix_sub/div (scalar op tensor) compute the element-wise result, reduce_sum, reduce_mul and reduce_max (of a non-empty vector) the sum, product and maximum, matrix_vec_mul the product of a matrix with a vector as long as its rows, vec_map, selection_two_args and dissolve_selection_two_args (and their matrix versions) apply the given function to corresponding elements; the slices, column slices, first and remaining columns and the transpose Tenspiler declares are those of the list library, integer_exp is 3^n mod 64. Accesses stay in range and every recursion ends on all arguments. Each axiom handed to the verifier about these functions is a consequence of their definitions, for all values of its variables. The functions that pick an operation for the kind of tensor build that operation with the operands in order.",
     ["inputs"], "all tensors of any size and shape and all integers; reduce_max of an empty vector is the constant the code gives it",
     "an axiom that is false for one index or one shape makes the verifier's theory inconsistent and every candidate is accepted; tests use a few benchmarks with shapes for which it is true",
     ["metalift/utils/tenspiler/tenspiler_common.py", "metalift/utils/tenspiler/axioms.py", "metalift/utils/tenspiler/constants.py"],
     [("function declarations", "metalift/utils/tenspiler/tenspiler_common.py"), ("axioms", "metalift/utils/tenspiler/axioms.py"), ("TENSPILER_FN_NAME_TO_AXIOMS", "metalift/utils/tenspiler/constants.py")],
     tech="contract-based deductive verification: the IR declarations built by the module are read on every run, VCs against per-function contracts and induction lemmas, discharged by z3",
     note="unbounded proof of every declaration and axiom (structural induction); the call_* helpers that dispatch on the kind of tensor: bounded comparison",
     observe=["the target language handed to synthesizer and verifier"])
prop("P15", "Only what the solver proved is reported as verified",
     "verify_synth_result answers 'unsat' only if a verification query (not a synthesis query) about the given condition, variables and candidate functions was written to a file, the given solver was run on that file afterwards, it was not killed by a signal, and the first line of its answer is exactly unsat; sat, unknown, errors and empty answers are never a proof. synthesize, of the Rosette and of the SyGuS back end, returns functions only if that check answered unsat for exactly the functions returned, with the given target language, predicates and solver, after the last change to them; otherwise it raises. (Only the Rosette back end, and only on request (no_verify), skips the check.) The Python and the LLVM driver ask it to prove the conjunction of all collected assertions, to synthesize every predicate and every function to be synthesized, and never skip the check. LLMLift accepts a solution only if cvc5 answered unsat (or Racket (unsat)) on the query just written about the given condition, and announces it as verified only then.",
     ["inputs", "histories"], "any answers of the solvers, any number of rounds and candidates; that the query says what it should is not part of it",
     "no test runs a solver; a verdict taken from another round, from the exit code or from a part of the answer shows only when the solver fails in a particular way",
     ["metalift/synthesis_common.py", "metalift/synthesize_rosette.py", "metalift/synthesize_cvc5.py", "metalift/frontend/python.py", "metalift/frontend/llvm.py", "llmlift_scripts/synthesis.py"],
     [("verify_synth_result", "metalift/synthesis_common.py"), ("synthesize", "metalift/synthesize_rosette.py"), ("synthesize", "metalift/synthesize_cvc5.py"), ("Driver.synthesize", "metalift/frontend/python.py"),
      ("Driver.synthesize", "metalift/frontend/llvm.py"), ("verify_benchmark_smt, verify_benchmark_rosette, run_llm_synthesis_algorithm", "llmlift_scripts/synthesis.py")],
     note="unbounded proof; everything outside the functions under contract (files, processes, the parsers of solutions) may return anything; the solver itself is trusted",
     observe=["the answer of verify_synth_result", "the functions returned by synthesize, or the exception", "'solution verified'"])
prop("P16", "The query handed to the SMT solver says exactly what is to be proved",
     "The verification file toSMT writes asks whether the negation of the verification condition can hold, given the preludes, the axioms and the definitions of the library functions and of the candidates: every function the condition needs is defined once, with its own name, parameters, result and body, before it is used; every variable is declared once with its sort; nothing is dropped, repeated or added, whatever the number of functions, axioms, candidates and variables. A synthesis file asks for every function to be synthesized, with its grammar, under the same functions and the constraint. Where functions are passed as operands, each such call is replaced by a call of a copy of the called function in which the parameter is replaced by the function passed, also through other functions that pass it on, every caller calls its own copy, and each copy is defined once: the query denotes the same as the higher-order program. Renaming calls, dropping operands and functional parameters, adding operands and pruning candidates (a conditional whose condition is a boolean literal, or a call of a function with a literal body, is replaced by the branch it takes) leave everything else of an expression as it was, at any depth. The functions and expressions handed to toSMT are not changed. The names collected from an expression (functions used, functions called directly, functions depended on, functions passed and to whom) are exactly those it calls or passes.",
     ["inputs", "programs"], "first-order functions, or functions with one functional parameter that is passed on unchanged; no lambdas; the sygus form without functional operands",
     "tests compare a few printed expressions; a caller that gets another caller's copy, or a function left out or twice, shows only for particular call graphs",
     ["metalift/smt_util.py", "metalift/synthesis_common.py"],
     [("toSMT, filter_fn_args, filter_args, replace_fn_name, augment_arguments, replace_fn_name_with_in_call, filter_body", "metalift/smt_util.py"),
      ("verify_synth_result, prune_fn_decls, get_used_fn_names, get_direct_calls, get_dependent_fn_names, parse_candidates", "metalift/synthesis_common.py")],
     note="rewriters, collectors and pruning per expression class and the first-order query file: unbounded proof (any number of functions, candidates and variables); specialisation on six call-graph shapes with arbitrary bodies and the call of toSMT in verify_synth_result: bounded; replay evaluates complete files on small call graphs",
     observe=["the .smt/.sygus file"])
prop("P17", "The functions returned by the SyGuS back end are the solution cvc5 printed",
     "Every term the SyGuS query's grammar allows and cvc5 prints is read back as the expression it denotes: +, *, and, or with any number of operands, -, div, mod, comparisons, =>, =, not, ite, unary minus, tuples and their components, sets, calls of library functions and of other functions that are synthesized, numerals, booleans and names, with the operands in order and the type of the result; a let variable stands for its value in the body of the let, also where it hides a parameter or another let variable, and nowhere else. A name has its declared type; an unknown function is refused; the known functions, variables and let variables are not changed. A line with a solution gives, whatever the names of the functions, for each function to synthesize, in the order they were given, one definition with its own parameters and its own body. Axioms of the target language are not functions. When the solver's output ends without a solution, for whatever reason, synthesis fails instead of waiting.",
     ["inputs"], "integers, booleans, tuples of up to five components and sets of integers (the sorts the SyGuS query supports); one binding per let",
     "no test runs cvc5 for synthesis; a swapped operand, a wrong index or a wrong scope shows only for particular solutions",
     ["metalift/synthesize_cvc5.py"], [("toExpr, generateCandidates, extractFuns", "metalift/synthesize_cvc5.py"), ("synthesize (reading the output)", "metalift/synthesize_cvc5.py"), ("generateAST", "metalift/synthesize_cvc5.py")],
     note="toExpr on every head, extractFuns and the end of the output: unbounded proof (sub-terms by contract); generateCandidates: one to three functions (bounded); generateAST: bounded comparison of printed solutions",
     observe=["the functions returned by synthesize, or the exception"])
prop("P18", "The verification condition of an LLVM function says exactly that its invariants and postcondition hold",
     "For a function in the LLVM subset clang emits for C and C++ without optimization, the assertions collected hold, under any interpretation of the predicates, exactly when on every path: each loop's invariant holds of the values the variables have when the loop is entered, it holds again at every latch of an iteration that starts with arbitrary values of the variables stored or appended to in the loop, the invariant and the conditions passed, and at every reachable return the postcondition holds of the arguments as they were given, sorted by name, then of the value returned (through a register, or through the caller's vector). What is known at a point is that the path leads there: the conditions of the branches taken, the invariants of the loops entered, the preconditions given to the driver. Every instruction gives its register or slot the value it has in LLVM: loads, stores, arithmetic, comparisons, conversions, the models of the list, set, vector, tuple and integer functions and calls of other functions; nothing else changes. Where paths meet each variable has the value of the path taken. Values of variables a loop changes are fresh, declared variables; facts about one function are not assumed in another; the invariant is a predicate of the arguments, the variables in scope and the loop's variables, with the grammar it was given; an element is in a set, or not.",
     ["inputs", "programs"], "functions over integers, lists and sets of integers, vectors of integers, pairs of integers, as clang -O0 and the empty-block pass leave them: targets of conditional branches have no other predecessor, no unreachable blocks, natural loops, no writes through references of operator[], calls of unknown functions change nothing, variables in scope of an invariant are assigned before the loop, non-negative operands of sdiv, srem and unsigned comparisons, integers as mathematical integers",
     "tests never solve a verification condition; a variable not havocked, a path fact assumed elsewhere or a value merged from the wrong predecessor shows only for particular control-flow graphs",
     ["metalift/frontend/llvm.py"],
     [("VCVisitor", "metalift/frontend/llvm.py"), ("models of library functions", "metalift/frontend/llvm.py"), ("MetaliftFunc.__call__, LoopInfo, find_header_loops, find_latch_loops", "metalift/frontend/llvm.py"), ("Predicate, PredicateTracker", "metalift/frontend/llvm.py")],
     note="visitors of all instructions, models of lists, sets, vectors and integers, calls, return, predicates, the blocks of a function (arbitrary state, by position with respect to loops): unbounded proof function by function; merging of two and three predecessors, number of variables changed by a loop and of loops per block: bounded; parsing of modules, loop files and names, tuples: bounded comparison of complete conditions with real executions",
     observe=["driver.asserts", "driver.postconditions", "the functions handed to the synthesizer"])
prop("P19", "The problem handed to the synthesizer asks for what the grammars, the condition and the bound say",
     "The Rosette file defines every function of the target language that has a body once, declares the uninterpreted ones symbolic, and defines every function to synthesize as an instance of its own grammar on its own parameters, unfolded to depth 10 at least. A variable ranges over all values of its type within the list bound: integers and booleans are symbolic constants, a list is the first n of `bound` elements for a symbolic n, a set such a list without duplicates, a matrix or tensor likewise with rows of `bound` elements, a tuple the list of its components; every constant occurs in the #:forall of every round. The assertion is the verification condition, integers are bounded exactly when unbounded integers are not asked for, and round i is asked for a solution that differs from each earlier one in some function to guess. The grammar printed by Synth (for Rosette and for SyGuS) derives exactly the expressions that choosing one alternative at every Choose gives, with one non-terminal of the right sort per alternative, and the alternatives recorded for reading the solution back are those of the non-terminals.",
     ["inputs"], "all names, types, bounds, grammars and numbers of functions and parameters; no functions to exclude (fn_defs_to_exclude empty) and no Map variables",
     "tests have no Rosette, so no test reads the file; a missing element, an earlier solution not excluded or a shared element shows only for particular types, bounds and rounds",
     ["metalift/rosette_translator.py", "metalift/ir.py"],
     [("gen_var, generate_vars", "metalift/rosette_translator.py"), ("generate_inv_ps, generate_synth", "metalift/rosette_translator.py"), ("to_rosette", "metalift/rosette_translator.py"), ("Synth.to_rosette, Synth.toSMT", "metalift/ir.py")],
     note="scalars, lists and sets of any bound and element type, functions to synthesize of any arity, grammars with any number of alternatives: unbounded proof function by function; matrices and tensors up to bound 4 and 3, tuples up to 4 components, up to 3 variables and rounds, libraries of listed shapes: bounded; the alternatives found by findCommonExprs: bounded comparison of grammar languages",
     observe=["the file written by to_rosette", "result of Synth.to_rosette and Synth.toSMT"])
