import algebra, geometry, graph, fold, effects, termination, panics
PROPS = {}
PROPS.update(algebra.PROPS)
PROPS.update(geometry.PROPS)
PROPS.update(graph.PROPS)
PROPS.update(fold.PROPS)
PROPS.update(effects.PROPS)
PROPS.update(panics.PROPS)
PROPS.update(termination.PROPS)
T_FOLD = 'static: value-numbering dataflow over the MIR of the derived (de)serialisation code, per key and from an arbitrary reader state (induction over the entries of the document), compared with the prescribed reader/writer tables; a difference is reported with the key, field or call site that shows it'
N_FOLD = ('Verdict "holds" covers every document and every value of the type: the writer and each entry of the reader are summarised once for arbitrary contents. '
          'Trusted: rustc MIR, serde_json (text to values and back, number formatting), the models of serde traits in sa/fold.py. Constructs the models do not know are reported as undecided and raise no alarm.')
META = {
 'C28': ('static: value-numbering dataflow over MIR collects the path condition of every panic site reachable from a public function; each must be unsatisfiable in the domain of the function, and a separate flow rule covers panics that only a NaN operand triggers',
         'Verdict "holds" means that every panic condition is refuted for all inputs, over exact reals and unbounded integers, and that no panic hinges on a comparison with a NaN operand. Conditions neither refuted nor met by an admissible structure are reported as undecided and raise no alarm. Trusted: rustc MIR, the library models in sa/models.py.'),
 'C30': (T_FOLD, N_FOLD), 'C31': (T_FOLD, N_FOLD),
 'C32': ('static: error-discipline dataflow over the loader: on every way to an Ok result each fallible operation is known to have succeeded, and the text parsed is exactly the contents of the file at the given path', N_FOLD),
 'C40': ('static: loop and recursion analysis over MIR: finite-iterator rule and ranking functions (trip counts, decreasing lengths and counters under inductive invariants) for every natural loop; an alarm needs a cycle without an exit, recursion on every path, or a loop state that provably repeats',
         'Verdict "holds" means that the loop has a ranking argument valid for every input, over exact reals and unbounded integers. Loops without one and without a repeating state are reported as undecided and raise no alarm. Trusted: rustc MIR, the termination of library calls and of the serde_json reader, and the models in sa/models.py.'),
 'C41': ('static: interprocedural information-flow (taint) and effect analysis over MIR, with control dependence, from sources of nondeterminism and hash iteration order to results, mutable arguments and panics',
         'Verdict "holds" means that no source reaches the result, a mutable argument or a panic of the function along any path of its call graph. Library functions are trusted to depend only on their arguments unless listed in sa/effects.py as sources.'),
}
NOTE = ('Verdict "holds" means the canonical form of the function summary is identical to the required one, hence for every input, over exact reals. '
        'Forms that differ but cannot be separated are reported as undecided in the evidence and raise no alarm. '
        'Trusted: rustc MIR, the library models in sa/models.py, the normal-form rules in sa/terms.py.')
