_M = "Every operator x operand kind x conformable shape x back end, every formula tree to the stated depth and long chains, at three points; oracle: loops over dual numbers in long double. Trusts the reference, the value points and the tolerance."
NOTE = {
 "M01": _M, "M02": _M, "M03": _M + " Derivatives through scalar entries are checked in forward mode only.",
 "M10": "Every composite function x operand kind x shape up to 3x3 x both back ends; value, forward and reverse derivative against the definition written as loops over dual numbers.",
 "M11": "Every image and kernel shape, stride and padding up to the bound, alone and in pairs sharing one program; value, forward and reverse derivative against the defining sum.",
 "M12": "Every scalar/matrix operator x scalar kind x matrix kind x shape, alone, nested and twice in one formula; value and both derivatives against loops over dual numbers.",
  "S09": "Every arity up to the bound, every pattern of missing variables, every operator between variables, both modes: gradient, Jacobian and Hessian entries and their order against nested dual numbers.",
 "M04": "Every back end x operation x shape (ragged sizes around every internal block size) called directly, and every sequence of back-end switches; oracle: plain loops.",
 "M07": "Every access, row/column/block read and write, padding, resize and iteration on every shape up to the bound, alone and in every sequence up to the depth, against an array model.",
 "M05": "Every operator x operand kinds x shape with expressions sharing operands and sub-expressions: every ordered pair of queries across every kind of change (values, entries, scalars, parameters, back end), each answer compared with a model that recomputes from current values.",
 "M06": "The same histories as M05 next to an unrelated formula of the same kind: after every query all operand entries and shapes, the shared identity/zero/one matrices and the results already handed out are compared with what they were.",
 "M09": "Every operator and operand position in E = op(E, K): all strings of self-assignments, fresh definitions, leaf definitions and shape changes to the depth, every query between and after; a definitions-list model with dual numbers decides value, shape and derivatives of E and of expressions built from it.",
}
NOTE["M08"] = "Every sequence of construct, copy, move, assign, self-assign, swap, destroy, redefine, write and query over three slots (and over a vector) for every element kind, buffers of the caller included, next to a store model; one configuration under AddressSanitizer."
NOTE["S08"] = "Every operator between every pair of a grid of real and complex numbers, both sides; every literal type (int, unsigned, long, float, double, Type) on either side of every operator, operand kind and matrix operator, in assignments and constructors, and in pairs; every real function and operator on real inputs against the real formula (so complex and real builds are compared with the same oracle); values, both derivative modes and symbolic derivatives."
NOTE["T01"] = "The library and the harness are compiled with access hooks and run under an own scheduler: depth-first exploration of every interleaving of the threads' synchronisation operations (up to 2, thorough 3, preemptions away from a blocked-only schedule) with a happens-before check on every byte accessed, so unsynchronised conflicts are found in whichever schedule is explored; every result is compared with the sequential one. Two and three threads, one operation each; first use (handlers not constructed yet) and later use."
NOTE["T02"] = "The build with USE_CXX_PARALLEL_POLICY, the parallel back end of the standard library replaced by one that announces iterations: every access of every iteration of every parallel loop is compared with those of the other iterations (locks and atomics respected), which decides all schedules of the loop, and the loops run in reversed order against the reference results. Loops over node-based containers run serially in this standard library and are not claimed."
TECH = {
 "T01": "stateless model checking of the implementation under a controlled scheduler: all interleavings up to a preemption bound, happens-before race check on every access",
 "T02": "exhaustive conflict check of every iteration pair of every parallel loop on the implementation (all schedules of conflict-free loops are equivalent), over an exhaustive enumeration of operations and formulas",
}
NOTE["G01"] = "The formula enumerations and operation histories of the scalar and matrix properties executed under AddressSanitizer (heap, stack, globals, use after return) down to the destruction of static objects at exit; wrong answers do not count here, only invalid accesses, double frees and crashes. Leaks are not asked (the library keeps nodes until exit by design)."
TECH["G01"] = "explicit-state exploration of the real library under an address monitor: all formulas and operation histories within the bounds of the other properties, every memory access checked"
NOTE["C01"] = "The formula enumerations and operation histories of the other properties, in builds with the option USE_ROBIN_HOOD_MAP (the real header is not in the sandbox: a stand-in of the same interface moves every element at every insertion and overwrites the old places, the least the real one promises) and without USE_DYNAMIC_ASSERTIONS; the same reference models decide. Reduced alphabets in the quick tier. Trusts that the stand-in's interface is that of the real table."
TECH["C01"] = "explicit-state exploration of the real library built with the options: all formulas and operation histories within the stated bounds against the reference models, over an adversarial hash table"
