#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script only so the JSON stays valid and easy to edit).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   observe_at=list(obs),hook_needed=hook)))
SB="include/Scalar/BinaryOps/"; SU="include/Scalar/UnaryOps/"; MH="include/Matrix/MatrixHandler/"
MB="include/Matrix/BinaryOps/"; MU="include/Matrix/UnaryOps/"; MI="include/Matrix/MatrixInterface/"
prop("S01","Scalar evaluation equals the written formula",
 "Evaluating a scalar expression returns the mathematical value of the formula as written, at the current values of its variables and parameters. This holds for every supported operator and elementary function, for every kind of operand on either side (number, variable, parameter, named expression, unnamed sub-expression, user-supplied custom function) and for every nesting of them, wherever the formula is defined.",
 ["programs","inputs","configurations"],"all operator/function nestings x operand kinds x points of the domain x real/complex, float/double builds",
 "The tests evaluate a few dozen fixed formulas at one point, in the complex-double build only; each operator has separate code for each operand-kind combination, most of which no test instantiates.",
 ["include/Scalar/CommonFunctions.hpp",SB+"GenericSum.hpp",SB+"GenericSub.hpp",SB+"GenericProduct.hpp",SB+"GenericDiv.hpp",SB+"GenericPow.hpp",SB+"GenericScalarBinary.hpp",SU,"include/UnaryFunctions.hpp","src/Scalar/Variable.cpp"],
 [("per-node eval()",SB),("overload per operand kind",SB),("deep copy of operands","cloneExp() in every node")],
 [("cached value","value of a named expression in the current sweep","src/Scalar/VarWrap.cpp")],["Eval"])
prop("S02","Forward-mode scalar derivative is exact",
 "The forward-mode derivative of a scalar expression with respect to a variable equals the mathematical partial derivative of the written formula at the current values: it is 1 for the variable itself and 0 for any variable the formula does not use. Wherever the formula is differentiable it is exact up to floating-point rounding, for every operator, operand kind and nesting.",
 ["programs","inputs","configurations"],"all operator nestings x operand kinds x points of the domain (zeros and negative values included) x variables",
 "Each operator has its own derivative rule per operand kind; tests exercise them at single generic points, never at zeros, negative bases or with parameters, and only a handful of combinations.",
 [SB,SU,"src/Scalar/Variable.cpp","src/Scalar/CommonFunctions.cpp"],
 [("per-node devalF()",SB),("seed by variable identity","src/Scalar/Variable.cpp devalF")],
 [("cached derivative","derivative of a named expression for the current query","src/Scalar/VarWrap.cpp")],["DevalF"])
prop("S03","Reverse-mode scalar gradient is exact and complete",
 "After a reverse sweep over a scalar expression, the derivative reported for every variable equals the mathematical partial derivative at the values the sweep was made at, whether read one variable at a time or as the whole table, and is 0 for variables the formula does not use. Contributions of every occurrence are summed, however the expression shares sub-expressions, how deep it is and how many variables it has.",
 ["programs","inputs","configurations"],"all operator nestings and sharing patterns (DAGs) x operand kinds x points x variables",
 "The accumulation order and the double traversal of shared named sub-expressions only misbehave for particular sharing shapes; tests use a few fixed shapes with at most a handful of variables.",
 [SB,SU,"src/Scalar/Variable.cpp","src/Scalar/CommonFunctions.cpp"],
 [("traverse() with and without a caller's table",SB),("PreComp/DevalR/PreCompCache","src/Scalar/CommonFunctions.cpp")],
 [("adjoint table","derivative per variable identity, per named expression","Variable::m_cache")],["PreComp+DevalR","PreCompCache"])
prop("S04","Symbolic derivatives are correct to every order",
 "Symbolic differentiation yields an expression whose value, at any later assignment of the variables and parameters, is the mathematical derivative of the original formula. The result is itself a full expression: it can be differentiated again (any order, any mix of variables), evaluated, and differentiated in forward and reverse mode, and taking it never changes what the original expression means.",
 ["programs","inputs","histories"],"all operator nestings x operand kinds x sequences of differentiation variables up to third order x points assigned after the derivative was built",
 "Symbolic nodes cache results per node and per variable; tests take one or two derivatives of fixed formulas at one point and never re-evaluate after changing values.",
 [SB,SU,"include/Scalar/MetaVariable.hpp","src/Scalar/Variable.cpp","src/Scalar/Expression.cpp"],
 [("symEval/symDeval per node",SB),("SymDiff entry","src/Scalar/Expression.cpp")],
 [("memoised symbolic results","per node, per differentiation variable","MetaVariable::mp_tmp/mp_dtmp")],["SymDiff","Eval/DevalF/DevalR of the result"])
prop("S05","Scalar queries depend on current values only, never on history",
 "Whatever sequence of assignments to variables and parameters, evaluations, forward, reverse and symbolic queries on any of a set of expressions sharing sub-expressions has gone before, each query returns what a freshly built copy of the same expression would return at the current values. Queries do not change the values of variables or parameters, and the result of a reverse sweep stays readable until the variables it was made for are swept again.",
 ["histories"],"all interleavings of {assign variable, assign parameter, Eval, DevalF, PreComp, DevalR, PreCompCache, SymDiff} over all expressions of a shared DAG, up to a depth",
 "Tests build an expression, query it once and stop; staleness needs a particular order of queries on overlapping expressions followed by an assignment.",
 ["src/Scalar/Variable.cpp","src/Scalar/CommonFunctions.cpp","src/Scalar/Parameter.cpp","src/Scalar/VarWrap.cpp"],
 [("reset before every query","src/Scalar/CommonFunctions.cpp resetImpl"),("visited flags","Variable::reset")],
 [("visited flag","value already computed in this sweep","MetaVariable::m_visited")],["Eval","DevalF","PreComp+DevalR","SymDiff"])
prop("S06","Redefined and self-referential (loop-built) scalar expressions",
 "Assigning a new formula to a scalar expression replaces its meaning, and assigning a formula that mentions the expression itself composes with its previous meaning, as in an ordinary imperative program. After any sequence of such assignments, values and forward, reverse and symbolic derivatives of the expression, and of expressions built from it, are those of the composed formula.",
 ["programs","histories"],"all sequences of assignments (fresh, self-referential, cross-referential) and queries up to a depth, with tens of loop iterations",
 "Two tests build one loop each with one query; the interaction of loop-building with redefinition, several self-references and intermediate queries is not sampled.",
 ["include/Scalar/Expression.hpp","src/Scalar/Expression.cpp","src/Scalar/Variable.cpp"],
 [("self-reference detection","findMe in every node"),("list of successive definitions","Variable::m_gh_vec")],
 [("definitions list","formulas to run in order","Variable::m_gh_vec")],["Eval","DevalF","PreComp+DevalR","SymDiff"])
prop("S07","Variable and parameter handles behave as values and constants",
 "A parameter is a constant for every kind of differentiation but its current value is used in every later evaluation, including inside derivatives built before it was changed. Assigning a number, or another variable or parameter, to a variable or parameter makes later evaluations use the assigned value; copies of a variable denote the same variable (same value, same derivative seed), and factory-made objects behave as named ones.",
 ["histories","programs"],"all sequences of construct/copy/move/assign/number-assign on small sets of variables and parameters used by live expressions, with queries after every step",
 "No test copies or assigns a variable or parameter, and parameters are never reassigned after a derivative was taken.",
 ["src/Scalar/Parameter.cpp","src/Scalar/Variable.cpp","include/Scalar/Parameter.hpp","include/Scalar/Variable.hpp"],
 [("copy-and-swap","Variable::swap, Parameter::swap"),("shared value storage","Variable::m_value_var")],
 [("identity","which variable an object denotes","m_nidx"),("value","current value","m_var/m_value_var/mp_tmp")],["Eval","DevalF","DevalR","SymDiff"])
prop("S08","Mixed real/complex arithmetic agrees with complex arithmetic",
 "In the complex build, arithmetic and comparison between a real number and a complex number give the same result as converting the real number to complex first, on either side and for every operator. Expressions mixing real literals and complex values evaluate and differentiate accordingly, and on real-valued inputs a complex build computes the same values and derivatives as a real build.",
 ["inputs","configurations"],"operators x sides x a grid of real and complex operands (all sign/zero combinations)",
 "Tests only use real-valued constants on the left of a subtraction/division with real results, where the imaginary part is zero.",
 ["src/CommonHeader.cpp","include/CommonHeader.hpp"],[("mixed operators","src/CommonHeader.cpp")],[],["operator+,-,*,/,==,!="])
prop("S09","Gradients, Jacobians and Hessians are assembled completely",
 "Every assembly function (gradient by forward or reverse mode in matrix shape, Jacobian, Hessian, symbolic gradient, symbolic Hessian, symbolic matrix derivative) returns, at every position, the derivative of the scalar expression with respect to the variable(s) at that position. Hessians are full and symmetric, variables the expression does not use give zeros, and repeated or aliased variables in the list are handled.",
 ["programs","inputs"],"formulas x lists/matrices of variables (order, repetition, unused, sizes 1..n) x points",
 "Existing Hessian tests check single scalar second derivatives built by hand, never the assembled matrices' off-diagonal entries.",
 ["include/Matrix/CommonMatFunctions.hpp"],[("assembly loops","include/Matrix/CommonMatFunctions.hpp")],[],["DevalF(matrix)","DevalR(matrix)","JacobianR","HessianR","SymGradient","SymHessian","SymMatDiff"])
prop("M01","Matrix expression evaluation equals linear algebra",
 "Evaluating a matrix expression gives the matrix defined by the written formula, with the right shape, for every supported operation (sums, differences, products, Kronecker and elementwise products, scalar mixes, transpose, vectorisation, inverse, determinant, elementwise functions), every kind of operand and every nesting. The same holds for all conformable shapes, including 1x1, row and column vectors and rectangular matrices.",
 ["programs","inputs","configurations"],"operation nestings x operand kinds (numbers, variables, parameters, expressions, named/unnamed) x small shapes x back ends x builds",
 "Tests evaluate a few fixed formulas on one or two shapes in one build; result buffers and shape bookkeeping depend on the combination.",
 ["include/Matrix/CommonMatFunctions.hpp",MB,MU,MI+"MatrixVirtuals.ipp",MH],
 [("per-node eval()",MB),("handler dispatch","src/Matrix/MatOperators.cpp")],[("result buffer","per node","m_cloned/mp_result")],["Eval"])
prop("M02","Forward-mode matrix derivatives and their layout",
 "The forward-mode derivative of a matrix expression F with respect to a matrix of variables X has rows(F)*rows(X) rows and cols(F)*cols(X) columns, and its block (i,j) is the shape of X and holds the partial derivatives of F(i,j) with respect to every entry of X. It is exact for every operation, operand kind and shape, and zero when F does not depend on X.",
 ["programs","inputs","configurations"],"operation nestings x operand kinds x shapes of F and X x back ends",
 "The block layout is built from Kronecker products with shape-dependent permutations; errors that show only for rectangular shapes, particular operand kinds or X absent on one side escape the square examples in the tests.",
 [MB,MU,MI+"MatrixUtils.ipp",MH,"include/Matrix/CommonMatFunctions.hpp"],
 [("per-node devalF()",MB),("derivative transpose/convolution helpers",MH)],[("derivative buffer","per node","m_cloned/mp_dresult")],["DevalF"])
prop("M03","Reverse-mode matrix gradients are exact",
 "After a reverse sweep over a scalar-valued (1x1) matrix expression, the gradient read for any matrix of variables, parameters or numbers, scalar variable or named 1x1 intermediate the expression uses has the shape of that object and holds the partial derivatives with respect to its entries; it is zero, in the object's shape, for matrices it does not use. (Named intermediates with more than one entry, and derivatives through the scalar entries of an entry-built matrix, belong to forward mode.) It agrees with forward mode, for every operation, operand kind, shape, sharing pattern and number of occurrences, and for repeated sweeps after values change.",
 ["programs","inputs","histories"],"operation nestings under a scalar reduction x operand kinds x shapes x sharing x repeated sweeps",
 "Pull-back rules differ per operation, per operand kind and per first/inner position in the sweep; the tests cover a few compositions on one shape with one sweep.",
 [MB,MU,MI+"MatrixVirtuals.ipp","include/Matrix/CommonMatFunctions.hpp"],
 [("traverse()",MB),("DevalR lookup","include/Matrix/CommonMatFunctions.hpp")],[("adjoint table","matrix per object identity","m_cache"),("clone buffers","adjoint storage reused between sweeps","MetaMatrix::m_cloned")],["PreComp+DevalR"])
prop("M04","Numeric back ends are interchangeable",
 "Every matrix operation gives the same result, including shape, whichever numeric back end is selected, for all operand shapes and values, and that result does not depend on what a reused result buffer held before. Switching back ends between or within computations never changes any value or derivative beyond rounding.",
 ["inputs","configurations"],"operation x shapes x values (zeros, ones, complex) x back end x previous contents and shape of the result buffer",
 "Tests run with the default back end and fresh buffers only; the fallback back end and buffer reuse are not exercised.",
 [MH,"src/Matrix/MatOperators.cpp","src/Matrix/GlobalParameters.cpp","include/MemoryManager/MemoryManager.hpp"],
 [("handler chain","include/Matrix/MatrixHandler/MatrixStaticHandler.hpp"),("buffer pool","MemoryManager::MatrixPool")],[("selected handler","global","src/Matrix/GlobalParameters.cpp")],["MatrixAdd .. MatrixDervConv","Eval/DevalF under each back end"])
prop("M05","Matrix queries depend on current values only, never on history",
 "Whatever sequence of changes to matrix entries, scalar variables and parameters, evaluations, forward derivatives with respect to different variable matrices, reverse sweeps and back-end switches has gone before, on any of a set of matrix expressions sharing operands and sub-expressions, each query returns what a freshly built copy of the expression returns at the current values. Queries never change the entries of the operands.",
 ["histories"],"all interleavings of {write entry, Eval, DevalF wrt X or Y, PreComp, DevalR, switch back end} over overlapping expressions up to a depth",
 "Every node caches result and derivative buffers that are reused without clearing; staleness needs a second query with other values or another variable matrix, which tests do not do.",
 [MI+"MatrixVirtuals.ipp",MI+"MatrixUtils.ipp",MB,MU,"include/MemoryManager/MemoryManager.hpp"],
 [("reset before each query","include/Matrix/CommonMatFunctions.hpp"),("buffer reuse","MemoryManager::MatrixPool")],[("m_eval/m_devalf/m_visited","validity of the cached buffers","Matrix")],["Eval","DevalF","PreComp+DevalR"])
prop("M06","Operands and shared constants are never modified",
 "Evaluating or differentiating a matrix expression leaves every operand's shape and entries untouched, and leaves the library's shared identity, zero and one matrices exactly what they are named, for any sequence of queries. Results returned to the caller keep the values they had until the same expression, or one that shares operands with it, is queried again.",
 ["histories","programs"],"every operation and composite function x operand kinds x sequences of queries, snapshot of all operands and constants before and after",
 "Constants are global and shared by all expressions, so damage shows only in a later, unrelated expression of the same size.",
 ["src/Matrix/MatrixBasics.cpp",MB,MU,MI],[("constant registries","src/Matrix/MatrixBasics.cpp"),("in-place reshapes","include/Matrix/UnaryOps/GenericMatVec.hpp")],[("constant registry","size to matrix","src/Matrix/MatrixBasics.cpp")],["operands after Eval/DevalF/PreComp","Eye/Zeros/Ones"])
prop("M07","Matrix containers: access, rows, columns, blocks, padding",
 "Every element, row, column, block, padding, reshape and bulk-copy accessor of a matrix reads or writes exactly the elements its arguments name, in row-major order, for every shape and every in-range index or range, and leaves all other elements alone. Padding surrounds with zeros even when the destination is reused, and identity/zero/one factories return what they are named for every size requested, in any order. A random fill draws every element from the distribution, with the arguments, that this call names.",
 ["inputs","histories"],"shapes up to 4x4 (and degenerate rows/columns) x all index/range arguments x destination states",
 "No test calls the row, column, block or padding accessors directly.",
 [MI+"MatrixAccessors.ipp",MI+"MatrixUtils.ipp","src/Matrix/MatrixBasics.cpp"],[("index arithmetic",MI+"MatrixAccessors.ipp")],[],["operator()","operator[]","getRow","getColumn","getBlockMat","setBlockMat","pad","reshape","copyData","getRowPtr"])
prop("M08","Matrix objects have value semantics",
 "Copying, moving, assigning, self-assigning, swapping through moves and destroying matrices of any element kind, before or after they have been evaluated or differentiated, yields matrices whose shape, contents, evaluation and derivatives are those of the source at that time, leaves a copied source as it was, and leaves expressions built from live matrices of unchanged shape correct. A copy of a matrix of numbers or parameters is independent of its source in contents and in derivatives; a copy of a matrix of variables denotes the same variables; a copy of a matrix expression is an expression that stands for its source, which has to stay alive. A moved-from matrix can be assigned, copied and destroyed. No such sequence reads freed memory, frees twice or shares storage by accident.",
 ["histories"],"all sequences of {construct, copy, move, copy-assign, move-assign, self-assign, write, Eval, DevalF, destroy} over a small set of matrices, up to a depth",
 "Tests never copy or move a matrix that has already been evaluated.",
 [MI+"MatrixConstructors.ipp",MI+"MatrixAccessors.ipp","include/MemoryManager/MemoryStrategy/CPUMemoryStrategy/CPUMemoryStrategy.hpp"],
 [("copy-and-swap",MI+"MatrixConstructors.ipp"),("owning storage","CPUMemoryStrategy")],[("ownership flag and cached results","m_dest, mp_result, mp_dresult","Matrix")],["contents, Eval, DevalF after each step"])
prop("M09","Redefined and loop-built matrix expressions",
 "Assigning a new formula to a matrix expression replaces its meaning and shape; assigning a formula that mentions the expression itself composes with its previous meaning. After any sequence of such assignments, with or without queries in between, value, shape queries and forward derivatives of it and of expressions built from it are those of the composed formula, and so are reverse gradients with respect to the operands when every definition is 1x1.",
 ["programs","histories"],"all sequences of fresh/self-referential assignments, shape-changing definitions and queries up to a depth",
 "Tests contain one fixed loop, queried once.",
 ["include/Matrix/Matrix.hpp",MI+"MatrixVirtuals.ipp",MI+"MatrixAccessors.ipp"],[("definitions list","Matrix::m_gh_vec"),("final-shape queries","getFinalNumRows/Columns")],[("definitions list","formulas to run in order","Matrix::m_gh_vec")],["Eval","DevalF","PreComp+DevalR","getFinalNumRows/Columns"])
prop("M10","Composite matrix functions equal their definitions",
 "Elementwise division, broadcast, sums over an axis or all entries, trace, Frobenius norm, concatenation, softmax over an axis or all entries, matrix power, and truncated matrix exponential and logarithm return what their names define, with forward and reverse derivatives to match, for every shape on which they are defined and for operands that are plain matrices, variables, parameters or expressions.",
 ["programs","inputs"],"composite function x axis x operand kind x shapes x points",
 "They are composed from the primitive nodes and global constants at run time; the tests touch a few on one shape.",
 ["include/Matrix/CommonMatFunctions.hpp"],[("composition of primitive nodes","include/Matrix/CommonMatFunctions.hpp")],[],["Eval","DevalF","PreComp+DevalR"])
prop("M11","Convolution is exact for every kernel, stride and padding",
 "Two-dimensional convolution of a matrix with a kernel, with given strides and zero padding, has the documented output size and at every output position holds the sum of products of the kernel with the window it covers. Its forward and reverse derivatives with respect to the image, the kernel, or both are exact for every size, stride and padding, also when several convolutions of equal-sized operands are used in one program.",
 ["inputs","programs","configurations"],"image and kernel shapes x strides x paddings x which operand varies x back ends x sequences of convolutions",
 "Tests check two or three geometries with one operand varying.",
 [MB+"GenericMatConv.hpp",MH+"MatrixConvolution/"],[("padding and block sums",MH+"MatrixConvolution/"),("derivative convolution",MH+"MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp")],[("padding scratch buffers","reused between calls",MH+"MatrixConvolution/")],["Eval","DevalF","PreComp+DevalR of conv"])
prop("M12","Scalars and matrices mix consistently",
 "A number, variable, parameter or scalar expression combined with a matrix acts on every entry, and a matrix whose entries are scalar variables, parameters or expressions behaves as the matrix of their current values. Derivatives flow in both directions: forward mode with respect to matrices whose variables appear in scalar entries, and reverse mode with respect to scalar variables appearing in matrix formulas.",
 ["programs","inputs","histories"],"scalar kind x operator x side x matrix kind x shapes, with value changes between queries",
 "Each scalar-matrix combination is a separate specialisation; tests instantiate a few.",
 [MB+"GenericMatSum.hpp",MB+"GenericMatProduct.hpp",MI+"MatrixUtils.ipp"],[("scalar-operand specialisations",MB)],[],["Eval","DevalF","PreComp+DevalR"])
prop("G01","Expressions own what they use; no invalid memory access",
 "Building, evaluating, differentiating (all modes), rebuilding and discarding scalar and matrix expressions never reads or writes memory outside live objects, whatever the order, size and number of expressions, including ones built in helper functions from unnamed sub-expressions and numbers, provided that the named objects an expression was built from outlive it. Unnamed sub-expressions used by a live expression stay valid until the program ends.",
 ["programs","histories"],"all construction/query/discard sequences of the other properties, run under an address checker, including growth past internal initial capacities",
 "Tests run without a memory checker and never exceed initial capacities.",
 ["include/MemoryManager/MemoryManager.hpp","include/Matrix/MetaMatrix.hpp","src/Matrix/MetaMatrix.cpp"],[("global ownership list","include/MemoryManager/MemoryManager.hpp"),("growing clone table","src/Matrix/MetaMatrix.cpp")],[("allocated objects","kept until exit","MemoryManager")],["address sanitizer"])
prop("T01","Independent matrix operations can run in parallel threads",
 "Matrix operations (element-wise, matrix and Kronecker product, transpose, inverse, determinant, trace, unary map, convolution and its derivative), block access, padding, copying and resets to zero called from different threads, each thread writing a result matrix of its own that already has the size of the result, with operands that are only read and may be shared, give in every interleaving the result of running them one after another, and never touch shared mutable state without synchronisation.",
 ["schedules"],"all interleavings of two or three threads each running a primitive matrix operation on its own result, own or shared operands, first and later calls, both back ends",
 "Tests are single-threaded; the neural-network example relies on it from its worker threads.",
 ["src/Matrix/MatOperators.cpp",MH,"include/MemoryManager/MemoryManager.hpp","src/Matrix/MetaMatrix.cpp"],[("handlers share no state without synchronisation",MH)],[("handler selection","global, read-only during operations","src/Matrix/GlobalParameters.cpp")],["results and shared accesses of concurrent MatOperators calls"])
prop("T02","The parallel-execution build computes what the sequential build computes",
 "With the option ENABLE_STL_PARALLEL_EXECUTION (USE_CXX_PARALLEL_POLICY) matrix operations, container accesses, evaluations, forward, reverse and assembled derivatives and random fills give the results of the sequential build for every order and assignment to threads of the iterations of every loop that is run in parallel: no iteration writes what another iteration of the same loop reads or writes without synchronisation.",
 ["schedules"],"every parallel loop executed by the enumerated operations and formulas: all pairs of its iterations, and the reversed order of iterations",
 "No test is ever built with the option.",
 ["include/CommonHeader.hpp",MH,"include/Matrix/MatrixInterface/MatrixUtils.ipp","include/Matrix/MatrixInterface/MatrixAccessors.ipp","include/Matrix/CommonMatFunctions.hpp","src/Matrix/MatrixBasics.cpp"],[("parallel loops write disjoint data","include/CommonHeader.hpp")],[("derivative table of an expression","only looked up inside a parallel loop","src/Scalar/Variable.cpp")],["values and shapes of results","accesses of loop iterations"])
prop("C01","Build options leave values, derivatives and memory safety alone",
 "With the hash map of the default build files (ENABLE_ROBIN_HOOD_MAP, a flat table which may move every element whenever one is inserted) and with dynamic assertions left out (ENABLE_DYNAMIC_ASSERTIONS off), every sequence of assignments, evaluations, forward, reverse, symbolic and assembled derivative queries, redefinitions and matrix copies and assignments gives the results of the build without those options, and no table entry is used through a reference or iterator taken before an insertion.",
 ["histories","configurations"],"the formula enumerations and operation histories of S01-S07, S09, M04, M05 and M07-M09 in builds with these options, the table moving its elements at every insertion",
 "The tests are only built with the standard library's node-based hash table and with assertions.",
 ["include/CommonHeader.hpp","src/Scalar/Variable.cpp","src/Scalar/Expression.cpp","include/Scalar/BinaryOps/GenericProduct.hpp","include/Matrix/BinaryOps/GenericMatHadamard.hpp","include/Matrix/CommonMatFunctions.hpp"],[("tables are addressed by key after every insertion","include/Scalar/BinaryOps/GenericProduct.hpp"),("assertions have no effects","include/CommonHeader.hpp")],[("derivative tables","keyed by variable index, filled during a sweep","src/Scalar/Variable.cpp")],["values, derivatives and shapes returned by queries"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p)+"\n")
print(len(P))
