from graph import P, T, R

O = T + 'src/graph/operations/'
PROPS = [
P('C10', 'An operator given a missing operand yields nothing',
  'Whenever one of the operands of an operator is missing, the operator returns no node and raises nothing: it does not read the missing operand, does not answer with a constant or another operand in its place, and builds no node over it. This holds for every operator and overload, for each of its operands, and for operators composed of others.',
  'inputs', 'every operator and overload, every operand, every combination of missing and given operands, constants and shortcuts included',
  'The tests pass a missing operand to some operators, one operand at a time and with ordinary values for the others; a guard that misses one operand, or comes after a shortcut, is not reached.',
  [O + 'elementary.ipp', O + 'transform.ipp', O + 'matmul.ipp'],
  [('the guards of the operators', O + 'elementary.ipp'), ('the guards of the operators', O + 'transform.ipp')],
  [('operands', 'the nodes an operator is given', T + 'include/graph/operations/operations.hpp')],
  'null-guard analysis of every path of every operator', 'that a node handle is empty exactly when its pointer is null.'),
P('C11', 'Shortcuts and folded constants agree with the operator they replace',
  'Where an operator answers without building its operation - because an operand is a constant, neutral or absorbing value, because it undoes the operation of its operand, or because it is composed of other operators - the value returned equals what the operation stands for, for every value that takes the shortcut. A folded constant has the shape of the constant it was folded from, with every element computed.',
  'inputs', 'every operator and overload, every path that does not end in the operator\'s own node, all element values',
  'The tests compare a few folds of random constants; a shortcut taken for one special value, in one overload, or with its operands exchanged is seen only with that value in that position.',
  [O + 'elementary.ipp', O + 'transform.ipp', O + 'matmul.ipp'],
  [('folding of constants', O + 'elementary.ipp'), ('neutral and absorbing operands', O + 'elementary.ipp')],
  [('constant content', 'the elements of a constant operand', T + 'src/graph/leaf/constant.ipp')],
  'symbolic evaluation of the returned term against the operator\'s formula, as normal forms of quotients of polynomials over elementary functions and by enumerating the orders of the values compared',
  'real arithmetic in place of floating point (identities that only rounding breaks are accepted), and that a constant compares equal to a number only when it has one element.'),
P('C14', 'The shape of an operation follows from its operands; misfits are refused',
  'Operands that fit an operation are accepted, and its result has the shape that follows from theirs and from the operation\'s parameters; operands that do not fit are refused before anything is computed, whatever their ranks. The shapes are worked out from the operands in their order, the result is allocated with, or checked against, the shape, and its elements and the coordinates of a shape correspond one to one.',
  'inputs', 'every operator and overload; operands of every rank up to three (thorough: four) with any extents, scalars included; axes and dimensions from none to beyond the rank',
  'The tests draw a few shapes per operator, mostly of matching ranks; ones among the extents, operands of different ranks, axes at the ends or beyond the rank and operands that must be refused are hardly combined.',
  [O + 'elementary.ipp', O + 'transform.ipp', O + 'matmul.ipp', T + 'src/graph/connector/immutable/immutable.ipp', T + 'src/tensor/tensor_handler.ipp', T + 'src/tensor/tensorshape.cpp'],
  [('shape functions', O + 'elementary.ipp'), ('shape functions of moves', O + 'transform.ipp'), ('shape of products', O + 'matmul.ipp'), ('computing a node', T + 'src/graph/connector/immutable/immutable.ipp'), ('places and coordinates', T + 'src/tensor/tensorshape.cpp')],
  [('result', 'the tensor a node computes into', T + 'include/graph/connector/immutable/immutable.hpp')],
  'abstract interpretation of the shape functions over shapes of known rank with symbolic extents; the guards and results of their paths against the operations\' shape rules for every pattern of equal, unit and distinct extents; path summaries of the functions that hand shapes and buffers on',
  'extents enter the shape functions by comparisons with each other, with one and by products and differences, so that the patterns over three values stand for all of them. Shapes that are only partly defined are left out, as are shapes that agree except for leading or trailing ones, which may be taken or refused.'),
P('C13', 'Every operation computes what it stands for, element by element',
  'The operation an operator builds is over the operands given, in their order, and writes every element of its result. Each element is the operator\'s function of the elements that belong there: those at the same place, a scalar standing for all places; for an axial operator the place without the axis; for operators that move elements (transpose, fit, extend, flip) the place they come from; for those that gather (reductions, arg search, correlation, matrix product) all the places that belong to it, once each.',
  'inputs', 'every operator and overload; every number of elements; scalar and full operands on either side; every position of the axes relative to the rank, beyond it included, on ranks up to three; any extents',
  'The tests compare results for a handful of random shapes of rank one to three; mixed scalar and tensor operands, axes at the ends or beyond the rank, square shapes and non-commutative functions in the less used overloads are not combined.',
  [O + 'elementary.ipp', O + 'transform.ipp', O + 'matmul.ipp'],
  [('elementwise and axial kernels', O + 'elementary.ipp'), ('kernels that move and gather', O + 'transform.ipp'), ('cubic product', O + 'matmul.ipp')],
  [('destination and sources', 'buffers and shapes a kernel is given', T + 'include/tensor/tensor_handler.hpp')],
  'summaries of the kernels\' loops as element functions, compared with the operator\'s formula and with the coordinate every element belongs at, one case for each position of the axes relative to the rank',
  'real arithmetic in place of floating point, that shapes agree as the shape functions demand, and that coordinates and flat indices are inverse. The Strassen product (not built by default) is not part of it.'),
P('C12', 'Gradients follow the rules of differentiation',
  'The gradient an operation reports with respect to a variable is made, for every operand, of the derivative of the operation in that operand times the operand\'s own gradient; a variable has gradient one in itself, and everything that does not depend on the variable has zero. Operands combined along an axis stay so in the gradient, elements that are moved take their gradients with them, and the matrix product and the axial operations bring what is above them back to the shape of their operands, all such factors being applied, each once, from the outermost inwards.',
  'programs', 'every operator with a derivative in every overload; every operand; every position of transposed, grouped and axial operands; how any graph of them is put together',
  'The tests check the gradients of single operators on random values, and two or three small graphs; the less used overloads, transposed products, grouped operands on either side and deep compositions of factors are not.',
  [O + 'elementary.ipp', O + 'transform.ipp', O + 'matmul.ipp', T + 'src/graph/connector/iconnector.ipp', T + 'src/graph/connector/immutable/immutable.ipp', T + 'src/graph/connector/immutable/base_immutable.ipp'],
  [('gradients of the operators', O + 'elementary.ipp'), ('factor of the product', O + 'matmul.ipp'), ('putting gradients together', T + 'src/graph/connector/immutable/immutable.ipp')],
  [('jacobians', 'the factors a connector holds for each variable', T + 'include/graph/connector/iconnector.hpp')],
  'symbolic derivatives of the operators\' formulas against the terms their gradient functions return, axis typing of those terms, and path summaries of the functions that compose gradients',
  'real arithmetic; the library\'s convention that gradients are combined element by element. Rounding, clipping, norms, comparisons, samples, fit and extend have conventional gradients and are left out, as is derivation by an intermediate node.'),
 P('C09', 'An existing operation is reused only where it is the same operation',
  'When an operator is applied again to the same operands with the same parameters, the node made before is given back instead of a new one. It is given back only then: operations of different kinds, on other operands, on exchanged operands that may not be exchanged, or with parameters that differ in any digit never share a node, whatever nodes the operands already have among their users.',
  'programs', 'every pair of operators and overloads, every operand order, all parameter values (flags, axes, counts, floating point numbers) and the library\'s own named functions',
  'The tests apply an operator twice and compare nodes for a few operators; which of two different operations would answer to the same label depends on pairs of operators and on parameter values that print alike, which are not enumerated.',
  [O + 'elementary.ipp', O + 'transform.ipp', O + 'matmul.ipp', O + 'operation_utils.ipp', T + 'src/graph/inode.ipp', T + 'src/utils/utils.cpp'],
  [('labels and searches of the operators', O + 'elementary.ipp'), ('searches', O + 'operation_utils.ipp'), ('printing parameters', T + 'src/utils/utils.cpp')],
  [('label and users', 'what an operation is found by', T + 'include/graph/inode.hpp')],
  'label templates compared pairwise as automata, with an effect analysis of what the closures of a node keep of the parameters', 'that callers who name their own functions (for conditional, compress) use one name for one function, and that nodes are not relabelled to the label of an operator.'),
]
