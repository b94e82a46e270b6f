T = {
'C01': '''*Specified*: for each of the edge operations (attach, detach, add, remove and replace dependency, the copy and move helpers, both
destructors, stealing an audience) what it must have done to both ends on every path, as pairing of events: a slot that starts to hold a subject
is paired with an attach of exactly that slot on that subject, and vice versa. *Oracle*: the pairing itself; the two ends are compared with each
other, so no second model is needed. `writers` closes the world: no other function of the program writes the two containers. *Bounds*: none (slots
are symbolic, audiences are summarised by loops).''',
'C02': '''*Specified*: what the ending subject does, in which order (unregister from killers, tell, forget), that the fan-out runs over a copy and
looks every observer up again before telling it, what the observer told does first. *Oracle*: order and completeness of events per path; the loop
over the audience must cover the snapshot. *Bounds*: none. Interleavings here are re-entrant calls, which the rule answers by asking that
nothing read before a callback is used after it without looking it up again.''',
'C03': '''*Specified*: the only call sites of the end-of-life handlers and of `delete this`, the condition under which they are reached (the audience
was made empty by this very removal), and that nothing of the object is touched after it ended itself. *Oracle*: call-graph query plus a typestate
(alive, ended) along every path. *Bounds*: none; the handlers of all classes that override them are analysed one by one.''',
'C04': '''*Specified*: a table of owning members is *inferred* (a member its destructor deletes) and compared with the expected list, so that a new owner
is noticed and a lost `delete` is too. For every function that writes an owning member: what was there has been freed or handed on, and what is stored
is new or taken from a source that gives it up. *Oracle*: ownership typestate per path (owned, freed, moved). *Bounds*: none.''',
'C05': '''*Specified*: the update queue: schedule, drain, recompute, leave, merge, freeze. *Oracle*: per-path events of the queue's operations,
with the stored callables applied symbolically ("what will this closure do when it is drained"). *Bounds*: an operation is looked at with 1, 2 and 3
operands of which any subset is present; everything else is symbolic.''',
'C06': '''*Specified*: every function of a leaf or generator class that writes the value (found by what it writes, not by name) marks and tells, in this order.
*Oracle*: a per-path automaton (changed, marked, told). Moving out of a leaf clears the mark.''',
'C07': '''*Specified*: for every class of the library that can be copied or moved (found by their special members), every field is carried: for copies an equal value
or a clone, for moves the source's own value; assigning an object to itself changes no field. *Oracle*: the class's own field list from the type
checker; a field that is added later is in scope at once. A short list of fields that are identity, not content (ids, audiences, queue memberships), is
exempted with reasons in the rule.''',
'C08': '''*Specified*: after each function of a tensor, the memory recorded has as many elements as the allocated shape; allocation, copy, reallocation and
release go through the tensor's own allocator; a compatible shape is one both sides agree on. *Oracle*: invariant over the final state of every path of every member.''',
'C09': '''*Specified*: the labels under which operations are searched, as templates (literal text, printed parameters by kind, operand order). Any two templates of different
operations must be disjoint as languages, each template must print its parameters injectively, and the search must ask for exactly the operands in their order.
*Oracle*: the operator's identity: (kind, ordered operands, parameters its closures keep). Decided by pairwise unification of the templates as automata. `clip_norm` and the axial
operators are covered (two of the defects found were there). *Trusts* that names callers give to their own functions stand for one function each; `matmul`'s own
search for an existing transpose is treated as an alias.''',
'C10': '''*Specified*: every operator with every non-empty subset of its node operands missing: the path returns an empty node, throws nothing, reads through no missing operand and constructs
nothing. *Oracle*: the subset itself. *Bounds*: none (operators have at most three operands).''',
'C11': '''*Specified*: each path of an operator that returns something other than its own node, with the facts that hold there (an operand is a constant, equals 0 or 1 ...). The returned
term is evaluated to a normal form (quotients of polynomials over elementary functions, comparisons by enumerating the orders of the values compared) and must equal the operator's formula
under these facts. *Oracle*: `rules/ops.py:spec`, one formula per operator. *Bounds*: none on values; a constant equals a number only when it has one element.''',
'C12': '''*Specified*: for every operand of every operator the gradient function's term, against the symbolic derivative of the operator's formula; an axis typing of the factors (jacobians);
and path summaries of the functions that compose gradients (`backward_pass`, leaves, `set_jacobian_*`, the lists of factors). *Oracle*: formal differentiation of the same formulas as in C11.
*Left out* since the library pins conventions for them in its tests: round, clip_val, clip_norm, conditional, comparison, samples, fit, extend; derivation by an intermediate node. Four
genuine defects in how lists of factors are merged are known findings (they need a redesign of the jacobian lists, not a patch).''',
'C13': '''*Specified*: the loop nests of every kernel, closed to an element function: which output element is written, from which input elements, combined how. Reading places are compared with the
coordinate that belongs there: symbolically (same place, scalar for all places), by cases of an axis relative to the rank (transpose, extend, fit, flip, reductions, arg search), and for axial kernels
by evaluating the summary over concrete shapes of rank up to three. *Oracle*: the operator's element formula and its coordinate map. *Bounds*: ranks up to three for
the kernels that move elements, extents symbolic except for the axial ones (extents from {1,2,3}).''',
'C14': '''*Specified*: the shape function of each operator as a decision list (conditions on ranks and extents, result or refusal) against the operation's shape rule, evaluated for all
shapes over extents {1,2,3} up to rank three (thorough: four, and the mixed pairs with rank four), with every admissible axis or pair of dimensions and some beyond; plus how a node uses it (derive,
compare or allocate, then compute) and that coordinates and flat indices are inverse. *Oracle*: shape rules written from the documentation of each operator. *Bounds*: as said; extents enter only by
equality with each other and with one, sums and products, so three values stand for all. Shapes that agree up to leading or trailing ones may be accepted or refused.''',
'C15': '''*Specified*: composition of the two functions: the message terms the writer stores are substituted into the reader and the result must be the tensor written. Refusals: every path of the
reader on which the sizes disagree changes nothing. *Oracle*: identity. The protobuf message is a record of fields with presence; that protobuf encodes records faithfully is trusted.''',
'C16': '''*Specified*: label terms of writer and reader compared as templates; the set of nodes visited is the whole list; success is reported only on paths on which everything was written; a file
that cannot be parsed leaves all nodes untouched; models fall back to fresh values for all or none. *Oracle*: writer against reader. The file system is a model: opening, parsing and writing may each fail at any point, which gives the crash points.''',
'C17': '''*Specified*: the type checker's view of every engine and distribution in the program: no object that is called or stored keeps an engine by value; every engine argument is the one shared
object; no foreign source of randomness; each element is drawn. *Oracle*: type and dataflow query, for all of the program.''',
'C18': '''*Specified*: the terms a trainer's update closures hand to the assignments, per leaf; the assignment closures of variables as element functions. *Oracle*: the formulas of gradient descent and of
RMSprop, as normal forms. *Bounds*: none; ignored leaves and null gradients are enumerated.''',
'C19': '''*Specified*: the trainers `gd_net` and `dq_net`, from every constructor and assignment: what they keep, and for each step the order fed, frozen, updated, thawed, told. *Oracle*: order of events per
path, plus which graph is frozen (the one of the error that the updates derive from).''',
'C22': '''*Specified*: the memory as a sequence term after a store: the old one without its oldest entry if full, plus the experience given. *Oracle*: the bounded-queue formula.''',
'C23': '''*Specified*: the rank of a new operation is above the maximum of its sources' ranks; the comparison of the queue is by rank; whoever changes sources keeps this. *Oracle*: the order relation of the terms.''',
'C24': '''*Specified*: the computation the agent builds (error, target, updates) as expression over the roles of its inputs, and how one training step fills the batch: distinct draws, one row per experience.
*Oracle*: the Bellman formula as a normal form.''',
'C25': '''*Specified*: the condition under which an action is random as a formula over the count of actions, the action taken as a formula over the draw; otherwise position of the best score. *Oracle*: the linear schedule.''',
'C26': '''*Specified*: what a model's list of variables contains after each constructor, copy and move, by place; that initialise, save and load run over all of it under one scope. *Oracle*: list against the set of variables the constructor made.''',
'C27': '''*Specified*: the expression a layer or stack builds, for 1 to 3 (thorough 5) inputs or layers with the loops unrolled, as a normal form over matrix products (transpositions folded into them) and sums
along an axis; sizes of the variables each constructor makes; the list of variables offered; squashing functions as quotients of polynomials in e^x, compared by cross multiplication. *Oracle*: the textbook formulas.
*Left out*: `conv_layer`, whose meaning is documented nowhere and which no other code uses.''',
'C28': '''*Specified*: which field is weight, hidden bias and visible bias follows from the two propagations; every other expression of the machine is compared with its formula over these, samples being opaque functions
of their probability. Training is run with 1 and 2 (thorough 4) sampling steps, with and without a persistent chain; the closure returned is applied in place and its events give the order freeze, updates, thaw. *Oracle*: the
formulas of contrastive divergence and pseudo-likelihood; products of values that are zero or one are reduced.''',
'C21': '''*Specified*: the recording configuration of react/ and edgeinfo/ is analysed as a second program: all edge rules of C01 hold in it too; every attach, detach and end of a subject tells the recorder just the edges concerned and
only while it lives; the recorder's sets and its report are compared as set and text terms. *Oracle*: the edge relation itself.''',
'C29': '''*Specified*: for each pair of ranks the paths of a function give a decision table over the abstract extents unknown, one, two, three; exactly one path must apply to each row and its answer is compared with the rule; pouring
is propagated with literal extents and abstract values, its copies giving a map from places to places. *Oracle*: the extents rules written down independently. Between shapes of different rank with unknown ends the code may match more or less (its own
comment says so); only what every reading demands is required there.''',
'C20': '''*Specified*: the streaming configuration is analysed as a program of its own. Shared state is computed: every member of a class with a mutex (and of the list nodes it leads to) that some entry point changes. On every path of every
entry point, with callees inlined, each access must have the mutex in its lockset; every wait must follow a look at that state without an unlock in between; every change must be followed by a notification. *Oracle*: the lockset
discipline and the check-then-wait protocol. Not decided: the order in which a consumer meets the entries of the list (the list drops unread entries when the first one is replaced; the code has no test or documented user for it), and an escape that
falls between a subscriber's look at the subscriptions and its wait, where the two have different locks.''',
}
