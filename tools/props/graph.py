TECH = 'path-sensitive interprocedural dataflow (value-numbered terms over the type-checked syntax tree), '
NOTE = ('Decided from the source for all inputs and histories: every path of the functions concerned is enumerated, loops are summarised for any '
        'number of iterations, nothing is executed and no solver is used. Trusts the extractor, the models of the standard containers, and ')
T = 'app/tenncor/'
R = 'app/rocnnet/'


def P(id, title, statement, over, text, why, files, mech, state, technique, note):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state]),
                claim=dict(technique=TECH + technique, note=NOTE + note))


PROPS = [
P('C01', 'Dependency edges are always recorded on both ends',
  'Whenever an observer holds a subject in one of its argument slots, that subject lists the observer with exactly that slot, and the other way round. Adding, removing or replacing a dependency, copying or moving either end, handing an audience over, and destroying either end all keep it so, for every slot.',
  'histories inputs', 'every sequence of edge operations, with any number of slots, repeated subjects, empty slots and self-assignments',
  'The tests drive the edge operations through mocks with a few slots each; they do not reach repeated subjects with empty slots, and never compare both ends after every kind of copy, move and destruction.',
  [T + 'src/graph/react/subject.cpp', T + 'src/graph/react/iobserver.cpp'],
  [('attach/detach', T + 'src/graph/react/subject.cpp'), ('add/remove/replace dependency, copy and move helpers, destructor', T + 'src/graph/react/iobserver.cpp')],
  [('audience_', 'observer -> slots that hold this subject', T + 'include/graph/react/subject.hpp'), ('dependencies_', 'the subjects an observer holds, by slot', T + 'include/graph/react/iobserver.hpp')],
  'edge-operation pairing on every path', 'that subjects and observers are only used through their public and friend interfaces.'),
P('C02', 'The end of a node reaches everyone who depends on it, once',
  'When a subject is destroyed or announces its end, every observer still registered with it is told, with the slots it then occupies, and drops exactly those slots before it acts on the loss; an ordinary update message leaves the edges alone. The fan-out survives observers that leave or die while it runs, and the records of which observer is to take which subject down with it are kept and forgotten on both ends.',
  'histories', 'every graph, every order of destruction, and observers that detach, die or re-register while a notification is being delivered',
  'The tests destroy a handful of nodes in a fixed order; they cannot cover the orders in which several observers of several subjects disappear during one notification.',
  [T + 'src/graph/react/subject.cpp', T + 'src/graph/react/iobserver.cpp'],
  [('notify', T + 'src/graph/react/subject.cpp'), ('update, destructor', T + 'src/graph/react/iobserver.cpp')],
  [('audience_', 'observer -> slots', T + 'include/graph/react/subject.hpp'), ('killers_ / ondeath_deps_', 'who destroys whom on its own death', T + 'include/graph/react/iobserver.hpp')],
  'event-order and completeness rules on the notification and teardown paths', 'that handlers reached through virtual calls keep the contract checked by C03.'),
P('C03', 'A node ends itself exactly when it lost its last observer or a source',
  'An unmanaged constant or a self-owned random generator is destroyed when its last observer leaves, and not before; managed constants, variables and operations stay when nobody observes them, and removing someone who was no observer ends nothing. When a source is destroyed every operation over it is destroyed with it, while a handle watching it merely becomes empty. Moving a node, moving an observer or replacing a source by itself never ends a node half way, and a node that ended or announced its end is not used again.',
  'histories', 'every order in which observers attach, leave, move and die, for every kind of node',
  'Whether a node survives depends on the order in which observers and sources disappear; the tests fix one order, and a use of a node after its end usually goes unnoticed without a memory checker.',
  [T + 'src/graph/react', T + 'src/graph/leaf/constant.ipp', T + 'src/graph/connector/immutable', T + 'src/graph/varptr.ipp'],
  [('detach', T + 'src/graph/react/subject.cpp'), ('death_on_noparent / death_on_broken overrides', T + 'src/graph/connector/immutable/generator.ipp')],
  [('audience_', 'who observes the node', T + 'include/graph/react/subject.hpp'), ('is_managed_', 'the constant has an owner', T + 'include/graph/leaf/constant.hpp')],
  'decision tables of the end-of-life handlers, their call sites, and use-after-end on every path', 'that objects with these handlers live on the heap, as their factories make them.'),
P('C04', 'Owned objects are freed exactly once, never shared and never used after',
  'Everything an object owns - tensors and initialisers of nodes, transfer functions, shape extractors, allocators, the variables, layers, networks, updaters and placeholders of a model - is freed exactly once: by its owner on destruction, or when the owner replaces it. A copy owns objects of its own and never shares those of its source, a moved-from object no longer refers to what it gave away, and nothing is used after it was freed.',
  'histories inputs', 'every sequence of construction, copy, move, assignment, re-initialisation and destruction of every owning class',
  'A double free, a leak or a shared pointer shows only under particular copy, assignment and destruction orders; the tests construct and clone, rarely assign, and run without leak checking.',
  [T + 'src/graph', T + 'src/memory', R + 'src'],
  [('copy, move and clean-up helpers and destructors', T + 'src/graph/leaf/ileaf.ipp'), ('clean_up / tear_down', R + 'src/models')],
  [('data_, init_, Nf_, shape_info', 'objects owned by nodes', T + 'include/graph'), ('layers_, weights, placeholders, updater', 'objects owned by models', R + 'include')],
  'ownership typestate of every owning member on every path', 'the ownership table (inferred from the destructors and compared with the expected one). Raw tensor buffers are left to C08.'),
P('C05', 'Reading an operation brings its graph up to date first, unless it is frozen',
  'An operation whose source changed is recomputed at once (one source) or queued (several sources) as soon as all its sources hold data, and evaluating any operation of the graph or asking for its shape first works off the whole queue, telling each operation\'s observers after it was recomputed. A frozen graph computes nothing until it is released, and freezing first works off what is queued. No queued work is lost or done for a node that is gone: joining graphs, copying or moving a node, a node that is destroyed and an update that fails all leave the queue right.',
  'histories', 'every graph and every sequence of source changes, evaluations, freezes, merges, copies, moves and destructions',
  'Stale values appear only after particular sequences (change, then copy or destroy or freeze, then read); the tests change one source and read one result.',
  [T + 'src/graph/connector/iconnector.ipp', T + 'src/graph/connector/immutable/base_immutable.ipp'],
  [('graph_manager', T + 'src/graph/connector/iconnector.ipp'), ('update, get_shape', T + 'src/graph/connector/immutable/base_immutable.ipp')],
  [('updates_ / update_map_', 'operations out of date and how to recompute them', T + 'src/graph/connector/iconnector.ipp'), ('freeze_', 'nothing is to be computed', T + 'src/graph/connector/iconnector.ipp')],
  'decision table and event-order rules on the scheduler and queue', 'that the recomputation itself is right (C13).'),
P('C23', 'Operations are recomputed only after everything they depend on',
  'The rank that orders the update queue is, for every operation, greater than the rank of each source it was built on, is kept by copies and moves, and is lowest for leaves. The queue always yields an operation of lowest rank first.',
  'inputs', 'any number of sources of any kind',
  'A wrong rank shows only when two operations of the same queue depend on each other through paths of different length; the tests use shallow graphs.',
  [T + 'src/graph/connector/iconnector.ipp'],
  [('constructor, comparator of the queue', T + 'src/graph/connector/iconnector.ipp')],
  [('depth_', 'rank of an operation', T + 'include/graph/connector/iconnector.hpp')],
  'derivation of the rank as a term over the ranks of the sources, with a difference-bound closure of path facts', 'that sources are not replaced after construction (only handles do that).'),
P('C07', 'Copies and moves carry the whole object; self-assignment changes nothing',
  'Copying or moving an object - a node, tensor, shape, initialiser, updater, layer or model - carries over every part of its state: each value, the owned objects as duplicates, and everything its base types hold; a clone is a new object of the same kind made from the original. What belongs to an object\'s place in a graph (who observes it, its identity) stays, and assigning an object to itself changes nothing.',
  'inputs programs', 'every class with a user-written copy or move, every member, every path, aliasing source and destination',
  'The tests compare a few visible values after a copy; a member forgotten in one of four special functions, or a self-assignment that tears the object down, goes unnoticed.',
  [T + 'src', T + 'include', R + 'src'],
  [('copy and move constructors, assignments, clone', T + 'src/graph/connector/iconnector.ipp'), ('copy_helper / move_helper', R + 'src/models')],
  [('all data members', 'compared one by one with the source', T + 'include')],
  'per-member transfer summary of each special member function', 'the short list of members tied to identity or rebuilt, given in the rule.'),
P('C06', 'Whoever changes a leaf marks it valid and tells its observers',
  'Every way to change the value of a leaf - initialising, re-initialising, assigning raw data or a tensor, copying or moving over it, loading it, the update functions of a variable - and every redraw of a random generator tells the observers after the change, with the leaf already counting as initialised by then; an update function tells only when it is asked to. A change that failed is neither announced nor makes the leaf count as initialised. A leaf that is not initialised yields no value, a copy has a value exactly when its source has, and an emptied leaf yields nothing.',
  'histories inputs', 'every function that changes a value, every path through it',
  'A forgotten or too early announcement leaves operations stale only in graphs that were evaluated before the change; the tests mostly build the graph after the data is there.',
  [T + 'src/graph/leaf', T + 'src/graph/connector/immutable/generator.ipp'],
  [('initialize, assign*', T + 'src/graph/leaf/variable.ipp'), ('operator =', T + 'src/graph/leaf/placeholder.ipp'), ('read_proto, copy_helper', T + 'src/graph/leaf/ileaf.ipp')],
  [('is_init_', 'the leaf has a value', T + 'include/graph/leaf/ileaf.hpp'), ('data_', 'its value', T + 'include/graph/leaf/ileaf.hpp')],
  'effect analysis of every public function of the leaf classes: change, mark, announcement, in that order on every path', 'that a call which may modify a tensor does.'),
P('C21', 'The recording build records exactly the edges of the graph',
  'With recording compiled in, edges are made, replaced and ended as without it. While the recorder lives it holds exactly the edges whose observers are to be recorded: entered when an observer attaches, taken out when it detaches or a node ends. Its report has one line per recorded edge of the type and graph asked for, naming observer, subject and argument position.',
  'configurations histories', 'every attach, detach, replacement, death and report with recording on; presence or absence of the recorder, any number of edges',
  'The unit tests never compile the recording build; an edge lost or left behind shows only after particular histories.',
  [T + 'src/graph/react', T + 'src/edgeinfo', T + 'include/edgeinfo'],
  [('edge_capture, edge_release, node_release', T + 'src/edgeinfo'), ('attach, detach, ~subject', T + 'src/graph/react/subject.cpp')],
  [('subjects_ / edges', 'the recorded edges', T + 'include/edgeinfo')],
  'the edge rules of C01 over the recording build, plus mirror, store and report rules on events and set terms', 'the graphical and network recorders (need a server).'),
P('C20', 'What threads share is touched only under its lock; no wake-up is lost',
  'What the threads of the streaming build share - the caches of messages with their lists, the subscriptions, the request to stop a thread - is read and changed only while its lock is held. A consumer waits exactly when it found nothing new under that lock, holding no other, and every new entry and every stop request wakes all who wait for it and cannot fall between their check and their wait. A thread that is asked to stop leaves at its next check, and an owner that ends joins its thread before what that thread uses ends.',
  'schedules', 'every interleaving of producers, consumers, subscribers and stop requests',
  'A missing lock or a lost wake-up shows only in one interleaving of many, and the tests start no threads of the library.',
  [T + 'src/thread/shareable_cache.ipp', T + 'src/thread/stop_flag.cpp', T + 'src/thread/stoppable_thread.cpp', T + 'src/edgeinfo/grpc_vis/gui_notifier.cpp'],
  [('get_latest, add_latest, escape_wait', T + 'src/thread/shareable_cache.ipp'), ('stop_flag::set, stop_wait, stop_throw', T + 'src/thread/stop_flag.cpp'), ('~stoppable_thread, stop', T + 'src/thread/stoppable_thread.cpp'), ('spawn_server, clear_subscriptions', T + 'src/edgeinfo/grpc_vis/gui_notifier.cpp')],
  [('umap_, content_', 'the cached messages', T + 'include/thread/shareable_cache.hpp'), ('flag_', 'the request to stop', T + 'include/thread/stop_flag.hpp')],
  'lockset analysis over all paths of the entry points, order of waits, checks, changes and notifications', 'what the standard says of mutexes and condition variables, and that the streaming library calls the service as documented. Which entry a consumer gets next from the list is not part of it.'),
]
