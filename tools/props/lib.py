from graph import P, T, R

PROPS = [
P('C08', 'A tensor\'s memory always matches its shape and has one owner',
  'A tensor holds data exactly when its allocated shape is fully defined, and then in a buffer of exactly as many elements; memory is allocated on request only for a shape compatible with the one allowed, and the result tells whether the data was replaced. Each buffer belongs to one tensor and is released exactly once, with the size it was allocated with and to the allocator it came from, before it is dropped - through construction, copy, move, assignment, reallocation, deallocation, copying from another tensor, reading back and a change of allocator. Copies, reallocations and copies-from take over the existing data.',
  'histories inputs', 'every sequence of tensor operations, for every shape (undefined, partly defined, fully defined) and every allocator',
  'The default allocator ignores sizes and identities, so a wrong size, a wrong allocator, a leak or a shared buffer passes the tests unnoticed; the orders of reshaping, moving and deallocating that reach them are not sampled.',
  [T + 'src/tensor/tensor.ipp', T + 'include/memory/iallocator.hpp'],
  [('allocate, deallocate, copy_from, from_proto, set_allocator', T + 'src/tensor/tensor.ipp'), ('copy_helper, move_helper, destructor', T + 'src/tensor/tensor.ipp')],
  [('raw_data_', 'the buffer', T + 'include/tensor/tensor.hpp'), ('alloc_shape_', 'the shape it was allocated for', T + 'include/tensor/tensor.hpp'), ('alloc_', 'the allocator it came from', T + 'include/tensor/tensor.hpp')],
  'allocation typestate of every buffer against the shape and allocator recorded, with shapes as values', 'that allocators return usable memory, and that shape compatibility is symmetric. How elements are laid out when shapes are refitted is not part of it.'),
P('C17', 'All randomness comes from one shared generator',
  'Every random draw of the library - random initialisers, sampling operations, node tokens, exploration and replay sampling - is taken from, and advances, one process-wide generator that can be seeded, never a copy of it or a source of its own; so seeding makes draws repeatable and no two draws replay the same state. A random initialiser gives every element of the tensor its own draw from the distribution it was made with.',
  'inputs histories', 'every draw of every function of the library, for every distribution and shape',
  'A copy of the generator gives draws that look random one at a time; only comparing histories of draws across nodes and seeds would show that they repeat or ignore the seed.',
  [T + 'src/utils/utils.cpp', T + 'src/tensor/tensor_handler.ipp', T + 'src/graph/operations/elementary.ipp', R + 'src/models/dq_net.cpp'],
  [('get_generator, seed_generator', T + 'src/utils/utils.cpp'), ('rand_uniform, rand_normal', T + 'src/tensor/tensor_handler.ipp'), ('binomial_sample', T + 'src/graph/operations/elementary.ipp'), ('get_random, random_sample', R + 'src/models/dq_net.cpp')],
  [('common_generator', 'the shared generator', T + 'src/utils/utils.cpp')],
  'origin tracing of every engine-typed expression, by-value type query, and coverage of the filled range', 'that the standard distributions draw from the engine they are handed; the demonstration programs are not library code.'),
P('C15', 'Written data reads back the same; data that does not fit is refused',
  'A tensor that has data, written out and read back into any tensor of the same element type, has the same allocated shape, the same allowed shape and the same elements, and the result says so; a tensor without data writes nothing. A message whose data is not exactly as long as its shape needs, or whose shapes contradict each other, is refused: the target keeps its data and shapes and nothing else happens to the program. A leaf that accepted a value is initialised and tells its audience once, after the value is in place; one that refused is unchanged, and nodes that compute their value always refuse.',
  'inputs', 'every tensor state (shape, rank, fill), every message (truncated, oversized, empty, contradictory) and every target tensor',
  'The existing tests do not exercise reading at all, and a wrong length, shape or order shows only for shapes where it matters, or as a read past the end of a buffer.',
  [T + 'src/tensor/tensor.ipp', T + 'src/graph/leaf/ileaf.ipp'],
  [('serialize, from_proto', T + 'src/tensor/tensor.ipp'), ('read_proto', T + 'src/graph/leaf/ileaf.ipp'), ('read_proto (refusing)', T + 'src/graph/connector/immutable/generator.ipp')],
  [('tensor_proto', 'the message: data, allowed shape, allocated shape', T + 'proto/serial/tenncor.proto')],
  'the writer and the reader analysed as one run on a symbolic message, and the reader alone on an arbitrary message', 'that the protobuf library stores and returns field values unchanged.'),
P('C16', 'A saved model is restored: same names, every variable, nothing lost',
  'Saving stores every node that has a value under the given name and its position, keeps the entries the file already has, leaves a file it cannot read alone, and reports success only when the whole file was written; reading looks nodes up under the same names and hands back exactly those it did not find or that refused the entry, and a file that cannot be read changes nothing. A model saves and restores all of its variables, and unless every one was read all of them get fresh values - never a mixture. Every network of a model has a name of its own, the same for saving and restoring, derived from the name given or else the model\'s own.',
  'inputs crash_points histories', 'every model, name, file state (missing, unreadable, holding other models, partly matching) and every failure to write',
  'The existing tests never save or restore; a name that differs between the two sides, or two networks sharing one, shows only as silently wrong weights.',
  [T + 'src/memory/tensor_io.ipp', R + 'src/compounds/icompound.cpp', R + 'src/models/dq_net.cpp', R + 'src/models/gd_net.cpp'],
  [('write_inorder, read_inorder', T + 'src/memory/tensor_io.ipp'), ('save, initialize', R + 'src/compounds/icompound.cpp'), ('save, initialize', R + 'src/models/dq_net.cpp'), ('save, initialize', R + 'src/models/gd_net.cpp')],
  [('node_map', 'the entries of a file', T + 'proto/serial/tenncor.proto'), ('scope_', 'the model\'s own name', R + 'include/layers/ilayer.hpp')],
  'the entries written read off as a symbolic map and matched with what reading looks up; call matching in the models', 'that the protobuf library and the stream report their failures; a crash between truncating the file and finishing it loses the file (not claimed).'),
P('C29', 'Shapes compare, merge and hold data as their known extents say',
  'Shapes of one rank are compatible exactly when their known extents agree (zero is unknown); shapes of different rank when they agree without the ones at their ends; an undefined shape fits all, and the order does not matter. Merging, joining, trimming, refitting and counting follow the extents, and a shape guessed for raw data keeps every known extent and holds the data exactly (or, loosely, with least room), being refused exactly when impossible. Data poured into another shape keeps each value at its coordinates and is zero elsewhere.',
  'inputs', 'all extents, ranks to a bound, any data',
  'Unknown extents and differing ranks multiply the cases; the tests sample a few shapes at random.',
  [T + 'src/tensor'],
  [('is_compatible_with, merge_with, trim, with_rank*', T + 'src/tensor/tensorshape.cpp'), ('guess_shape, loosely_guess_shape, fit_toshape', T + 'src/tensor/tensor.ipp')],
  [('dimensions_', 'the extents', T + 'include/tensor/tensorshape.hpp')],
  'decision tables of the shape functions over abstract extents, propagated through their paths', 'ranks above 3 (thorough 4) and extents above 3: the code treats those alike.'),
]
