from graph import P, T, R

DQ = R + 'src/models/dq_net.cpp'
GD = R + 'src/models/gd_net.cpp'
PROPS = [
P('C19', 'A training step moves all variables from one and the same state',
  'Training a model feeds in the data, freezes the graph of the error, applies every update exactly once and thaws the graph again, so that all gradients of one step are taken at the state before it and the graph is never left frozen. The error is the squared difference between what was expected and what the model makes of the input, and every constructor, copy and move keeps the updates that reduce it.',
  'histories inputs', 'every sequence of training steps, with any number of variables, on trainers that were built, copied, moved or assigned',
  'With the graph unfrozen, or left frozen, training still converges on the small examples; the order of the updates only shows when several variables feed one another.',
  [GD, DQ, R + 'src/models/rbm.cpp', R + 'src/models/db_net.cpp'], [('train', GD), ('train', DQ), ('setup, copy_helper, move_helper', GD), ('train', R + 'src/models/rbm.cpp'), ('build_finetune_functions', R + 'src/models/db_net.cpp')],
  [('updates_', 'the updates that reduce the error', R + 'include/models/gd_net.hpp'), ('error_', 'the node whose graph is frozen', R + 'include/models/gd_net.hpp')],
  'freeze/thaw typestate and completeness of the updates on every path; the error as a normal form', 'what freezing a graph does, which C05 decides.'),
P('C18', 'An update moves each variable of the error once, by its rule',
  'The updates computed for an error are one for each variable it depends on that is not ignored, and no other. Each takes from its variable the learning rate times the processed gradient of the error in that variable, which RMSprop divides by the root of a moving average of the squared gradient that advances with every update. Setting, adding, subtracting and feeding act on every element, with the value the operand has when the update runs, and refuse an operand that does not reach as far.',
  'histories inputs', 'every error, set of ignored variables, learning rate and discount; every sequence of updates; tensors with any number of elements',
  'Descent with a wrong factor, a stale average or one variable left out still lowers the error in the demos; no test takes two RMSprop steps and compares them with the formula.',
  [T + 'src/utils/gd_utils.cpp', T + 'src/graph/leaf/variable.ipp', T + 'src/tensor/tensor_handler.ipp'],
  [('calculate, process_update', T + 'src/utils/gd_utils.cpp'), ('assign, assign_add, assign_sub', T + 'src/graph/leaf/variable.ipp'), ('assign_func', T + 'src/tensor/tensor_handler.ipp')],
  [('ignored_', 'variables that are left alone', T + 'include/utils/gd_utils.hpp'), ('momentums_', 'the averages of RMSprop', T + 'include/utils/gd_utils.hpp')],
  'normal forms of the steps, with the data of a variable kept apart from what its users were told; element functions of assigning; enumeration of small sets of leaves',
  'that the gradient is right (C12) and real arithmetic. The sets of leaves enumerated have up to two members (thorough: three), each a variable or not, ignored or not.'),
P('C22', 'The agent remembers the newest experiences, unaltered and bounded',
  'Every store_interval-th experience given to the agent, starting with the first, is remembered exactly as given, behind the older ones. The memory never holds more than its configured maximum; only when it is full does it forget, and then its oldest entry; nothing but storing changes it.',
  'histories', 'every sequence of stored experiences, for every interval and maximum',
  'The demos never fill the memory of 30000 experiences, and nothing compares what is in it with what was given.',
  [DQ], [('store', DQ)], [('experiences_', 'the memory', R + 'include/models/dq_net.hpp'), ('n_store_called_', 'experiences offered so far', R + 'include/models/dq_net.hpp')],
  'the memory after every path of storing, as a term over the memory before', 'that an agent is used from one thread.'),
P('C24', 'Each step of the agent fits distinct experiences to the Bellman target',
  'A training step happens on each train_interval-th call once enough is remembered; it feeds mini_batch_size distinct experiences with observation, action, reward and next observation kept in one row, an experience without next observation counting with its reward alone. The error is the mean squared difference between the score of the action taken and reward plus discount times the best target score; the gradient leaves the target network alone, whose variables then move target_update_rate of the way to their counterparts.',
  'histories inputs', 'every memory, batch size, network and sequence of steps, for agents that were built, copied, moved or assigned',
  'Learning is noisy: rows that are misaligned, sampled twice or masked the wrong way still lower the error in a demo with a fixed seed.',
  [DQ], [('train, random_sample', DQ), ('variable_setup', DQ)],
  [('source_updates_, target_updates_', 'the two sets of updates', R + 'include/models/dq_net.hpp'), ('train_input_, next_input_, reward_, output_mask_, next_output_mask_', 'inputs of the error', R + 'include/models/dq_net.hpp')],
  'normal form of the error and the updates; each input of a step as one piece per row of the batch', 'the shuffle of the standard library to be a permutation.'),
P('C25', 'The agent explores at a falling rate and only takes legal actions',
  'The probability of a random action falls linearly from one to the configured rate over the exploration period and stays there; a random action is drawn, independently of that decision, from the valid action numbers. Otherwise the agent feeds the given observation to the source network and returns the position of its best score.',
  'histories inputs', 'every observation and number of actions taken, for every configuration, on agents that were built, copied, moved or assigned',
  'A rate that is off, an action index one too large with tiny probability, or a decision correlated with the action drawn does not show in a test with a fixed seed.',
  [DQ], [('action, linear_annealing, get_random', DQ), ('variable_setup', DQ)], [('actions_executed_', 'actions taken so far', R + 'include/models/dq_net.hpp')],
  'normal form of the rate and of the value returned, on every path', 'the uniform distribution of the standard library to draw from [0,1).'),
P('C26', 'Models list each variable once, and initialise, save and load them all',
  'Every layer and network lists each variable it made exactly once, and copies and moves keep the order, so that a saved file fits every copy. Saving writes the whole list and tells whether it did; loading takes the values of the file only if it had one for every variable, and otherwise initialises each variable. The networks of one agent are saved under different scopes and loaded under the same.',
  'histories inputs', 'every layer and network, with any number of layers, after any copies and moves, and every file',
  'A variable left out of the list keeps its first value for good and a swapped pair of equal shape loads without an error; the tests use one file and two small nets.',
  [R + 'src/compounds/icompound.cpp', R + 'src/layers/fc_layer.cpp', R + 'src/models/rbm.cpp', DQ],
  [('initialize, save', R + 'src/compounds/icompound.cpp'), ('get_variables', R + 'src/compounds/mlp.cpp'), ('get_variables', R + 'src/layers/fc_layer.cpp'), ('copy_helper', R + 'src/models/rbm.cpp')],
  [('weights_n_bias_', 'the variables of a layer', R + 'include/layers/fc_layer.hpp'), ('layers_', 'the layers of a net', R + 'include/compounds/mlp.hpp')],
  'places constructors keep fresh variables in, against the list of variables as a term; every path of initialising and saving', 'reading and writing files, which C15 and C16 decide.'),
P('C27', 'Layers and stacks of them compute weighted sums applied in turn',
  'A fully connected layer returns the sum over its inputs of input times weights, plus its bias for every example of the batch; a stack applies its layers in the order given, each to the result of the one before and followed by its own activation, and offers every variable for training exactly once. Variables have the sizes the layers need. Sigmoid, tanh and softmax are the functions they are called, and the output of a deep belief net is a distribution for each example.',
  'inputs configurations', 'every size, batch and value; any number of inputs and layers (1 to 3 enumerated, thorough: 5)',
  'The demos train one small net with two layers of one input each; a bias added the wrong way or a layer fed the first input still trains a little.',
  [R + 'src/layers/fc_layer.cpp', R + 'src/compounds/mlp.cpp', R + 'src/models/db_net.cpp', T + 'src/utils/futils.ipp'],
  [('fc_layer::operator()', R + 'src/layers/fc_layer.cpp'), ('mlp::prop_up', R + 'src/compounds/mlp.cpp'), ('db_net::prop_up', R + 'src/models/db_net.cpp'), ('sigmoid, tanh, softmax', T + 'src/utils/futils.ipp')],
  [('weights_n_bias_', 'variables of a layer', R + 'include/layers/fc_layer.hpp'), ('layers_', 'layers of a stack', R + 'include/compounds/mlp.hpp')],
  'normal forms of the expressions built, over matrix products and axial sums', 'that the operators compute what C13 says, real arithmetic, and 1 to 3 inputs or layers (thorough: 5) to stand for any number. The convolutional layer has no documented meaning and is left out.'),
P('C28', 'A restricted Boltzmann machine follows its formulas',
  'The probabilities of hidden and visible units, the free energy, reconstructions through samples, the reconstruction cost and the pseudo-likelihood (which flips one visible unit and leaves the others) are the standard ones for the weights and biases of the machine. Training moves each of its variables against the gradient of the mean free energy of the input minus that of the end of the sampling chain, held constant, which starts from a sample of the input or goes on from where the persistent chain was left. A stack is trained machine by machine on what the ones before make of the input, and fine-tuned on the cross entropy with the expected output.',
  'inputs configurations histories', 'every input, size and learning rate, with and without persistent chain; any number of sampling steps (1 to 2 enumerated, thorough: 4) and machines',
  'No test runs these models; a chain that uses probabilities instead of samples, a transposed weight of a square machine or a cost that ignores the labels trains without complaint.',
  [R + 'src/models/rbm.cpp', R + 'src/models/db_net.cpp'],
  [('prop_up, prop_down, free_energy, train', R + 'src/models/rbm.cpp'), ('get_pseudo_likelihood_cost, get_reconstruction_cost', R + 'src/models/rbm.cpp'), ('pretraining_functions, build_finetune_functions', R + 'src/models/db_net.cpp')],
  [('weight_, hbias_, vbias_', 'variables of a machine', R + 'include/models/rbm.hpp')],
  'normal forms of the expressions built, with the sampling loop unrolled; the functions returned called in place', 'that the operators and samples are what C13 and C17 say, that gradients are right (C12), and real arithmetic.'),
]
