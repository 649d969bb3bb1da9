"""The properties: statements, anchors, and the footprint of each in the code.

A footprint is a list of function patterns 'module:qualified.name' (fnmatch,
'theanolm.' may be left out of the module).  `tools/generate.py` writes
properties.jsonl and MANIFEST.json from this table; check.py reads it.
"""

PROPS = []


def prop(id, title, statement, over, text, why, scope, mechanism=None, lints=(), wide=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, scope=scope,
                      mechanism=mechanism or [], lints=list(lints), wide=list(wide)))


TR = 'training.trainer:Trainer.'
OPT = ['training.%soptimizer:*' % x for x in ('adadelta', 'adagrad', 'adam', 'nesterov', 'rmspropnesterov', 'rmspropsgd', 'sgd')]
OPTUPD = [x + '._get_param_updates' for x in OPT]
LD = 'scoring.latticedecoder:LatticeDecoder.'

# ---------------------------------------------------------------- training

prop('T01', 'A resumed training run continues exactly where the saved one was',
     'Everything that decides how training continues (network parameters, optimizer statistics and learning rate, the order of the training '
     'sentences and the position in it, epoch and update numbers, validation cost history) is written when a state is saved, and all of it is '
     'read back into the same place when training is resumed or taken back to a saved state. A state is written in full whether the file is new '
     'or holds an older state.',
     ['histories', 'crash_points', 'configurations'],
     'every sequence of updates, saves, resumes and rollbacks, for every optimizer, layer type and data set',
     'A lost field changes training only after a resume from a particular history; tests would need every field, optimizer and layer in every order of saving and loading.',
     [TR + 'get_state', TR + '_reset_state', TR + 'initialize', TR + '_set_candidate_state', 'training.basicoptimizer:BasicOptimizer.get_state',
      'training.basicoptimizer:BasicOptimizer.set_state', 'backend.parameters:*', 'network.network:Network.get_state',
      'network.network:Network.set_state', 'network.basiclayer:BasicLayer.get_state', 'network.basiclayer:BasicLayer.set_state',
      'network.bidirectionallayer:*.get_state', 'network.bidirectionallayer:*.set_state', 'network.architecture:Architecture.get_state',
      'network.architecture:Architecture._write_h5_dict', 'parsing.shufflingbatchiterator:ShufflingBatchIterator.get_state',
      'parsing.shufflingbatchiterator:ShufflingBatchIterator.set_state', 'commands.train:train'],
     [('saving', 'Trainer.get_state and the get_state methods it calls'), ('restoring', 'Trainer._reset_state and the set_state methods')],
     lints=['state_keys:Trainer,BasicOptimizer,ShufflingBatchIterator'],
     wide=OPT + ['network.*:*.__init__'])

prop('T02', 'A missing or incompatible saved state is refused, never half used',
     'Loading a model file that lacks any needed part (vocabulary, architecture, a layer parameter, optimizer, iterator or trainer state) or that '
     'was made with another architecture ends in an error saying so. No such file is silently accepted with default values in place of the missing part.',
     ['inputs', 'histories'],
     'every model file, with any subset of the expected groups, datasets and attributes missing or different',
     'There are exponentially many incomplete files; tests load a few complete ones.',
     ['backend.parameters:Parameters.set_state', 'network.architecture:Architecture.from_state', 'network.architecture:Architecture.check_state',
      'network.architecture:Architecture._check_h5_dict', 'network.architecture:Architecture._read_h5_dict', 'network.network:Network.set_state',
      'network.network:Network.from_file', 'training.basicoptimizer:BasicOptimizer.set_state',
      'parsing.shufflingbatchiterator:ShufflingBatchIterator.set_state', TR + '_reset_state', TR + 'initialize',
      'vocabulary.vocabulary:Vocabulary.from_state', 'network.basiclayer:BasicLayer.set_state', 'network.bidirectionallayer:*.set_state',
      'commands.train:_read_vocabulary', 'bin.theanolm:main'] + [
      'commands.train:train'],
     [('checks', 'set_state, from_state and check_state methods'), ('reporting', 'bin/theanolm main()')])

prop('T03', 'The model file always holds the best state so far',
     'With validation data the saved model is replaced only when a validation is the first one or its cost is clearly below the cost of the saved '
     'model, by the state at the middle of that validation together with the cost history including it, and the file is flushed. Without validation data '
     'the state is saved at the end of each epoch.',
     ['histories', 'schedules', 'crash_points'],
     'every sequence of validation costs, validation frequencies and number of epochs',
     'The rule concerns every history of costs and the exact moment of saving; tests run one short history.',
     [TR + '_validate', TR + '_has_improved', TR + '_set_candidate_state', TR + 'candidate_cost', TR + 'train', TR + 'validations_since_candidate',
      TR + 'num_validations', TR + 'initialize', TR + 'get_state', TR + '_reset_state', 'commands.train:train'] + [
      'network.network:Network.get_state', 'backend.parameters:Parameters.get_state'],
     [('candidate', 'Trainer._set_candidate_state, _has_improved')])

prop('T04', 'Annealing goes back to the best state and halves the learning rate',
     'When more validations than the patience allows have passed since the saved model, training returns to the saved state, the stopping criterion is told, '
     'and the learning rate becomes half of what it was just before. A negative patience never anneals, and nothing of the abandoned validation is carried over.',
     ['histories', 'configurations'],
     'every cost history, patience, optimizer and stopping criterion',
     'The order of restoring and halving matters only on particular cost histories.',
     [TR + '_decrease_learning_rate', TR + '_validate', TR + '_reset_state', TR + 'validations_since_candidate', TR + 'candidate_cost',
      'training.stoppers:*improvement_ceased', 'training.basicoptimizer:BasicOptimizer.get_state', 'training.basicoptimizer:BasicOptimizer.set_state',
      'training.basicoptimizer:BasicOptimizer.update_minibatch', 'parsing.shufflingbatchiterator:ShufflingBatchIterator.set_state', 'commands.train:train'] + [
      TR + '_set_candidate_state', TR + 'initialize', 'network.network:Network.set_state', 'backend.parameters:Parameters.set_state'],
     [('annealing', 'Trainer._decrease_learning_rate')])

prop('T05', 'Training stops exactly when its stopping criterion says so',
     'Training never starts an epoch beyond the maximum number, and each criterion (epoch count, no improvement between annealings, number of annealings) '
     'stops training exactly when its documented condition holds, but not before the minimum number of epochs. An unknown criterion is refused.',
     ['histories', 'configurations'],
     'every history of candidate costs and annealings, every epoch limit and criterion',
     'Stopping depends on whole histories of costs; tests cover a few steps of one criterion.',
     ['training.stoppers:*', TR + 'train', TR + 'candidate_cost', TR + '_decrease_learning_rate', TR + '__init__', TR + 'initialize', 'commands.train:train', 'commands.train:add_arguments'] + [
      TR + 'num_validations'],
     [('criteria', 'training/stoppers.py'), ('loop', 'Trainer.train')])

prop('T06', 'Validation follows its schedule and uses complete windows only',
     'Validation takes place the requested number of times per epoch, each time over a window of consecutive updates ending at the scheduled update, and its cost is the '
     'chosen statistic of the perplexities of exactly that window. A window that did not collect all samples (for example after a resume) is dropped without any effect on the cost history.',
     ['schedules', 'histories', 'configurations'],
     'every number of updates per epoch, validation frequency, window size and resume point',
     'The schedule is modular arithmetic over all combinations of epoch length, frequency and position.',
     [TR + '_validate', TR + '_is_scheduled', TR + 'set_validation', TR + '__init__', TR + 'train', 'scoring.textscorer:TextScorer.compute_perplexity', 'commands.train:train'] + [
      'parsing.batchiterator:BatchIterator.__len__'],
     [('schedule', 'Trainer._is_scheduled'), ('window', 'Trainer._validate')])

prop('T07', 'Every mini-batch of an epoch is used for exactly one update',
     'In each epoch every mini-batch of the training data causes exactly one parameter update with the classes of its words, and the epoch and update counters advance by one '
     'per epoch and per update, so that the position in the training is always known. Training data without sentences is refused.',
     ['histories', 'inputs'],
     'every training set, mini-batch size, stopping criterion and resume point',
     'A counter that is off by one, or a batch used twice, shows only at epoch borders and after resumes.',
     [TR + 'train', TR + '__init__', TR + 'initialize', 'training.basicoptimizer:BasicOptimizer.update_minibatch', 'parsing.batchiterator:BatchIterator.__next__', 'parsing.batchiterator:BatchIterator.__iter__', 'commands.train:train'],
     [('loop', 'Trainer.train')])

# --------------------------------------------------------------- optimizers

prop('O01', 'Every parameter is updated once per mini-batch, with its own gradient',
     'One training step updates every parameter of every layer exactly once, each with the gradient of the cost with respect to that same parameter and with the optimizer '
     'statistics kept for it. Every statistic the optimizer keeps is itself updated in the same step.',
     ['programs', 'configurations'],
     'every network architecture and optimization method',
     'Pairing of parameters with gradients and statistics must hold for every architecture; a test sees one network.',
     OPT + ['network.network:Network.get_variables', 'network.basiclayer:BasicLayer.get_variables', 'network.bidirectionallayer:*.get_variables',
            'backend.parameters:Parameters.get_variables', 'backend.parameters:Parameters.add', 'backend.parameters:Parameters.__getitem__',
            'training.basicoptimizer:BasicOptimizer.__init__', 'training.basicoptimizer:BasicOptimizer._normalize'],
     [('updates', '_get_param_updates of each optimizer')])

prop('O02', 'Optimizers apply their published update rules',
     'The parameter change computed by each optimization method (SGD, Nesterov momentum, AdaGrad, AdaDelta, Adam, RMSProp with SGD or Nesterov momentum) follows the published formula of that '
     'method, with the learning rate, decay rates, momentum and stability term the user selected.',
     ['inputs', 'configurations', 'histories'],
     'every gradient history and every setting of the hyperparameters',
     'Tests check that a cost goes down, which many wrong formulas also achieve.',
     OPT + ['training:create_optimizer', 'training.basicoptimizer:BasicOptimizer.__init__', 'training.basicoptimizer:BasicOptimizer.update_minibatch', 'commands.train:train', 'commands.train:add_arguments'],
     [('rules', '_get_param_updates of each optimizer')])

prop('O03', 'The norm of an update never exceeds the gradient norm limit',
     'When a maximum norm is requested, the update direction of all parameters together is scaled so that its norm is at most the limit, keeping its direction, before the learning rate '
     'is applied, and updates well within the limit are left as they are.',
     ['inputs', 'configurations'],
     'every gradient and limit, for every optimization method',
     'Clipping acts only on rare large gradients.',
     ['training.basicoptimizer:BasicOptimizer._normalize', 'backend.operations:sum_of_squares', 'training.basicoptimizer:BasicOptimizer.__init__', 'commands.train:train', 'commands.train:add_arguments'] + OPTUPD,
     [('clipping', 'BasicOptimizer._normalize')])

prop('O04', 'The training cost is the mean over the words that count',
     'The training cost is the average negative log probability over exactly the word positions that are real words of the data and not excluded by the user, plus the requested L1 and L2 '
     'penalties over all network parameters. Padding and excluded words contribute neither to the sum nor to the count; a mini-batch with no other words costs nothing.',
     ['inputs', 'configurations'],
     'every batch shape, padding, excluded word and regularization weight',
     'A wrong normalizer or mask changes the training objective slightly on particular batches only.',
     ['training.cost:Cost.*', 'training.cost:CrossEntropyCost.*', 'backend.operations:l1_norm', 'backend.operations:sum_of_squares', 'network.network:Network.get_variables',
      'network.network:Network.target_probs', 'training.basicoptimizer:BasicOptimizer.__init__', 'commands.train:train', 'commands.train:add_arguments', 'parsing.batchiterator:BatchIterator._prepare_batch'],
     [('cost', 'training/cost.py')])

prop('O05', 'Sampling-based costs compare the target with noise classes correctly',
     'The noise-contrastive and BlackOut costs are computed from the unnormalized score of the target class and of every sampled noise class, each corrected with its own probability under '
     'the noise distribution, and the noise classes are scored by the same output parameters as the target. Architectures without such scores are refused.',
     ['inputs', 'configurations'],
     'every batch, noise distribution, number of noise samples and way of sharing them',
     'The estimates are stochastic; a test cannot tell a slightly wrong objective from sampling noise.',
     ['training.cost:*', 'network.samplingoutputlayer:*', 'network.network:Network.set_sampling', 'network.network:Network.noise_sample', 'network.network:Network.unnormalized_logprobs',
      'network.softmaxlayer:SoftmaxLayer.create_structure', 'backend.classdistribution:*.probs', 'backend.classdistribution:*.__init__', 'commands.train:train'],
     [('costs', 'NCECost, BlackoutCost'), ('scores', 'SamplingOutputLayer')])

prop('O06', 'Noise classes are drawn from the distribution used to correct for them',
     'Each noise distribution draws valid class IDs only, and the probability it reports for a class is the probability with which it draws that class: uniform, log-uniform, or the training data unigram '
     'distribution raised to the dampening exponent and normalized. The user selects the distribution, and an unknown one is refused.',
     ['inputs', 'configurations'],
     'every class, vocabulary size, dampening exponent and sample count',
     'A distribution and its probability function can disagree on classes a test never draws.',
     ['backend.classdistribution:*', 'network.network:Network.set_sampling', 'network.network:Network.__init__', 'vocabulary.vocabulary:Vocabulary.get_class_probs', 'vocabulary.vocabulary:Vocabulary.num_classes',
      'network.samplingoutputlayer:*.get_*sample_tensors', TR + '__init__', 'commands.train:train', 'commands.train:add_arguments'],
     [('distributions', 'backend/classdistribution.py')])

prop('O07', 'The network learns to predict each next word from the words before it',
     'In a training step the input at each position is the word and class there and the target is the word and class at the next position, with the mask and the per-file weights taken from the target position. '
     'The network is in training mode and uses the requested number of noise samples.',
     ['inputs', 'configurations'],
     'every batch, set of training files and weights',
     'A misaligned mask or weight is invisible unless sequence lengths and file weights differ within one batch.',
     ['training.basicoptimizer:BasicOptimizer.__init__', 'training.basicoptimizer:BasicOptimizer.update_minibatch', 'commands.train:train', TR + 'train', 'parsing.batchiterator:BatchIterator._prepare_batch'],
     [('feeding', 'BasicOptimizer.update_function')])

prop('O08', 'Training file weights scale the learning of their own sentences',
     'The update made on a mini-batch is scaled by the average weight of the files its words come from, so a file with weight w is learned w times as fast as one with weight one, and files '
     'without a given weight have weight one. More weights than files are refused.',
     ['inputs', 'configurations'],
     'every assignment of sentences to files and of weights to files',
     'Needs batches that mix files with different weights.',
     ['training.basicoptimizer:BasicOptimizer.__init__', 'training.basicoptimizer:BasicOptimizer.update_minibatch', 'commands.train:train', 'commands.train:add_arguments', 'parsing.batchiterator:BatchIterator._prepare_batch',
      'parsing.batchiterator:BatchIterator._read_sequence', 'parsing.shufflingbatchiterator:ShufflingBatchIterator._readline', 'parsing.linearbatchiterator:LinearBatchIterator._readline'] + OPTUPD + [
      'parsing.shufflingbatchiterator:SentencePointers.*'],
     [('weights', 'BasicOptimizer.__init__ modified_alpha')])

# ------------------------------------------------------------------ network

prop('N01', 'Padding never influences recurrent states or predictions',
     'At a padded position every recurrent layer keeps its state from the previous position, so the predictions for the words of a sequence do not depend on how far it was padded or on the other '
     'sequences of its batch.',
     ['inputs', 'programs'],
     'every batch composition, sequence length and stack of recurrent layers',
     'Equality of results over all paddings cannot be sampled; the existing tests use full sequences.',
     ['network.lstmlayer:*', 'network.grulayer:*', 'network.bidirectionallayer:*', 'parsing.batchiterator:BatchIterator._prepare_batch', 'parsing.scoringbatchiterator:*._prepare_batch', 'network.network:Network.__init__'],
     [('masking', 'LSTMLayer and GRULayer time steps')])

prop('N02', 'Recurrent layers compute the LSTM and GRU equations',
     'The gates, candidate, cell and hidden state of the LSTM and GRU layers are the documented functions of the layer input and the previous state, each gate using its own part of the weights and biases, at every time step and in either time direction.',
     ['inputs', 'programs'],
     'every input, previous state, layer size and device assignment',
     'Two gates can be exchanged without any test noticing, as the network can still learn.',
     ['network.lstmlayer:*', 'network.grulayer:*', 'network.weightfunctions:get_submatrix', 'network.basiclayer:BasicLayer._tensor_preact', 'network.basiclayer:BasicLayer._get_param', 'network.basiclayer:BasicLayer._param_path', 'network.weightfunctions:matrix_from_value'],
     [('equations', 'create_structure and step functions')])

prop('N03', 'Word-by-word processing gives the same result as whole sequences',
     'A network run one word at a time, with the recurrent state it returned passed back in, continues exactly as if it had processed the whole sequence at once. Each recurrent layer reads and writes its own part of the state, in the order '
     'and sizes the network declares, and a state of the wrong shape is refused.',
     ['histories', 'programs'],
     'every sequence and every architecture with any number of recurrent layers',
     'State slots can be confused only in networks with several recurrent layers.',
     ['network.network:Network.add_recurrent_state', 'network.network:Network.__init__', 'network.network:Network.Mode.*', 'network.lstmlayer:*', 'network.grulayer:*', 'network.bidirectionallayer:*', 'network.recurrentstate:*',
      LD + '_append_word', LD + '__init__', LD + 'decode', 'textsampler:*'],
     [('state', 'network/recurrentstate.py, add_recurrent_state')])

prop('N04', 'No prediction looks at the word it predicts',
     'The probability of a word never depends on that word itself as input: without bidirectional layers it depends only on the words before it, convolutions being padded on the left by the filter length minus one, and the backward part of a bidirectional layer sees only words after it. '
     'Layers that need the whole sequence are refused when the network is run word by word.',
     ['inputs', 'programs'],
     'every architecture with convolutional or bidirectional layers, every filter length and sequence',
     'Looking ahead improves the measured perplexity, so no test fails.',
     ['network.glulayer:*', 'backend.operations:conv1d', 'backend.operations:conv2d', 'network.bidirectionallayer:*', 'network.lstmlayer:*.create_structure', 'network.grulayer:*.create_structure', 'network.basiclayer:BasicLayer._tensor_conv1d',
      'training.basicoptimizer:BasicOptimizer.__init__', 'scoring.textscorer:TextScorer.__init__', 'network.basiclayer:BasicLayer.__init__'] + [
      'network.network:Network.__init__'],
     [('causality', 'GLULayer.create_structure, BidirectionalLayer')])

prop('N05', 'Dropout acts in training only and preserves the expected activation',
     'In training a dropout layer zeroes activations with the configured probability and scales the rest so that the expectation is unchanged. In scoring, decoding and sampling it passes its input through unchanged.',
     ['configurations', 'inputs'],
     'every dropout rate and every use of a network',
     'Random masks hide a wrong scale or a wrong mode switch from tests.',
     ['network.dropoutlayer:*', 'training.basicoptimizer:BasicOptimizer.__init__', 'scoring.textscorer:TextScorer.__init__', LD + '__init__', 'textsampler:TextSampler.__init__', 'network.network:Network.__init__'],
     [('dropout', 'DropoutLayer.create_structure'), ('mode', 'is_training in every compiled function')], lints=['training_flag'])

prop('N06', 'Feed-forward layers compute their documented functions',
     'Projection layers look up the row of each input word, fully-connected layers apply the chosen activation to a linear map of all their inputs concatenated in order, addition layers sum their inputs, highway and gated linear layers gate between the documented terms. '
     'Options that cannot work (sizes that do not match, unknown activations) are refused.',
     ['programs', 'inputs'],
     'every layer configuration, number of inputs and devices',
     'Tests build some architectures but compare no values against the definitions for general sizes.',
     ['network.projectionlayer:*', 'network.fullyconnectedlayer:*', 'network.additionlayer:*', 'network.highwaylayer:*', 'network.glulayer:*', 'network.networkinput:*', 'network.basiclayer:BasicLayer.__init__',
      'network.basiclayer:BasicLayer._tensor_preact', 'network.basiclayer:BasicLayer._tensor_conv1d', 'network.weightfunctions:get_submatrix', 'backend.operations:conv*'],
     [('layers', 'create_structure of each layer')])

prop('N07', 'The output is a probability distribution and the target is read from it',
     'The output layer gives for every position a normalized distribution over all word classes, and the target probability is its value at the target class of that position. With unknown words excluded, the softmax gives their class zero probability and renormalizes the rest.',
     ['inputs', 'configurations'],
     'every network input, vocabulary size and output layer type',
     'Normalization and indexing must hold for all batch shapes and class counts.',
     ['network.softmaxlayer:*', 'network.hsoftmaxlayer:*', 'network.samplingoutputlayer:*._get_unnormalized_logprobs', 'network.network:Network.output_probs', 'network.network:Network.target_probs', 'network.network:Network.__init__', 'network.network:Network.from_file',
      'network.basiclayer:BasicLayer._tensor_preact', 'commands.score:score'] + [
      'network.basiclayer:BasicLayer._get_param'],
     [('output', 'SoftmaxLayer, HSoftmaxLayer')])

prop('N08', 'An architecture description builds exactly the network it describes',
     'Each input and layer line of a description yields one input or layer of the given type, name, size, options and inputs in the order given; the last layer is the output and gets one unit per class. Descriptions that are malformed, '
     'name unknown types, layers or activations, or have no inputs or layers are refused with an error.',
     ['inputs', 'programs'],
     'every architecture description file',
     'Descriptions form an unbounded language; tests read a few files.',
     ['network.architecture:Architecture.from_description', 'network.architecture:Architecture.__init__', 'network.architecture:Architecture.from_package', 'network.network:create_layer', 'network.network:Network.__init__',
      'network.network:Network._layer_options_from_description', 'network.networkinput:*', 'network.basiclayer:BasicLayer.__init__', 'network.bidirectionallayer:*.__init__', 'network.dropoutlayer:*.__init__', 'network.glulayer:*.__init__', 'network.additionlayer:*.__init__', 'commands.train:train'] + [
      'network.*layer:*Layer.__init__'],
     [('parser', 'Architecture.from_description'), ('builder', 'Network.__init__, create_layer')])

prop('N09', 'Layer parameters have the sizes, names and places where they are used',
     'Each layer creates its parameters under its own name, with the sizes its inputs and output require and the documented initial values, split over devices without gaps or overlaps, and uses each of them under the name and device it was created with. '
     'Two parameters never share a name.',
     ['programs', 'configurations'],
     'every architecture, layer size and device assignment',
     'Name and size mismatches show only for the layer types and device counts a test builds.',
     ['network.*layer:*.__init__', 'network.basiclayer:*', 'network.weightfunctions:*', 'backend.parameters:*', 'network.samplingoutputlayer:*_preact'],
     [('initialization', 'BasicLayer._init_weight, _init_bias')], lints=['param_paths'])

prop('N10', 'An architecture survives saving and loading unchanged',
     'The architecture read from a model file has the same inputs, layers, options, devices and output layer, in the same order, as the one saved to it, whatever their number. A network built from it uses the same parameters as the saved one.',
     ['inputs', 'programs'],
     'every architecture, including ones with more than ten inputs, layers or inputs of one layer',
     'Order is lost only for large architectures or repeated options.',
     ['network.architecture:*', 'network.network:Network.get_state', 'network.network:Network.set_state', 'network.network:Network.from_file'] + [
      'commands.train:train'],
     [('round trip', 'Architecture.get_state / from_state')])

# --------------------------------------------------------------- vocabulary

prop('V01', 'Words and word IDs correspond one to one',
     'Every word of a vocabulary has exactly one ID and every ID one word, shortlist words come first, and a word that is not in the vocabulary is mapped to the ID of the unknown word token. '
     'This holds for vocabularies from word lists, class files, word counts, and model files alike.',
     ['inputs', 'histories'],
     'every vocabulary source and every sequence of words',
     'A clash of IDs needs particular word lists.',
     ['vocabulary.vocabulary:*', 'commands.train:_read_vocabulary'] + [
      'parsing.batchiterator:BatchIterator._prepare_batch', 'parsing.scoringbatchiterator:ScoringBatchIterator._prepare_batch'],
     [('mapping', 'Vocabulary.__init__')])

prop('V02', 'A vocabulary always contains the special tokens, each once',
     'Every vocabulary contains the sentence start, sentence end and unknown word tokens exactly once, added in classes of their own if the source lacks them, and classes consisting of such a token at the end are not normal classes.',
     ['inputs'],
     'every vocabulary file and word count table, with any subset of the special tokens present at any position',
     'Depends on which special tokens the source has and where.',
     ['vocabulary.vocabulary:_add_special_tokens', 'vocabulary.vocabulary:Vocabulary.__init__', 'vocabulary.vocabulary:Vocabulary.from_file', 'vocabulary.vocabulary:Vocabulary.from_word_counts', 'vocabulary.vocabulary:Vocabulary.from_state'],
     [('special tokens', '_add_special_tokens')])

prop('V03', 'Vocabulary files are read as their format defines, or refused',
     'Each line of a word list, class file or SRILM class file adds its word to the class it names with the probability it gives; blank lines are ignored. A line with a wrong number of fields, an unknown format or a repeated word is refused. '
     'Training words outside the file become out-of-shortlist words.',
     ['inputs'],
     'every vocabulary file in every format',
     'File contents are unbounded.',
     ['vocabulary.vocabulary:Vocabulary.from_file', 'vocabulary.wordclass:WordClass.__init__', 'vocabulary.wordclass:WordClass.add', 'commands.train:_read_vocabulary', 'wordclasses.wctool:main'],
     [('reader', 'Vocabulary.from_file')])

prop('V04', 'Class membership probabilities are a distribution over each class',
     'The membership probabilities of the words of every class are normalized to sum to one, come from the counts of the training data when estimated from it (uniform if all counts are zero), and the probability looked up for a word is that of its own class.',
     ['inputs'],
     'every class definition and word count table',
     'Must hold for every class and count table, including zero counts.',
     ['vocabulary.wordclass:*', 'vocabulary.vocabulary:Vocabulary.compute_probs', 'vocabulary.vocabulary:Vocabulary.__init__', 'vocabulary.vocabulary:Vocabulary.get_word_prob', 'vocabulary.vocabulary:Vocabulary.get_class_memberships',
      'vocabulary.vocabulary:Vocabulary.from_word_counts', 'commands.train:_read_vocabulary'] + [
      'vocabulary.vocabulary:Vocabulary.from_state', 'vocabulary.vocabulary:Vocabulary.from_file'],
     [('membership', 'WordClass.normalize_probs, Vocabulary.compute_probs')])

prop('V05', 'Unigram and out-of-shortlist probabilities come from the training counts',
     'Unigram probabilities are relative frequencies of the training words, class priors are the sums over the words of each class, out-of-shortlist words counting as the unknown word, normalized to one, and the probabilities of out-of-shortlist words are relative to all of them and one for shortlist words.',
     ['inputs'],
     'every word count table and shortlist',
     'Holds for all count tables, with or without out-of-shortlist words.',
     ['vocabulary.vocabulary:Vocabulary.compute_probs', 'vocabulary.vocabulary:Vocabulary.get_oos_probs', 'vocabulary.vocabulary:Vocabulary.get_class_probs', 'vocabulary.vocabulary:Vocabulary.has_unigram_probs', 'vocabulary.vocabulary:Vocabulary.num_*',
      'vocabulary.vocabulary:Vocabulary.in_shortlist', 'vocabulary.statistics:compute_word_counts', 'network.network:Network.__init__', 'commands.train:_read_vocabulary'],
     [('unigrams', 'Vocabulary.compute_probs')])

prop('V06', 'A vocabulary survives saving and loading unchanged',
     'The vocabulary read from a model file has the same words, IDs, classes, membership probabilities and unigram probabilities as the one saved, also when it replaces an older one in the file. A vocabulary without unigram probabilities is read back as such.',
     ['inputs', 'histories'],
     'every vocabulary and earlier content of the file',
     'Round trip over all vocabularies and previous states.',
     ['vocabulary.vocabulary:Vocabulary.get_state', 'vocabulary.vocabulary:Vocabulary.from_state', 'vocabulary.vocabulary:Vocabulary.__init__', 'vocabulary.wordclass:*', 'commands.train:_read_vocabulary', 'network.network:Network.from_file', 'commands.sample:sample'] + [
      'commands.train:train'],
     [('round trip', 'Vocabulary.get_state / from_state')], lints=['state_keys:Vocabulary'])

prop('V07', 'Word and bigram counts count every token of the training text once',
     'Unigram and bigram statistics count every word, including sentence markers, of every line of every training file exactly once, bigrams never cross sentence borders, words outside the vocabulary count as unknown, and the files are left at their beginning.',
     ['inputs'],
     'every set of text files',
     'Unbounded texts and several files.',
     ['vocabulary.statistics:*', 'parsing.functions:utterance_from_line', 'commands.train:_read_vocabulary', 'wordclasses.wctool:main'],
     [('counting', 'vocabulary/statistics.py')])

prop('V08', 'A sampled class is turned into a word by its membership probabilities',
     'When text is generated, each predicted class becomes one of the words of that class, drawn with the membership probabilities of that class.',
     ['inputs'],
     'every class and random draw',
     'Random choices cannot be enumerated by tests.',
     ['vocabulary.wordclass:*', 'vocabulary.vocabulary:Vocabulary.class_ids_to_word_ids', 'textsampler:*'],
     [('sampling', 'WordClass.sample')])

# ------------------------------------------------------------------ parsing

prop('P01', 'Every non-empty line becomes one sentence with start and end markers',
     'A line of text, in bytes or characters, is read as its words between exactly one sentence start and one sentence end marker, adding only the missing ones; a line of only white space gives no words.',
     ['inputs'],
     'every line of text',
     'All lines, including ones with markers of their own.',
     ['parsing.functions:utterance_from_line', 'parsing.batchiterator:BatchIterator._read_sequence', 'vocabulary.statistics:compute_word_counts', 'scoring.textscorer:TextScorer.score_line'],
     [('tokenizer', 'utterance_from_line')])

prop('P02', 'A batch holds exactly its sequences, padded and masked',
     'In a mini-batch column i holds the word IDs and file IDs of sequence i from the first row on, the mask is one exactly on its words, and the rest is padding. Words outside the vocabulary, and out-of-shortlist words when so requested, become the unknown word.',
     ['inputs', 'configurations'],
     'every list of sequences of any lengths',
     'All combinations of lengths and unknown words.',
     ['parsing.batchiterator:BatchIterator._prepare_batch', 'parsing.scoringbatchiterator:*', 'vocabulary.vocabulary:Vocabulary.in_shortlist', 'vocabulary.vocabulary:Vocabulary.__contains__', 'vocabulary.vocabulary:Vocabulary.words_to_ids', TR + '__init__', 'commands.train:train', 'commands.score:_score_text'],
     [('batches', '_prepare_batch')])

prop('P03', 'Iteration visits all of the data, in order, and can start again',
     'One pass over a text gives every word of every file exactly once, in order, in batches of at most the batch size; long sentences are cut into pieces of at most the maximum length without losing words, and only pieces of a single word, which contain nothing to predict, are skipped. '
     'After the last, possibly smaller, batch the iteration ends, and the next pass starts from the beginning.',
     ['inputs', 'histories'],
     'every set of files, batch size, maximum sequence length and number of passes',
     'Border cases are combinations of file ends, batch ends and sentence ends.',
     ['parsing.batchiterator:*', 'parsing.linearbatchiterator:*', 'parsing.scoringbatchiterator:*.__init__'] + [
      'parsing.functions:utterance_from_line', 'parsing.shufflingbatchiterator:ShufflingBatchIterator._readline'],
     [('iteration', 'BatchIterator.__next__, _read_sequence')])

prop('P04', 'Each epoch trains on a random sample of the requested size of every file',
     'At the start of each epoch every training file contributes the requested fraction of its sentences (all of them by default), drawn without repetition unless more are asked for than there are, and the drawn sentences of all files are shuffled together. '
     'Every sentence of a file, including the last one without a line end, can be drawn and is read as exactly that line.',
     ['inputs', 'configurations'],
     'every set of files, sampling fractions and random draws',
     'Random draws over all file sets.',
     ['parsing.shufflingbatchiterator:*', 'parsing.functions:find_sentence_starts', 'parsing.batchiterator:BatchIterator.__next__', TR + '__init__', 'commands.train:train', 'commands.train:add_arguments'],
     [('sampling', 'ShufflingBatchIterator._reset'), ('index', 'SentencePointers')])

prop('P05', 'A restored data position continues with the next unread sentence',
     'The saved data position consists of the drawn order and the next line to read; after restoring it the iteration gives the sentences from there on in the saved order, with nothing left of what was being read before.',
     ['histories', 'crash_points'],
     'every position in an epoch at which a state is saved or restored',
     'Needs restoring in the middle of a partly consumed sentence or at the end of an epoch.',
     ['parsing.shufflingbatchiterator:ShufflingBatchIterator.*', 'parsing.batchiterator:BatchIterator.__next__', 'parsing.batchiterator:BatchIterator._read_sequence', 'parsing.batchiterator:BatchIterator.__init__', TR + 'get_state', TR + '_reset_state'],
     [('position', 'ShufflingBatchIterator.get_state / set_state')], lints=['state_keys:ShufflingBatchIterator'])

prop('P06', 'Compressed text files are read and written like plain ones',
     'A text file whose name ends in .gz is decompressed when read and compressed when written, "-" stands for standard input or output, and everything else is plain UTF-8 text; the content seen by the program does not depend on compression.',
     ['inputs', 'configurations'],
     'every input and output file name of every command',
     'Every command and option must treat compressed files alike.',
     ['backend.filetypes:*', 'parsing.functions:map_text_file', 'parsing.shufflingbatchiterator:SentencePointers.__init__', 'scoring.latticebatch:LatticeBatch.__iter__', 'commands.*:add_arguments', 'wordclasses.wctool:main', 'commands.train:train'],
     [('file types', 'backend/filetypes.py')], lints=['gz_mmap'])

# ------------------------------------------------------------------ scoring

prop('S01', 'A word score is the class probability times the membership probability',
     'The log probability given to a word is the network log probability of its class at that position, plus the log of its membership probability, plus, with a shortlist, its out-of-shortlist log probability; inputs outside the shortlist are fed as the unknown word. '
     'The score belongs to the word it is reported for, in every batch.',
     ['inputs', 'configurations'],
     'every text, vocabulary and batch composition',
     'Composition over all vocabularies and mixes of known and unknown words.',
     ['scoring.textscorer:TextScorer.__init__', 'scoring.textscorer:TextScorer.score_batch', 'scoring.textscorer:TextScorer.score_sequence', 'scoring.textscorer:TextScorer.score_line', 'vocabulary.vocabulary:Vocabulary.get_class_memberships',
      'vocabulary.vocabulary:Vocabulary.get_oos_probs', 'network.network:Network.__init__', 'network.network:Network.target_probs', 'commands.score:_score_text', 'parsing.scoringbatchiterator:*'] + [
      'scoring.textscorer:TextScorer.compute_perplexity', 'vocabulary.vocabulary:Vocabulary.words_to_ids', 'vocabulary.vocabulary:Vocabulary.num_shortlist_words'],
     [('scores', 'TextScorer.__init__')])

prop('S02', 'Perplexity is the exponential of the mean negative log probability',
     'A reported perplexity or cross entropy is computed from the sum of the log probabilities of all predicted words of the whole text and the number of exactly those words; text in which no word is predicted gives no number but an error or a notice.',
     ['inputs'],
     'every text, split into batches in any way',
     'Averages over batches of different sizes differ only on particular texts.',
     ['scoring.textscorer:TextScorer.compute_perplexity', 'scoring.textscorer:TextScorer.__init__', 'commands.score:_score_text', TR + '_validate', 'commands.train:train'] + [
      'commands.score:_score_utterances'],
     [('perplexity', 'TextScorer.compute_perplexity, score._score_text')])

prop('S03', 'Unknown words are left out of scores exactly when they should be',
     'Unknown words are neither summed nor counted when a shortlist with unigram probabilities is used, or when the user excludes them (then also out-of-shortlist words); otherwise they are scored like other words. In word scores such a word is marked as not predicted.',
     ['inputs', 'configurations'],
     'every text and every combination of shortlist and exclusion options',
     'Needs all combinations of options and kinds of unknown words.',
     ['scoring.textscorer:TextScorer.*', 'commands.score:*', 'commands.train:train', 'network.network:Network.from_file', 'network.softmaxlayer:SoftmaxLayer.create_structure', 'vocabulary.vocabulary:Vocabulary.words_to_ids', 'vocabulary.vocabulary:Vocabulary.has_unigram_probs'],
     [('masking', 'TextScorer.__init__')])

prop('S04', 'Impossible probabilities stop the program instead of being reported',
     'A log probability that is not a number, minus infinity or greater than zero for a mini-batch or sentence raises a numerical error and is never averaged into a result; in word scores zero probabilities are counted separately and left out of the sums.',
     ['inputs', 'fault_sequences'],
     'every network state, including diverged ones',
     'Diverged parameters are not in the tests.',
     ['scoring.textscorer:TextScorer.compute_perplexity', 'scoring.textscorer:TextScorer.score_sequence', 'scoring.textscorer:TextScorer.score_line', 'commands.score:_score_text', 'bin.theanolm:main'] + [
      'commands.score:_score_utterances'],
     [('guards', 'TextScorer.compute_perplexity, score_sequence')])

prop('S05', 'The score command reports every sentence and statistic correctly',
     'The score command writes for each sentence, in order, the score of each word with its history and kind, or one score per utterance, in the requested logarithm base, and totals of sentences, words, tokens, predicted, excluded and zero-probability words that add up. Empty lines produce no score.',
     ['inputs', 'configurations'],
     'every text and combination of output options',
     'All texts and options.',
     ['commands.score:*', 'scoring.textscorer:TextScorer.score_line', 'scoring.textscorer:TextScorer.score_batch', 'parsing.scoringbatchiterator:*'] + [
      'parsing.batchiterator:BatchIterator.__next__', 'parsing.batchiterator:BatchIterator._read_sequence'],
     [('command', 'commands/score.py')])

prop('S06', 'Subword scores add up to word scores',
     'When subword units are scored, the units between word boundaries, or joined by affix marks, form one word whose log probability is the sum of theirs; a word with a unit that is not predicted is not predicted. No unit is lost or counted twice.',
     ['inputs'],
     'every sequence of subword units in either marking',
     'All unit sequences, with unknown units anywhere.',
     ['commands.score:_merge_subwords', 'commands.score:_score_text', 'commands.score:score', 'commands.score:_write_word_scores'],
     [('merging', '_merge_subwords')])

prop('S07', 'Generated text is sampled word by word from the model',
     'Each generated sentence starts with the start marker followed by the given seed words, each next word is drawn from the network distribution given all words before it, and the output ends at the sentence end or the requested length. The requested number of sentences is generated, reproducibly for a given random seed.',
     ['inputs', 'configurations'],
     'every network, seed text, length and number of sentences',
     'Sampling is random; wrong conditioning still gives plausible text.',
     ['textsampler:*', 'commands.sample:*', 'vocabulary.wordclass:WordClass.sample', 'vocabulary.vocabulary:Vocabulary.class_ids_to_word_ids', 'vocabulary.vocabulary:Vocabulary.words_to_ids', 'network.recurrentstate:*'] + [
      'network.network:Network.output_probs'],
     [('sampler', 'textsampler.py')])

# ----------------------------------------------------------------- lattices

prop('L01', 'SLF lattices are read with the right scores, words and topology',
     'Each node and link of an SLF lattice is read with its times, words and scores, scores converted from the base of the file to natural logarithms (base zero meaning plain probabilities), null words as no word, and node words moved to the links that enter the node. '
     'Initial and final nodes are as specified or inferred, and inconsistent lattices are refused.',
     ['inputs'],
     'every SLF file, with long or short field names in any order',
     'The format has many optional parts.',
     ['scoring.slflattice:*', 'scoring.lattice:Lattice.__init__', 'scoring.lattice:Lattice._add_link', 'scoring.lattice:Lattice.Link.*', 'scoring.lattice:Lattice.Node.*'],
     [('reader', 'SLFLattice')])

prop('L02', 'Kaldi lattices are read with the right scores, words and topology',
     'Each arc of a Kaldi lattice becomes a link between its states with the word of its ID (none for epsilon), the negated graph and acoustic costs as log probabilities and its transition IDs; final states lead to one common final node. Lines with other numbers of fields are refused.',
     ['inputs'],
     'every Kaldi lattice and symbol table',
     'The format has many optional parts.',
     ['scoring.kaldilattice:*', 'scoring.latticebatch:*', 'scoring.lattice:Lattice.__init__', 'scoring.lattice:Lattice._add_link', 'scoring.lattice:Lattice.Link.*', 'scoring.lattice:Lattice.Node.*'],
     [('reader', 'KaldiLattice')])

prop('L03', 'Written lattices contain every node and link with its scores',
     'A lattice written in SLF or Kaldi format contains all its nodes and links with their IDs, words (or the null word), acoustic and language model scores with the sign the format uses, times, transitions, scale and penalty, and the correct totals.',
     ['inputs'],
     'every lattice',
     'Round trip over all lattices.',
     ['scoring.lattice:*', 'scoring.rescoredlattice:RescoredLattice.__init__', 'commands.decode:decode'],
     [('writers', 'Lattice.write_slf, write_kaldi')])

prop('L04', 'Nodes are processed in topological order and cycles are refused',
     'The order in which lattice nodes are processed puts every node after all nodes with a link to it, earlier times first among the available ones, and contains every node once if all can be reached from the initial node. A lattice whose final node can only be reached through a cycle is refused.',
     ['inputs', 'programs'],
     'every lattice topology',
     'All graphs.',
     ['scoring.lattice:Lattice.sorted_nodes', 'scoring.lattice:Lattice._add_link', LD + 'decode', LD + '_prune'],
     [('order', 'Lattice.sorted_nodes')])

prop('L05', 'A path score is the weighted sum of all scores along the path',
     'The total log probability of a path is its acoustic score plus the language model scale times the interpolation of network and lattice language model scores plus the word insertion penalty times the number of words, each accumulated over exactly the links of the path and the sentence end. '
     'Extending one path never changes another.',
     ['inputs', 'configurations'],
     'every lattice, path and setting of the weights',
     'All paths and settings.',
     [LD + 'Token.*', LD + '_propagate', LD + '_append_word', LD + 'decode', LD + '__init__', 'backend.probfunctions:*', 'network.recurrentstate:*', 'commands.decode:decode', 'commands.decode:add_arguments'] + [
      LD + '_handle_unk_logprob'],
     [('scores', 'LatticeDecoder.Token')])

prop('L06', 'Recombination keeps the best of the paths that share their recent words',
     'Of the paths in a node whose last words, up to the recombination order (all words if none is given), are the same exactly the best one is kept and each other one is recorded with the kept one; paths that differ there are never merged. The kept paths are in order of decreasing score.',
     ['inputs', 'configurations'],
     'every set of paths and recombination order',
     'All sets of paths.',
     [LD + '_sorted_recombined_tokens', LD + 'Token.recompute_hash', LD + 'Token.copy', LD + 'Token.__init__', LD + '_prune', LD + 'decode', LD + '_propagate', LD + '__init__', 'commands.decode:decode', 'commands.decode:add_arguments'],
     [('recombination', '_sorted_recombined_tokens')])

prop('L07', 'Pruning removes only the worst paths and never all of them',
     'Pruning in a node removes paths from the worst end only: those not better than the best score minus the beam, and those beyond the maximum number, with the limits tightened for large lattices only as requested. At least the best path of a node always remains.',
     ['inputs', 'configurations'],
     'every set of paths and pruning setting',
     'Depends on score distributions and limits.',
     [LD + '_prune', LD + 'decode', LD + '__init__', LD + '_propagate', LD + '_sorted_recombined_tokens', 'commands.decode:decode', 'commands.decode:add_arguments'],
     [('pruning', '_prune')])

prop('L08', 'Unknown words in lattices are scored as requested',
     'A lattice word outside the vocabulary is predicted as the unknown word and scored with the lattice score, the given penalty or the network score, as the user selected; an out-of-shortlist word gets its out-of-shortlist probability when a shortlist is used. The word itself is kept in the path.',
     ['inputs', 'configurations'],
     'every lattice word and combination of the options',
     'All combinations of word kinds and options.',
     [LD + '_handle_unk_logprob', LD + '_propagate', LD + '_append_word', LD + '__init__', LD + 'Token.history_words', 'vocabulary.vocabulary:Vocabulary.get_class_memberships', 'vocabulary.vocabulary:Vocabulary.get_oos_probs', 'vocabulary.vocabulary:Vocabulary.in_shortlist', 'commands.decode:decode', 'commands.decode:add_arguments'],
     [('unknown words', '_handle_unk_logprob')])

prop('L09', 'A rescored lattice contains the decoded paths with their network scores',
     'A rescored lattice has one path for every path that survived decoding, and one for every recombined path whose continuation survived, each link with the acoustic score and transitions of the original lattice, those of null links at its end included, and the path ending in the network language model score. The lattice states the language model scale and word insertion penalty that were used. '
     'No other word sequence is introduced.',
     ['inputs'],
     'every lattice and decoding result',
     'All lattices and recombinations.',
     ['scoring.rescoredlattice:*', 'scoring.lattice:Lattice.Link.*', 'scoring.lattice:Lattice.Node.*', LD + '_sorted_recombined_tokens', LD + 'decode', 'commands.decode:decode'] + [
      LD + '_append_word', 'scoring.lattice:Lattice._add_link', 'scoring.lattice:Lattice.__init__'],
     [('rescoring', 'RescoredLattice')])

prop('L10', 'Jobs divide the lattices so that each is decoded exactly once',
     'For any number of jobs each lattice on the command line and in the list is decoded by exactly one job, in order, all lattices of a multi-lattice file are read, and invalid job numbers, formats or a missing symbol table are refused.',
     ['inputs', 'configurations'],
     'every list of lattices and number of jobs',
     'All list lengths and job counts.',
     ['scoring.latticebatch:*', 'scoring.kaldilattice:read_kaldi_vocabulary', 'commands.decode:decode', 'commands.decode:add_arguments'],
     [('partition', 'LatticeBatch')])

prop('L11', 'The decoder finds the best paths and fails loudly if there are none',
     'Without pruning the best hypothesis has the highest total score of all paths from the initial to a final node, the requested number of best hypotheses is written in order with its scores in the requested format and base, and a lattice whose final node is not reached is an error.',
     ['inputs', 'configurations'],
     'every lattice and decoding option',
     'All lattices.',
     [LD + '*', 'commands.decode:*', 'scoring.lattice:Lattice.sorted_nodes', 'backend.probfunctions:*'],
     [('decoder', 'LatticeDecoder.decode'), ('output', 'decode.format_token')])

prop('L12', 'Interpolation of probabilities is exact, also for tiny probabilities',
     'Linear interpolation gives the logarithm of the weighted sum of two probabilities, also when they underflow ordinary floating point, and log-linear interpolation gives the weighted sum of the logarithms; a term with zero weight has no influence even if its logarithm is infinite.',
     ['inputs'],
     'every pair of log probabilities and weights',
     'All values including underflow and minus infinity.',
     ['backend.probfunctions:*', LD + 'Token.recompute_total', LD + '__init__'],
     [('interpolation', 'backend/probfunctions.py')])

# --------------------------------------------------------------------- CLI

prop('C01', 'Every command-line option has the documented effect',
     'Each option of each command is accepted with its documented name, type, choices and default, and its value reaches the part of the program it controls.',
     ['configurations'],
     'every combination of command-line options',
     'The option combinations are exponential.',
     ['commands.*:add_arguments', 'commands.train:train', 'commands.train:_read_vocabulary', 'commands.score:score', 'commands.decode:decode', 'commands.sample:sample', 'commands.version:*', 'bin.theanolm:main', 'wordclasses.wctool:main', 'bin.wctool:*', 'training:create_optimizer'] + [
      TR + '__init__', TR + 'set_validation', 'training.basicoptimizer:BasicOptimizer.__init__', 'training.stoppers:create_stopper', 'training.cost:*.__init__', LD + '__init__', 'scoring.latticebatch:LatticeBatch.__init__', 'scoring.textscorer:TextScorer.__init__', 'network.network:Network.set_sampling', 'parsing.*:*Iterator.__init__'],
     [('options', 'add_arguments of each command')], lints=['options_used', 'option_keys'])

prop('C02', 'Errors end the program with a message and a failure exit code',
     'Invalid options, unreadable or malformed input, incompatible models and numerical errors end the program with an explanation and a nonzero exit status; a successful run ends with status zero.',
     ['inputs', 'fault_sequences'],
     'every way a command can fail',
     'All error paths.',
     ['bin.theanolm:*', 'bin.wctool:*', 'commands.train:train', 'commands.score:score', 'commands.decode:decode', 'commands.sample:sample', 'commands.decode:format_token', 'wordclasses.wctool:main', 'backend.exceptions:*'] + [
      'network.network:Network.from_file'],
     [('handlers', 'bin/theanolm main()')])

prop('C03', 'No path of the program uses a name or attribute that does not exist',
     'Whatever options and input select, the program never fails because it refers to a variable, function, module member, parameter or attribute that is not defined at that point.',
     ['programs', 'configurations', 'inputs'],
     'every execution path of every module',
     'Most such paths are error handling and rare options that no test runs.',
     [],
     [('names', 'the whole source tree')], lints=['names', 'attributes', 'calls', 'optional_modules'])

# ------------------------------------------------------------- word classes

prop('W01', 'Class counts always agree with the current class assignment',
     'After any sequence of moves the class, class-class, class-word and word-class counts equal those computed from scratch for the current assignment: a move takes the counts of the word from the old class and adds the same counts to the new one, self-bigrams included.',
     ['histories', 'inputs'],
     'every bigram statistics and sequence of moves',
     'All move sequences; errors accumulate silently.',
     ['wordclasses.bigramoptimizer:*', 'wordclasses.numpybigramoptimizer:NumpyBigramOptimizer.__init__', 'wordclasses.numpybigramoptimizer:*._move', 'wordclasses.theanobigramoptimizer:*.__init__', 'wordclasses.theanobigramoptimizer:*_move*', 'wordclasses.*:*get_word_class', 'wordclasses.*:*get_word_prob'],
     [('moves', '_move of both optimizers')])

prop('W02', 'The evaluated change of likelihood is the real one',
     'The change in log likelihood evaluated for a candidate move equals the log likelihood after the move minus the one before, for both implementations of the optimizer, also when counts become zero.',
     ['inputs', 'histories'],
     'every assignment, word and candidate class',
     'All count tables; terms that vanish in small tests matter in others.',
     ['wordclasses.numpybigramoptimizer:*', 'wordclasses.theanobigramoptimizer:*', 'wordclasses.bigramoptimizer:BigramOptimizer._compute_class_statistics'],
     [('evaluation', '_evaluate of both optimizers')])

prop('W03', 'Word class optimization only makes improving moves and ends',
     'A word is moved to the class with the highest increase in likelihood, only if there is an increase, never out of a class of which it is the only member, and special tokens are never moved. Optimization ends when a full pass makes no move, and the classes are written in the requested format.',
     ['histories', 'inputs'],
     'every training text and initial classes',
     'Termination and legality of all moves.',
     ['wordclasses.bigramoptimizer:*', 'wordclasses.wctool:*', 'wordclasses.functions:*', 'wordclasses.*:*_class_size', 'wordclasses.*:*_find_best_move*', 'wordclasses.*:*get_word_*', 'vocabulary.vocabulary:Vocabulary.__init__', 'vocabulary.vocabulary:Vocabulary.words'] + [
      'wordclasses.numpybigramoptimizer:NumpyBigramOptimizer._evaluate', 'wordclasses.theanobigramoptimizer:TheanoBigramOptimizer._create_evaluate_function'],
     [('search', 'BigramOptimizer.move_to_best_class'), ('tool', 'wctool main()')])

# ----------------------------------------- outside what static analysis decides

NOT_APPLICABLE = []


def na(id, title, statement, over, text, why, scope, mechanism, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, scope=scope,
                               mechanism=mechanism, reason=reason))


na('X01', 'Training lowers the perplexity of the training data',
   'With a reasonable learning rate, training a network on a text lowers its perplexity on that text, for every optimization method.',
   ['inputs', 'histories'], 'every text, network and optimization method', 'Convergence is a statistical fact about all data.',
   ['training.trainer:Trainer.train'], [('training', 'Trainer.train')],
   'Convergence depends on the numerical values of data, initial parameters and hyperparameters; no static argument bounds them. The update rules themselves are decided under O01-O05.')

na('X02', 'Results do not depend on floating point rounding beyond a tolerance',
   'Log probabilities and perplexities computed by the program agree with exact arithmetic up to a small relative error.',
   ['inputs'], 'every network and text', 'Rounding errors depend on all values.',
   ['backend.probfunctions:*', 'network.softmaxlayer:*'], [('arithmetic', 'the compiled Theano graphs')],
   'Rounding happens inside compiled Theano, BLAS and numpy code that is not part of this source tree; the analysis works over real arithmetic.')

na('X03', 'Different devices give the same results',
   'A network computed on a GPU, on several devices or on the CPU gives the same probabilities.',
   ['configurations'], 'every assignment of layers to devices', 'The hardware differs.',
   ['backend.gpu:*', 'network.basiclayer:BasicLayer._tensor_preact'], [('devices', 'transfer() calls')],
   'Decided by the Theano back ends and drivers, not by this source; how parameters are split over devices is decided under N09.')

na('X04', 'Memory and time stay within bounds',
   'Training and decoding use memory proportional to the mini-batch and model size, and decoding time grows with the pruning limits, not with the number of lattice paths.',
   ['inputs', 'schedules'], 'every lattice and corpus', 'Costs depend on all inputs.',
   ['scoring.latticedecoder:LatticeDecoder.decode', 'training.trainer:Trainer.train'], [('resources', 'decode and train loops')],
   'Resource use is a runtime quantity of the Theano run time and of score distributions; only the pruning rules that limit it are decided (L07).')
