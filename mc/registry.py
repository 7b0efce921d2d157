"""Single source for properties.jsonl and MANIFEST.json (tools/gen.py)."""

A = 'src/hookeai/'
F = A + 'simulators/fetorch/'
M = A + 'model_architectures/'


def mech(*pairs):
    return [{'name': n, 'where': w} for n, w in pairs]


PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism,
         observe, technique, level, note, state=()):
    PROPS.append(dict(
        id=pid, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files,
                 'state': [dict(name=a, meaning=b, where=c)
                           for a, b, c in state],
                 'mechanism': mech(*mechanism), 'observe_at': observe,
                 'hook_needed': None},
        technique=technique, level=level, level_note=note))


prop('C01', 'Checkpoint store: every load returns exactly the state requested',
     'After any sequence of saving and loading training checkpoints of a '
     'model (parameters and optimizer), loading the initial, default, given-'
     'epoch, best or last state returns exactly what was saved for it, with '
     'its epoch, and removes only the checkpoints later than the loaded '
     'epoch when that removal is requested. There is never more than one best '
     'state. A request that cannot be satisfied fails without deleting '
     'anything, and the files of other models in the same directory are '
     'never read or touched.',
     ['histories', 'configurations'],
     'all sequences of save/load operations up to a depth, over model names '
     'that are prefixes or regular-expression look-alikes of each other',
     'No test touches checkpoints; the failures need a history (load after a '
     'later best, load of a missing epoch, neighbour with a similar name).',
     [M + 'procedures/model_state_files.py',
      M + 'procedures/model_training.py'],
     [('save_model_state/load_model_state',
       M + 'procedures/model_state_files.py'),
      ('save_training_state/load_training_state',
       M + 'procedures/model_training.py'),
      ('remove_posterior_* / check_*_state_file', M + 'procedures')],
     ['content of the model directory', 'loaded state dict', 'returned epoch'],
     'explicit-state BFS over the real checkpoint functions against a '
     'dictionary model', 'model_checking',
     'Exhaustive over operation sequences to the stated depth with states '
     'merged by directory content; bounded epochs and names.')

prop('C02', 'A crash while checkpointing never loses the previous checkpoint',
     'If the process dies at any point while a checkpoint of a later epoch '
     'is being written, every checkpoint that was complete before is still '
     'on disk and unmodified, the previous best one until the new best one '
     'is complete. After the crash a complete state (model and optimizer) '
     'can still be loaded and training can be resumed from it.',
     ['crash_points', 'histories'],
     'every file-system operation of a save as a crash point, with every '
     'torn prefix class of the file being written, after all short histories',
     'Tests do not inject crashes.',
     [M + 'procedures/model_state_files.py',
      M + 'procedures/model_training.py'],
     [('order of write and removal', M + 'procedures')],
     ['content of the model directory after the crash'],
     'exhaustive crash-point and torn-write enumeration on the real save '
     'functions', 'fault_enumeration',
     'Every file operation of the save (write/remove/rename) is a crash '
     'point; assumes the file system keeps completed operations in order.')

prop('C03', 'Training outcome is determined by the loss history',
     'For every sequence of epoch and validation losses, training runs '
     'until the maximum epoch or stops exactly when the early-stopping '
     'patience is exhausted, records one loss per completed epoch, stores '
     'as best state the parameters of the epoch of lowest loss and as final '
     'state those of the last epoch, and reports that lowest loss; after an '
     'early stop the state of lowest validation loss is the one that is '
     'kept. Training with the same seed twice gives the same result, and '
     'training that starts from a saved state starts from exactly the '
     'parameters saved in it.',
     ['histories', 'configurations'],
     'all loss histories over a small ordered alphabet, all patience/'
     'trigger settings, all resume points',
     'Training is not tested; ties, plateaus, resume points and early-'
     'stopping triggers need particular histories.',
     [M + 'rnn_base_model/train/training.py',
      M + 'rc_base_model/train/training.py',
      M + 'hybrid_base_model/train/training.py',
      M + 'procedures/model_training.py'],
     [('train_model loops', M + '*/train/training.py'),
      ('EarlyStopper', M + '*/train/training.py'),
      ('loss history records', M + 'procedures/model_training.py')],
     ['checkpoint files', 'loss history record', 'returned model'],
     'exhaustive enumeration of scripted loss histories driving the real '
     'training loops against an epoch-state-machine model', 'model_checking',
     'The loss values are scripted through a stub data set/model so that each '
     'history is reached exactly; epochs bounded.')

prop('C04', 'Time series data set edits are faithful and persistent',
     'After any sequence of data set operations (adding, renaming, '
     'concatenating, summing and initialising features, splitting, saving, '
     'loading, moving the files), every sample holds exactly the values '
     'that the operations prescribe, whatever the storage (memory or '
     'files), and samples, features and source data not named by an '
     'operation are unchanged. Splitting partitions the samples: none is '
     'lost or duplicated, the sizes follow the requested fractions, and the '
     'same seed gives the same split.',
     ['histories', 'configurations', 'inputs'],
     'all operation sequences up to a depth for both storages; all splits of '
     'small sets',
     'No test covers the data set module.',
     [A + 'time_series_data/time_dataset.py'],
     [('TimeSeriesDatasetInMemory/TimeSeriesDataset',
       A + 'time_series_data/time_dataset.py'),
      ('split_dataset, feature editing functions',
       A + 'time_series_data/time_dataset.py')],
     ['samples returned by indexing', 'files on disk'],
     'explicit-state BFS over the real data set operations against a list-of-'
     'dictionaries model', 'model_checking',
     'Exhaustive to the stated depth; two to five samples, two or three '
     'features.')

prop('C05', 'Predictions are per-sample and independent of batching and order',
     'The prediction of a sample, its loss and the file it is stored in '
     'depend only on that sample and the model, not on the batch size, the '
     'position in the batch, the other samples or the order of the data set. '
     'Predicting a data set yields exactly one record per sample, with that '
     'sample\'s ground truth, and never overwrites an earlier prediction set.',
     ['inputs', 'configurations', 'histories'],
     'all batch sizes, all orders and subsets of a small data set, all '
     'sequences of prediction runs',
     'No test runs prediction.',
     [M + 'rnn_base_model/predict/prediction.py',
      M + 'rc_base_model/predict/prediction.py',
      M + 'hybrid_base_model/predict/prediction.py',
      M + 'procedures/model_prediction.py',
      A + 'time_series_data/time_dataset.py'],
     [('predict', M + '*/predict/prediction.py'),
      ('time_series_data_collator', A + 'time_series_data/time_dataset.py')],
     ['prediction files', 'returned average loss'],
     'exhaustive enumeration of batch sizes, permutations and subsets on the '
     'real prediction procedure', 'model_checking',
     'Bounded data set size; float tolerance for batched kernels.')

prop('C06', 'Data scaling is exact, invertible and fitted on the whole set',
     'Normalisation followed by denormalisation returns the original data '
     'for every fitted scaler, data shape and batch layout, including '
     'features that are constant. Scalers fitted from a data set have the '
     'statistics of all its samples and time steps whatever the batch size '
     'or order, and leave the data unmodified.',
     ['inputs', 'configurations', 'histories'],
     'all small data sets over a value alphabet, all partitions into '
     'batches, all scaler types and layouts',
     'No test covers scalers.',
     [A + 'utilities/data_scalers.py', A + 'utilities/fit_data_scalers.py',
      M + 'procedures/model_data_scaling.py'],
     [('TorchMinMaxScaler/TorchStandardScaler', A + 'utilities/'
       'data_scalers.py'),
      ('fit_data_scalers_from_dataset', A + 'utilities/fit_data_scalers.py'),
      ('data_scaler_transform', M + 'procedures/model_data_scaling.py')],
     ['scaler parameters', 'transformed data'],
     'exhaustive enumeration of small data sets and batch partitions against '
     'closed-form statistics', 'model_checking',
     'Values from a small alphabet; single and double precision.')

prop('C07', 'Constitutive updates keep the material state admissible',
     'Along every strain history, each converged update of every plasticity '
     'model returns a stress inside or on the yield surface that equals the '
     'elastic law applied to the elastic strain, the elastic strain moves '
     'only by the plastic flow of the model, accumulated plastic strain '
     'never decreases, and it grows only when the state is on the yield '
     'surface. The update is a function of the strain increment and the '
     'last converged state and modifies neither, so a zero increment '
     'changes nothing, and a failed update is flagged. The virgin state is '
     'free of stress and strain, and updates by moderate increments do not '
     'fail.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of strain increments from an alphabet, all models and '
     'hardening laws, two and three dimensions',
     'Material models are not tested at all.',
     [F + 'material/models/standard/von_mises.py',
      F + 'material/models/standard/von_mises_mixed.py',
      F + 'material/models/standard/drucker_prager.py',
      F + 'material/models/standard/lou.py',
      F + 'material/models/standard/elastic.py',
      F + 'material/models/standard/hardening.py',
      F + 'material/material_su.py'],
     [('state_update', F + 'material/models/standard/*.py')],
     ['state variables returned by the update'],
     'explicit-state search over the real state updates (state = material '
     'state, transitions = strain increments) with invariants checked on '
     'every transition', 'model_checking',
     'Exhaustive over increment words to the stated depth; invariants '
     'evaluated numerically to return-mapping tolerance.',
     state=[('state variables', 'elastic strain, stress, accumulated plastic '
             'strain, flags', F + 'material/models/standard')])

prop('C08', 'The consistent tangent is the derivative of the computed stress',
     'For every state reached by a strain history and every increment at '
     'which the response is smooth, the tangent modulus returned together '
     'with the stress is the derivative of that stress with respect to the '
     'strain increment, in two and three dimensions, for the elastic, '
     'hardening-plastic and apex-return branches of every model that '
     'provides it.',
     ['histories', 'inputs', 'configurations'],
     'all increment words up to a depth, all tensor directions of '
     'perturbation',
     'No test; a wrong tangent only slows or biases convergence.',
     [F + 'material/models/standard/von_mises.py',
      F + 'material/models/standard/von_mises_mixed.py',
      F + 'material/models/standard/drucker_prager.py',
      F + 'material/models/standard/elastic.py',
      F + 'material/models/vmap'],
     [('consistent tangent', F + 'material/models/standard/*.py')],
     ['consistent tangent returned by the update'],
     'exhaustive enumeration of reachable states and perturbation directions,'
     ' central differences of the real update as oracle', 'model_checking',
     'Finite-difference tolerance; points within the perturbation of a branch'
     ' switch are excluded by a one-sided test.')

prop('C09', 'Batched and per-point material models give the same response',
     'The vectorised implementation of every constitutive model gives, for '
     'every strain history and material, the same stress, tangent, state '
     'variables and failure flags as the per-point implementation, whether '
     'points are evaluated alone or together in a batch of points that are in '
     'different regimes.',
     ['histories', 'inputs', 'configurations'],
     'all increment words up to a depth, all batch mixes of reached regimes',
     'No test compares the two implementations.',
     [F + 'material/models/vmap', F + 'material/models/standard'],
     [('vectorised state update', F + 'material/models/vmap/*.py')],
     ['state variables of both implementations'],
     'lock-step exhaustive exploration of both real implementations '
     '(bisimulation check)', 'model_checking',
     'Bounded depth; per-point result compared to 1e-5 relative of the '
     'stress scale.')

prop('C10', 'Material response is frame-invariant and plane strain is 3D',
     'For isotropic models, rotating or reflecting every strain increment of '
     'a history by any symmetry of the coordinate frame rotates the stress '
     'and tensor state variables and leaves scalar state variables unchanged. '
     'The plane strain response equals the in-plane part of the '
     'three-dimensional response to the same strain with zero out-of-plane '
     'components, including the stored out-of-plane stress and elastic '
     'strain. Measuring all stresses in another unit rescales the stresses '
     'and tangent and changes nothing else.',
     ['histories', 'inputs'],
     'all 48 signed permutations of the axes times all increment words up '
     'to a depth',
     'No test.',
     [F + 'material/models/standard', F + 'material/models/vmap',
      F + 'math/matrixops.py'],
     [('2D/3D state conversion', F + 'math/matrixops.py'),
      ('state_update', F + 'material/models')],
     ['state variables'],
     'symmetry-orbit enumeration: lock-step exploration of each history and '
     'its full octahedral orbit on the real update', 'model_checking',
     'Octahedral group only; bounded depth.')

prop('C11', 'Elastic moduli are consistent and hardening laws are exact',
     'For every admissible set of elastic constants of every supported '
     'material symmetry, the elasticity tensor is symmetric and positive '
     'definite, has the material symmetry and reproduces the defining '
     'technical constants in uniaxial and shear tests. For every hardening '
     'law and set of parameters the documented yield stress is returned, '
     'the reported slope is its derivative, and outside tabulated data the '
     'law extrapolates as documented.',
     ['inputs', 'configurations'],
     'all supported symmetries and Euler orientations from a lattice, all '
     'hardening laws, parameter lattice',
     'No test.',
     [F + 'material/models/standard/elastic.py',
      F + 'material/models/standard/hardening.py'],
     [('elastic_tangent_modulus', F + 'material/models/standard/elastic.py'),
      ('get_hardening_law', F + 'material/models/standard/hardening.py')],
     ['elasticity tensor', 'yield stress and slope'],
     'exhaustive enumeration of a constants lattice against defining '
     'identities', 'model_checking',
     'Lattice of constants; identities checked numerically.')

prop('C12', 'Tensor notations round-trip and preserve tensor algebra',
     'Converting any second- or fourth-order tensor, symmetric or not, in two '
     'or three dimensions, to and from its matrix (Kelvin, Voigt, plain) '
     'storage returns the original tensor for every documented component '
     'order, and products and double contractions computed in matrix form '
     'equal the tensor ones. The vectorised conversions agree with the plain '
     'ones, for single and batched tensors, and no input is modified.',
     ['inputs', 'configurations'],
     'all basis tensors (linearity makes the basis decide every tensor), all '
     'dimensions, all component orders',
     'Tests cover one Voigt example.',
     [F + 'math/matrixops.py', F + 'math/voigt_notation.py',
      F + 'math/tensorops.py'],
     [('get_tensor_mf, get_tensor_from_mf, ...', F + 'math/matrixops.py')],
     ['converted arrays'],
     'exhaustive enumeration of basis tensors, component orders and '
     'dimensions against index-wise definitions', 'model_checking',
     'Conversions are linear, so equality on the basis plus additivity checks'
     ' covers all tensors.')

prop('C13', 'Finite elements interpolate and integrate exactly',
     'For every supported element and quadrature, shape functions sum to one, '
     'are one at their own node and zero at the others, and reproduce every '
     'polynomial the element contains; their reported derivatives are exact. '
     'Quadratures integrate every polynomial of their order exactly, with '
     'points inside the element. On every non-degenerate element geometry '
     'the discrete gradients reproduce affine displacement fields and the '
     'internal forces of any stress field are self-equilibrated and '
     'power-conjugate.',
     ['inputs', 'configurations'],
     'all elements, quadratures, monomials, nodes and basis displacement '
     'fields over a lattice of geometries',
     'Tests check derivatives at sampled points and constructor metadata.',
     [F + 'element/type', F + 'element/derivatives', F + 'element/'
      'integrations'],
     [('eval_shapefun, eval_shapefun_local_deriv', F + 'element/type'),
      ('gradients and jacobian', F + 'element/derivatives'),
      ('internal forces', F + 'element/integrations/internal_forces.py')],
     ['shape function values', 'quadrature points and weights',
      'element forces'],
     'exhaustive enumeration of elements, quadratures, monomials and basis '
     'fields with exact oracles', 'model_checking',
     'Identities are polynomial, decided on unisolvent point sets and basis '
     'fields; geometries from a lattice.')

prop('C14', 'Mesh assembly, extraction and configuration updates are exact',
     'Extracting element values from a mesh array and assembling element '
     'arrays into it are adjoint and lossless for every mesh connectivity, '
     'node numbering and mix of elements; connected elements sum their '
     'contributions at shared nodes. Updates of the mesh configuration '
     'follow the history of displacement updates (current, last converged), '
     'and values handed out by the mesh are copies that cannot corrupt it.',
     ['histories', 'inputs', 'configurations'],
     'all small meshes and node renumberings; all sequences of '
     'configuration updates up to a depth',
     'Tests check one mesh.',
     [F + 'structure/structure_mesh.py'],
     [('element assembler and extractor', F + 'structure/structure_mesh.py'),
      ('update_mesh_configuration', F + 'structure/structure_mesh.py')],
     ['assembled arrays', 'element and node configurations'],
     'explicit-state BFS over real mesh operations plus exhaustive small '
     'meshes against an index-wise model', 'model_checking',
     'Meshes up to a few elements; all renumberings of small meshes.')

prop('C15', 'Material states of a structure commit and roll back correctly',
     'For every interleaving of trial updates, commits and queries over '
     'elements and integration points, the committed state of a point is '
     'exactly the last one committed for it, trial updates never alter it, '
     'updating one point never alters another, and state dictionaries handed '
     'in or out are not aliased with the stored ones.',
     ['histories', 'configurations'],
     'all operation sequences up to a depth over two elements with two '
     'points each',
     'No test covers material states of structures.',
     [F + 'structure/structure_state.py'],
     [('StructureMaterialState', F + 'structure/structure_state.py')],
     ['state getters'],
     'explicit-state BFS over the real state container against a dictionary '
     'model', 'model_checking', 'Exhaustive to the stated depth.',
     state=[('converged/trial states', 'per element and Gauss point',
             F + 'structure/structure_state.py')])

prop('C16', 'Recurrent material model equals step-by-step material updates',
     'The stress path predicted by the recurrent constitutive model for a '
     'strain path, and the gradient of those stresses with respect to its '
     'parameters, are those obtained by updating the conventional material '
     'model increment by increment with the current parameters, starting '
     'from zero stress. This holds for every path in a batch irrespective '
     'of the other paths, even if one of them fails, for batched and '
     'unbatched input, for every way of evaluating it and every material, '
     'and causally: later strains never change earlier stresses.',
     ['histories', 'inputs', 'configurations'],
     'all strain words over an alphabet, all batch compositions, all models '
     'and evaluation modes',
     'No test.',
     [M + 'rc_base_model/model/recurrent_model.py'],
     [('forward and recurrent updates',
       M + 'rc_base_model/model/recurrent_model.py')],
     ['predicted stress paths and state features'],
     'exhaustive strain-word enumeration, real forward against a word-'
     'by-word replay of the real state update', 'model_checking',
     'Bounded word length; comparison to 1e-5 relative.')

prop('C17', 'Learnable material parameters stay in bounds and in sync',
     'For every bounds set and parameter value, normalisation maps bounds '
     'to [-1, 1] and its inverse returns the value; after any sequence of '
     'parameter updates followed by bounds (and constraint) enforcement the '
     'parameters lie within their bounds and satisfy the constraint, the '
     'material model uses exactly those values, and saving and loading the '
     'model returns a model with the same parameters, settings and '
     'predictions.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of update/enforce/synchronise/save/load up to a depth '
     'over a value alphabet inside, on and outside the bounds',
     'No test.',
     [M + 'rc_base_model/model/recurrent_model.py'],
     [('enforce_parameters_bounds, normalisation, synchronisation',
       M + 'rc_base_model/model/recurrent_model.py')],
     ['parameter values', 'model predictions'],
     'explicit-state BFS over the real recurrent model\'s parameter '
     'operations against an interval model', 'model_checking',
     'Exhaustive to the stated depth.')

prop('C18', 'Model discovery loss is the force equilibrium residual',
     'The loss of the material model finder is, for every specimen and '
     'loading history, the documented weighted sum of squared unbalanced '
     'forces (point-wise or over Dirichlet sets, optionally normalised), '
     'zero when the reaction forces are those of the material and positive '
     'otherwise, and evaluating it twice gives the same value. All '
     'evaluation modes give the same internal forces, loss and parameter '
     'gradients, independent of element order and node numbering, and the '
     'stored local paths and loss history are those of the evaluation.',
     ['histories', 'inputs', 'configurations'],
     'all displacement words over an alphabet on small specimens, all '
     'evaluation modes, loss types and element orders',
     'No test covers the finder.',
     [A + 'material_model_finder/model/material_discovery.py',
      A + 'material_model_finder/data/specimen_data.py'],
     [('MaterialModelFinder.forward',
       A + 'material_model_finder/model/material_discovery.py')],
     ['loss value', 'internal forces history', 'parameter gradients'],
     'exhaustive enumeration of displacement words and configurations, real '
     'finder against an independent element-loop model', 'model_checking',
     'Small meshes, bounded word length.')

prop('C19', 'The vectorisable GRU is the standard GRU',
     'For every number of layers, sizes, bias setting, input layout, initial '
     'state and input sequence, the vectorisable recurrent network returns '
     'the same outputs and final hidden states as the standard gated '
     'recurrent unit with the same weights, batched or not, and processing a '
     'sequence in two parts with the carried state equals processing it '
     'whole. The recurrent network model keeps that equality after saving '
     'and loading, and with its data scaling is causal and per-sample.',
     ['inputs', 'configurations', 'histories'],
     'all small architectures, all input words over an alphabet, all split '
     'points',
     'No test.',
     [M + 'rnn_base_model/custom/gru_vmap.py',
      M + 'rnn_base_model/model/gru_model.py'],
     [('GRU/GRUCell', M + 'rnn_base_model/custom/gru_vmap.py'),
      ('GRURNNModel.forward', M + 'rnn_base_model/model/gru_model.py')],
     ['outputs', 'hidden states'],
     'exhaustive input-word and architecture enumeration, lock-step with the '
     'library GRU', 'model_checking',
     'Bounded sizes and lengths; float tolerance.')

prop('C20', 'Hybrid models compose exactly the models they declare',
     'For every assignment of models to hybridisation channels and layers, '
     "with or without data normalisation, the hybrid model's output equals "
     'the composition of its parts in the declared channel and layer order '
     'with the declared hybridisation rule, whatever order the parts are '
     'declared in and also after saving and loading; its parameters and '
     'their bounds are those of its parts. Inconsistent declarations are '
     'rejected, and evaluation neither modifies the input '
     'nor depends on other samples of the batch.',
     ['configurations', 'inputs'],
     'all small channel/layer assignments and declaration orders',
     'No test.',
     [M + 'hybrid_base_model/model/hybrid_model.py',
      M + 'hybrid_base_model/model/hybridization.py',
      M + 'hybrid_base_model/model/hybridized_layers.py',
      M + 'hybrid_base_model/model/transfer_learning.py'],
     [('HybridModel.forward',
       M + 'hybrid_base_model/model/hybrid_model.py')],
     ['hybrid model output'],
     'exhaustive enumeration of channel/layer graphs on the real hybrid '
     'model against a reference evaluator', 'model_checking',
     'Up to three models and three channels.')

prop('C21', 'Generated strain paths respect the requested limits',
     'Every generated strain path has the requested number of steps and '
     'components, starts at zero strain, has every component within its '
     'strain bounds at every time or, where a strain increment norm is '
     'prescribed instead, increments of exactly that norm wherever the path '
     'advances, and returns to the initial state when it is cyclic; '
     'proportional paths keep their direction. This holds for every outcome '
     'of the random draws, and the same seed gives the same path.',
     ['inputs', 'configurations', 'histories'],
     'all outcomes of the random draws over a lattice of quantiles and all '
     'option settings',
     'No test; violations need particular draws and asymmetric bounds.',
     [A + 'data_generation/strain_paths'],
     [('strain path generators', A + 'data_generation/strain_paths')],
     ['generated paths'],
     'exhaustive enumeration of random-draw outcomes through a controlled '
     'random source on the real generators', 'model_checking',
     'Random source replaced by an enumerated lattice of quantiles.')

prop('C22', 'Noise and denoising act exactly as configured',
     'Noise generators return noise of the requested shape, support and '
     'scale, spiked noise only at the selected steps, and are reproducible; '
     'denoisers preserve shape, leave constant signals (and, for polynomial '
     'filters, polynomials of their order away from the ends) unchanged, '
     'are linear and treat each feature separately without modifying the '
     'input. Noisy or denoised copies of specimen time step files differ '
     'from their sources only in the displacements (noise: of the steps '
     'after the first) and leave the sources untouched.',
     ['inputs', 'configurations'],
     'all draws of a controlled source; all basis signals and window sizes',
     'No test.',
     [A + 'data_generation/strain_paths/noise_generator.py',
      A + 'utilities/data_denoisers.py',
      A + 'miscellaneous/noisy_data/inject_disp_noise_csv.py',
      A + 'miscellaneous/noisy_data/denoise_disp_noise_csv.py'],
     [('NoiseGenerator', A + 'data_generation/strain_paths/'
       'noise_generator.py'),
      ('Denoiser', A + 'utilities/data_denoisers.py')],
     ['noise arrays', 'denoised signals'],
     'exhaustive enumeration of draws and basis signals on the real code '
     'against definitions', 'model_checking',
     'Linearity lets unit impulses decide all signals of that length.')

prop('C23', 'Generated finite element patches are consistent',
     'Every generated patch has a regular conforming mesh of the requested '
     'elements and dimensions with unique node numbering; its corner and '
     'edge displacements stay in the prescribed ranges, fixed degrees of '
     'freedom stay at rest, edges deform as polynomials of the requested '
     'order, displacements agree at shared corners and edges and interior '
     'face nodes interpolate the edges, and prescribed translations and '
     'rotations move the patch rigidly. A two-dimensional candidate is '
     'accepted exactly when its deformed boundary does not cross itself, '
     'and a patch that cannot be generated is reported as rejected.',
     ['inputs', 'configurations'],
     'all element types, small mesh sizes, edge deformation orders and draw '
     'outcomes',
     'No test.',
     [A + 'data_generation/spdg/patch.py',
      A + 'data_generation/spdg/patch_generator.py'],
     [('FiniteElementPatchGenerator', A + 'data_generation/spdg')],
     ['patch mesh and boundary displacements'],
     'exhaustive enumeration of patch configurations and controlled draws on '
     'the real generator', 'model_checking', 'Small meshes.')

prop('C24', 'Output directories and files never clobber or lose results',
     'Creating an output directory or a new file name without overwrite '
     'never changes existing content and always yields a fresh path, with '
     'overwrite it yields an empty directory; a search for a file by '
     'pattern finds one exactly when an entry matches and never returns a '
     'wrong one, for every prior content of the parent directory.',
     ['histories', 'inputs'],
     'all sequences of create operations up to a depth over colliding names',
     'No test.',
     [A + 'ioput/iostandard.py', M + 'procedures/model_prediction.py'],
     [('make_directory, new_file_path_with_int, find_unique_file_with_regex',
       A + 'ioput/iostandard.py')],
     ['directory tree'],
     'explicit-state BFS over the real path operations in a scratch '
     'directory against a tree model', 'model_checking',
     'Exhaustive to the stated depth; scratch directory only.')

prop('C25', 'Losses and prediction metrics equal their definitions',
     'Every reported loss and prediction metric equals its mathematical '
     'definition on the predictions and ground truth it names, is zero '
     'exactly for perfect predictions, does not depend on the order of the '
     'samples, and metrics written to result files are read back unchanged.',
     ['inputs', 'configurations', 'histories'],
     'all small prediction/target pairs over an alphabet, all metric '
     'choices, all write/read sequences',
     'No test.',
     [A + 'utilities/prediction_metrics.py',
      A + 'utilities/output_prediction_metrics.py',
      A + 'utilities/loss_functions.py'],
     [('metric functions', A + 'utilities/prediction_metrics.py'),
      ('mean metrics files', A + 'utilities/output_prediction_metrics.py')],
     ['metric values and files'],
     'exhaustive enumeration of small predictions against rational '
     'definitions', 'model_checking', 'Small arrays over an alphabet.')

prop('C26', 'Nested data conversions change types only',
     'Converting nested dictionaries of numeric data between array and tensor '
     'types or precisions changes only the type of the leaves it names, at '
     'every nesting depth, keeps keys, values and all other entries, and '
     'leaves the original untouched unless an in-place conversion was '
     'requested.',
     ['inputs'],
     'all dictionary trees up to a size over a leaf alphabet',
     'No test.',
     [A + 'utilities/type_conversion.py'],
     [('convert_dict_to_*', A + 'utilities/type_conversion.py')],
     ['converted dictionaries'],
     'exhaustive enumeration of nested dictionaries up to a size against a '
     'structural model', 'model_checking', 'Trees up to stated size.')

prop('C27', 'Model discovery training follows the equilibrium loss',
     'Training the material model finder records, for every number of '
     'epochs, learning rate schedule and starting point, one loss per epoch '
     'that is the loss of the parameters at the start of the epoch, and '
     'changes the parameters only by the optimizer step along the gradient '
     'of that loss followed by their bounds, so that they are within bounds '
     'after every epoch. It stops at the maximum epoch or exactly when all '
     'parameters have converged as configured. The recorded histories, the '
     'best loss, parameters and state, the states of the requested epochs '
     'and the returned model belong to the epochs they name, for the finder '
     'and its material models alike, and the same seed gives the same '
     'result.',
     ['histories', 'configurations', 'inputs'],
     'all combinations of epochs, saving frequency, schedulers, step sizes '
     'from stagnation to overshoot, bounds, starting points, loss options '
     'and convergence criteria',
     'No test trains a finder; overshooting and saturated bounds are needed.',
     [A + 'material_model_finder/train/training.py',
      A + 'material_model_finder/model/material_discovery.py'],
     [('train_model', A + 'material_model_finder/train/training.py'),
      ('enforce_parameters_bounds',
       A + 'material_model_finder/model/material_discovery.py')],
     ['loss and parameters history files', 'state files', 'returned model'],
     'exhaustive enumeration of training configurations, real training loop '
     'in lock-step with an independent optimisation loop over the reference '
     'equilibrium loss', 'model_checking',
     'One-element specimens, few epochs; derivatives of the reference loss by '
     'differences.')

prop('C28', 'Synthetic response data sets hold the material response',
     'Every sample of a generated response data set, whether its strain path '
     'is random, proportional, noiseless, read from stored strain paths or '
     'from specimen files, or noisy, holds exactly its strain path, the '
     'stress and state variable paths obtained by stepping the constitutive '
     'model along it, its times and the component order; paths on which the '
     'material fails are drawn again or reported, and never stored. A noisy '
     'sample differs from its noiseless source by the requested noise only, '
     'which vanishes at the initial step, is scaled, weighted and smoothed '
     'as requested for each path on its own, and leaves the source data '
     'unmodified.',
     ['inputs', 'configurations'],
     'all combinations of path kind, problem type, component order, material, '
     'state variables, noise kind, variability, normalisation and denoising, '
     'and every pattern of failing paths',
     'No test.',
     [A + 'user_scripts/synthetic_data/gen_response_dataset.py',
      A + 'user_scripts/synthetic_data/gen_noisy_response_dataset.py',
      A + 'user_scripts/synthetic_data/build_local_paths_dataset.py'],
     [('response paths', A + 'user_scripts/synthetic_data/'
       'gen_response_dataset.py'),
      ('noisy data sets', A + 'user_scripts/synthetic_data/'
       'gen_noisy_response_dataset.py')],
     ['samples of the generated data sets and their files'],
     'exhaustive enumeration of generation requests, noise draws and failure '
     'patterns on the real code against an independent reference',
     'model_checking', 'Short paths, small numbers of samples.')

prop('C29', 'Simulation input files describe exactly the requested problem',
     'The input file written for a finite element problem lists exactly its '
     'nodes, elements (in the connectivity order of the simulator), phases, '
     'materials with their hardening points, prescribed displacements, '
     'element type and analysis options, for every mesh, subset of removed '
     'elements and set of boundary conditions; a removal that would leave a '
     'boundary node without element is refused and an existing file is only '
     'overwritten when asked. The prescribed loading starts at zero and '
     'stays within the total displacement for every draw of the random '
     'increments, and results are read back per node in time order.',
     ['inputs', 'histories'],
     'all small meshes, element types, removed subsets, boundary condition '
     'patterns, materials, options and increment draws',
     'No test.',
     [A + 'simulators/links/links.py',
      A + 'simulators/links/models/interface.py',
      A + 'simulators/links/models/links_von_mises.py',
      A + 'simulators/links/discretization/finite_element.py'],
     [('generate_input_data_file', A + 'simulators/links/links.py'),
      ('element connectivities', A + 'simulators/links/discretization/'
       'finite_element.py')],
     ['input data files', 'read results'],
     'exhaustive enumeration of problems; every written file is parsed back '
     'and compared with the problem', 'model_checking',
     'Meshes of a few elements.')

prop('C30', 'Specimen data are exactly those of the simulation files',
     'The specimen data and material state built from a simulation\'s input '
     'and nodal output files hold, for every supported element type, node '
     'and element numbering, set of boundary conditions and set of time '
     'steps, exactly the mesh, the prescribed degrees of freedom and '
     'boundary sets, and the nodal displacements and reaction forces of '
     'every time step in numerical order; converting a mesh file between '
     'the simulator formats loses nothing. Inconsistent files (nodes '
     'without element, unknown element type or node, missing rows or '
     'columns, missing steps) are refused. The local strain-stress paths '
     'and the equilibrium loss obtained from these data are those of the '
     'simulated specimen, and the data set built from several simulated '
     'patches holds every local path of every patch, patches in numerical '
     'order.',
     ['inputs', 'histories'],
     'all small meshes, numberings, prescribed dof sets, time step sets, '
     'block orders and file defects',
     'No test.',
     [A + 'simulators/links/utilities/links_data_to_adimu.py',
      A + 'simulators/links/utilities/links_dat_to_inp.py',
      A + 'user_scripts/global_model_update/material_finder/'
      'gen_specimen_data.py',
      A + 'user_scripts/global_model_update/material_finder/'
      'gen_specimen_local_paths.py',
      A + 'user_scripts/global_model_update/utilities/'
      'process_specimen_data.py',
      A + 'user_scripts/synthetic_data/build_local_paths_dataset.py',
      A + 'material_model_finder/data/specimen_data.py'],
     [('gen_adimu_data_from_links', A + 'simulators/links/utilities/'
       'links_data_to_adimu.py'),
      ('gen_specimen_dataset', A + 'user_scripts/global_model_update/'
       'material_finder/gen_specimen_data.py')],
     ['specimen data, mesh files, time step files'],
     'exhaustive enumeration of simulation files, converted by the real '
     'code and compared with the specimen they were written from',
     'model_checking', 'Meshes of up to 27 elements, 25 time steps.')

prop('C31', 'Data set pruning keeps every sample exactly once',
     'During iterative data set pruning, for every random split, order of '
     'losses, schedule and limit, every sample of the full data set is at '
     'every iteration in exactly one of the development set and the unused '
     'set, and every split of the development set into training, validation '
     'and testing data is a partition of the requested sizes on which '
     'training and testing actually run. A step removes exactly the scheduled '
     'number of samples, those best predicted among its testing samples, and '
     'pruning stops exactly when a configured limit is reached. The recorded '
     'sizes and losses, the stored data sets and the summary are those of '
     'the iterations, and the base data sets are never modified.',
     ['histories', 'inputs', 'configurations'],
     'all orders of losses, random splits, schedules and limits of small '
     'data sets over several iterations',
     'No test.',
     [A + 'miscellaneous/pruning/pruning_dataset.py'],
     [('prune_time_series_dataset', A + 'miscellaneous/pruning/'
       'pruning_dataset.py')],
     ['data sets of each iteration, pruning data, summary'],
     'exhaustive enumeration of pruning histories of the real code, with '
     'stand-ins for training and prediction, against a set model',
     'model_checking', 'Up to 12 samples and 6 iterations; training and '
     'prediction are stand-ins.')

prop('C32', 'Result arrays and figures show exactly the stored results',
     'For every set of stored predictions, model realisations, sample '
     'selections and lengths, the arrays built for analysis hold the '
     'ground-truth and prediction of exactly the requested samples and '
     'components, with model realisations in numerical order, and every '
     'figure shows the given or stored data under its own label: loss, '
     'learning rate and parameter histories epoch by epoch, prediction '
     'series and scatter plots sample by sample, convergence of loss and '
     'parameters at the training size of each model, with the mean and the '
     'range over realisations and the coefficient of determination as '
     'defined. Plotting never modifies the data and the stored plot data are '
     'those of the figure.',
     ['inputs', 'configurations', 'histories'],
     'all small sets of predictions, requests, lengths, numbers of models '
     'and plot options',
     'No test.',
     [A + 'model_architectures/materials/process_predictions.py',
      A + 'model_architectures/procedures/convergence_plots.py',
      A + 'model_architectures/procedures/model_prediction.py',
      A + 'model_architectures/procedures/model_training.py',
      A + 'user_scripts/local_model_update',
      A + 'ioput/plots.py'],
     [('build_time_series_predictions_data', A + 'model_architectures/'
       'materials/process_predictions.py'),
      ('plot_xy_data', A + 'ioput/plots.py')],
     ['returned arrays, artists of the figures, plot data files'],
     'exhaustive enumeration of small result sets and plot options on the '
     'real code, artists of every figure compared with the data',
     'model_checking', 'Up to 12 realisations, 3 samples, 4 data sets; '
     'normalised prediction plots and plastic strain scalars are outside.')

prop('C33', 'Derived strain and stress features are what they name',
     'For every component order, number of samples and time steps, storage '
     'and sequence of additions, the features derived from strain and stress '
     'paths are the principal invariants of the strain tensor, the '
     'volumetric (mean normal) stress and the deviatoric stress of the same '
     'sample and time step, the two parts compose back to the stress, and '
     'all other data of the data set are unchanged. Features that cannot be '
     'derived from the data are refused.',
     ['inputs', 'histories'],
     'all component orders and sequences of feature additions over small '
     'data sets',
     'No test.',
     [A + 'model_architectures/materials/strain_features.py',
      A + 'model_architectures/materials/stress_features.py',
      A + 'model_architectures/hybrid_base_model/model/hybridized_layers.py'],
     [('add_strain_features, add_stress_features',
       A + 'model_architectures/materials')],
     ['features of the data set samples'],
     'exhaustive enumeration of component orders, storages and sequences of '
     'additions against the definitions', 'model_checking',
     'Data sets up to four samples.')

prop('C34', 'Workflows train, predict and quantify with their own model',
     'For every history of training, prediction and uncertainty '
     'quantification runs of the local models, interrupted anywhere: trainings '
     'use exactly the samples of the given data set files; predictions are '
     'made by the best state of the given model, one record per sample of any '
     'data set holding that sample\'s ground truth, without changing models, '
     'data sets or earlier predictions; each realisation of an uncertainty '
     'quantification has a model trained for it and only predictions of that '
     'model; a run without training keeps all models and replaces only the '
     'predictions asked for. A stored material patch is the one simulated '
     'whenever it is loaded, and runs replace only their own patches.',
     ['histories', 'crash points', 'inputs'],
     'all histories of up to three runs with an interruption at any training '
     'or prediction; all short histories of real trainings and predictions',
     'No test.',
     [A + 'user_scripts/local_model_update',
      A + 'user_scripts/synthetic_data/gen_random_specimen.py'],
     [('perform_model_standard_training, perform_model_prediction, '
       'perform_model_uq', A + 'user_scripts/local_model_update')],
     ['stored models and predictions'],
     'exhaustive enumeration of run histories and interruptions on the real '
     'scripts against a model of what is stored', 'model_checking',
     'Trainings of two epochs on small data sets.')

prop('C35', 'Temperature and composition dependent data are consistent',
     'For every grid of temperatures and compositions (distinct at two '
     'decimals), number of samples, ratio of path types and pattern of failed '
     'computations, each pair gets one data set per type whose samples hold '
     'the response of the material at the very temperature and composition '
     'they record - those of the pair for training, drawn between its '
     'neighbours otherwise; assembled data sets hold every sample (or the '
     'requested fraction of each set) exactly once; updating uses these data '
     'sets and keeps earlier realisations unless training; material '
     'parameters are admissible on the whole domain; uniaxial paths have no '
     'lateral stress.',
     ['inputs', 'histories', 'faults'],
     'small grids with all draws at both ends and the middle, all patterns of '
     'failed computations up to four, all histories of up to three updates',
     'No test.',
     [A + 'user_scripts/complete_pipelines'],
     [('generate_material_data, assemble_material_datasets, '
       'perform_material_model_updating',
       A + 'user_scripts/complete_pipelines/local_model_update.py'),
      ('get_uniaxial_stress_path',
       A + 'user_scripts/complete_pipelines/evaluate_gru_model.py')],
     ['stored data sets', 'directories', 'stress paths'],
     'exhaustive enumeration of grids, draws, failures and histories on the '
     'real scripts against an independent material response',
     'model_checking', 'Paths of five time steps.')

prop('C36', 'Optimisation jobs evaluate exactly their configuration',
     'For every sequence of hyper-parameter optimisation jobs run one after '
     'another, every job trains (with or without early stopping) the network '
     'with exactly its own configuration on the given data sets, or evaluates '
     'the specimen with exactly its own material parameters, whatever jobs '
     'came before: the objective it returns and writes in its summary '
     'together with its parameters is the best training loss, the average '
     'testing loss of the best model, or the force equilibrium loss. The '
     'data sets, the simulation data and the other jobs are left as they '
     'were. The optimisation history shows, for every process, the objectives '
     'of its jobs in numerical order and the best so far, and reports the '
     'best job; incomplete processes are refused.',
     ['histories', 'configurations'],
     'all job sequences over the configuration variants, all objective '
     'sequences of one to three processes, all faults',
     'No test runs an optimisation job.',
     [A + 'model_architectures/rnn_base_model/optimization/'
      'hydra_optimization.py',
      A + 'model_architectures/rnn_base_model/optimization/'
      'hydra_optimization_plots.py',
      A + 'model_architectures/rnn_base_model/optimization/'
      'hydra_optimization_template.py',
      A + 'user_scripts/global_model_update/optimization/'
      'hydra_optimization.py'],
     [('hydra_wrapper', A + 'model_architectures/rnn_base_model/'
       'optimization/hydra_optimization.py'),
      ('plot_optimization_history', A + 'model_architectures/rnn_base_model/'
       'optimization/hydra_optimization_plots.py')],
     ['objectives, job summaries, trained models, figures'],
     'exhaustive enumeration of job sequences run by the real code, compared '
     'with direct training, testing and equilibrium evaluation',
     'model_checking', 'Sequences of up to 3 jobs, 12 configurations, 32 '
     'parameter sets, up to 12 job results.')

prop('C37', 'Data set figures show the paths of the data set',
     'For every data set of strain-stress paths (any number of paths, of '
     'equal or different lengths, 2D or 3D, any order of components), the '
     'figures of the data set show exactly its paths: components over time '
     'under their own labels, component pairs, norms of the strains and of '
     'their increments, equivalent (deviatoric) strain and stress, '
     'principal and pi-plane stresses, invariants, triaxiality and Lode '
     'parameter, and state variables; histograms and boxes describe exactly '
     'the values of the paths, with no point that belongs to none of them.',
     ['inputs'],
     'all path lengths, component orders and requested figures',
     'No test makes a figure of a data set.',
     [A + 'data_generation/strain_paths/interface.py',
      A + 'user_scripts/synthetic_data/gen_response_dataset.py'],
     [('StrainPathGenerator.plot_strain_path',
       A + 'data_generation/strain_paths/interface.py'),
      ('MaterialResponseDatasetGenerator.plot_stress_space_metrics',
       A + 'user_scripts/synthetic_data/gen_response_dataset.py'),
      ('generate_dataset_plots',
       A + 'user_scripts/synthetic_data/gen_response_dataset.py')],
     ['lines, points, bars and boxes of the figures'],
     'exhaustive enumeration of data set shapes plotted by the real code, '
     'compared with the quantities computed directly from the paths',
     'model_checking', 'Up to 3 paths of up to 5 time steps.')

prop('C38', 'Material figures show what the material models do',
     'Figures that compare material models show them truly: the curve of '
     'every hardening law is its yield stress under its own name, the stress '
     'curves of every model (any component order, with or without a '
     'reference) are the stresses of its step by step state update, the '
     'prediction curves those of the named models and the given truth. Every '
     'drawn yield curve is one closed loop on which the yield condition of '
     'that model holds, and every drawn yield surface satisfies it; the '
     'yield function used is zero at every stress a yielding material model '
     'returns and never positive for an elastic one. The convexity figure '
     'shows the boundary, the parameter paths and the search domain given. '
     'Every requested figure is made and saved whatever else is requested.',
     ['inputs', 'configurations'],
     'all model combinations, component orders, options and load directions',
     'No test draws or evaluates these.',
     [A + 'miscellaneous/materials/compare_hardening_laws.py',
      A + 'miscellaneous/materials/compare_material_models.py',
      A + 'miscellaneous/materials/plot_yield_surface.py',
      A + 'miscellaneous/file_processing/plot_prediction_files.py',
      A + 'simulators/fetorch/material/models/standard/lou.py'],
     [('compare_hardening_laws',
       A + 'miscellaneous/materials/compare_hardening_laws.py'),
      ('compare_material_model_response',
       A + 'miscellaneous/materials/compare_material_models.py'),
      ('plot_yield_surface',
       A + 'miscellaneous/materials/plot_yield_surface.py'),
      ('yield_function',
       A + 'miscellaneous/materials/plot_yield_surface.py')],
     ['curves and meshes of the figures, values of the yield functions'],
     'exhaustive enumeration of models, options and load directions run by '
     'the real code against closed forms and step by step state updates',
     'model_checking', 'Up to 2 models per figure, 80 load directions of 3 '
     'increments; yield curves within 1 % of the yield condition.')

prop('C39', 'Specimen, patch and progress figures show their data',
     'Figures of simulations show exactly their data: displacement '
     'histories of every requested node and direction, reaction forces of '
     'every boundary set over time or over the displacement of the reference '
     'node, under names that tell the sets apart; the deformed patch shows '
     'every boundary node at its reference position and, when all its '
     'displacements are known, at its deformed position, joined to its '
     'neighbours; the load factor figure and file are the accumulated '
     'increments of the simulation input file whatever its format; the '
     'convergence of prediction metrics is over the training set sizes in '
     'order, ignoring other processes; pruning figures show the sizes and '
     'errors of every iteration and the threshold.',
     ['inputs', 'configurations'],
     'all node selections, label patterns, displacement patterns, file '
     'formats and orders of processes',
     'No test makes these figures.',
     [A + 'user_scripts/global_model_update/utilities/'
      'process_specimen_data.py',
      A + 'data_generation/spdg/patch.py',
      A + 'simulators/links/utilities/links_plot_tfact.py',
      A + 'utilities/output_prediction_metrics.py',
      A + 'miscellaneous/pruning/pruning_dataset.py'],
     [('plot_reaction_forces_history',
       A + 'user_scripts/global_model_update/utilities/'
       'process_specimen_data.py'),
      ('FiniteElementPatch.plot_deformed_patch',
       A + 'data_generation/spdg/patch.py'),
      ('plot_links_tfact_hist',
       A + 'simulators/links/utilities/links_plot_tfact.py'),
      ('plot_prediction_metrics_convergence',
       A + 'utilities/output_prediction_metrics.py'),
      ('plot_pruning_iterative_data',
       A + 'miscellaneous/pruning/pruning_dataset.py')],
     ['curves, segments and marks of the figures, files written'],
     'exhaustive enumeration of inputs drawn by the real code, compared '
     'with the data given', 'model_checking',
     'Small meshes, up to 12 time steps, 4 increments, 3 sizes.')

prop('C40', 'Local training steps follow the gradient of the loss on the data',
     'Every epoch of training of a local model (recurrent network, recurrent '
     'constitutive model or hybrid model) uses every training sample exactly '
     'once, in batches of the requested size, and changes the parameters '
     'only by one optimizer step per batch along the gradient of the '
     'configured loss of that batch, with the data scaled as configured by '
     'the statistics of the training set and at the scheduled learning rate, '
     'each followed by the bounds and constraints of the material '
     'parameters. The recorded loss of an epoch is the mean of its batch '
     'losses, the recorded validation loss is the loss of the validation '
     'samples for the state of that epoch, the stored states are those of '
     'the epochs they name, and the data are never modified.',
     ['histories', 'configurations', 'schedules'],
     'all combinations of architectures, scaling, batch sizes, shuffling, '
     'schedulers, losses, validation and saving frequencies; all orders in '
     'which an epoch can visit the samples',
     'No test trains with several batches; a wrong scaling, order or bound '
     'still trains.',
     [M + 'rnn_base_model/train/training.py',
      M + 'rc_base_model/train/training.py',
      M + 'hybrid_base_model/train/training.py',
      A + 'time_series_data/time_dataset.py'],
     [('train_model', M + 'rnn_base_model/train/training.py'),
      ('train_model', M + 'rc_base_model/train/training.py'),
      ('train_model', M + 'hybrid_base_model/train/training.py')],
     ['loss history files', 'state files', 'returned model'],
     'exhaustive enumeration of training configurations and of the sample '
     'orders of each epoch, real training loop in lock-step with an '
     'independent optimisation loop', 'model_checking',
     'Up to four samples of three time steps, few epochs; gradients of the '
     'model outputs by automatic differentiation of the model (C16, C19, '
     'C20).')

NA = {}
