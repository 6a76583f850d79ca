"""writes /verif/properties.jsonl (run by hand when a property is edited)"""
import json
P = []
D='src/tenkit/decomposition/'
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop('C01','A Kruskal (CP) decomposition denotes exactly the weighted sum of its components',
 "For every set of factor matrices (two or more modes) and weights, the tensor constructed from a Kruskal decomposition has entry (i,j,...) equal to the sum over components of weight times the product of the corresponding factor entries, and its reported shape is the tuple of factor lengths. The decomposition made of one component denotes exactly that component's weighted rank-one term, so the single-component tensors add up to the whole; reconstructing or extracting never alters the factors or weights.",
 ['inputs','configurations'], "all real factor matrices and weights, any number of modes and any rank",
 "Tests compare against one random third-order tensor per case with unit weights; the claim is an identity over all real factors and weights, orders and ranks.",
 [D+'decompositions.py','src/tenkit/base.py'],
 [('construct_tensor',D+'decompositions.py KruskalTensor.construct_tensor'),('single component',D+'decompositions.py KruskalTensor.get_single_component_decomposition'),('khatri_rao/fold','src/tenkit/base.py')])
prop('C02','Evolving and PARAFAC2 decompositions denote X_k = A diag(c_k) B_k^T',
 "For every set of factors, the k-th slice of an evolving or PARAFAC2 decomposition is A diag(c_k) B_k^T (with B_k = P_k B for PARAFAC2), and the constructed tensor stacks these slices along the last mode with shorter slices padded by zeros at the end of the second mode (refused with a warning unless warnings are off). Converting a Kruskal decomposition to an evolving one preserves the tensor, weights included; a single-component decomposition denotes exactly that component's term; reported shape, slice shapes and stacked evolving factor agree with the factors.",
 ['inputs','configurations'], "all real factors, ranks, numbers of slices and (possibly unequal) slice widths",
 "Tests use a few random regular tensors; irregular slices, weights in conversion and single components are never exercised.",
 [D+'decompositions.py'],
 [('construct_slice(s)/construct_tensor',D+'decompositions.py EvolvingTensor'),('ProjectedFactor',D+'decompositions.py'),('from_kruskaltensor',D+'decompositions.py EvolvingTensor')])
prop('C03','Tensor algebra: unfolding, folding, Kronecker, Khatri-Rao and MTTKRP agree',
 "For every tensor, mode and set of matrices: folding inverts unfolding, row i of a mode-n unfolding lists the entries of slice i with the remaining modes in their original order (last fastest), and the Kronecker and Khatri-Rao products have the textbook entries for any number of factors, the latter with an optional skipped one. The matricised tensor times Khatri-Rao product equals the sum it abbreviates for every order and mode, flattening factors is inverted by unflattening, and none of these change their arguments.",
 ['inputs','configurations'], "all real tensors of order 2 to 4 and beyond, every mode, all matrices of compatible size",
 "Tests check one random tensor per function, mostly third order; the special-cased third-order kernels and other orders must agree for every input.",
 ['src/tenkit/base.py'],
 [('unfold/fold','src/tenkit/base.py'),('kron, khatri_rao','src/tenkit/base.py'),('matrix_khatri_rao_product, _mttkrp3','src/tenkit/base.py'),('flatten_factors/unflatten_factors','src/tenkit/base.py')])
prop('C04','The linear solvers return exact optima of the problems they are named after',
 "For every compatible A and B, the right-hand solver returns the minimum-norm least-squares solution X of X A = B (rank-deficient A included), and its ridge-penalised wrapper the minimiser of ||XA-B||^2 + penalty*||X||^2. The non-negative solver returns a non-negative X meeting the optimality (KKT) conditions of the constrained problem, for a matrix or a single row B. The orthogonal solvers return the orthonormal X closest in least squares whenever the cross product has full rank.",
 ['inputs'], "all real A, B of compatible shapes with condition number below 1e6 on their range, all penalties >= 0",
 "Tests try one random well-conditioned instance with a known solution; optimality quantifies over every A, B and every competitor X, including singular A.",
 ['src/tenkit/base.py'],
 [('rightsolve','src/tenkit/base.py'),('non_negative_rightsolve','src/tenkit/base.py'),('orthogonal_solve / orthogonal_rightsolve','src/tenkit/base.py'),('add_rightsolve_ridge','src/tenkit/base.py')])
prop('C05','Every CP-ALS factor update solves its (constrained, regularised) subproblem',
 "Whatever the current factors, data, order and mode, one CP-ALS factor update replaces that mode's factor by a minimiser of the regularised loss over that factor subject to its non-negativity or orthonormality constraint, and changes no other factor. Hence the regularised loss never increases from update to update, constrained modes satisfy their constraint exactly after each sweep, and one sweep updates every mode once.",
 ['inputs','configurations','histories'], "all data tensors, all current factors with a nonsingular normal matrix, every mode, order and combination of non-negativity, orthonormality and ridge settings",
 "Tests fit a handful of seeded random noise-free tensors to convergence; a wrong update can still converge on those, and constrained optimality at arbitrary states is never checked.",
 [D+'cp.py','src/tenkit/base.py'],
 [('_update_als_factor, _get_als_lhs/_rhs, _get_rightsolve',D+'cp.py CP_ALS'),('_update_als_factors',D+'cp.py CP_ALS')])
prop('C06','CP error measures always describe the current decomposition and data',
 "At every observable moment (after initialisation, between and after updates, after fitting, refitting on other data, loading a checkpoint or normalising the returned decomposition) the reported SSE equals the squared norm of data minus current reconstruction. MSE, RMSE, explained variance and the regularised loss follow from it by their definitions (mean over all entries, root, one minus ratio to the data norm squared, plus penalty times squared factor norms).",
 ['inputs','histories'], "all data, factors and weights; every history of fit, update, refit, load and normalise operations",
 "SSE is computed from cached quantities on a fast path whose validity depends on the history of operations; tests only look at it after one plain fit.",
 [D+'cp.py',D+'base_decomposer.py'],
 [('SSE fast path and cache',D+'cp.py BaseCP.SSE, _inner_prod_X_reconstructed_X'),('MSE/RMSE/explained_variance',D+'base_decomposer.py'),('loss',D+'cp.py BaseCP.loss')])
prop('C07','PARAFAC2 updates are optimal and keep the PARAFAC2 constraint',
 "For every data set and current factors, the PARAFAC2 projection update gives each slice the orthonormal projection matrix minimising that slice's error, so all evolving factors keep one common cross product matrix. The following factor updates are the CP updates of the projected data under the requested constraints and penalties, they act on the factors of the returned decomposition itself, and the regularised loss never increases.",
 ['inputs','configurations'], "all regular and irregular data, all factors for which the slice cross products have full rank, all supported constraint and penalty settings",
 "Tests fit one or two random seeds and compare the recovered factors; optimality from arbitrary states, irregular widths and constraint settings are not covered.",
 [D+'parafac2.py'],
 [('_update_projection_matrices, projected_X',D+'parafac2.py BaseParafac2'),('_prepare_cp_decomposer, _update_parafac2_factors',D+'parafac2.py Parafac2_ALS')])
prop('C08','PARAFAC2 error measures describe the current decomposition and data',
 "For data given as an array (slices along the last mode) or as a list of slices of different widths, the reported PARAFAC2 SSE equals the sum over slices of the squared norm of slice minus A diag(c_k) B_k^T, at every moment. MSE and RMSE divide by the number of data entries, explained variance is one minus SSE over the squared data norm, and the loss adds penalty times squared norm of A, blueprint B and C.",
 ['inputs','histories'], "all data and factors, regular or irregular, all penalties",
 "No test checks these values, and a fit that only drives the error to zero cannot distinguish a wrong scale or a missing term.",
 [D+'parafac2.py',D+'base_decomposer.py',D+'decompositions.py'],
 [('SSE/MSE/loss',D+'parafac2.py'),('set_target',D+'parafac2.py'),('num_elements',D+'decompositions.py EvolvingTensor')])
prop('C09','CMTF couples tensor and matrices through shared factors and updates optimally',
 "Whatever the data, coupled matrices and coupling modes (several matrices may share a mode), each CMTF factor update minimises the joint loss (squared tensor error plus all squared coupled-matrix errors, plus any ridge penalties) over that factor under its non-negativity constraint, so the joint loss never increases. The reported SSE, MSE and RMSE refer to tensor and coupled matrices together; the matrices returned with the decomposition use the very factor of the coupled tensor mode, and the final rescaling to unit components changes neither the tensor nor the reconstructed matrices.",
 ['inputs','configurations','histories'], "all tensors, coupled matrices, coupling mode lists, constraint settings and states",
 "Tests use one coupling mode and seeds whose starting weights are one; multiple couplings, non-negativity, weights and repeated fits are unexplored.",
 [D+'cmtf.py'],
 [('_get_als_lhs/_rhs, _update_uncoupled_matrix_factors',D+'cmtf.py'),('SSE/MSE',D+'cmtf.py'),('_normalize_components',D+'cmtf.py')])
prop('C10','Fitting runs exactly as many iterations as its stopping rules allow',
 "A fit performs iterations until the iteration limit is reached, the relative change of the loss between two iterations drops below the convergence tolerance or (CP) the relative error drops below its tolerance, and stops at the first of these; a limit passed to fit overrides the configured one. Continuing a fit resumes the count so that the total never exceeds the limit, zero remaining iterations (including a limit of zero) do nothing, and every iteration advances the counter, sweeps once and logs once.",
 ['histories','inputs','configurations'], "all limits, tolerances, sequences of loss values and sequences of fit and continue calls",
 "The loop's behaviour depends on the sequence of loss values and call history; tests only run fits that converge or hit one fixed limit.",
 [D+'cp.py',D+'parafac2.py',D+'base_decomposer.py'],
 [('CP_ALS._fit, _update_convergence',D+'cp.py'),('Parafac2_ALS._fit',D+'parafac2.py'),('fit/continue_fit/_after_fit_iteration',D+'base_decomposer.py')])
prop('C11','Checkpoints capture the state and resuming loses and repeats nothing',
 "With a checkpoint path and frequency f, the file holds after fitting exactly the states after every f-th iteration plus the last one (with no frequency, only the last; with no path, nothing is written), each under the index of the iteration it belongs to, and the index list, latest index and listing of the file match. Loading a checkpoint restores exactly the factors stored for the requested (default: latest) iteration, a missing one is refused, and a fit resumed from the latest one continues with the next iteration and may keep checkpointing to the same file.",
 ['histories','crash_points','configurations'], "all frequencies, iteration limits, convergence points, interruption points and resume histories",
 "Whether the last state survives depends on arithmetic between iteration count, frequency and early stops; tests use one limit that divides evenly.",
 [D+'base_decomposer.py',D+'cp.py',D+'parafac2.py',D+'cmtf.py'],
 [('store_checkpoint/load_checkpoint/_after_fit_iteration',D+'base_decomposer.py'),('final checkpoint','_fit in '+D+'cp.py and parafac2.py')])
prop('C12','Logs on disk equal logs in memory: one entry per iteration, nothing lost',
 "Every iteration appends exactly one entry to each logger: its metric of the decomposer at that moment and the iteration index. However logging and writing are interleaved, after a write the file holds, for each kind of logger, the complete sequence of values and matching iterations in order, without loss or duplication, appended to whatever an earlier run stored.",
 ['histories'], "all interleavings of log and write operations, any number of loggers and entries, fresh or existing files",
 "Offset bookkeeping between memory and file is history dependent; tests perform one write pattern.",
 [D+'logging/logger.py',D+'base_decomposer.py'],
 [('BaseLogger.log/write_to_hdf5_group/_write_sequence_to_hd5_group',D+'logging/logger.py'),('_after_fit_iteration/store_checkpoint',D+'base_decomposer.py')])
prop('C13','Storing a decomposition and loading it back is lossless',
 "For every Kruskal, evolving or PARAFAC2 decomposition, writing it to an HDF5 file or group and loading it back yields a decomposition of the same kind with exactly equal factors, weights, projection matrices and settings, denoting the same tensor, for any number of modes, slices and irregular widths. Loading a group that holds another kind of decomposition is refused.",
 ['inputs','configurations'], "all decompositions of each kind, all sizes and values",
 "Tests store one instance of two of the three kinds (the third cannot even be loaded); losslessness quantifies over all sizes and values.",
 [D+'decompositions.py'],
 [('store_in_hdf5_group/load_from_hdf5_group/_check_hdf5_group',D+'decompositions.py')])
prop('C14','Normalisation yields unit components without changing the represented tensor',
 "Normalising any Kruskal decomposition makes every nonzero component unit length in every mode and multiplies its weight by exactly the removed norms, so the tensor is unchanged; without weight updating the weights stay as they were, and resetting makes all weights one. The factor-normalising helpers return unit columns together with the removed norms and leave their input alone; preparing for comparison and flipping additionally fix each column's sign so that its majority (first nonzero entry on a tie) is positive and report the sign.",
 ['inputs'], "all factor matrices (zero columns stay zero) and weights of any numeric type",
 "Tests check one random instance; identities must hold for all factors, weights already different from one, zero columns and ties.",
 [D+'decompositions.py','src/tenkit/utils.py'],
 [('normalize_components',D+'decompositions.py KruskalTensor'),('normalize_factor(s), prepare_for_comparison, flip_factors','src/tenkit/utils.py')])
prop('C15','Factor match scores are bounded, invariant and maximal over permutations',
 "The factor match score of two decompositions equals the maximum over component permutations of the minimum (or mean) over components of the product of absolute cosines, times one minus the relative weight difference if requested, and the returned permutation attains it. It lies in [0,1], is 1 for a decomposition against itself up to permutation and compensating rescaling or sign flips, and the separate-mode variant is the same per mode without weights; the methods of all decomposition kinds give the score of their factors (stacked evolving factor included), and the PARAFAC2 score function that of the first and last factors.",
 ['inputs','configurations'], "all pairs of factor sets with nonzero columns, estimated rank at least the true rank",
 "Tests check a few random decompositions against permuted copies; bounds and maximality quantify over all pairs and permutations.",
 ['src/tenkit/metrics.py',D+'decompositions.py','src/tenkit/utils.py'],
 [('factor_match_score, separate_mode_factor_match_score','src/tenkit/metrics.py'),('factor_match_score methods',D+'decompositions.py'),('permute_factors','src/tenkit/utils.py')])
prop('C16','Sign resolution never changes the represented tensor',
 "The signs determined for a Kruskal decomposition are all +1 or -1 and multiply to +1 per component, so applying them leaves the tensor unchanged, and at most the mode with the smallest sign score deviates from the data-driven sign. The sign score of a component is the sum of squared regression coefficients of the data on the factor, counted with their sign (without data, the column sum), and fixing the signs of an evolving decomposition flips evolving factor and weight rows together, preserving every slice and leaving the input untouched.",
 ['inputs'], "all factors with full column rank and all data tensors, including ties and zero scores",
 "Tests check two random cases; sign parity and tie handling are discrete conditions over all inputs.",
 [D+'decompositions.py','src/tenkit/utils.py'],
 [('KruskalTensor.get_signs/get_sign_scores',D+'decompositions.py'),('get_signs, signfix_evolving_factors, signfix_normal_factors, fix_signs_evolving_tensor','src/tenkit/utils.py')])
prop('C17','Core consistency measures the distance of the least-squares core from identity',
 "For every third-order tensor and full-rank factors, the core consistency equals 100*(1 - ||G - T||^2/d), where G is the least-squares Tucker core of the data for the factors (weights included, component scale spread evenly over the modes), T the superdiagonal identity, and d the rank or, if normalised, ||G||^2. It is 100 for data generated exactly by the factors, does not depend on how scale is distributed over modes, leaves its inputs unchanged and refuses other orders; the PARAFAC2 variant is the same on projected data.",
 ['inputs'], "all third-order tensors and full-column-rank factors and weights",
 "Existing tests compare one data set to a stored number; the definition quantifies over all tensors and scalings.",
 ['src/tenkit/metrics.py',D+'decompositions.py'],
 [('core_consistency, core_consistency_parafac2','src/tenkit/metrics.py'),('KruskalTensor.core_consistency',D+'decompositions.py')])
prop('C18','Diagnostics (leverage, degeneracy, fit and completion scores) match definitions',
 "Leverage scores are the diagonal of the projection onto the factor's column space (each in [0,1], summing to the rank); the degeneracy matrix holds the products over modes of component cosines (symmetric, unit diagonal, within [-1,1]). The explained fraction is one minus squared error over squared norm, the completion score is the relative error over the missing entries only (partly missing ones counted in proportion), the weight score is the relative difference, and the principal-component loadings are right singular vectors scaled by singular values; no argument is modified.",
 ['inputs'], "all factor matrices of full column rank, tensors and masks",
 "Tests cover at most one random instance of some of these; bounds and identities are over all inputs.",
 ['src/tenkit/metrics.py',D+'decompositions.py','src/tenkit/utils.py'],
 [('leverage, percent_explained, tensor_completion_score, weight_score','src/tenkit/metrics.py'),('degeneracy',D+'decompositions.py'),('get_pca_loadings','src/tenkit/utils.py')])
prop('C19','Inconsistent inputs are refused and consistent ones accepted',
 "Building a Kruskal decomposition succeeds exactly when all factors have the same number of columns and there are as many weights; starting CP or PARAFAC2 from given or stored components succeeds exactly when their ranks and sizes match model and data, for each mode and slice. Unknown initialisation, reduction or random-method names, initial components that CP or CMTF would ignore, too large a rank for SVD initialisation, and non-negativity combined with orthonormality on a mode raise an error instead of computing something else.",
 ['inputs','configurations'], "all shapes, ranks, weight counts and option values up to the bound",
 "Tests try a couple of wrong shapes for one mode; acceptance is a predicate over all shape combinations.",
 [D+'decompositions.py',D+'cp.py',D+'parafac2.py','src/tenkit/metrics.py'],
 [('KruskalTensor.__init__',D+'decompositions.py'),('_check_valid_components',D+'cp.py and parafac2.py'),('init_components, init_svd, _get_rightsolve',D+'cp.py')])
prop('C20','The experiment logger files every logged value once, in order',
 "For any storage frequency, number of logged iterations, explicit saves and restarts that continue an old file, once saved the file's data set of each target holds that target's value at every logged iteration in order (in single precision), including those of earlier runs, without gaps or repetition. An experiment run stores its attributes, metadata, parameters (except the initialisation), outputs and final evaluation under its name, and a continued run replaces outputs in place.",
 ['histories','configurations'], "all store frequencies, log counts, save points and restart points up to the bound; all logged values",
 "No test touches this module; offsets depend on the interleaving of logging, saving and restarting.",
 ['src/tenkit/log.py'],
 [('HDF5Logger.log/save_logs',"src/tenkit/log.py"),('Experiment.run_experiment','src/tenkit/log.py')])
prop('C21','Initialisation yields valid starting points with the promised structure',
 "Every initialisation produces components of the model's rank and the data's sizes: random Kruskal components have unit length and unit weights, SVD initialisation takes the leading left singular vectors of each unfolding, PARAFAC2 initialisations have orthonormal projection matrices for every slice width, and under random initialisation non-negative and orthonormal modes start out so. Starting from a given decomposition begins at exactly the tensor it denotes, its weights included, and starting from a checkpoint at the stored one. Generated test data is the tensor of unit-length (or non-negative unit-length) factors plus the requested multiple of noise as large as the tensor.",
 ['inputs','configurations'], "all data, all random draws, all sizes, ranks and constraint settings",
 "Tests only run fits from random starts; structure must hold for every random draw, size and option.",
 [D+'cp.py',D+'parafac2.py',D+'decompositions.py'],
 [('init_random/init_svd/init_components/_init_fit',D+'cp.py'),('init_svd/init_cp',D+'parafac2.py'),('random_init',D+'decompositions.py')])
prop('C22','Fitting, scoring and logging never modify the user\'s data',
 "Fitting CP, PARAFAC2 or CMTF models, computing error measures, scores and signs, and storing decompositions leave the data tensor, slice list, coupled matrices and mode lists the caller passed exactly as they were. The decomposition returned by a fit is the one the error measures refer to, so that its recomputed error against the untouched data equals the reported one.",
 ['inputs','histories'], "all data, models, constraint settings and call sequences",
 "Numpy views make accidental writes to caller data easy and invisible to tests that never compare the data before and after.",
 [D+'cp.py',D+'parafac2.py',D+'cmtf.py','src/tenkit/metrics.py','src/tenkit/utils.py'],
 [('in-place updates',D+'cp.py _update_als_factor, parafac2.py _update_projection_matrices, cmtf.py _normalize_components')])
prop('C23','A fit depends only on its data, start and options, not on how it is carried out',
 "Fitting with a model object used before (on other data, sizes and starts) gives exactly the result of a new one, also when other models are fitted in between. Running CP or PARAFAC2 iterations in one go, in parts with continued fits, or in new models resumed from the file of the previous part ends in the same components, error and iteration count. Attaching loggers, writing checkpoints and printing progress do not change the result of any model.",
 ['inputs','histories','configurations'], "all data, starts, penalties and random draws; all splits, reuse and resume histories up to the bound; every kind of constraint",
 "Tests fit each model once; state left behind by a previous call or a lossy resume shows only when two histories with the same meaning are compared.",
 [D+'cp.py',D+'parafac2.py',D+'cmtf.py',D+'base_decomposer.py'],
 [('fit/continue_fit/_init_fit',D+'base_decomposer.py, cp.py, parafac2.py, cmtf.py'),('store_checkpoint/load_checkpoint',D+'base_decomposer.py'),('_after_fit_iteration',D+'base_decomposer.py')])
prop('C24','Relabelling samples, slices or components relabels the results and nothing else',
 "Listing the rows of a mode, the slices, the columns within a slice, the coupled matrices and their columns, or the starting components in another order gives the same CP, CMTF or PARAFAC2 fit with the labels exchanged accordingly, and the same error, loss and explained variance. Reordering the modes of data and components changes neither these error measures nor the tensor denoted. The helpers that permute components keep factors and weights together, so the tensor stays the same.",
 ['inputs','configurations'], "all data, starts and penalties, every permutation, models without and with penalties or non-negativity",
 "Tests compare with fixed expected numbers on one order of the labels; independence of the order is a relation between two runs for every input.",
 [D+'cp.py',D+'parafac2.py',D+'cmtf.py','src/tenkit/utils.py','src/tenkit/base.py'],
 [('_update_als_factor(s)',D+'cp.py, cmtf.py'),('_update_projection_matrices, projected_X',D+'parafac2.py'),('permute_factors(_and_weights)','src/tenkit/utils.py')])
prop('C25','Results do not depend on the units of the data',
 "Multiplying the data (tensor, slices, coupled matrices) by a positive constant, with a start scaled accordingly, gives the same CP, CMTF or PARAFAC2 fit with one mode carrying the constant: as many iterations under the same tolerances, errors and loss times its square, the same explained variance. Moving a constant from one mode of the start to another moves it in the result and changes no error. Match, completion, weight, degeneracy, leverage and explained-fraction scores stay the same.",
 ['inputs','configurations'], "all data, starts, tolerances and positive constants; models without penalties (those carry units), with and without non-negativity and orthonormality",
 "Tests use data of order one throughout, so absolute thresholds, offsets and tolerances that break small or large data never show.",
 [D+'cp.py',D+'parafac2.py',D+'cmtf.py','src/tenkit/metrics.py'],
 [('stopping rules',D+'cp.py CP_ALS._fit, parafac2.py Parafac2_ALS._fit'),('updates',D+'cp.py _update_als_factor, parafac2.py _update_projection_matrices'),('scores','src/tenkit/metrics.py')])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P))
