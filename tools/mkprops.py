import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
D='bartpy/data.py';S='bartpy/split.py';SC='bartpy/splitcondition.py';N='bartpy/node.py';T='bartpy/tree.py';M='bartpy/model.py';MU='bartpy/mutation.py'
UL='bartpy/samplers/unconstrainedtree/likihoodratio.py';UP='bartpy/samplers/unconstrainedtree/proposer.py';UT='bartpy/samplers/unconstrainedtree/treemutation.py'
OL='bartpy/samplers/oblivioustrees/likihoodratio.py';OP='bartpy/samplers/oblivioustrees/proposer.py';OT='bartpy/samplers/oblivioustrees/treemutation.py'
SK='bartpy/sklearnmodel.py';MS='bartpy/samplers/modelsampler.py'
p('C01','Leaves of every tree partition the observations',
 'Splitting a node on any (variable, value) sends every observation of that node to exactly one of the two children: values less than or equal to the split value go left, greater values go right, and no observation outside the node enters either child. Hence after any sequence of applied grow and prune mutations starting from a root leaf, every training observation belongs to exactly one leaf of the tree, and every finite point of feature space satisfies the rule of exactly one leaf.',
 ['inputs','histories'],'All finite covariate matrices of any shape, all split variables and values, all sequences of grow and prune mutations.',
 'Tests split a handful of 2-5 row frames once or twice; they never check both sides of a split together, tied values, or a grow/prune history.',
 [D,S,SC,N,T],[('CovariateMatrix.update_mask',D),('Data.__add__',D),('Split.__add__',S),('CombinedCondition / CombinedVariableCondition.add_condition',SC),('split_node',N),('mutate',T)],
 [('mask','rows of the training data outside the node','Data._mask'),('conditions','conjunction of rules leading to the node','CombinedCondition')],['Split.condition()','Split.condition(X)'])
p('C02','A node selects the same rows in training and in prediction',
 'For every node reachable by splitting, the set of training observations the node holds equals the set of rows selected when the node\'s rule is evaluated on the training covariates passed in as new data. The rule evaluated on any finite covariate matrix selects exactly the rows satisfying every split condition on the path to the node, whatever the order, repetition or redundancy of those conditions.',
 ['inputs','histories'],'All finite covariate matrices, all chains of split conditions (repeated variables, redundant or contradictory bounds), any length.',
 'Tests evaluate one to two conditions on a six row column; no test compares the training mask with the out of sample rule.',
 [D,S,SC],[('CombinedVariableCondition.add_condition',SC),('CombinedCondition.__init__/condition/__add__',SC),('CovariateMatrix.update_mask',D),('Split.__add__/condition/out_of_sample_condition',S)],
 [('min_value/max_value','interval per variable','CombinedVariableCondition')],['Split.condition','CombinedCondition.condition'])
p('C03','Node counts and target sums always equal a recount',
 'At any moment of any history of splitting nodes, updating the target and reading cached values, the number of observations a node reports equals the number of training rows it holds, and the target sum it reports equals the sum of the current target over exactly those rows. In particular the values carried over to the right child of a split are exact, and no read ever returns a value computed from an earlier target.',
 ['inputs','histories'],'All targets, masks, split chains, and interleavings of target updates with reads.',
 'Tests read each sum once before and once after one update on five rows; carried sums and stale caches in deeper histories are not reached.',
 [D,N],[('Target.summed_y / update_y cache flag',D),('Data.__init__ n_obsv',D),('split_node carry_n_obsv / carry_y_sum',N),('TreeNode.update_y recursion',N)],
 [('y_sum_cache_up_to_date','sum cache validity','Target'),('carry_y_sum, carry_n_obsv','values handed to the right child','SplitCondition')],['data.X.n_obsv','data.y.summed_y()'])
p('C04','Target normalisation is an exact affine round trip',
 'For every non-constant target, normalisation maps the target increasingly and affinely onto the interval from -0.5 to 0.5 with the minimum at -0.5 and the maximum at 0.5. Un-normalising is the exact inverse: it returns the original target for the normalised target, maps any model-scale value linearly with slope max minus min, and that slope is the scale reported to the noise parameter.',
 ['inputs'],'All non-constant finite targets of any length and any model-scale value.',
 'Tests use one target, 1..5, whose values hide offset/scale mistakes.',
 [D,'bartpy/sigma.py',SK],[('Target.normalize_y / unnormalize_y / normalizing_scale',D),('Sigma.current_unnormalized_value','bartpy/sigma.py'),('SklearnModel._construct_model',SK)],
 [('original_y_min/max','range of the raw target','Target')],['Target.values','Target.unnormalized_y','Sigma.current_unnormalized_value()'])
p('C05','Splittable variables are exact and sampled splits are non-degenerate',
 'A variable is reported splittable in a node if and only if it takes at least two distinct values among the observations of that node, however often it is asked and whatever was cached on this node or its ancestors; a node is splittable if and only if some variable is. Any split value drawn for a splittable variable is an observed value of that variable in the node that leaves at least one observation on each side; asking for one on a non-splittable variable raises the documented error.',
 ['inputs','histories'],'All covariate matrices and masks, all cache states produced by earlier queries and splits, all random draws.',
 'Tests use one 5x3 frame without a mask; a column whose only distinct value is in the first row, masked subsets and inherited caches are never exercised.',
 [D,N,UP],[('is_not_constant',D),('CovariateMatrix.splittable_variables / is_at_least_one_splittable_variable / random_splittable_variable / random_splittable_value',D),('Data.__add__ cache inheritance',D),('LeafNode.is_splittable',N)],
 [('_splittable_variables','tri-state cache per column','CovariateMatrix')],['CovariateMatrix.splittable_variables()','random_splittable_value()'])
p('C06','Applying a mutation edits the tree exactly where it says',
 'Applying a grow mutation removes exactly the grown leaf and adds the new decision node and its two children; applying a prune removes exactly the decision node and its two children and adds the new leaf. The parent that pointed to the replaced node points to the replacement, no other node, link, value or depth changes, and the tree\'s leaf, decision, splittable and prunable node lists reflect the new structure. Building a prune from anything but a decision node with two leaf children, or a grow from anything but a leaf, raises a type error.',
 ['inputs','histories'],'All tree shapes, all target nodes of any position, all sequences of mutations.',
 'Tests apply single mutations to one five-node tree and check membership only, not links, frames or depths.',
 [T,MU,N],[('mutate',T),('Tree.leaf_nodes/decision_nodes/prunable_decision_nodes/splittable_leaf_nodes',T),('GrowMutation/PruneMutation guards',MU),('DecisionNode.is_prunable',N)],
 [('_nodes','node list','Tree'),('_left_child/_right_child','links','TreeNode')],['Tree.nodes','TreeNode.left_child/right_child'])
p('C07','Each tree is sampled against the residual of all other trees',
 'During every sweep over the trees, at the moment a tree is handed out for sampling, the target in every one of its nodes equals the model\'s target minus the sum of the current in-sample predictions of all the other trees, where trees visited earlier in the sweep count with their updated predictions. Trees are handed out once each in order, and this keeps holding over any number of complete sweeps and any change made to the handed-out tree.',
 ['inputs','histories'],'Any number of trees and observations, any leaf values and structure changes made by the sampler, any number of sweeps.',
 'No test iterates the refreshed trees at all.',
 [M,T,N],[('Model.refreshed_trees running prediction',M),('Tree.update_y / predict cache',T),('TreeNode.update_y',N),('Model.initialize_trees',M)],
 [('_prediction','running in-sample prediction','Model'),('cache_up_to_date','prediction cache','Tree')],['tree.nodes[*].data.y.values at yield'])
p('C08','Predictions are the sum over trees of the containing leaf\'s value',
 'For every tree and every row, in sample or newly supplied, the tree predicts the value of the leaf that contains the row, in input order, whatever mutations and value changes preceded a target refresh or mutation. The model predicts the sum over all its trees, and the fitted estimator predicts the un-normalised mean over all recorded samples; in-sample estimates and estimates for the training covariates agree.',
 ['inputs','histories'],'All partitions into leaves, leaf values, numbers of trees, samples and rows; in-sample and out-of-sample.',
 'The only prediction test compares one tree imported from sklearn and does not run with current libraries.',
 [T,M,SK],[('Tree.predict / _out_of_sample_predict',T),('Model.predict / _out_of_sample_predict',M),('SklearnModel.predict / _out_of_sample_predict',SK)],
 [('_prediction, cache_up_to_date','tree prediction cache','Tree')],['Tree.predict','Model.predict','SklearnModel.predict'])
p('C09','Leaf values are drawn from the conjugate normal posterior',
 'The value drawn for a leaf equals the posterior mean plus a standard normal draw times the posterior standard deviation of the normal-normal model: prior mean zero with the model\'s leaf prior standard deviation 0.5 / (k * sqrt(number of trees)), and the leaf\'s observations of the current residual target with the current noise standard deviation. The drawn value is the one stored in the leaf and nothing else in the tree changes.',
 ['inputs'],'All leaf sizes, target sums, noise levels, k, numbers of trees and normal draws.',
 'No test covers the leaf sampler.',
 ['bartpy/samplers/leafnode.py',M],[('LeafNodeSampler.sample/step','bartpy/samplers/leafnode.py'),('Model.sigma_m',M)],[],['LeafNode.current_value'])
p('C10','Noise is drawn from its inverse gamma conditional',
 'The drawn noise standard deviation is the inverse square root of a gamma draw whose shape is the prior shape plus half the number of observations and whose rate is the prior scale plus half the sum of squared in-sample residuals of the current sum of trees. The drawn value becomes the current noise value of the model, and its un-normalised form is that value times the target range.',
 ['inputs'],'All priors, numbers of observations, targets, predictions and gamma draws.',
 'No test covers the sigma sampler.',
 ['bartpy/samplers/sigma.py','bartpy/sigma.py',M],[('SigmaSampler.sample/step','bartpy/samplers/sigma.py'),('Model.residuals',M)],[('_current_value','noise sd','Sigma')],['Sigma.current_value()'])
p('C11','A proposal is applied if and only if the Metropolis-Hastings test accepts',
 'Given a proposed tree change with log acceptance ratio r and a uniform draw u, the change is applied exactly when u is less than exp(r), and is then applied exactly once and reported; otherwise the tree is left exactly as it was and nothing is reported. r is the sum of the transition, data-fit and tree-prior log ratios of that very proposal.',
 ['inputs'],'All ratios (including minus infinity) and all uniform draws, both tree samplers.',
 'No test covers the tree mutation samplers.',
 [UT,OT,'bartpy/samplers/treemutation.py'],[('UnconstrainedTreeMutationSampler.sample/step (both modules)',UT+', '+OT),('TreeMutationLikihoodRatio.log_probability_ratio','bartpy/samplers/treemutation.py')],[],['return value of step','tree structure'])
p('C12','The data-fit ratio is the exact marginal likelihood ratio',
 'For any grow, the data-fit log ratio equals the difference of the log marginal likelihoods of the node\'s targets with and without the split, leaf values integrated out under their normal prior, given the current noise level, the leaf prior standard deviation and the counts and sums of the node and its two children. For any prune it equals exactly minus the ratio of the grow it undoes.',
 ['inputs'],'All noise levels, prior scales, counts and sums; both tree samplers.',
 'No test covers the likelihood ratios.',
 [UL,OL],[('log_grow_ratio',UL),('log_likihood_ratio / _grow / _prune',UL),('log_grow_ratio (oblivious)',OL)],[],['log_likihood_ratio'])
p('C13','Tree-prior and proposal ratios of a grow and its prune cancel',
 'The tree-prior log ratio of a grow is log of alpha(1+d)^-beta (1-alpha(2+d)^-beta)^2 / (1-alpha(1+d)^-beta) for a leaf at depth d plus the log probability of the chosen rule within the leaf, and its proposal log ratio is the log of (prune probability / number of prunable nodes afterwards) over (grow probability / number of splittable leaves before, times the rule probability). The rule probability within a leaf is one over the number of splittable variables times the share of the leaf\'s observations equal to the split value. For the prune that undoes it both are exactly the negatives, for every tree.',
 ['inputs','histories'],'All alpha, beta, depths, tree shapes, splittable/prunable configurations and split values of the default tree sampler.',
 'No test covers these ratios.',
 [UL,D],[('log_tree_ratio_grow/prune',UL),('log_grow_transition_ratio / log_prune_transition_ratio',UL),('log_probability_split_within_node/_tree',UL),('CovariateMatrix.proportion_of_value_in_variable',D)],[],['log_tree_ratio','log_transition_ratio'])
p('C14','Recorded samples are faithful, frozen snapshots',
 'A recorded model sample predicts, for any covariates, exactly what the live model predicted when it was recorded, carries the noise value of that moment and the same tree shape, depths and split rules. No later sampling step, target update, mutation or value change of the live model alters a recorded sample or a recorded in-sample prediction.',
 ['inputs','histories'],'All models and all later histories of the live model.',
 'No test copies a model or keeps sampling after recording.',
 [T,N,M,'bartpy/trace.py'],[('deep_copy_node','bartpy/node.py'),('deep_copy_tree',T),('deep_copy_model',M),('TraceLogger','bartpy/trace.py')],[],['model_samples','prediction_samples'])
p('C15','Chains record the right iterations and keep all of them in order',
 'A chain runs exactly the requested number of burn-in plus sampling sweeps, records nothing during burn-in, and records the requested fraction of the sampling sweeps: after n sampling sweeps with thinning fraction t it holds ceil(n t) records starting with the first sweep, and each record reflects the state right after its sweep. Per-record acceptance is the share of that sweep\'s tree proposals that were accepted; combining chains concatenates each kind of record in chain order, so the estimator exposes every recorded model, prediction and acceptance of every chain.',
 ['inputs','configurations'],'All counts of burn-in, samples, chains, thinning fractions in (0,1], and store flags.',
 'No test runs the model sampler or fits the estimator.',
 [MS,SK],[('ModelSampler.samples/step',MS),('SklearnModel._combine_chains/fit/run_chain/f_chains',SK)],[],['extract','model_samples','prediction_samples','acceptance_trace'])
p('C16','Running one model over many data sets keeps results matched',
 'Running a base model over a list of data sets returns one fitted model per data set, in order: the i-th returned model holds exactly the samples of the chains run on the i-th data set and that data set\'s target scale, so it predicts for the i-th data set. The base model\'s own samples and parameters are not changed by the run.',
 ['inputs','configurations'],'All lists of data sets and all numbers of chains.',
 'No test covers the runner.',
 ['bartpy/runner.py',SK],[('run_models / convert_chains_models','bartpy/runner.py'),('SklearnModel.from_extract',SK)],[],['returned models\' model_samples, data, predict'])
p('C17','Feature selection keeps exactly the features above their threshold',
 'Each reported split proportion is the share of all splits in the recorded samples made on that variable, so proportions are non-negative and sum to one when any split exists. Local thresholds are, per variable, the requested quantile of that variable\'s null distribution, the global threshold is that quantile of the per-run maxima over variables, and a variable is kept exactly when its proportion is strictly above its threshold; kept and rejected variables form a partition.',
 ['inputs'],'All sets of recorded trees, null distributions, quantiles in [0,1] and proportion maps.',
 'No test covers feature diagnostics.',
 ['bartpy/diagnostics/features.py'],[('feature_split_proportions','bartpy/diagnostics/features.py'),('local_thresholds/global_thresholds','bartpy/diagnostics/features.py'),('is_kept/kept_features/partition_into_passed_and_failed_features','bartpy/diagnostics/features.py')],[],['returned maps and lists'])
p('C18','Fitting and predicting never modify the caller\'s data or the model',
 'Building or fitting a model from covariates and a target leaves the caller\'s arrays exactly as they were, and later changes by the caller to those arrays do not reach the model. Predicting, computing residuals or evaluating proposals changes no observable state: repeating the call gives the same answer and the trees, values and noise are unchanged.',
 ['inputs','histories'],'All covariates, targets, models and call sequences.',
 'Tests never compare caller arrays before and after, nor repeat predictions.',
 [SK,M,T,D],[('SklearnModel._convert_covariates_to_data deepcopy',SK),('Model.__init__ deepcopy',M),('Tree.predict/_out_of_sample_predict',T),('Data.__add__',D)],[],['caller arrays','predict'])
p('C19','Proposals are valid, local and do not touch the tree',
 'A grow proposal always splits a leaf of the given tree that has at least two distinct covariate rows, one level deeper, on a rule that leaves observations on both sides; a prune proposal always replaces a decision node of the tree with two leaf children by a leaf holding the same observations at the same depth. If one kind is impossible the other is proposed, and making or evaluating a proposal does not change the tree.',
 ['inputs','histories'],'All trees, all random draws, default tree sampler.',
 'Tests propose once on a fixed tree and check types only.',
 [UP,N],[('uniformly_sample_grow_mutation / uniformly_sample_prune_mutation',UP),('random_splittable_leaf_node / random_prunable_decision_node',UP),('sample_split_condition / sample_split_node',UP),('UniformMutationProposer.propose',UP),('split_node',N)],[],['returned mutation','tree.nodes'])
p('C20','A sweep samples every tree, every current leaf and the noise once',
 'One sampling sweep visits the trees in order; for each it takes one tree-structure step and then draws a value once for each leaf of the tree as it stands after that step, using the residual target of that tree; after all trees it draws the noise once. Every step acts on the tree or leaf it was issued for, and when the sweep ends the model\'s in-sample prediction reflects all new values.',
 ['inputs','histories'],'Any number of trees and leaves, any structure change in the tree step, any number of sweeps.',
 'No test runs the schedule.',
 ['bartpy/samplers/schedule.py',MS,M],[('SampleSchedule.steps','bartpy/samplers/schedule.py'),('ModelSampler.step',MS),('Model.refreshed_trees',M)],[],['calls to the three samplers'])
p('C21','Residuals and error measures are consistent with predictions',
 'The residual for each observation is the target on its original scale minus the prediction for it, for the training data or any supplied covariates and target; squared errors are the squares of the residuals, and the total error is the square root of their sum. Model-scale residuals are the normalised target minus the sum of trees, and original-scale residuals are these times the target range.',
 ['inputs'],'All targets, predictions and covariates.',
 'No test calls residuals, l2_error or rmse.',
 [SK,M],[('SklearnModel.residuals/l2_error/rmse',SK),('Model.residuals/unnormalized_residuals',M)],[],['residuals','l2_error','rmse'])
p('C22','Imported sklearn trees predict like the original',
 'Mapping a fitted sklearn regression tree onto a root leaf yields a tree with the same shape and split rules, where every point follows the same path and is given the value of the same sklearn leaf. Observation counts and target sums of the new nodes are exact.',
 ['inputs'],'All binary sklearn trees over the tree\'s covariates.',
 'The single test passes a loss name current sklearn rejects, so it never runs.',
 ['bartpy/initializers/sklearntreeinitializer.py'],[('map_sklearn_tree_into_bartpy / search','bartpy/initializers/sklearntreeinitializer.py'),('map_sklearn_split_into_bartpy_split_conditions','bartpy/initializers/sklearntreeinitializer.py')],[],['Tree.predict'])
p('C23','Cached random draws are used once and come from the right distribution',
 'Each call to a scalar sampler returns a fresh draw from its stated distribution (standard normal, uniform on [0,1), or the given values with the given probabilities): no draw is handed out twice, and refills happen exactly when the store is exhausted, for any store size of at least one.',
 ['inputs','histories'],'All store sizes of at least one, all numbers of calls.',
 'No test covers the scalar samplers.',
 ['bartpy/samplers/scalar.py'],[('NormalScalarSampler/UniformScalarSampler/DiscreteSampler sample/refresh_cache','bartpy/samplers/scalar.py')],[('_cache','unused draws','samplers')],['sample()'])
p('C24','Permutation importance scores on the held-out rows',
 'For every fold, the baseline error is that of a model fitted on the training rows and scored on the held-out rows. For every fold and permutation, the null error is that of a model fitted on the training rows of the data with only the chosen column permuted, scored on the held-out rows of that same permuted data with the held-out targets; the caller\'s data is not modified.',
 ['inputs','configurations'],'All data, folds, permutations and columns.',
 'No test covers feature importance.',
 ['bartpy/features/featureimportance.py'],[('original_model_rmse','bartpy/features/featureimportance.py'),('null_rmse_distribution','bartpy/features/featureimportance.py')],[],['returned error lists'])
p('C25','Residual extensions predict base model plus BART on its residuals',
 'The residual-fitting extensions fit the base model on the given data, fit BART on exactly the base model\'s training residuals, and predict the base prediction plus the BART prediction for the same rows, in sample and for new data.',
 ['inputs'],'All data and base models.',
 'No test covers the extensions (one of the two modules cannot even be imported with current scikit-learn).',
 ['bartpy/extensions/ols.py','bartpy/extensions/baseestimator.py'],[('OLS.fit/predict','bartpy/extensions/ols.py'),('ResidualBART.fit/predict','bartpy/extensions/baseestimator.py')],[],['predict'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert x['statement'].count('. ')<=3,x['id']
print(len(P))
