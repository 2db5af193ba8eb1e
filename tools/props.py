PYX = 'acv_explainers/cyext_acv/cyext_acv.pyx'
NOPA = 'acv_explainers/cyext_acv/cyext_acv_nopa.pyx'
CACHE = 'acv_explainers/cyext_acv/cyext_acv_cache.pyx'
AGN = 'acv_explainers/acv_agnosticX.py'
TREE = 'acv_explainers/acv_tree.py'
BTREE = 'acv_explainers/base_tree.py'
BAGN = 'acv_explainers/base_agnostree.py'
p('C09', 'Projected-forest probabilities follow the definition',
  'For a fitted forest explainer, the same/different/counterfactual decision probability of a row given a set of variables is, averaged over the trees, '
  'the fraction of background rows satisfying the decision event among the rows that agree with the explained row (or with the region given for the other variables) '
  'on every reachable split whose variable is in the set. The weights and the local rule returned with it are those of exactly these rows and splits. '
  'No memory outside the given arrays influences the result.',
  ['inputs', 'configurations'], 'every explained row, background sample, label vector, variable set, region, minimum node size reached by full refinement, forest shape within the bounds, classifier and regressor',
  'The tests compare two runs on one dataset; the definition quantifies over all forests, rows and sets, and the wrong reads at leaves only show for particular node ids and rows.',
  [PYX, AGN], [('projection loops', PYX + ' single_compute_*_rf/_rule/_weights'), ('input checks', AGN + ' compute_*')], observe=['ACXplainer.compute_sdp_rf, compute_sdp_rule, compute_ddp_*, compute_cdp_*'])
p('C02', 'Attributions add up to the prediction',
  'For every tree-ensemble SHAP variant (plain, normalized, cached, serial, active), the attributions of an explained row, counted once per variable or declared coalition, '
  'sum to the ensemble output for the row minus the mean ensemble output over the background rows, for every output.',
  ['inputs', 'configurations'], 'every threshold, leaf value, background sample and explained row (whose leaf holds a background row) within the bounds; coalitions; active sets',
  'The tests check additivity on a dataset against a tolerance; ties with thresholds, empty leaf parts and coalitions are not sampled.',
  [PYX, NOPA, CACHE, TREE], [('SHAP kernels', 'shap_values_leaves_*'), ('API', TREE + ' ACVTree.shap_values*')], observe=['ACVTree.shap_values*, shap_values_acv*'])
p('C03', 'Tree SHAP is the Shapley value of its game',
  'ACVTree.shap_values and its serial, cached and normalized variants return, for every output, the Shapley values of the game whose value for a variable set is the '
  '(normalized) leaf estimator of the conditional expectation, where declared coalitions play as one player, every member carries the coalition value, and explained rows are treated independently.',
  ['inputs', 'configurations'], 'every threshold, leaf value, background sample and explained row within the bounds; coalitions over used and unused variables',
  'Efficiency holds for wrong weights too; the values must be right for all data, thresholds and coalition shapes.',
  [PYX, NOPA, CACHE, TREE], [('multi-game kernels', PYX + ' shap_values_leaves_pa, _normalized; cyext_acv_nopa.pyx, cyext_acv_cache.pyx')], observe=['ACVTree.shap_values, shap_values_nopa, shap_values_cache, shap_values_normalized*'])
p('C05', 'Active Shapley values follow their definition',
  'Given active and inactive variables (fixed or per row), shap_values_acv and shap_values_acv_adap (and serial variants) return 0 for inactive variables and for active ones the Shapley '
  'values of the game among active players that always knows the inactive variables except on the empty coalition; when every variable is active the plain Shapley values.',
  ['inputs', 'configurations'], 'every threshold, leaf value, background sample, explained row within the bounds; active sets and coalitions listed',
  'Tests have one dataset and one active set; empty leaf parts and row-wise sets are not covered.',
  [PYX, NOPA, TREE], [('active kernels', PYX + ' shap_values_acv_leaves*, single_shap_values_acv_leaves, single_shap_values_leaves_pa')], observe=['ACVTree.shap_values_acv, shap_values_acv_nopa, shap_values_acv_adap, shap_values_acv_adap_nopa'])
p('C06', 'Conditional expectations follow the estimators',
  'compute_exp, compute_exp_cat and compute_exp_normalized (and their serial and pure Python variants) return for each row the documented estimator of the expected output given the variables in S: '
  'leaf, discrete and renormalised leaf estimator over the background rows, with a threshold value belonging to the left child only and leaves without background rows contributing 0.',
  ['inputs', 'configurations'], 'every threshold, leaf value, background sample, explained row within the bounds; the conditioning sets listed',
  'The tests compare implementations on one sample where no value is at a threshold and no part is empty.',
  [PYX, NOPA, 'acv_explainers/py_acv.py', 'acv_explainers/utils_exp.py', TREE], [('kernels', PYX + ' compute_exp, compute_exp_cat, compute_exp_normalized')], observe=['ACVTree.compute_exp*, py_compute_exp*'])
p('C07', 'Tree same decision probabilities follow their definition',
  'compute_sdp_clf, compute_sdp_reg and their _cat and serial variants return for each row the definition: for classifiers the normalised position of the conditional mean between the rows decided '
  'differently and equally, for regression the same with the expected squared distance over pairs of leaves, where every pair of trees keeps its own sums; 1 when every variable is known. Coalitions are expanded.',
  ['inputs', 'configurations'], 'every threshold, leaf value, background sample and prediction table, explained row, within the bounds; conditioning sets and coalitions listed',
  'The tests compare parallel and serial runs on one dataset and one set; shared buffers between rows, pairs of trees and threads only show on particular data.',
  [PYX, NOPA, TREE], [('kernels', PYX + ' compute_sdp_clf, compute_sdp_clf_cat, compute_sdp_reg, compute_sdp_reg_cat')], observe=['ACVTree.compute_sdp_clf*, compute_sdp_reg*'])
p('C08', 'Tree importance search returns a smallest best explanation',
  'importance_sdp_clf, _search, _ptrees, importance_sdp_reg, _cat and serial variants return for each row a set of variables (coalitions kept whole, restricted to the search space) with its own SDP, '
  '-1 after its last member; no smaller examined set reaches the level and none of the same size has a larger SDP; the global counts are the frequencies over rows that reach the level.',
  ['inputs', 'configurations'], 'every threshold, leaf value, background sample and prediction table within the bounds; coalition structures, search spaces and levels listed',
  'Minimality and optimality are statements about all other sets for all data; the tests only print or compare two implementations.',
  [PYX, NOPA, TREE], [('search', PYX + ' global_sdp_clf*, global_sdp_reg*; cyext_acv_nopa.pyx')], observe=['ACVTree.importance_sdp_*'])
p('C11', 'Forest importance search returns a smallest best explanation',
  'importance_sdp_rf, importance_ddp_rf, importance_cdp_rf and their regional variants return for each row a set of variables (coalitions whole, in the search space) with its own probability, '
  '-1 after its last member; no smaller examined set reaches the level and none of the same size has a larger value; the global counts are the frequencies over the rows that reach the level.',
  ['inputs', 'configurations'], 'every explained row, background sample, label vector, region and variable labelling of the splits within the bounds; coalition structures, search spaces, minimal sizes and levels listed',
  'Minimality and optimality are statements about all other sets for all data; the tests only run the search on one dataset.',
  [PYX, AGN], [('searches', PYX + ' global_sdp_rf, global_ddp_rf, global_cdp_rf, global_*_intv'), ('API', AGN + ' importance_*')], observe=['ACXplainer.importance_sdp_rf, importance_ddp_rf, importance_cdp_rf, importance_ddp_intv, importance_cdp_intv'])
p('C12', 'All sufficient explanations are exactly the minimal sufficient sets',
  'sufficient_expl_rf and sufficient_cxpl_rf return for each row exactly the inclusion-minimal examined sets whose probability reaches the level, each once and with its own probability, '
  'and the frequency of a variable is the share of all returned sets that contain it (0 when there is none).',
  ['inputs', 'configurations'], 'every explained row, background sample, label vector and variable labelling of the splits within the bounds; coalition structures and levels listed',
  'Being an antichain that misses no set is a statement about all subsets; the tests do not compare with an enumeration.',
  [PYX, AGN], [('searches', PYX + ' sufficient_expl_rf, sufficient_cxpl_rf'), ('API', AGN + ' sufficient_*')], observe=['ACXplainer.sufficient_expl_rf, sufficient_cxpl_rf'])
p('C10', 'Maximal rules only merge regions whose own rule is sufficient',
  'compute_sdp_maxrules returns the probability and weights of the row, and for every background row with weight its own local rule and probability for the explained output. The grown rule '
  'contains the local rule of the row; with the merging algorithm each of its points lies in the local rule or in the rule of a background row whose probability reaches the level; with annealing '
  'every background row it newly contains reaches the level.',
  ['inputs', 'configurations', 'schedules'], 'every threshold, explained row, background sample and label vector within the bounds; every outcome of the random generator within one or two iterations',
  'A rule that covers too much is only visible at points that no test evaluates; annealing depends on random choices.',
  [PYX, AGN, 'acv_explainers/utils.py'], [('local rules', PYX + ' compute_sdp_maxrule, compute_sdp_maxrule_verbose'), ('growing', 'acv_explainers/utils.py extend_partition, rules_by_annealing')],
  observe=['ACXplainer.compute_sdp_maxrules'])
p('C15', 'Global rules: metrics of the rule base and best applicable rule',
  'fit_global_rules keeps every distinct rule once with a variable set given for it, and its coverage, output (majority class or mean), accuracy (or MSE) and variance are those of the rows inside the rule. '
  'predict_global_rules and predict_proba_global_rules return for each row the output, rule and variable set of a best rule among those containing the row with the required coverage, '
  'or None when there is none or its accuracy misses the limit.',
  ['inputs', 'configurations'], 'every rule base, training sample, labels, metrics, row and limits within the bounds; rules without rows included',
  'The tests fit one rule base; empty rules, ties and coverage limits that exclude the most accurate rule are not sampled.',
  [AGN, 'acv_explainers/utils.py'], [('metrics', 'acv_explainers/utils.py compute_rules_metrics, unique_rules_s_star'), ('prediction', 'acv_explainers/utils.py global_rules_model, global_rules_model_reg')],
  observe=['ACXplainer.fit_global_rules, predict_global_rules, predict_proba_global_rules'])
CR = 'acv_explainers/counterfactual_rules.py'
UCR = 'acv_explainers/utils_cr.py'
p('C22', 'Counterfactual rules keep what is fixed and report their own probability',
  'A local (regional) counterfactual rule equals the row (the region) on every variable outside the divergent set and a candidate leaf on the divergent set, and its probability and weights are those of this '
  'region. Candidate leaves hold rows with the target output with the stated accuracy, and growing them adds no row outside the candidates. Every candidate rule that reaches the level is reported or '
  'contained in a reported one; if none reaches it the best one is.',
  ['inputs', 'configurations', 'schedules'], 'every explained row, region, candidate leaf, background sample and label vector within the bounds; every outcome of the random generator of the growing step',
  'No test exercises the counterfactual rules; which rules survive depends on ties, nesting and levels.',
  [CR, UCR, AGN, PYX], [('rules', UCR + ' return_counterfactuals*, return_ge_counterfactuals*, remove_in_wsdp'), ('leaves', UCR + ' get_compatible_leaf*, rules_by_annealing')],
  observe=['CR.run_local_counterfactual_rules, CR.run_regional_counterfactual_rules'])
p('C01', 'Leaf boxes partition the input space',
  'For every tree of a converted ensemble (ACVTree and the forest of ACXplainer) the stored box of a leaf contains exactly the points that reach this leaf, a threshold value belonging to the left child; '
  'the stored variable list of a leaf is the set of variables tested on its path, children, variables, thresholds and values are those of the tree, and padding is marked. '
  'Explanations computed from the converted ensemble stay inside their work arrays, whatever the order and sizes of the trees.',
  ['inputs', 'programs'], 'every threshold, node value and point; tree shapes, variable labellings and orders of trees within the bounds',
  'The tests never look at the boxes; a point at a threshold, a variable tested twice on a path or a small tree after a large one only matter for particular models.',
  [TREE, BTREE, BAGN, 'acv_explainers/utils.py'], [('box construction', 'acv_explainers/py_acv.py get_partition, base_tree.py BaseTree.__init__, base_agnostree.py BaseAgnosTree.__init__')], observe=['ACVTree(model, data), BaseAgnosTree(model, d)'])
p('C17', 'Forest expectations, distribution functions and quantiles follow the weights',
  'compute_exp_rf, compute_cdf_rf, compute_quantile_rf, compute_quantile_diff_rf and the shaff variants of ACXplainer (and of ACVTree where offered) return the weighted mean, distribution function and weighted quantile '
  'of the background labels, where the weights are the tree averages of the normalised membership in the projected forest of the row given its variable set (for trees that are fully refined). '
  'All documented forms of the evaluation point are accepted, and nothing outside the given arrays is read.',
  ['inputs', 'configurations'], 'every explained row, background sample, label vector and variable set; forest shapes, minimum node size and quantile levels within the bounds',
  'The tests compare nothing with the definition; interpolation at ties, empty nodes and the forms of t are not sampled.',
  [PYX, AGN, TREE], [('estimators', PYX + ' compute_exp_rf, compute_cdf_rf, compute_quantile_rf, compute_quantile_diff_rf, weighted_percentile, *_shaff')], observe=['ACXplainer.compute_exp_rf, compute_cdf_rf, compute_quantile_rf, compute_quantile_diff_rf, compute_exp_shaff, compute_quantile_shaff'])
p('C20', 'The converted ensemble predicts what the fitted model predicts',
  'ACVTree.predict of a converted scikit-learn forest, decision tree, (histogram) gradient boosting regressor, LightGBM model, XGBoost-JSON or dictionary ensemble equals the prediction the ensemble itself defines for every row: leaf values of the reached leaves, averaged or summed, '
  'scaled by the learning rate, plus the initial value or offset, normalised class counts for classifiers. The C++ traversal sends a missing value to the default child, adds the offset once and uses no tree beyond the limit; '
  'the forest of ACXplainer holds the averaged leaf values.',
  ['inputs', 'programs'], 'every threshold, node value, learning rate, offset and row (bit-precise doubles in the C++ part); tree shapes and model kinds within the bounds',
  'The tests convert two fitted models and compare predictions on one dataset; thresholds hit exactly, missing values, offsets and several outputs are not sampled.',
  [BTREE, BAGN, TREE, 'acv_explainers/cext_acv/acv_tree.h'], [('conversion', BTREE + ' BaseTree.__init__, SingleTree.__init__'), ('prediction', 'acv_explainers/cext_acv/acv_tree.h dense_tree_predict, compute_expectations')], observe=['ACVTree(model).predict'])
p('C21', 'Explanations describe the last fit',
  'After any sequence of fits and queries within the bounds, ACXplainer answers from the forest and the global rules of the last fit: a probability or rule asked after a refit equals the one of the new forest whatever was asked before, '
  'asking does not change a later answer, and refitted global rules keep nothing of the previous rule base.',
  ['histories', 'inputs'], 'sequences fit - query - fit - query - query; every threshold of both forests, explained row, background sample, label vector and rule',
  'The tests fit each explainer once.',
  [AGN, BAGN], [('fit and lazy conversion', AGN + ' fit, check_is_explainer, fit_global_rules')], state=[('check_is_explain, ACXplainer', 'whether the forest is converted, and the converted forest', AGN + ' ACXplainer.fit, check_is_explainer'), ('rules, rules_*', 'rule base and its metrics', AGN + ' fit_global_rules')], observe=['ACXplainer.fit, compute_sdp_rf, compute_sdp_rule, fit_global_rules, predict_global_rules'])
p('C28', 'Asking changes nothing',
  'No explanation method of ACVTree, ACXplainer or the counterfactual rules modifies the rows, background data, labels, variable sets, coalitions, search spaces or rules passed to it, nor the fitted arrays of the explainer. '
  'Asking the same question again gives the same answer (where no random search is involved), and an answer already given is not changed by later calls.',
  ['inputs', 'histories', 'configurations'], 'every explained row, background sample, label vector, threshold and leaf value within the bounds; every public explanation method, asked twice on the same objects',
  'The tests call every method once and never look at their arguments afterwards; a list extended in place or a work array kept between calls only shows in the next question.',
  [TREE, AGN, CR, UCR, PYX, NOPA, CACHE], [('explanation methods', TREE + ' ACVTree.*, ' + AGN + ' ACXplainer.*, ' + CR), ('coalition and set expansion', PYX + ' shap_values_*, global_sdp_*'), ('rule merging', UCR + ' return_counterfactuals*')],
  observe=['every public explanation method of ACVTree, ACXplainer, CR'])
