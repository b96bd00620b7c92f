#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from anywhere)"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, technique, note, observe = (), state = ()):
    P.append(dict(id = id, title = title, statement = statement, over = over, text = text, tests = tests, files = files, mechanism = mechanism,
                  technique = technique, note = note, observe = list(observe), state = list(state)))


KX, KE, K, M, U = ('GPy_ABCD/%s/' % d for d in ('KernelExpansion', 'KernelExpressions', 'Kernels', 'Models', 'Util'))

prop('C01', 'Simplification computes one canonical form',
     'Simplifying any kernel expression yields the same canonical expression whatever the order, bracketing and multiplicity in which it was written, and it denotes the same family of covariance functions. '
     'Simplifying a simplified expression changes nothing, and every tree link of the result is consistent.',
     ['inputs'], 'all finite trees of sums, products, change-points and change-windows over the base kernels, with any nesting and multiplicity',
     'The tests simplify about a dozen hand-written expressions; confluence and idempotence quantify over all trees and all writings of each',
     [KE + 'base.py', KE + 'commutative_base.py', KE + 'commutatives.py', KE + 'change.py'],
     [('simplify / extract_if_singleton / absorb_homogeneous_composites', KE + 'commutative_base.py'), ('base term rules of sums and products', KE + 'commutatives.py')],
     'property-based testing: reference normaliser and metamorphic re-writings',
     'Random search over trees up to about 20 leaves against an independent normal form; no proof of confluence beyond the explored sizes')

prop('C02', 'Expression equality, text forms and copies are faithful',
     'Two expressions are equal exactly when they are re-orderings of each other at every commutative node. '
     'Printed and evaluable text forms read back as an equal expression, copying or pickling gives an equal independent one, and de-duplicating a list keeps exactly its first representatives.',
     ['inputs'], 'all pairs and lists of expressions, re-ordered, slightly edited or unrelated',
     'The tests compare a few fixed pairs; equality has to be an equivalence that separates all near-misses',
     [KE + 'base.py', KE + 'commutative_base.py', KE + 'change.py', U + 'genericUtil.py'],
     [('equality of nodes', KE + 'commutative_base.py'), ('str / repr', KE + 'base.py'), ('eq-based de-duplication', U + 'genericUtil.py')],
     'property-based testing: multiset-tree oracle, parse-print round-trip',
     'Random search against a structural multiset comparison and an independent parser')

prop('C03', 'No history of operations corrupts an expression tree',
     'Whatever sequence of constructions, operators, replacements, expansions, queries and kernel generations is applied, operations leave their operands as they were and their results have consistent parent and root links. '
     'Results of operators never change later as a side effect of work on other expressions.',
     ['histories'], 'all histories of operations over a pool of expressions that share sub-expressions',
     'Aliasing between sub-expressions only shows after particular operation sequences; tests run single operations on fresh expressions',
     [KE + 'base.py', KE + 'commutative_base.py', KE + 'change.py', KX + 'kernelExpressionOperations.py', KX + 'grammar.py'],
     [('defensive copies in constructors and operators', KE + 'commutative_base.py'), ('set_parent / set_root / reassign', KE + 'base.py')],
     'model-based (stateful) property testing: operation histories, snapshots after each step',
     'Histories of up to 12 operations; methods documented as in-place are only applied to copies', state = [dict(name = 'parent/root', meaning = 'tree links of a node', where = KE + 'base.py')])

prop('C04', 'Expansion is the grammar applied at every position',
     'Expanding an expression under a set of production rules gives exactly the simplified, pairwise different results of applying each rule at each sub-expression and each sub-product or sub-sum the rule addresses. '
     'Nothing is missing, nothing extra or un-simplified appears, and the expanded expression is unchanged.',
     ['inputs', 'configurations'], 'all canonical expressions and all subsets of the production rules',
     'The tests check the expansion of a handful of seeds; the set of neighbours is defined for every expression and rule set',
     [KX + 'grammar.py', KX + 'kernelExpressionOperations.py'],
     [('expand / expand_node', KX + 'grammar.py'), ('rule table', KX + 'grammar.py'), ('operators the rules apply', KX + 'kernelExpressionOperations.py')],
     'property-based testing: reference grammar, set comparison', 'Random search against a reference expansion on plain trees; rule meanings are those of their documentation strings')

prop('C05', 'Expression operators denote what they say and modify nothing',
     'Adding, multiplying, swapping a base kernel, removing a term, replacing by a higher-degree curve and splitting into change-points and windows give an expression whose canonical form is that of the described operation. '
     'Their operands, and the trees the operands stand in, are unchanged.',
     ['inputs'], 'all operators applied to all kinds of operands, stand-alone or inside a larger tree',
     'The tests apply each operator to one or two operands',
     [KX + 'kernelExpressionOperations.py'], [('add / multiply / swap_base / remove_a_term / higher_curves / one_change / replace_node', KX + 'kernelExpressionOperations.py')],
     'property-based testing: reference semantics on plain trees', 'Random search against a reference semantics')

prop('C06', 'The covariance of an expression is the composition of its parts',
     'The kernel generated from an expression evaluates, at all inputs and parameter values, to the sum, product and sigmoid-weighted combination of its base kernels that the expression denotes, with one variance per product. '
     'Diagonal and cross evaluations agree with the full matrix, matrices are symmetric and positive semi-definite, and the parameters are exactly the expected free ones.',
     ['inputs'], 'all canonical expressions, parameter values and input sets',
     'The tests never evaluate the covariance of a generated kernel against the expression',
     [KE + 'commutatives.py', KE + 'change.py', KX + 'kernelOperations.py', U + 'kernelUtil.py', K + 'changeOperators.py', K + 'baseKernels.py'],
     [('to_kernel', KE + 'commutatives.py'), ('set_variance / product variance fixing', U + 'kernelUtil.py'), ('change kernels', K + 'changeOperators.py')],
     'property-based testing: independent covariance evaluator', 'Random search against an independent numeric evaluator; tolerance 2e-6 of the magnitudes')

prop('C07', 'An expression absorbs the parameters of its fitted kernel in the right places',
     'After matching a kernel with the expression it was generated from, every node of the expression carries exactly the parameters of its own part of the kernel, whatever equal siblings, branches or values there are. '
     'Evaluating the annotated expression gives back the covariance of the kernel.',
     ['inputs'], 'all canonical expressions and parameter values, equal sibling sub-expressions included',
     'The tests match a few expressions with distinct terms; mix-ups need equal siblings or particular nestings',
     [KX + 'kernelOperations.py', KE + 'commutatives.py', KE + 'change.py', KE + 'commutative_base.py'],
     [('fit_ker_to_kex_with_params', KX + 'kernelOperations.py'), ('match_up_fit_parameters', KE + 'commutatives.py')],
     'property-based testing: round-trip through parameters, independent evaluator', 'Random search; base kernels of the same kind in one product are interchangeable')

prop('C08', 'The sum-of-products form has the covariance of the original expression',
     'Distributing a fitted expression into a sum of products gives terms whose parameters denote, summed up, the covariance of the fitted kernel at all inputs. '
     'There is one term per product of the distributed expression, change operators having become sigmoidal factors.',
     ['inputs'], 'all canonical expressions and parameter values',
     'The tests compare term counts and a few parameter lists; they do not evaluate the form',
     [KE + 'commutatives.py', KE + 'change.py', KE + 'commutative_base.py'], [('sum_of_prods_form', KE + 'commutatives.py'), ('sum_of_prods_form of changes', KE + 'change.py')],
     'property-based testing: differential evaluation of original and distributed form', 'Random search, forms of at most 60 terms')

prop('C09', 'The text interpretation states exactly the components of the fitted model',
     'The interpretation of a fitted expression lists one component per term of its sum-of-products form, each with the kinds, periods, lengthscales, offsets, intervals and variance of that term as printed to two decimals. '
     'No term is missing, repeated or described with another term\'s parameters.',
     ['inputs'], 'all canonical expressions and parameter values',
     'The tests print interpretations of a few models; the text is never read back',
     [KX + 'kernelInterpretation.py', KE + 'commutatives.py'], [('get_interpretation', KE + 'commutatives.py'), ('first/last term descriptions, sigmoidal intervals', KX + 'kernelInterpretation.py')],
     'property-based testing: text read back and matched with the distributed kernel', 'Random search; the reader relies on the phrases of the interpretation (documented in DESIGN.md)')

prop('C10', 'A component is said to apply exactly where all its change sigmoidals are on',
     'The interval stated for a component with any number of change sigmoidals contains a point exactly when every one of its sigmoidals is on there, and it says so when that is nowhere.',
     ['inputs'], 'all lists of sigmoidal factors of the four kinds with any relative position of their locations and widths',
     'The number of relative positions of several half-lines and windows is combinatorial; tests cover a few',
     [KX + 'kernelInterpretation.py'], [('sigmoidal_intersection / interval texts', KX + 'kernelInterpretation.py')],
     'property-based testing: set-intersection oracle at grid points', 'Random search with up to 7 factors on coarse grids')

prop('C11', 'Base, sigmoidal and change kernels compute their documented covariances',
     'Every kernel class computes its documented formula at all inputs and parameter values, on one or two sets of inputs and on the diagonal, alone or nested inside change kernels. '
     'Change kernels give the first part on one side, the second on the other and blend with complementary sigmoids.',
     ['inputs', 'configurations'], 'all kernel classes and variants, nestings, parameters and inputs',
     'The tests check a few kernels only through likelihoods of fits',
     [K + 'changeOperators.py', K + 'sigmoidalKernels.py', K + 'linearKernel.py', K + 'linearOffsetKernel.py', K + 'periodicKernel.py', K + 'changeWindowShiftedSides.py', K + 'changeWindowThreePart.py', K + 'baseKernels.py'],
     [('K / Kdiag of each class', K)], 'property-based testing: independent formulas', 'Random search over bounded parameter ranges; compiled code paths are run compiled')

prop('C12', 'Parameter gradients are the derivatives of the covariance and of the likelihood',
     'For every kernel and every composition, the gradient reported for each free parameter is the derivative of the weighted covariance with respect to it. '
     'The gradient a model reports to its optimiser is the derivative of the log-likelihood of its data.',
     ['inputs'], 'all kernels, expressions, parameters, inputs and weightings',
     'A wrong gradient only slows or misdirects optimisation; no test compares gradients with differences',
     [K + 'changeOperators.py', K + 'sigmoidalKernels.py', K + 'linearKernel.py', K + 'linearOffsetKernel.py', K + 'periodicKernel.py', K + 'changeWindowShiftedSides.py'],
     [('update_gradients_full', K)], 'property-based testing: numeric differentiation of an independent evaluator', 'Random search; agreement to 1e-4 of the magnitudes')

prop('C13', 'The periodic kernel is purely periodic and well-behaved over its whole range',
     'The periodic kernel is exactly periodic, has zero mean over a period and equals its variance at distance zero, for all periods and all lengthscales including very short and very long ones. '
     'Values and gradients have no jumps where it switches between numeric forms and are never infinite or undefined.',
     ['inputs'], 'all variances, periods and lengthscales (dense around the switches), all inputs',
     'Tests use default lengthscales; the numeric switches are hit by particular values only',
     [K + 'periodicKernel.py'], [('Bessel-function approximations and limit forms', K + 'periodicKernel.py')],
     'property-based testing: invariants and scipy reference', 'Random search dense around the switching values')

prop('C14', 'Kernels always answer for their current parameters, and copies are independent',
     'Whatever sequence of parameter updates, evaluations, gradient computations, fixings and copies takes place, a covariance or gradient is the one of the parameters shown at that moment. '
     'Changing a copy never changes the original or the reverse.',
     ['histories'], 'all histories of updates, evaluations and copies of a kernel',
     'Stale caches and shared sub-kernels need an update after an evaluation, often through another handle; tests evaluate once',
     [K + 'changeOperators.py', K + 'sigmoidalKernels.py', K + 'periodicKernel.py', K + 'linearKernel.py', KE + 'change.py', KE + 'commutatives.py'],
     [('caching of covariances', K), ('links between change kernels and their parts', K + 'changeOperators.py')],
     'model-based (stateful) property testing', 'Histories of up to 12 operations; input arrays are not modified in place')

prop('C15', 'A model search explores exactly its grammar\'s beam and reports it faithfully',
     'A search fits in each round exactly the not yet fitted expansions of the best not yet expanded models, as many as the beam of that round says, and never fits an expression twice. '
     'The five outputs are the models sorted by score, all expressions and models by round, the expanded ones and the ones left to expand, consistent with each other and with what was fitted.',
     ['inputs', 'configurations', 'histories'], 'all start expressions, rules, numbers of rounds, beams and score landscapes',
     'Tests run one or two searches with real fits; which expressions a beam keeps depends on the score landscape',
     [M + 'modelSearch.py', KX + 'grammar.py', U + 'genericUtil.py'], [('explore_model_space / model_search_rounds / expand_best', M + 'modelSearch.py')],
     'property-based testing: reference beam search with injected scores', 'Random search over score landscapes given by a hash of the expression; fitting is injected through the public argument')

prop('C16', 'Continuing a search equals a longer search, whatever the form of its inputs',
     'Continuing a finished search for more rounds gives the outputs of a single search of all the rounds. '
     'Beams given as a number or as shorter or longer lists, data given as vectors, lists or columns, and verbosity do not change the result.',
     ['histories', 'inputs', 'configurations'], 'all splits of a search into continued searches, and all accepted forms of data and beams',
     'Tests continue one search once and do not compare', [M + 'modelSearch.py'], [('model_search_rounds', M + 'modelSearch.py'), ('explore_model_space input normalisation', M + 'modelSearch.py')],
     'metamorphic property-based testing', 'Random search over splits and forms, scores pairwise different')

prop('C17', 'Fits are retried as allowed and list fitters keep every model in its place',
     'A fit that fails is attempted again exactly as often as allowed, on a fresh model with the same settings, and then reports the failure instead of returning a half-fitted model. '
     'Fitting a list, in sequence or in parallel processes, returns the model of each expression in its place, or reports the failure of one that cannot be fitted, and leaves everything given to it unchanged.',
     ['fault_sequences', 'inputs'], 'all schedules of failures of the optimisation, all lists and retry limits',
     'Failures of the optimiser are rare and not reproducible by tests', [M + 'modelSearch.py', M + 'model.py', U + 'benchmarking.py'],
     [('fit_one_model / fit_model_list_*', M + 'modelSearch.py')], 'fault-injection property testing', 'Failures are injected at the library optimiser; real process pools are used for the parallel fitter')

prop('C18', 'Scores and predictions are those of the fitted Gaussian process',
     'The information criteria, the likelihood and the leave-one-out score of a fitted model are the textbook values for its data and parameters, lower being better. '
     'Predicted means, (co)variances and quantiles are those of the Gaussian process with the parameters of the model.',
     ['inputs'], 'all expressions, data and parameters', 'Tests compare a few scores with recorded values of one library version',
     [U + 'modelUtil.py', M + 'model.py'], [('BIC / AIC / AICc / LA_LOO', U + 'modelUtil.py'), ('predict / compute_utility', M + 'model.py')],
     'property-based testing: independent Gaussian-process oracle', 'Random search over well-conditioned models')

prop('C19', 'After any history of fits a model speaks about its latest fit',
     'Whatever the history of fits, expression changes, scorings, predictions and interpretations of a model, its canonical form, interpretation, score and predictions are those of its latest fit. '
     'Fitting leaves the expression of the model unchanged, models sharing an expression do not influence each other, and an unfitted model refuses to answer.',
     ['histories'], 'all histories of operations on one or two models sharing an expression',
     'Tests fit once; staleness needs a second fit after a query', [M + 'model.py', KX + 'kernelOperations.py'],
     [('fit / sum_of_prods_kex / interpret / compute_utility', M + 'model.py')], 'model-based (stateful) property testing',
     'Histories of up to 10 operations with real and injected optimisations', state = [dict(name = 'cached canonical form', meaning = 'sum-of-products form of the latest fit', where = M + 'model.py')])

prop('C20', 'Every kernel configuration gives a coherent pipeline',
     'Under each of the 32 combinations of the documented configuration flags, canonical forms, expansions, generated kernels, parameter absorption, sum-of-products forms and interpretations are the ones the flags describe. '
     'No combination makes a valid expression fail.',
     ['configurations', 'inputs'], 'all 32 flag combinations and all expressions over the kernels they enable',
     'The tests only ever run the default combination', ['GPy_ABCD/config.py', K + 'baseKernels.py', KE + 'base.py', KE + 'commutatives.py', KE + 'change.py', KX + 'kernelInterpretation.py', KX + 'grammar.py'],
     [('flags', 'GPy_ABCD/config.py'), ('kernel tables built from the flags', K + 'baseKernels.py')], 'property-based testing over all configurations, one process each',
     'All 32 combinations are run, with random expressions in each')

prop('C21', 'Structural queries agree with the structure of the expression',
     'Traversals, term lists, factor counts, stationarity and membership queries, depth and reductions of an expression agree with its structure, for every node of every expression.',
     ['inputs'], 'all expressions and all their nodes', 'Tests query a few expressions', [KE + 'base.py', KE + 'commutative_base.py', KE + 'change.py'],
     [('traverse / reduce / is_stationary / contains_base', KE + 'base.py')], 'property-based testing: reference queries on plain trees', 'Random search')

prop('C22', 'List and mapping helpers behave as documented on any elements',
     'The helpers for de-duplication, multiset equality, set partitions, differences, folding, sorting and merging behave as documented for all lists, graphs and mappings, of hashable or only comparable elements, and leave their arguments unchanged.',
     ['inputs'], 'all lists, acyclic graphs and mappings', 'Tests check a few literal lists', [U + 'genericUtil.py'], [('helpers', U + 'genericUtil.py')],
     'property-based testing: naive reference implementations', 'Random search')

prop('C23', 'Generated data follow the described functions exactly',
     'Generated data are, at every input, the described function (the second part from a change-point on or within a window, its ends included, and the first one elsewhere, joined without jumps if asked) times its weight plus independent noise of the given weight. '
     'Inputs in any accepted form give column data with the same values, whatever number types the functions return.',
     ['inputs'], 'all functions, change locations, inputs, weights and number types', 'There are no tests of the generators beyond their use',
     [U + 'dataAndPlottingUtil.py'], [('cp_f_maker / cw_f_maker / generate_*', U + 'dataAndPlottingUtil.py')], 'property-based testing: piecewise reference functions', 'Random search over affine and quadratic parts')


prop('C24', 'Complete searches report models that are what they are said to be',
     'Every model returned by a model search with real fits, whatever the accepted form of the data and the list fitter, is fitted to exactly those data, carries the score of its own fitted Gaussian process, is never worse than its starting point, '
     'and has the sum-of-products form and interpretation of its own fitted kernel; the outputs are ordered by these scores and each round expands the best models.',
     ['inputs', 'configurations'], 'all data sets, start expressions, rules, beams, scores and list fitters', 'The tests run one or two searches and look at their first results; nothing recomputes what the models state',
     [M + 'modelSearch.py', M + 'model.py', KX + 'kernelOperations.py', KX + 'kernelInterpretation.py', U + 'modelUtil.py'],
     [('explore_model_space / model_search_rounds', M + 'modelSearch.py'), ('fit / interpret / compute_utility', M + 'model.py')],
     'property-based testing: end-to-end searches judged by an independent Gaussian process and reading of the text',
     'Small data sets (5 to 9 points) and at most one round with one or two expanded models per case')


prop('C25', 'Convenience functions fit, print and plot exactly what they are given',
     'Single fits of an expression or kernel use exactly the given data (in any accepted form), restarts and optimiser, and leave other models of the same expression as they were. Printed reports state the expression, '
     'log-likelihood, score and interpretation of the model at hand; plots hold exactly the given points or function values, and sample-curve plots the requested number of functions of the kernel, saved where and under the names asked for.',
     ['inputs', 'histories'], 'all expressions, kernels, data, forms of data and settings', 'The tests do not look at what these functions print or plot',
     [U + 'modelUtil.py', U + 'dataAndPlottingUtil.py', U + 'kernelUtil.py', M + 'model.py'],
     [('fit_kex / fit_GPy_kern / model_printout', U + 'modelUtil.py'), ('gg_plot / gg_f_plot', U + 'dataAndPlottingUtil.py'), ('sampleCurves / saveKernelSamples', U + 'kernelUtil.py')],
     'property-based testing: injected fits, independent Gaussian process, plotted data against the definition', 'Random search; the looks of plots are not judged')


prop('C26', 'Benchmark tables report exactly the timings of the functions given',
     'Timing helpers call each given function exactly as often as asked and with exactly its own arguments. Comparison tables hold one row per function, with its own mean, its mean without the first run and its first runs, sorted by mean, '
     'with the ratios to the best and to the previous one. Merged tables keep every row and recompute the ratios, and the compiled variants generated for a comparison are all the ones asked for and do what the function does.',
     ['inputs'], 'all sets of functions, durations, repetitions, arguments and tables', 'There are no tests of the benchmarking helpers, and real timings cannot be predicted by a test',
     [U + 'benchmarking.py'], [('timethis / compare_implementations / numba_comparisons / merge_bench_tables', U + 'benchmarking.py')],
     'property-based testing: functions of generated durations on a fake clock, statistics recomputed', 'Random search; compiled variants on one function and one scalar function')


def main():
    done = [p for p in P if os.path.exists(os.path.join(HERE, 'props', p['id'] + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files = p['files'], mechanism = [dict(name = n, where = w) for n, w in p['mechanism']])
            if p['state']: a['state'] = p['state']
            f.write(json.dumps(dict(id = p['id'], title = p['title'], statement = p['statement'], quantifier = dict(over = p['over'], text = p['text']),
                                    why_tests_cant = p['tests'], anchors = a)) + '\n')
    man = dict(version = 1, setup_cmd = 'bash tools/setup.sh',
               checks = [dict(property = p['id'], quick_cmd = '/opt/venv/bin/python run.py ' + p['id'], thorough_cmd = 'VERIF_TIER=thorough /opt/venv/bin/python run.py ' + p['id'],
                              evidence_file = 'evidence/%s.json' % p['id'], technique = p['technique'], level = 'exploration', level_note = p['note']) for p in done],
               not_applicable = [dict(property = p['id'], reason = 'Its check is still being built') for p in P if p not in done],
               notes = 'Generated by tools/manifest.py. Property-based testing with Hypothesis (from the preinstalled tools), in 8 forked shards seeded by VERIF_SEED; run.py ID --replay FILE re-runs a saved failure.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(man, f, indent = 1); f.write('\n')
    print(len(P), 'properties', len(done), 'claimed')


main()
