"""Writes properties.jsonl and MANIFEST.json from one table.

    python3 tools/meta.py

Run by hand after editing the table; no check calls it.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, tests, files, mech, note,
         observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  text=text, tests=tests, files=files, mech=mech, note=note,
                  observe=list(observe), state=list(state)))


CF = 'concept_formation/'

prop('C01', 'Every concept is the exact tally of the instances filed under it',
     'After any sequence of learned instances, every concept of the tree '
     'holds exactly the tally of the instances whose returned concept lies '
     'in its subtree: number of instances, how often each attribute had each '
     'value, and number, mean and sum of squared deviations of its numbers. '
     'An inner concept is the sum of its children, and the root holds '
     'everything learned. Copying, merging and splitting concepts keeps this.',
     ['inputs', 'histories'],
     'All instances (nominal, Boolean, numeric, hidden, missing values), all '
     'orders, all random tie-breaks, all reachable trees.',
     'Tests look at root counts of a few fixed data sets; the tally must hold '
     'at every concept, through every interleaving of the four operators, '
     'hidden attributes and missing values.',
     [CF + 'cobweb.py', CF + 'cobweb3.py', CF + 'continuous_value.py'],
     [('CobwebNode.increment_counts / update_counts_from_node',
       CF + 'cobweb.py'),
      ('Cobweb3Node.increment_counts / update_counts_from_node',
       CF + 'cobweb3.py'),
      ('CobwebTree.cobweb, CobwebNode.merge, split, create_new_child, '
       'create_child_with_current_counts', CF + 'cobweb.py')],
     'symbolic histories of 2-4 instances, one symbolic step from trees of '
     'up to 5 leaves, and steps from trees with unbounded symbolic counts')
prop('C02', 'The concept hierarchy is always a well-formed tree',
     'After every learned instance the hierarchy is a proper tree: the root '
     'has no parent, every child points to its parent, no concept has '
     'exactly one child or no instances, no two concepts share an identity, '
     'a name or a knowledge table, and all belong to the tree. Learning '
     'returns a leaf of that tree. The reported depth, parenthood and number '
     'of concepts agree with the hierarchy.',
     ['inputs', 'histories'],
     'All instances, orders and random tie-breaks.',
     'Tests verify parent pointers after a handful of random runs; a broken '
     'pointer needs a particular operator at a particular place.',
     [CF + 'cobweb.py', CF + 'cobweb3.py'],
     [('CobwebTree.cobweb (fringe split, merge, split, new)',
       CF + 'cobweb.py'),
      ('CobwebNode.merge/split/create_new_child/'
       'create_child_with_current_counts', CF + 'cobweb.py')],
     'symbolic histories of 2-4 instances and symbolic steps from trees of '
     'up to 5 leaves')
prop('C03', 'Queries never change the tree; given instances are never modified',
     'Questions put to a tree or a concept (categorization, inference of '
     'missing values, probabilities, predictions, what-if scores, printing, '
     'copying) leave every count, value, child and parent of the hierarchy '
     'as it was. Instances and lists given by the caller are never modified, '
     'and changing them afterwards does not reach the tree. Inference '
     'answers with a new instance.',
     ['inputs', 'histories'],
     'All trees reached, all queries, every kind of attribute.',
     'Tests compare a few answers, never the whole tree before and after a '
     'query; what-if scores temporarily build concepts.',
     [CF + 'cobweb.py', CF + 'cobweb3.py', CF + 'trestle.py'],
     [('CobwebTree.categorize / infer_missing', CF + 'cobweb.py'),
      ('CobwebNode.cu_for_* (work on copies), shallow_copy',
       CF + 'cobweb.py')],
     'symbolic instances and queries on trees of 2-4 leaves')
prop('C04', 'Category utility and what-if scores equal their definition',
     'The expected correct guesses and the category utility of a concept are '
     'those of the COBWEB / COBWEB/3 definition (visible attributes only, '
     'acuity-style noise for numbers, mean over children). The score '
     'predicted for adding an instance to a child, for a new child, for '
     'merging, for splitting and for a fringe split equals the category '
     'utility measured after really carrying the operation out.',
     ['inputs', 'histories'],
     'All concepts (any counts, any values), all instances.',
     'Tests compare the score and the operation on one or two fixed trees; '
     'the formulas must agree for every table.',
     [CF + 'cobweb.py', CF + 'cobweb3.py'],
     [('CobwebNode.expected_correct_guesses, category_utility, cu_for_*',
       CF + 'cobweb.py'),
      ('Cobweb3Node.expected_correct_guesses', CF + 'cobweb3.py')],
     'unbounded symbolic counts for nominal tables; symbolic reals for '
     'numeric ones; up to 3 children, 2 attributes')
prop('C05', 'Learning takes the best of the four operators at every level',
     'Learning an instance turns the tree into one that the greedy '
     'four-operator COBWEB search allows: at each level the child or the '
     'operation (add, new, merge, split) of maximal category utility is '
     'taken, ties in any direction, and a leaf that already matches just '
     'counts. Categorization descends to the child of maximal utility. The '
     'best and second best child reported are the best two.',
     ['inputs', 'histories'],
     'All instances, orders and random tie-breaks.',
     'Tests check the operator on fixed examples; a wrong choice only shows '
     'when two scores are close or a particular operator is best.',
     [CF + 'cobweb.py', CF + 'cobweb3.py'],
     [('CobwebTree.cobweb / _cobweb_categorize', CF + 'cobweb.py'),
      ('CobwebNode.two_best_children / get_best_operation',
       CF + 'cobweb.py')],
     'lockstep with a reference model over symbolic histories of 2-4 '
     'instances and symbolic last instances on trees of up to 5 leaves')
prop('C06', 'Reported probabilities are well formed and mean what they say',
     'The probability of a nominal value at a concept is its share of the '
     "concept's instances, that of a missing value the share without one, "
     'they lie in [0,1] and sum to 1, and the weighted values list exactly '
     'them. The probability of a number is the share of numbers times a '
     'normal density around their mean (unbiased variance plus noise '
     '1/(2 pi), on the scale of the tree), never above 1.',
     ['inputs', 'histories'],
     'All concepts, any counts and any numbers, any queried value.',
     'Tests query a few values at the root of fixed data.',
     [CF + 'cobweb.py', CF + 'cobweb3.py'],
     [('CobwebNode.probability, get_weighted_values', CF + 'cobweb.py'),
      ('Cobweb3Node.probability, get_weighted_values', CF + 'cobweb3.py')],
     'unbounded symbolic counts, symbolic reals')
prop('C07', 'Predictions follow the distribution of the concept',
     "A most-likely prediction is a value of maximal share; a sampled one is "
     "drawn with each value's share, and numbers from a normal distribution "
     'with the mean and unbiased deviation seen; missing only when allowed. '
     'Inferring missing values keeps what is given and adds exactly the '
     'attributes of the concept a greedy descent reaches, each with a value '
     'that concept predicts. Unknown choice rules are refused.',
     ['inputs', 'histories', 'schedules'],
     'All concepts, all draws of the random source.',
     'Tests look at single predictions; sampling cannot be settled by '
     'sampling.',
     [CF + 'cobweb.py', CF + 'cobweb3.py', CF + 'utils.py'],
     [('CobwebNode.predict / infer_missing', CF + 'cobweb.py'),
      ('Cobweb3Node.predict', CF + 'cobweb3.py'),
      ('weighted_choice, most_likely_choice', CF + 'utils.py')],
     'unbounded symbolic counts; the uniform draw is a symbolic variable')
prop('C08', 'Continuous values keep exact statistics under every update',
     'A continuous value summarises exactly the numbers it was given, in '
     'whatever order and by whatever mixture of single updates, batches and '
     'combinations: sample size, mean, sum of squared deviations and hence '
     'biased and unbiased standard deviation, plain or scaled. Combining '
     'leaves the other summary alone and copies are independent. The overlap '
     'of two summaries is the integral of the product of their noisy normal '
     'densities.',
     ['inputs', 'histories'],
     'All reals, all sample sizes, all ways of splitting a sample.',
     'Tests compare with numpy on a few random samples.',
     [CF + 'continuous_value.py', CF + 'utils.py'],
     [('ContinuousValue.update / update_batch / combine',
       CF + 'continuous_value.py'),
      ('ContinuousValue.*biased_std, scaled_*, '
       'integral_of_gaussian_product', CF + 'continuous_value.py')],
     'symbolic reals; summaries of unbounded symbolic sample size')
prop('C09', 'Numeric scaling makes learning independent of units',
     'With numeric scaling on, measuring a numeric attribute in other units '
     '(any positive factor, any offset) gives the same tree over the same '
     'instances, the same scores and the same concept quality. The divisor '
     "is the spread of everything the tree has seen of the attribute (of its "
     'inner name over all components unless told otherwise) over the scaling '
     'constant; without scaling the raw spread is used.',
     ['inputs', 'histories', 'configurations'],
     'All numeric values, factors and offsets, all histories.',
     'Tests use one data set with one set of units.',
     [CF + 'cobweb3.py', CF + 'continuous_value.py'],
     [('Cobweb3Tree.update_scales / get_inner_attr / scaling',
       CF + 'cobweb3.py'),
      ('Cobweb3Node.expected_correct_guesses, probability',
       CF + 'cobweb3.py')],
     'two runs over symbolic reals with symbolic factor and offset, 2-3 '
     'instances')
prop('C10', 'Hidden attributes are retained but never influence the tree',
     'Attributes whose name starts with an underscore never influence where '
     'an instance goes, whether it matches a concept, or any quality score, '
     'in learning as in categorization. Their values are still tallied '
     'exactly at every concept and can be predicted.',
     ['inputs', 'histories'],
     'All instances with and without hidden attributes, all histories.',
     'Tests include hidden attributes in one data set and do not compare '
     'trees with and without them.',
     [CF + 'cobweb.py', CF + 'cobweb3.py'],
     [('CobwebNode.attrs (visible filter), is_exact_match, '
       'expected_correct_guesses', CF + 'cobweb.py'),
      ('Cobweb3Node.is_exact_match, expected_correct_guesses',
       CF + 'cobweb3.py')],
     'two runs (with / without hidden attributes) over symbolic histories '
     'of 2-3 instances')
prop('C11', 'Malformed instances are refused atomically; fit learns each once',
     'COBWEB and COBWEB/3 refuse with ValueError an instance with an attribute '
     'that is not a non-empty string or tuple, or with a value that is None or '
     'unhashable, wherever it stands in the instance, and the tree stays as it '
     'was. Everything else is accepted. Fitting a collection learns every instance '
     'exactly once per iteration, in the given order in the first one unless '
     'told otherwise, without changing the collection.',
     ['inputs', 'histories'],
     'All malformed values at all positions, all entry points, all '
     'collections and iteration counts.',
     'Tests try one malformed instance on an empty tree.',
     [CF + 'cobweb.py', CF + 'cobweb3.py'],
     [('CobwebTree._sanity_check_instance, ifit, fit', CF + 'cobweb.py')],
     'symbolic good attributes around 13 kinds of malformed entries at every '
     'position; symbolic collections of up to 3 instances')
prop('C24', 'Statistics and choice helpers compute what they promise',
     'Mean and standard deviation of a list are the arithmetic mean and the '
     'population deviation; the weighted choice answers each option on a '
     'share of the draws equal to its weight, the most likely choice with an '
     'option of maximal weight; empty lists and negative weights are '
     'refused with ValueError. A value counts as a number exactly when it is '
     'a real number that is neither a Boolean nor nan. The correction '
     'factor for standard deviations is the c4 of statistics.',
     ['inputs', 'schedules'],
     'All lists of reals and weights, all draws.',
     'Tests use fixed lists and a few hundred draws.',
     [CF + 'utils.py'],
     [('mean, std, weighted_choice, most_likely_choice, isNumber, c4',
       CF + 'utils.py')],
     'symbolic reals, weights and draws, lists of up to 4')
prop('C26', 'Clearing forgets everything; trees never influence each other',
     'A cleared tree is empty and then learns exactly as a new tree would, '
     'whatever it had seen before. Learning in one tree never changes '
     'another, and concept names stay distinct over all trees of a kind.',
     ['inputs', 'histories'],
     'All earlier and later histories, all tree classes.',
     'Tests clear a tree once and look at an empty root.',
     [CF + 'cobweb.py', CF + 'cobweb3.py', CF + 'trestle.py'],
     [('CobwebTree.clear, Cobweb3Tree.clear, TrestleTree.clear, '
       'CobwebNode.counter/gensym', CF + 'cobweb.py')],
     'two runs over symbolic histories of 1-2 instances before and 2-3 after '
     'clearing')

PRE = [CF + 'preprocessor.py']
prop('C12', 'Relations written as text become tuples and come back unchanged',
     'The Tuplizer turns every attribute written as a bracketed '
     'relation, however deeply relations are nested, into the tuple of its '
     'elements, and undoing restores the very text; elements that are '
     'numbers are written back as the same numbers. Everything else of the '
     'instance stays as it is, and batches keep number and order.',
     ['inputs'],
     'All relation names and elements (no blanks or brackets inside a name), '
     'all nesting shapes up to the bound, all other attributes.',
     'Tests convert one or two fixed strings; the parser must be right for '
     'every name and every nesting.',
     PRE, [('Tuplizer.transform/undo_transform, tuplize_elements',
            CF + 'preprocessor.py')],
     'relations of up to 4 elements nested up to 3 deep, names of 1-2 '
     'symbolic characters')
prop('C13', 'Standardised names are fresh, consistent, and can be undone',
     'The NameStandardizer replaces every variable (a name starting with ?) '
     'by one new name wherever it occurs: nested objects, lists, relations. '
     'Different variables get different names, no two transforms ever share '
     'a name, and nothing else of the instance changes. Undoing the last '
     'transform gives back the original instance.',
     ['inputs', 'histories'],
     'All variable names, all places they may occur, sequences of '
     'transforms over any number of standardizers.',
     'Tests rename one fixed instance.',
     PRE, [('NameStandardizer.transform/undo_transform, '
            'get_attribute_components, default_gensym',
            CF + 'preprocessor.py')],
     'instances of up to 3 objects with symbolic names of 2-3 characters, '
     'up to 3 transforms in a row')
prop('C14', 'Flattening and object separation keep every value; both undo',
     'The Flattener keeps every value of a nested instance exactly once, '
     'under its path, hidden exactly when a name on the path is hidden; '
     'undoing gives back the instance. The SubComponentProcessor makes every '
     'object with a variable name top-level and records its owner in one '
     'has-component relation; relations over components and hidden '
     'attributes survive, and undoing gives back the flattened instance.',
     ['inputs'],
     'All names (visible, hidden, variable) and all nestings up to the '
     'bound, no variable naming two objects, no empty components.',
     'Tests flatten a few fixed instances; the guarantee depends on how '
     'constant, variable and hidden names interleave along a path.',
     PRE, [('Flattener._flatten/_structurize, SubComponentProcessor',
            CF + 'preprocessor.py')],
     'nesting up to 4 deep, up to 3 objects, symbolic names of 2 characters')
prop('C15', 'Lists become objects and relations and come back in order',
     'The ListProcessor turns every visible non-empty list, at any depth, into an '
     'object with one has-element relation per element and one ordered-list '
     'relation per pair of neighbours; no list is left. Undoing gives back '
     'the instance with its lists in order, whatever the order in which the '
     'relations are found; where the order is incomplete no element is lost.',
     ['inputs', 'histories'],
     'All element values, nested objects and lists up to the bound, all '
     'orders of the relations, partial relations.',
     'Tests convert fixed lists of three elements.',
     PRE, [('ListProcessor (ExtractListElements, ListsToRelations)',
            CF + 'preprocessor.py')],
     'lists of up to 4 symbolic elements, nested up to 2 deep, several lists')
prop('C16', 'Preprocessors never modify their input; pipelines undo in reverse',
     'transform and undo_transform of every preprocessor leave what they are '
     'given exactly as it was, at any depth. A Pipeline applies its parts in '
     'order and undoes them in reverse order; undoing gives back the '
     'instance whenever every part can be undone, and batches are processed '
     'element by element, in order.',
     ['inputs'],
     'All instances of the bounded shapes, all sequences of preprocessors '
     'the library itself combines.',
     'Tests compare outputs, not the arguments afterwards, and use one '
     'pipeline.',
     PRE, [('Preprocessor, OneWayPreprocessor, Pipeline and every subclass',
            CF + 'preprocessor.py')],
     'pipelines of up to 5 parts over instances with symbolic names and '
     'values')
prop('C17', 'Conversions change exactly what they are asked to change',
     'ObjectVariablizer gives variable names to exactly the objects asked '
     'for and renames them in relations; NumericToNominal turns exactly the '
     'numbers asked for into text denoting the same number; NominalToNumeric '
     'turns text into the number it denotes and refuses, drops or zeroes '
     'other text as told. All three reach into components, and everything '
     'else stays. The Sanitizer makes any instance acceptable to the tree it '
     'was made for and keeps what needs no change.',
     ['inputs'],
     'All values and names, all subsets of attributes to convert, all '
     'policies for text that is no number.',
     'Tests convert one fixed instance per class.',
     PRE, [('ObjectVariablizer, NumericToNominal, NominalToNumeric, '
            'Sanitizer', CF + 'preprocessor.py')],
     'instances of up to 2 nested objects with symbolic values; number texts '
     'from a fixed list')
prop('C18', 'Structure mapping renames one-to-one and never gets worse',
     'The StructureMapper renames the objects of an instance one-to-one to '
     'objects of the concept (or leaves them), keeps every value, changes '
     'neither instance nor concept, and undoing restores the names. The cost '
     'of a mapping is the loss of expected correct guesses it leads to; '
     'mapping_cost is free of side effects. From any one-to-one starting '
     'mapping the result is one-to-one and no costlier than the start or any '
     'single exchange away from the result.',
     ['inputs', 'histories'],
     'All instances and concepts over up to three objects, all values, all '
     'starting mappings.',
     'Tests match two fixed instances; renaming two objects to one only '
     'shows with particular overlaps.',
     [CF + 'structure_mapper.py'],
     [('StructureMapper, flat_match, rename_flat, greedy/hungarian mapping, '
       'mapping_cost, StructureMappingOptimizationProblem',
       CF + 'structure_mapper.py')],
     'up to 3 objects on either side, symbolic values; the assignment solver '
     'and the hill climber run as they are')
prop('C19', 'TRESTLE: structured learning is sound and indifferent to names',
     'Learning structured instances keeps every value of every object '
     'exactly once in the root, the tree well formed and the instances '
     'untouched; object names never matter: the same history under other '
     'variable names gives the same tree. On plain attribute-value instances '
     'TRESTLE learns, categorises and infers exactly as COBWEB/3. Inference '
     'keeps all given values under the caller\'s own names; unhashable '
     'values and non-name attributes are refused wherever they stand.',
     ['inputs', 'histories'],
     'All values, all variable names, all tie-breaks, histories up to the '
     'bound.',
     'Tests learn fixed data and look at the root only.',
     [CF + 'trestle.py', CF + 'structure_mapper.py', CF + 'preprocessor.py'],
     [('TrestleTree.trestle, categorize, infer_missing, '
       '_sanity_check_instance', CF + 'trestle.py')],
     'histories of 2-3 instances of up to 2 objects, symbolic values and '
     'names')
prop('C20', 'Flat clusterings are successive best splits of the tree',
     'cluster_iter yields, from minsplit to maxsplit, the cuts of the tree: '
     'first the children of the root, then each time the one cluster whose '
     'replacement by its children scores best is split, until only leaves '
     'remain; every instance is labelled with the concept of the cut above '
     'its leaf, and the score is minus the category utility. k_cluster '
     'returns the last of them with at most k clusters, cluster_split_search '
     'one with the lowest heuristic, depth_labels the concepts level by '
     'level. The caller\'s tree is not restructured, and nonsensical bounds '
     'are refused with ValueError.',
     ['inputs', 'histories'],
     'All instances and trees within the bounds, while learning or only '
     'categorising, any tie-break, any heuristic.',
     'Tests compare one labelling of a fixed data set.',
     [CF + 'cluster.py'],
     [('cluster, k_cluster, cluster_iter, cluster_split_search, '
       'depth_labels, CU', CF + 'cluster.py')],
     'up to 4 instances learned, trees of up to 5 leaves categorised '
     'against, symbolic values and heuristic')
prop('C21', 'Evaluation scores a prediction before the instance is learned',
     'incremental_evaluation returns runs rows of min(run_length, number of '
     'instances) scores; each run starts from an empty tree, visits each '
     'instance at most once (in the given order in the first run unless '
     'shuffled), scores it against its own target value (None if absent) '
     'before learning it. The scores never depend on the instance\'s own '
     'target value: probability is that of the value in the concept the rest '
     'of the instance belongs to, error compares with that concept\'s '
     'prediction, absolute and squared error derive from it. Scoring changes '
     'neither tree nor instance, and the given list keeps its order.',
     ['inputs', 'histories', 'schedules'],
     'All instances, target values, shuffles, run lengths.',
     'Tests check that scores are between 0 and 1 on one data set.',
     [CF + 'evaluation.py', CF + 'cobweb.py', CF + 'cobweb3.py'],
     [('incremental_evaluation, probability, error, absolute_error, '
       'squared_error', CF + 'evaluation.py')],
     'up to 3 instances, up to 2 runs, symbolic values and shuffles')
prop('C22', 'The exported and printed hierarchy is the learned hierarchy',
     'output_json and visualize hold every concept exactly once with its '
     'name, size, children and all counts, numbers as mean, deviation and '
     'count; visualize_no_leaves removes exactly the leaves once per cut; '
     'visualize_clusters ends exactly at the given concepts, given as '
     'concepts or labels. An existing page is kept when recreate_html is '
     'off. Printing gives one line per concept, indented by depth. Exporting '
     'changes nothing.',
     ['inputs'],
     'All values and counts, trees within the bound, all choices of '
     'clusters.',
     'Tests do not compare the export with the tree.',
     [CF + 'cobweb.py', CF + 'cobweb3.py', CF + 'visualize.py'],
     [('CobwebNode.output_json/pretty_print', CF + 'cobweb.py'),
      ('Cobweb3Node.output_json/pretty_print', CF + 'cobweb3.py'),
      ('visualize, visualize_no_leaves, visualize_clusters',
       CF + 'visualize.py')],
     'trees of up to 4 leaves with symbolic values, through the real files '
     'in a scratch directory')
prop('C23', 'Data set loaders return exactly the first instances, afresh',
     'For every requested number n, a loader returns exactly the first n '
     'instances of its data set in order (all when n is omitted or larger). '
     'What the caller does to a result never shows in a later call. The '
     'quadruped generator returns n animals of the known types, each with '
     'its eight parts and positive sizes, sampled within the limits of the '
     'truncated normal.',
     ['inputs', 'histories', 'schedules'],
     'All n, all random draws of the generator.',
     'Tests load each set once; an off-by-one shows only for particular n.',
     [CF + 'datasets.py', CF + 'data_files/generate_quadruped.py'],
     [('_load_json, _load_file, load_*', CF + 'datasets.py'),
      ('generate_animals, bellrand', CF + 'data_files/generate_quadruped.py')],
     'symbolic n over the whole size of the 8 data files; up to 2 animals, '
     'rejected draws repeated at most 3 times')
prop('C25', 'Likelihood and information criteria follow their definition',
     'The log-likelihood of a leaf under a concept that contains it is, over '
     'the visible attributes and every value the leaf may have (missing '
     'included), the logarithm of the product of the two probabilities, for '
     'numbers that of the overlap of the two densities. AIC = 2k - 2L, '
     'BIC = k log n - 2L, AICc adds 2k(k+1)/(n-k-1) or is infinite, with L '
     'summed over the instances and k counting one parameter per nominal '
     'value and two per number of each distinct cluster; CU is minus the '
     'category utility of the partition. Names select the criterion in any '
     'case.',
     ['inputs'],
     'Concepts with arbitrary counts and values.',
     'No test covers them.',
     [CF + 'cluster.py', CF + 'cobweb.py', CF + 'cobweb3.py'],
     [('AIC, BIC, AICc, CU', CF + 'cluster.py'),
      ('CobwebNode.log_likelihood', CF + 'cobweb.py'),
      ('Cobweb3Node.log_likelihood', CF + 'cobweb3.py')],
     'concepts of up to 3 leaves with unbounded symbolic counts; numeric '
     'ones of two symbolic numbers; up to 16 instances for the criteria')
prop('C27', 'The dummy tree is one concept that tallies everything it is given',
     'However many instances it learns, the DummyTree stays a single concept '
     'holding the exact tally of all of them; learning and categorising '
     'return that concept, categorising changes nothing, and clearing '
     'empties it. With mapping, object names do not matter; without it they '
     'are kept. Inference predicts the most frequent value (the mean of '
     'numbers) of the whole history.',
     ['inputs', 'histories'],
     'All instances, with and without structure mapping.',
     'Tests do not cover it.',
     [CF + 'dummy.py'],
     [('DummyTree.ifit, categorize', CF + 'dummy.py')],
     'histories of up to 3 symbolic instances')


def emit():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['pid']):
            d = dict(id=p['pid'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['tests'],
                     anchors=dict(files=p['files'],
                                  state=[dict(name=n, meaning=m, where=w)
                                         for n, m, w in p['state']],
                                  mechanism=[dict(name=n, where=w)
                                             for n, w in p['mech']],
                                  observe_at=p['observe'],
                                  hook_needed=None))
            f.write(json.dumps(d) + '\n')
    checks = []
    for p in sorted(P, key=lambda p: p['pid']):
        i = p['pid']
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'bounded symbolic execution of the real Python '
                         'source with an SMT solver (z3)',
            'level': 'model_checking',
            'level_note': 'Bounds: ' + p['note'] + '. Every feasible path '
            'within the bounds is executed; z3 decides each assertion over '
            'all values. Trusts the symbolic interpreter (cross-checked by '
            'replaying sample paths on the real code) and treats floats as '
            'exact reals.'})
    man = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
               not_applicable=NA,
               notes='No hooks in /repo. KNOWN_FINDINGS.jsonl lists the '
               'defects found (all repaired by fix: commits).')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


NA = []

if __name__ == '__main__':
    emit()
