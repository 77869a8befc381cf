#!/usr/bin/env python3
"""Writes properties.jsonl (the one place where the properties are worded)."""
import json
import os

B = 'src/jpt/base/'
D = 'src/jpt/distributions/'
U = D + 'univariate/'
T = 'src/jpt/trees.py'
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': quant},
        'why_tests_cant': why,
        'anchors': {'files': files, 'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    'mechanism': [dict(name=a, where=b) for a, b in mechanism],
                    'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Number sets obey set algebra',
     'Every operation on intervals and unions of intervals (union, intersection, difference, complement, mirroring, chopping, '
     'simplification, parsing, copying, serialisation) yields exactly the set of reals the operation denotes, for open, closed, '
     'empty, single-point and unbounded operands alike. The predicates (membership, emptiness, size, subset, disjointness, '
     'contiguity, equality, hash, extreme elements, sampling) answer according to that set, so equal sets compare and hash equal '
     'however they were built, and simplified sets are sequences of disjoint, non-adjacent, ascending intervals.',
     ['inputs', 'histories'], 'all finite unions of intervals with any bounds, and all sequences of operations over them',
     'the tests check a few dozen hand-written pairs; the boundary cases (open against closed, touching, empty, infinite) multiply with every operator',
     [B + 'intervals.pyx', B + 'intervals.pxd'],
     [('case analysis over bounds and border types', B + 'intervals.pyx: ContinuousSet, RealSet'), ('simplify', B + 'intervals.pyx: RealSet.simplify')],
     [('intervals', 'the constituents of a union, in any order', B + 'intervals.pyx')], ['return values of the public methods and operators'])
prop('C02', 'Interval operations never change their operands',
     'No operation on an interval or a union of intervals changes any of its operands or any set that was produced earlier, and no '
     'result shares mutable state with another set or with a module-level constant such as the empty set or the real line. A caller '
     'who overwrites the bounds of one set therefore never changes another one.',
     ['histories'], 'all sequences of operations and caller mutations over a pool of sets',
     'aliasing shows only when a result is modified after a later operation reused it; tests look at one operation at a time',
     [B + 'intervals.pyx'], [('copying on return', B + 'intervals.pyx')], observe=['all sets of the pool after every operation'])
prop('C03', 'Piecewise functions compute pointwise',
     'Arithmetic on piecewise functions is pointwise: at every real number, sum, difference, product with a function or number, scaling, '
     'shifting, mirroring, minimum, maximum, absolute value, splitting, cropping, overwriting, simplification, copying, and serialisation '
     'evaluate to what the operation says about the values of the operands at that number, including knots, jumps and unbounded pieces '
     '(where pieces meet, a mirrored or shifted function may take the value of either); the value is undefined (nan) where the function is; '
     'no operand changes. Functions that are equal have the same values and hashes. '
     'The integral over an interval is the area under the constant and linear pieces; the derivative is that of the pieces; the maximum '
     'of a bounded piecewise linear function is its supremum, attained where it is reported; the convolution of piecewise constant '
     'densities and the overlap (jaccard_similarity) of two functions are the corresponding integrals.',
     ['inputs', 'histories'], 'all piecewise functions with pieces of degree up to 2, all pairs of them and all evaluation points',
     'tests compare a few printed results; errors sit at coinciding knots, infinite pieces and one-point pieces',
     [B + 'functions.pyx', B + 'functions.pxd'], [('piecewise merge of knots', B + 'functions.pyx: PiecewiseFunction.add/mul/combine')],
     observe=['values at all knots, between them and next to them'])
prop('C04', 'The views of a numeric distribution agree',
     'The cumulative distribution function of every numeric distribution is a right-continuous, non-decreasing function from 0 to 1, and '
     'its other views agree with it: the probability of any interval or union of intervals is the mass the cumulative distribution puts on '
     'that set, with jumps (values that have positive probability) counted exactly when their value belongs to the set; the density is its slope; '
     'and the quantile at a level is a value x with P(X < x) <= level <= P(X <= x). Probabilities lie in [0, 1], add up '
     'over disjoint sets, and the whole real line has probability 1.',
     ['inputs', 'histories'], 'all numeric distributions obtained by fitting, from densities, by restriction and by mixing; all sets of reals',
     'tests evaluate a few fitted distributions at a few points; distributions with jumps, gaps of zero density and one-point supports arise by mixing and restricting',
     [U + 'numeric.py', D + 'quantile/quantiles.pyx'],
     [('piecewise linear cdf and derived pdf and ppf', D + 'quantile/quantiles.pyx: QuantileDistribution'), ('_p', U + 'numeric.py: Numeric._p')],
     observe=['p, cdf, pdf, ppf'])
prop('C05', 'A fitted numeric distribution follows its data',
     'A numeric distribution that was fitted to data has a cumulative distribution function that is 0 below the smallest and 1 at and above the '
     'largest data point, and deviates at the data points from the (rescaled, zero-based) empirical distribution by no more than the precision it '
     'was asked for, in the mean squared sense the regression uses, unless no single additional support point improves the fit. Fitting does not depend on the order of the rows, uses exactly the rows and the '
     'column it was given, and data with a single distinct value gives the impulse at that value.',
     ['inputs'], 'all finite data sets, row selections and precisions',
     'the tests fit a handful of fixed samples and compare with recorded output',
     [D + 'quantile/cdfreg.pyx', D + 'quantile/quantiles.pyx', U + 'numeric.py'],
     [('top-down piecewise linear regression', D + 'quantile/cdfreg.pyx: CDFRegressor')], observe=['cdf at the data points'])
prop('C06', 'Restricting is conditioning, merging is mixing',
     'Restricting a numeric distribution to a set of reals with positive probability yields its conditional distribution: every interval has the '
     'probability of its intersection with the set divided by the probability of the set; a set of probability zero is reported as unsatisfiable, '
     'and restricting to one point of positive probability or density yields the impulse there. Merging distributions with weights yields their mixture: every '
     'interval has the weighted sum of its probabilities, jumps included; updating with weight w mixes in the proportion 1-w to w. None of these '
     'operations, except the update of its own receiver, changes a distribution they are given.',
     ['inputs', 'histories'], 'all numeric distributions, restriction sets, weights and sequences of such operations',
     'tests restrict a few fitted distributions to single intervals and merge a few of them; unions, jumps and repeated operations are not sampled',
     [U + 'numeric.py', D + 'quantile/quantiles.pyx'],
     [('crop', D + 'quantile/quantiles.pyx: QuantileDistribution.crop'), ('merge', D + 'quantile/quantiles.pyx: QuantileDistribution.merge')],
     observe=['probabilities of all intervals over a grid, before and after'])
prop('C07', 'Discrete distributions are probability vectors',
     'Symbolic, boolean and integer distributions behave as probability vectors over their labels: fitting counts relative frequencies of the '
     'selected rows, the probability of a set of labels is the sum of its members, restricting conditions (and reports zero-probability '
     'restrictions as unsatisfiable), merging and updating mix with the given weights, the modes are exactly the labels of maximal '
     'probability and the ranked explanations list every positive probability level once in decreasing order. Labels and internal '
     'values correspond one to one, and moments, expectation, variance and sums of integer distributions are those of the label values. No operation, except '
     'the update of its own receiver, changes a distribution it is given.',
     ['inputs', 'histories'], 'all finite domains, parameters, events, weights and sequences of operations',
     'tests use two or three small fixed domains, mostly with labels that coincide with internal values',
     [U + 'multinomial.py', U + 'integer.py', D + 'utils.py'],
     [('parameter vectors indexed by value', U + 'multinomial.py'), ('offset label map', U + 'integer.py')], observe=['all public queries in label space'])
prop('C08', 'Leaves partition the training data',
     'After learning, every training row reaches exactly one leaf by following the splits; the prior of a leaf is the fraction of rows that reach '
     'it and its sample count is their number, the priors sum to one, and its distributions are those fitted to exactly these rows (up to the '
     'closing of convex gaps, if that is asked for, which moves at most the mass of half a sample of the splitting variables towards the neighbouring leaves, and makes an impulse uniform over its gap). No leaf has fewer rows than requested, no leaf is deeper '
     'than requested, and encoding the training rows returns the leaf each of them reached.',
     ['inputs', 'configurations'], 'all training tables over mixed variable types and all hyperparameter settings',
     'tests learn a few fixed tables and look at global figures',
     [T, 'src/jpt/learning/impurity.pyx'], [('c45 partitioning of the index array', T + ': JPT.c45'), ('index permutation', 'src/jpt/learning/impurity.pyx')],
     [('indices', 'permutation of the rows; every node owns a contiguous range', T + ': JPT.indices')], ['tree structure, leaf priors and distributions, encode'])
prop('C09', 'Splits maximise the impurity improvement',
     'Every decision node of a learnt tree splits on a feature and a position whose relative improvement of the target impurity (variance for '
     'numeric and integer targets, Gini index for symbolic ones) is maximal among all admissible splits of the rows at that node, where admissible '
     'means that both sides keep at least the minimum number of rows. A node becomes a leaf exactly if no admissible split reaches the '
     'minimum improvement or the maximum depth is reached. Only feature variables are split on and only targets they are declared to influence count.',
     ['inputs', 'configurations'], 'all training tables, targets, features, dependencies and hyperparameters',
     'the tests compare a few impurity values on fixed arrays; the running sums are order and state dependent',
     ['src/jpt/learning/impurity.pyx', T], [('incremental variance and Gini computation', 'src/jpt/learning/impurity.pyx: Impurity')], observe=['splits of the learnt tree'])
prop('C10', 'Inference computes conditional probabilities',
     'The probability a tree reports for a query given evidence equals P(query and evidence) / P(evidence) in the mixture of independent leaf '
     'distributions that the tree consists of, also when query and evidence constrain the same variable, and for sets, intervals, unions '
     'and scalars in label space. It lies in [0, 1], is additive over disjoint queries, 1 for queries implied by the evidence, and evidence of probability '
     'zero is reported as unsatisfiable instead of being answered.',
     ['inputs'], 'all trees, queries and evidence over all variable types',
     'tests ask a few queries of a few fixed models; split variables and multi-variable evidence interact',
     [T], [('sum over leaves weighted by their priors', T + ': JPT.infer'), ('leaf selection by path', T + ': JPT.apply')], observe=['infer'])
prop('C11', 'Posteriors are the conditional marginals',
     'The posterior of a variable given evidence is its marginal distribution in the mixture of leaves conditioned on the evidence: every leaf '
     'counts in proportion to its prior times the probability (for single real values: the density) of the evidence in it, and evidence on the variable itself restricts its '
     'distribution whether or not the variable was used for splitting. Unsatisfiable evidence raises the documented error or returns nothing, as requested.',
     ['inputs'], 'all trees, evidence assignments and sets of requested variables',
     'tests compare posteriors of a few fixed models; evidence on unsplit variables is not covered',
     [T], [('weights and merge', T + ': JPT.posterior')], observe=['posterior'])
prop('C12', 'The conditional tree is the conditioned distribution',
     'Conditioning a tree on evidence yields a tree that represents the distribution given the evidence: leaves that contradict it are gone, the priors of '
     'the others are proportional to prior times probability (for single real values: density) of the evidence, their distributions are restricted to the evidence, '
     'and every query has in it the probability it has given the evidence in the original tree. Its inner nodes remain a consistent tree over the '
     'surviving leaves, and the original tree is unchanged.',
     ['inputs', 'histories'], 'all trees, evidence assignments and repeated conditioning',
     'tests condition a few fixed models once',
     [T], [('pruning of contradicted leaves', T + ': JPT.conditional_jpt')], observe=['leaves, priors and answers of the conditional tree'])
prop('C13', 'Queries never change the model or the evidence',
     'No query (inference, posteriors, expectation, moments, explanations, conditioning, likelihood, density, sampling, pruning, copying, '
     'serialisation) changes the tree it is asked of, its distributions, or the evidence and query objects passed in: repeating it gives the same '
     'answer and the serialised tree stays the same.',
     ['histories'], 'all sequences of queries on one tree',
     'a corrupted model shows only in a later query; tests build a fresh model for every query',
     [T, U + 'numeric.py', U + 'multinomial.py', 'src/jpt/inference/mpe.py'], [('copying before cropping', T + ': JPT.copy, distributions\' _crop')],
     observe=['serialised form and answers before and after'])
prop('C14', 'The most probable explanation is the maximum',
     'The most probable explanations given evidence are states of maximal likelihood: the reported likelihood is the maximum over the leaves of the '
     'conditional tree of prior times the maximal likelihood of each variable, every leaf that attains it is reported with exactly the maximal '
     'states of each variable, and every reported state satisfies the evidence.',
     ['inputs'], 'all trees and evidence',
     'tests check a few fixed models whose optimum is unique',
     [T, U + 'numeric.py', U + 'multinomial.py', U + 'integer.py'], [('maximum over leaves', T + ': JPT.mpe, Leaf.mpe')], observe=['mpe'])
prop('C15', 'Ranked explanations come in order and are complete',
     'The k most probable explanations of a set of independent distributions are delivered in non-increasing order of likelihood, without '
     'repetition, each with its true likelihood, and if they are not limited, all combinations of states of positive likelihood are '
     'delivered; for a tree, the explanations of all leaves compatible with the evidence are interleaved in non-increasing order of likelihood.',
     ['inputs', 'schedules'], 'all tuples of distributions, all k, all orders in which the branch-and-bound search meets and defers states',
     'the search keeps deferred states in a queue and resumes them; tests check a few small fixed problems',
     ['src/jpt/inference/mpe.py', B + 'utils.py', T], [('branch and bound with resumable pruned states', 'src/jpt/inference/mpe.py: MPESolver.solve'), ('heap', B + 'utils.py: Heap')],
     observe=['MPESolver.solve, JPT.kmpe'])
prop('C16', 'Serialisation restores equal, equally behaving objects',
     'Writing a tree, a distribution, a variable, a domain or a variable map to JSON or pickle and reading it back yields an object that compares equal to the original '
     'and gives the same answers to every query, with all settings, types, labels, priors, paths and structure preserved; the JSON form '
     'survives a textual round trip, and equality distinguishes objects that differ.',
     ['inputs', 'histories'], 'all trees, distributions, variables and assignments, and repeated round trips',
     'tests round-trip a few fixed objects and mostly rely on the equality under test',
     [T, 'src/jpt/variables.py', U + 'numeric.py', U + 'multinomial.py', U + 'integer.py', D + 'quantile/quantiles.pyx', B + 'functions.pyx', B + 'intervals.pyx'],
     [('to_json / from_json pairs', 'all modules')], observe=['equality and observable behaviour of the restored object'])
prop('C17', 'Samples lie in the support',
     'Every sample drawn from a distribution or a tree has positive density or probability under it: discrete samples are labels of '
     'positive probability, numeric samples lie where the cumulative distribution grows or jumps, tree samples are compatible with some leaf in all '
     'variables jointly. Values or regions that carry substantial probability do appear in sufficiently large samples, in proportion to it.',
     ['inputs', 'schedules'], 'all distributions and trees, all random seeds',
     'tests draw a few samples of fixed distributions without checking the support',
     [D + 'quantile/quantiles.pyx', B + 'sampling.py', U + 'distribution.py', T], [('roulette wheel and interval sampling', B + 'sampling.py')], observe=['sample, sample_one'])
prop('C18', 'Pruning keeps the distribution',
     'Pruning a tree merges only sibling leaves whose average similarity reaches the threshold; a merged leaf has the sum of the priors and sample counts '
     'and the mixture of the distributions of the leaves it replaces, so the marginal of every variable is unchanged, and the result is a consistent tree '
     'to which no further merge applies. The original tree is unchanged.',
     ['inputs'], 'all trees and thresholds',
     'tests prune one or two fixed models',
     [T], [('bottom-up merging of sibling leaves', T + ': JPT.prune')], observe=['leaves, paths and marginals after pruning'])
prop('C19', 'Expectations and moments are those of the distribution',
     'Expectation, variance and moments of any order about any centre of numeric and integer distributions equal the corresponding integrals and sums '
     'over the distribution in label space, jumps included; those of a tree given evidence are those of the posterior distributions.',
     ['inputs'], 'all distributions, orders, centres and evidence, scaled and unscaled domains',
     'tests compare a few symmetric examples; impulses and mixtures with impulses are not sampled',
     [U + 'numeric.py', U + 'integer.py', T], [('piecewise integration', U + 'numeric.py: Numeric._moment')], observe=['expectation, variance, moment'])
prop('C20', 'Variable maps behave as maps over variables and names',
     'A variable map behaves as an ordinary mapping keyed by variables, in which a variable and its name are interchangeable as keys: lookups, '
     'membership, length, iteration in insertion order, update, removal, difference, copying and equality follow that mapping, and copies are independent of the '
     'original. Converting an assignment between labels and internal values and back restores it, for every variable type.',
     ['histories', 'inputs'], 'all sequences of map operations over all variable types',
     'tests exercise a few operations on fresh maps',
     ['src/jpt/variables.py'], [('two dictionaries kept in step', 'src/jpt/variables.py: VariableMap')],
     [('_map, _variables', 'values and variables by name', 'src/jpt/variables.py: VariableMap')], ['all mapping operations'])
prop('C21', 'The priority queue delivers in order',
     'A heap delivers its elements in non-decreasing order of their keys, whatever sequence of insertions, removals at arbitrary positions, '
     'removals of elements, and extractions it went through; its length, iteration and membership reflect exactly the elements inserted and not yet removed.',
     ['histories'], 'all sequences of heap operations, duplicate keys included',
     'tests push and pop a few elements; removal in the middle breaks the order only for particular shapes',
     [B + 'utils.py'], [('heapq on decorated tuples', B + 'utils.py: Heap')], [('_data', 'the heap array', B + 'utils.py: Heap')], ['pop order, contents'])
prop('C22', 'Sequence models chain leaves correctly',
     'A fitted sequence model has as transition weights the relative frequencies with which consecutive training steps moved between leaves, and the '
     'independent marginals of a sequence given evidence are, for every time step in order, those of the chain of leaf variables whose weights are the products '
     'of the transition weights and of the priors of the leaves conditioned on the evidence, for sequences of any length.',
     ['inputs', 'histories'], 'all template trees, training sequences, evidence sequences and lengths',
     'tests run two or three short sequences',
     ['src/jpt/sequential_trees.py'], [('factor graph over time steps', 'src/jpt/sequential_trees.py: SequentialJPT.ground, independent_marginals')], observe=['transition_model, independent_marginals'])
prop('C23', 'Densities and likelihoods are those of the mixture',
     'The density a tree assigns to a full or partial assignment of single values equals the prior-weighted sum over all compatible leaves of the products of '
     'the leaf densities and probabilities, the likelihood of a batch of rows equals it row by row (with impulses counted by the documented replacement value), '
     'independently of the order and number of rows.',
     ['inputs'], 'all trees, assignments and batches',
     'tests check that a few likelihoods are positive',
     [T], [('parallel evaluation', T + ': Leaf.parallel_likelihood, JPT.likelihood, JPT.pdf')], observe=['pdf, likelihood'])
prop('C24', 'Label space and value space correspond',
     'For every domain, converting labels to internal values and back restores them, for scalars, sets and intervals; scaled numeric domains '
     'preserve order, openness and infinities, and a distribution or tree over a scaled domain answers every query in label space (probabilities, '
     'expectations, explanations, samples, restrictions) as the unscaled one does.',
     ['inputs', 'configurations'], 'all scaled and unscaled domains, all data sets and queries',
     'tests cover the scaler itself and a few conversions',
     [D + 'utils.py', U + 'numeric.py', U + 'multinomial.py', U + 'integer.py', 'src/jpt/variables.py'], [('affine scaler and proxies', D + 'utils.py: DataScaler, DataScalerProxy')],
     observe=['public answers in label space'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for p in P:
        assert len(p['title']) <= 80, p['title']
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
