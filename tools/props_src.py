# flake8: noqa  (executed by gen.py)

prop('S01', 'The real-set calculus is exact on points',
     '''For any two sets of real numbers built from finitely many open, closed or half-open intervals (empty, single-point and
     unbounded ones included), intersection, union, difference, complement, simplification and mirroring denote exactly the numbers
     set theory prescribes, and simplified results consist of non-empty, non-overlapping pieces. Membership, containment,
     intersection tests, emptiness, equality, size, least element, representative points, chopping at given points and sampling
     all agree with that point set. No operation modifies its operands.''',
     ['inputs'], 'all pairs/triples of finite unions of intervals, incl. shared bounds with every open/closed combination',
     'The tests use some dozens of hand-picked intervals; the errors live in combinations of shared bounds and end types.',
     [IV], [('interval set operations', IV + ': ContinuousSet, RealSet')],
     tech='exact set model over the order of doubles, generated interval pairs and unions with colliding bounds')

prop('S02', 'Value objects survive text, JSON, pickle and copy round trips',
     '''Intervals, real sets, elementary and piecewise functions and quantile distributions are restored from their JSON form
     (also after a pass through JSON text), from a pickle, and from a copy as objects that are equal to the original and behave
     identically at every point; intervals, and real-number sets piece by piece, also survive formatting and parsing in either bracket notation.
     Equal objects have equal hashes, and changing a copy never changes the original.''',
     ['inputs'], 'all serialisable value objects, incl. unbounded, empty, single-point and multi-piece ones',
     'Tests round-trip single examples per class; multi-piece, unbounded and exact-float cases are not covered.',
     [IV, FN, QU], [('to_json/from_json, __getstate__/__setstate__, parse/pfmt', IV), ('to_json/from_json, pickling', FN), ('to_json/from_json', QU)],
     tech='round-trip and behavioural equality on generated objects')

prop('F01', 'Function arithmetic is pointwise',
     '''Adding, subtracting, multiplying or dividing constant, linear, quadratic and piecewise functions with each other or with numbers
     yields a function that at every point of the common domain equals the arithmetic on the function values, and is undefined
     elsewhere. Combining by minimum or maximum, absolute value, comparisons (where f = y, f < y, f > y) and evaluation of scalars
     and arrays agree pointwise in the same way.''',
     ['inputs'], 'all pairs of piecewise polynomials with arbitrary, partially overlapping domains and end types',
     'The tests evaluate a few fixed functions at a few points; alignment of differing knots and end types is where errors hide.',
     [FN], [('elementary function algebra', FN + ': ConstantFunction, LinearFunction, QuadraticFunction'), ('piecewise alignment', FN + ': PiecewiseFunction')],
     tech='pointwise reference model at knots, neighbours and interior points')

prop('F02', 'Function transformations keep their defining relation to the original',
     '''Cropping, overwriting, shifting, mirroring, stretching, splitting, integrating, differentiating, rectifying,
     simplifying and maximising a piecewise function yield the function (or value) defined pointwise from the original: equal on
     the kept domain, replaced on the overwritten one, f(x+d) when shifted, f(-x) when mirrored, and integrals additive over
     adjacent intervals. Approximation to a given number of segments or error bound never leaves the original domain and honours
     the bound it was given.''',
     ['inputs'], 'all piecewise polynomials, cut points and target domains',
     'Fixed examples with two or three segments; the interaction of domain gaps, infinite ends and end types is not sampled.',
     [FN], [('transformations', FN + ': PiecewiseFunction')],
     tech='pointwise reference model and metamorphic relations on generated functions')

prop('Q01', 'A learned quantile distribution is a valid, faithful CDF of its data',
     '''For every finite sample, the fitted cumulative distribution is defined on all reals, non-decreasing and right-continuous, 0 below the
     smallest and 1 from the largest sample on. Its knots are samples that carry their empirical quantile, the extremes among
     them, and the fit deviates from the empirical distribution no more than the given tolerance allows (or than the
     best approximation with one inner knot does, where the greedy search stops earlier). The density is its derivative and
     integrates to the mass that is not concentrated in jumps, and the quantile function inverts it. A piecewise constant
     density with impulses is integrated to the CDF that has it, the missing mass going to the impulses by their weights. Only the selected rows and column matter.''',
     ['inputs'], 'all finite data vectors (ties, tiny samples, huge or tiny scales), row subsets and tolerances',
     'Tests fit two recorded data sets and tiny vectors; ties, duplicates at the ends and degenerate samples are the failing inputs.',
     [QU, CR], [('greedy CDF regression', CR), ('quantile fit', QU + ': QuantileDistribution.fit')],
     tech='empirical CDF as reference model on generated samples')

prop('Q02', 'Merging and cropping numeric distributions follow probability calculus',
     '''Merging numeric distributions with weights that sum to one yields the weighted mixture of their cumulative distributions at
     every point, up to the documented minimal slope. Restricting one to an interval or set of intervals yields
     the conditional distribution given that set (mass and shape proportional to the original), and is refused as unsatisfiable when the set has
     no probability. Results keep the settings of what they were made from.''',
     ['inputs'], 'all mixtures of fitted distributions and point masses with arbitrary weights, and all restriction sets',
     'Tests merge two or three fixed distributions; point masses, coinciding knots and zero weights interact.',
     [QU, NUM], [('mixture', QU + ': merge'), ('restriction', QU + ': crop; ' + NUM + ': crop')],
     tech='mixture/conditional CDF as reference model')

prop('D01', 'Numeric distributions assign probabilities consistently',
     '''A numeric distribution assigns every interval, union of intervals and single value the probability its cumulative distribution
     implies: between 0 and 1, additive over disjoint sets, monotone in the set, 1 for all reals, and the same whether
     the query is phrased in label space (original units) or in the internally scaled space.
     Density, cumulative distribution, quantiles and likelihood of the same object never contradict each other.''',
     ['inputs'], 'all fitted, merged, restricted, point-mass numeric distributions (scaled or not) and all query sets',
     'Tests check single probabilities on a fixed distribution; scaling, point masses at interval ends and unions interact.',
     [NUM, DUT], [('p/_p, pdf, cdf', NUM), ('label/value scaling', DUT + ': DataScaler')],
     tech='CDF-difference oracle and metamorphic additivity on generated distributions')

prop('D02', 'Discrete distributions are exact finite probability spaces',
     '''Integer, symbolic and Boolean distributions assign every subset of their labels the sum of the probabilities of its elements;
     fitting from data yields the relative frequencies, restricting yields the conditional distribution, merging the weighted
     mixture, updating the equivalent of refitting, and setting the probability of a Boolean value its complement, too. Restrictions to impossible label sets are refused as unsatisfiable, and none of
     these operations modifies its operands.''',
     ['inputs', 'histories'], 'all finite label domains, parameter vectors incl. zeros, label sets, and chains of operations',
     'Tests fix three-label domains and single operations; zero-probability labels and chained operations are not sampled.',
     [INT, MUL, DIS], [('integer', INT), ('symbolic and Boolean', MUL)],
     tech='finite probability-space model over generated domains and operation chains')

prop('D03', 'Expectation, variance and moments are those of the distribution',
     '''The expectation, variance and every central moment reported for a distribution equal those of the probability space it
     describes, in label space as well as in value space; for numeric distributions they are the integrals against its
     density, for point masses the exact values.''',
     ['inputs'], 'all numeric, scaled, integer distributions and moment orders with arbitrary centers',
     'Only a handful of moments of uniform-like fixed distributions are compared today.',
     [NUM, INT, MUL], [('moment/expectation/variance', NUM + '; ' + INT)],
     tech='independent numeric integration / summation as oracle')

prop('D04', 'Most probable explanations of a distribution are its true maximisers',
     '''The most probable explanation of a univariate distribution contains exactly the values of maximal likelihood together with
     that likelihood. The k-best enumeration lists disjoint sets with strictly decreasing likelihoods, starts with the
     most probable explanation, covers every value of positive likelihood when exhausted, and assigns each listed set the likelihood its members have.''',
     ['inputs'], 'all univariate distributions, with ties and zero-likelihood regions, and all k',
     'Tests list a few expected answers; ties between non-adjacent regions are rare in them.',
     [NUM, INT, MUL, FN], [('mpe/k_mpe', NUM + '; ' + INT + '; ' + MUL), ('maximisation', FN + ': maximize')],
     tech='brute-force argmax / enumeration oracle with generated ties')

prop('D05', 'Samples come from the distribution they are drawn from',
     '''Every value sampled from a distribution or model (with or without conditions) lies in its support and satisfies the given
     conditions, the requested number of samples is returned, and over many draws the frequencies of events match their
     probabilities. Weighted element sampling never returns an element of weight zero.''',
     ['inputs', 'histories'], 'all distributions and models, seeds and sample sizes',
     'The tests draw samples but hardly check support or frequencies.',
     [NUM, INT, MUL, QU, SMP, TRE], [('sampling', SMP + '; ' + NUM + '; ' + TRE + ': sample')],
     tech='support invariant plus goodness-of-fit bounds over generated distributions and seeds')

prop('D06', 'Sums of independent variables are convolutions',
     '''The distribution of the sum of independent integer (or numeric) variables equals the convolution of their distributions: its domain is
     the set of all sums, every sum has the total probability of the pairs producing it, and for numeric variables probabilities
     agree with the exact convolution integral.''',
     ['inputs'], 'all pairs and lists of distributions with finite domains / bounded support',
     'Tests add two fixed dice-like distributions.',
     [INT, NUM, FN], [('addition', INT + ': add; ' + NUM + ': __add__; ' + FN + ': convolution')],
     tech='exact convolution oracle on generated distributions')

prop('V01', 'Label space and value space correspond one to one',
     '''For every variable, translating labels to internal values and back (single labels, sets, intervals, assignments) returns the
     original, values outside the domain are rejected, and the translation preserves order for numeric and integer variables.
     An assignment translated between label and value form describes the same event.''',
     ['inputs'], 'all numeric (scaled), integer, symbolic and Boolean domains and all labels/sets of labels',
     'Tests translate single values for fixed domains.',
     [VAR, DIS, NUM, INT, MUL, DUT], [('label2value/value2label', NUM + '; ' + INT + '; ' + MUL), ('assignments', VAR)],
     tech='inverse-function oracle over generated domains')

prop('V02', 'Variable maps and assignments behave like dictionaries over variables',
     '''Whatever sequence of insertions, deletions, updates, copies, merges and set-difference operations is applied, a variable map or assignment holds exactly
     the entries an ordinary dictionary keyed by variable name would hold, addressed equally by variable or name, and a copy evolves independently of
     its source. Assigning a variable the map does not know, or a value that a symbolic or numeric variable cannot take, is rejected without altering the map; JSON and
     pickle round trips preserve it.''',
     ['histories'], 'all operation sequences on maps over generated variable sets',
     'Tests perform a few fixed steps each; long histories with copies are not explored.',
     [VAR], [('VariableMap, LabelAssignment, ValueAssignment', VAR)],
     tech='stateful model-based testing against a dictionary')

prop('V03', 'Equivalent spellings of a query mean the same event',
     '''Binding a query given as keyword arguments, dictionary, numbers, lists, sets, intervals or already bound assignments yields the same
     event and hence the same probabilities; unknown variables and labels outside the domain are rejected with an error.
     Inputs are never modified.''',
     ['inputs'], 'all queries in all accepted spellings on generated models',
     'Tests bind a few fixed queries in one spelling each.',
     [TRE, VAR, UTL], [('query binding', TRE + ': bind'), ('interval normalisation', UTL + ': list2interval, list2intset')],
     tech='metamorphic: different spellings, one reference event')

prop('T01', 'A learned tree is a correct partition of its training data',
     '''Whatever the data and hyper-parameters, the leaves of a learned model partition the training rows and the input space: every row reaches exactly one leaf, leaf priors
     are the shares of rows and sum to one, and every leaf and every prior distribution is the one fitted to exactly
     its rows; where leaf regions are closed up against each other, only the region borders and the minimal mass 1/(2n) placed on them are added.
     Leaf size and depth limits given to the learner are respected.''',
     ['inputs', 'configurations'], 'all mixed-type data sets (ties, constants, tiny samples) and hyper-parameters',
     'Tests learn from a few fixed data sets and look at single predictions.',
     [TRE, IMP], [('induction', TRE + ': learn, c45'), ('split search', IMP)],
     tech='re-derivation of every leaf from the rows on generated data sets')

prop('T02', 'Every split is the best admissible split',
     '''At every inner node the chosen split has the maximal impurity improvement among all admissible single-feature splits of the node's
     rows (each side at least the minimum leaf size), as defined by normalised variance and Gini reduction over the target variables the feature is declared to influence.
     A node is left unsplit exactly when no admissible split reaches the required improvement or a limit forbids it.''',
     ['inputs', 'configurations'], 'all mixed data matrices, target/feature subsets, dependency restrictions and leaf sizes',
     'Tests compare a few splits on fixed matrices; ties, constants and mixed targets are not enumerated.',
     [IMP, TRE], [('compute_best_split', IMP)],
     tech='brute-force split search as oracle')

prop('T03', 'Learning is deterministic and independent of input format and row order',
     '''Learning from the same data twice, from a data frame, from rows or from columns, yields
     the same model; permuting the rows leaves the represented distribution unchanged whenever best splits are unique. Learning never modifies
     the data or the variables passed in.''',
     ['inputs', 'configurations'], 'all mixed data sets, formats and permutations',
     'Tests always use one format and one order.',
     [TRE, IMP, VAR], [('preprocessing', TRE + ': _preprocess_data'), ('induction', TRE + ': learn')],
     tech='metamorphic relations between learning runs')

prop('I01', 'Inferred probabilities form one coherent probability measure',
     '''The probability of a query given evidence always equals the ratio of the probability of query-and-evidence to that of the evidence,
     both computed as prior-weighted sums over the leaves of products of the leaf distributions' probabilities. It lies in [0, 1], is additive over
     disjoint queries, 1 for certain events, monotone, independent of the order in which variables are listed, and evidence of probability zero is reported as unsatisfiable.''',
     ['inputs'], 'all learned models, queries and evidence incl. overlapping, boundary and impossible ones',
     'Tests evaluate a few queries on fixed models.',
     [TRE], [('infer', TRE + ': JPT.infer, Leaf.probability')],
     tech='leaf-sum reference model and probability axioms on generated models and queries')

prop('I02', 'Posterior distributions and conditional models agree with inference',
     '''The posterior distribution of a variable given evidence assigns every event the conditional probability inference computes,
     and the model conditioned on the evidence answers every query (probability, posterior, expectation) as the original does
     with that evidence added. Conditioning yields normalised priors and is refused when the evidence is impossible.''',
     ['inputs'], 'all models, evidence and subsequent queries',
     'Tests compare a few posteriors on fixed models with plausibility bounds only.',
     [TRE, NUM, INT, MUL], [('posterior', TRE + ': posterior'), ('conditional_jpt', TRE)],
     tech='differential: posterior vs conditional model vs ratio of joint probabilities')

prop('I03', 'Most probable explanations of a model are true maximisers',
     '''The most probable explanation of a model given evidence attains the maximal prior-weighted likelihood any leaf gives to an assignment consistent with
     the evidence, every returned assignment has exactly that likelihood, and all equally likely leaf maxima are returned. The k-best enumeration yields assignments in non-increasing order of likelihood, without duplicates or
     omissions among the k best regions, and impossible evidence is refused.''',
     ['inputs'], 'all models, evidence and k, incl. ties',
     'Tests solve a few fixed instances; ties and pruning order depend on the instance.',
     [TRE, MPE], [('mpe/kmpe', TRE), ('branch and bound', MPE)],
     tech='exhaustive enumeration over leaf regions as oracle')

prop('I04', 'Expectations and moments of a model follow from its mixture',
     '''The expectation (or moment) of a numeric or integer variable given evidence equals the posterior-weighted mean over the
     leaves consistent with the evidence, equals that of the posterior distribution, and for symbolic variables the expected label is
     a most probable one. Impossible evidence is refused or reported as unsatisfiable.''',
     ['inputs'], 'all models, variables and evidence',
     'Tests compare a few expectations on fixed data.',
     [TRE], [('expectation, moment', TRE)],
     tech='mixture-of-leaves oracle on generated models')

prop('I05', 'Likelihood, density and leaf assignment are those of the leaf mixture',
     '''The likelihood of a data row (and the density of a full assignment) is the prior-weighted sum over the leaves of the products of their per-variable densities,
     with rows outside all supports getting zero; bulk evaluation equals row-by-row evaluation in any order.
     Encoding assigns every row to a leaf whose region contains it; the leaves an event applies to are those whose region meets it.''',
     ['inputs'], 'all models and rows, incl. boundary values, unseen values',
     'Tests check positivity of training rows on fixed data.',
     [TRE], [('likelihood, pdf, encode, apply', TRE)],
     tech='leaf-mixture oracle, row-by-row differential')

prop('I06', 'Answering queries never changes a model or its inputs',
     '''Whatever sequence of queries (probability, posterior, explanation, expectation, conditioning, sampling, serialisation, printing) is
     asked of a model, repeating an earlier query gives the earlier answer, and model, derived models and query objects remain
     unchanged.''',
     ['histories'], 'all query sequences on generated models',
     'Tests ask each query once on a fresh fixture.',
     [TRE, NUM, INT, MUL, MPE], [('copying discipline', TRE + ': conditional_jpt, posterior'), ('restriction copies', NUM + ': crop')],
     tech='stateful: random query histories with replay of earlier answers')

prop('P01', 'Models and distributions survive persistence unchanged',
     '''A model, variable or univariate distribution restored from JSON (text included), pickle, file (either format) or a deep copy equals the original and
     answers every query with the same result; settings, hyper-parameters and priors are preserved. Restoring
     is idempotent: saving the restored model yields the same document. Models compare equal exactly if they agree in
     variables, settings and learned parameters, and never to other objects.''',
     ['inputs', 'configurations'], 'all learned models and their variables over generated schemas',
     'Tests round-trip a few fixed models and compare only equality.',
     [TRE, VAR, NUM, INT, MUL], [('to_json/from_json, save/load', TRE), ('variables', VAR)],
     tech='round-trip plus behavioural differential on generated models')

prop('M01', 'Re-weighting and pruning a model keep it a valid distribution',
     '''After re-weighting the leaves, post-processing, pruning or normalising, leaf priors are non-negative and sum to one, the
     tree still covers the input space, pruned leaves are merged into the weighted mixture of what they replace, and the source model is unchanged unless the operation
     is documented as in-place. Variables' marginal distributions are preserved by pruning.''',
     ['inputs', 'histories'], 'all models, prior vectors and pruning thresholds',
     'Tests call each operation once on a fixed model.',
     [TRE], [('multiply_by_leaf_prior, prune, normalize, postprocess', TRE)],
     tech='mixture-equality and normalisation invariants on generated models')

prop('M02', 'Similarity and divergence measures obey their axioms',
     '''The similarity of a distribution (or model) with itself is maximal and the measures are symmetric where they claim to be, bounded in
     their documented range, and zero divergence holds for identical distributions. The divergence equals the expected absolute difference of the densities
     (or probabilities), the similarity of symbolic distributions their shared mass over their joint mass; all are invariant under persistence.''',
     ['inputs'], 'all pairs of distributions over the same domain',
     'Tests compare two or three fixed pairs.',
     [NUM, INT, MUL, FN, DIS], [('jaccard similarity, KL divergence', NUM + '; ' + MUL + '; ' + FN)],
     tech='axioms and direct recomputation on generated pairs')

prop('X01', 'Sequential marginals equal exact inference on the leaf chain',
     '''For a sequence of evidence of any length, the independent marginals of a sequential model are, per time step, models whose priors equal the exact forward-backward
     marginals of the leaf chain: one factor per transition holding the transition weights and one per step holding the probability each
     leaf assigns to that step's evidence (each counted once). Every step's model is conditioned on that step's evidence; impossible sequences are refused.
     The fitted transition weights are the shares of the pairs of leaves consecutive rows of a sequence fall into, never across sequences.
     Restoring a sequential model from JSON leaves its answers unchanged.''',
     ['inputs'], 'all learned sequential models and evidence sequences (length >= 1)',
     'One test fits one sine sequence and checks little.',
     [SEQ, TRE], [('factor graph grounding', SEQ + ': ground'), ('marginals', SEQ + ': independent_marginals')],
     tech='forward-backward oracle on generated sequences')

prop('U01', 'Utility containers and numeric helpers behave like their models',
     '''Under any sequence of operations the priority queue returns its items in key order and holds exactly what was pushed and not removed;
     the array sort returns the ascending permutation of its input and applies the same permutation to the index array;
     normalisation returns non-negative weights with sum one and the same proportions, and set/range formatting round-trips.''',
     ['inputs', 'histories'], 'all operation sequences, arrays (ties, sorted, adversarial) and weight vectors',
     'Tests exercise a few pushes and a few arrays.',
     [UTL, CUT], [('Heap', UTL), ('introsort', CUT + ', cutils.pxd')],
     tech='stateful comparison with sorted lists, differential against numpy')

prop('E01', 'Impossible evidence is reported uniformly and precisely',
     '''For evidence of probability zero every reasoning task (probability, posterior, expectation, explanation, conditioning) either raises the
     unsatisfiability error or, if asked not to fail, returns its documented empty answer; evidence of positive probability is never
     reported as impossible. The conflict explanation attached to the error accounts for every leaf the evidence reaches: it names the conditions impossible in
     it, in decreasing order of the likelihood of the others.''',
     ['inputs'], 'all models and evidence of probability zero or barely positive',
     'Tests use one impossible query each for a few tasks.',
     [TRE, ERR, NUM, INT, MUL], [('Unsatisfiability', ERR), ('unsatisfiability handling', TRE)],
     tech='differential across tasks against the leaf-sum probability')

prop('V04', 'Variables inferred from a data frame describe its columns',
     '''Inferring variables from a data frame yields one variable per column, in order and under its name. Text columns become symbolic
     variables whose labels are exactly the values that occur, Boolean ones Boolean variables, integer ones integer variables
     spanning exactly minimum to maximum, and floating point ones numeric variables, scaled by an increasing finite affine map
     unless scaling is turned off; missing and infinite values do not affect that map if their removal is requested. Domains given by the user are taken as they
     are and determine the kind of variable, the given settings reach every variable they apply to, unique domain names differ between
     calls, columns of other types are refused, the frame is not modified, and the variables can be stored as JSON and learned from.''',
     ['inputs'], 'all data frames over the supported column types, with missing values, user-provided domains and all options',
     'The tests check domain names of two small frames.',
     [VAR], [('infer_from_dataframe', VAR), ('DataScaler', DUT)],
     tech='reference description of every generated column, metamorphic relation for missing values')

prop('V05', 'Printed assignments, paths and trees denote what they print',
     '''The text of a variable assignment, in set as well as in logical notation, names exactly the labels assigned: every interval
     with its bounds (to the requested number of decimals), their openness and infinite ends, every integer or symbol, no others. The
     printed edges of a tree name its splits, the printed path of a leaf the region of the leaf, and the
     printed model shows every node once at its depth together with the right counts. Printing modifies nothing.''',
     ['inputs'], 'all assignments of all kinds of variables and all learned trees',
     'The tests print six assignments of unscaled variables.',
     [VAR, TRE, UTL], [('Variable.str', VAR), ('DecisionNode.str_edge, Node.format_path, JPT.pfmt', TRE), ('setstr_int, mapstr, format_path', UTL)],
     tech='parsing the printed text back and comparing it with the assignment')
