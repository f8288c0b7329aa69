"""Single table of properties; writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=True,
         reason=None, observe=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, claim=claim,
                  reason=reason, observe=observe or [], note=note))


I, HI, C, S = ['inputs'], ['inputs', 'histories'], \
    ['inputs', 'configurations'], ['schedules']
PR = 'src/primitives/'

prop('C01', 'Primitive predictive densities equal the documented Bayesian model',
     'For every built-in collapsed distribution, the density reported for a new observation given any data incorporated so far equals the posterior predictive of the documented prior and likelihood, and equals the change in marginal log likelihood when that observation is then incorporated. The marginal likelihood of no data is zero in log space, the marginal of any data is the sum of sequential predictives, and replacing the hyperparameters takes effect on all of these immediately.',
     HI, 'all hyperparameter values, all data sets up to the stated size, all query points',
     'Tests compare a handful of numbers on sampled data; a wrong sufficient statistic or posterior update shows only for particular combinations of hyperparameters and histories.',
     [PR + f for f in ('bernoulli.py', 'categorical.py', 'crp.py', 'exponential.py', 'geometric.py', 'poisson.py', 'normal.py', 'lognormal.py', 'vonmises.py')],
     [('calc_predictive_logp / calc_logpdf_marginal / posterior_hypers', PR + '*.py')])
prop('C02', 'Incorporate and unincorporate are exact inverses in any order',
     'Observations can be added to and removed from any built-in distribution in any order, and every later density, marginal likelihood and reported statistic depends only on the set of observations currently held. A rejected observation (outside the support, or a row already present) raises an error and leaves the model exactly as it was, and removing a row that is not present is an error.',
     HI, 'all interleavings of additions and removals up to the stated length, all values',
     'Tests add and remove a few fixed rows; order and partial-failure histories are unbounded in number.',
     [PR + f for f in ('bernoulli.py', 'categorical.py', 'crp.py', 'exponential.py', 'geometric.py', 'poisson.py', 'normal.py', 'lognormal.py', 'vonmises.py')],
     [('incorporate / unincorporate', PR + '*.py')])
prop('C03', 'Simulated values follow exactly the reported density',
     'For every built-in distribution the law of simulate for a fresh row is exactly the one whose density logpdf reports, for every state of the data and hyperparameters. Simulating a row that has been observed returns its stored value, and asking for N samples returns a list of N such draws.',
     HI, 'all data sets and hyperparameters in the bounds; all outcomes of the random source',
     'A test can only compare an empirical histogram with a density up to sampling error, at a few parameter values.',
     [PR + 'distribution.py'] + [PR + f for f in ('bernoulli.py', 'categorical.py', 'crp.py', 'exponential.py', 'geometric.py', 'poisson.py', 'normal.py', 'lognormal.py', 'vonmises.py')],
     [('simulate / sample_parameters', PR + '*.py'), ('simulate_many wrapper', 'src/utils/general.py')])
prop('C04', 'Densities are normalised and vanish outside the support',
     'Every built-in distribution assigns probabilities that sum or integrate to one over its support given any data, reports minus infinity for values outside the support, and refuses to incorporate such values with a ValueError.',
     HI, 'all data sets and hyperparameters in the bounds, all values in and out of the support',
     'Tests check normalisation numerically at default hyperparameters only.',
     [PR + '*.py'], [('support guards in logpdf and incorporate', PR + '*.py')])
prop('C05', 'Hyperparameter transitions sample the exact grid conditional',
     'A hyperparameter transition redraws one hyperparameter at a time from its grid with probability proportional to the total marginal likelihood of all clusters under the candidate value, others held fixed. The chosen value is applied to every cluster, existing and later created, and the hyperparameters a column reports are those its clusters use; grids contain only valid values for the data.',
     HI, 'all data, all partitions into clusters and all grids within the bounds; all random outcomes',
     'A wrong conditional leaves every output plausible; only the exact transition probabilities reveal it.',
     ['src/mixtures/dim.py', 'src/utils/general.py', PR + '*.py'],
     [('Dim.transition_hypers and hyper grids', 'src/mixtures/dim.py'), ('construct_hyper_grids', PR + '*.py')])
prop('C06', 'Log-space and sampling utilities compute what their names say',
     'Log-sum-exp, log-mean-exp, normalisation and weighted coin flips agree with exact arithmetic on every list of finite or minus-infinite log weights, are invariant to shifting all log weights by a constant where they should be, and select each element with exactly its normalised probability.',
     I, 'all lists of weights up to the stated length, all random outcomes',
     'Tests use a few lists; sampling tests cannot resolve exact probabilities.',
     ['src/utils/general.py'], [('logsumexp, logmeanexp, log_normalize, normalize, pflip, log_pflip, log_linspace', 'src/utils/general.py')])
prop('C07', 'The Chinese restaurant process helpers agree with each other',
     'The probability of a partition, the sequential seating probabilities, the Gibbs conditionals and the partition simulator all describe the same exchangeable process for every concentration parameter. Gibbs weights for a row equal the conditional probability of its table given all other rows, including when the row is alone at its table and for any number of auxiliary tables.',
     HI, 'all partitions of up to the stated number of rows, all concentrations, all numbers of auxiliary tables',
     'Tests compare two helpers on a few partitions.',
     ['src/utils/general.py', PR + 'crp.py'],
     [('logp_crp, logp_crp_gibbs, logp_crp_fresh, simulate_crp', 'src/utils/general.py'), ('gibbs_logps, gibbs_tables', PR + 'crp.py')])
prop('C08', 'Constrained partitions respect every dependence constraint',
     'A partition drawn under dependence and independence constraints always satisfies all of them, validation accepts exactly the satisfiable constraint sets, and the reported log probability of a constrained partition equals the probability with which the constrained simulator produces it. The same holds of the column partition of a model built under such constraints, whatever its columns are called.',
     C, 'all constraint sets over up to the stated number of columns, all random outcomes',
     'Constraint sets are combinatorial; tests use a few.',
     ['src/utils/general.py', 'src/utils/validation.py'],
     [('simulate_crp_constrained, logp_crp_constrained_dependent, validate_crp_constrained_input', 'src/utils/general.py')])
prop('C10', 'A column mixes its clusters and accounts for every row',
     'A column assigns each observed row to one cluster; the density of a value in a cluster is that cluster\'s predictive density given exactly the values of the rows in it, a new cluster uses the prior, and the column score is the sum of the cluster marginals. Moving or removing rows keeps this true, missing values occupy a row without contributing to any cluster, and a cluster emptied of rows behaves as a new one.',
     HI, 'all histories of additions, removals and moves within the bounds, with and without missing values',
     'History dependent: bookkeeping bugs need a specific order of moves and missing values.',
     ['src/mixtures/dim.py'], [('Dim.incorporate/unincorporate/logpdf/logpdf_score', 'src/mixtures/dim.py')])
prop('C11', 'A view keeps rows, clusters and columns consistent',
     'In every reachable view, each row has exactly one cluster, the cluster process and every column agree on the assignment, and the sufficient statistics of every cluster are those of the rows assigned to it, whatever sequence of row additions, removals, column additions, column removals and transitions led there. Failed operations do not break this.',
     HI, 'all operation sequences up to the stated length',
     'The invariant quantifies over histories; tests run a few.',
     ['src/mixtures/view.py', 'src/mixtures/dim.py'], [('View.incorporate/unincorporate/incorporate_dim/_migrate_row', 'src/mixtures/view.py')])
prop('C12', 'View densities and samples are those of the cluster mixture',
     'The joint density of cells of an unobserved row equals the mixture over existing clusters and a fresh one, weighted by the cluster process, of products of column predictives; conditioning divides by the density of the conditions; an observed row uses its own cluster. Samples from simulate follow exactly that density for any targets, conditions and number of samples.',
     HI, 'all small data sets, partitions, hyperparameters and query shapes in the bounds; all random outcomes',
     'Query shapes, data and randomness together are unbounded, and sampled tests only see large errors.',
     ['src/mixtures/view.py'], [('View.logpdf, View._logpdf_*, View.simulate', 'src/mixtures/view.py')])
prop('C13', 'Row reassignment samples the exact Gibbs conditional',
     'When a row is reassigned, each existing cluster and the fresh cluster is chosen with probability proportional to the joint score of the view with the row there (for an uncollapsed column, the density of its cell under the parameters the cluster has and keeps). The state afterwards is exactly the state with that row moved.',
     HI, 'all small data sets and partitions, all random outcomes',
     'A slightly wrong conditional still yields plausible states.',
     ['src/mixtures/view.py', PR + 'crp.py'], [('View._gibbs_transition_row', 'src/mixtures/view.py')])
prop('C14', 'The column partition and view contents stay consistent',
     'In every reachable crosscat state, each column belongs to exactly one view, every view holds exactly its columns and all rows, no view is empty, and reported partitions and assignments agree with the contents, whatever sequence of operations and transitions led there. Dependence constraints hold at all times.',
     HI, 'all operation sequences up to the stated length', 'The invariant quantifies over histories.',
     ['src/crosscat/state.py'], [('State._gibbs_transition_dim, _migrate_dim, incorporate_dim, unincorporate_dim', 'src/crosscat/state.py')])
prop('C15', 'Column reassignment samples the exact Gibbs conditional',
     'When a column is reassigned, each existing view and the proposed fresh views are chosen with probability proportional to the column-process weight times the marginal likelihood of the column under that view\'s row partition; an uncollapsed column is scored under the parameters it has where it is and those proposed elsewhere, which go with it. Constrained columns are never moved into conflict.',
     HI, 'all small states, all random outcomes', 'A slightly wrong conditional still yields plausible states.',
     ['src/crosscat/state.py'], [('State._gibbs_transition_dim, _gibbs_transition_cgpm', 'src/crosscat/state.py')])
prop('C16', 'Crosscat densities obey probability calculus across views',
     'The joint density of any targets factorises over views, conditional densities equal the joint divided by the density of the conditions, observed cells of the row are conditioned on, and the fast path gives the same answer as the general composed-network path.',
     HI, 'all small states and query shapes', 'Query shapes and states are unbounded.',
     ['src/crosscat/state.py', 'src/crosscat/sampling.py', 'src/network/importance.py'],
     [('State.logpdf and sampling.state_logpdf', 'src/crosscat/state.py')])
prop('C17', 'Crosscat samples follow the reported density',
     'Simulating any targets under any conditions from a crosscat state yields exactly the conditional distribution whose density the same state reports, for fresh and for existing rows, through the fast path and the composed path, and with any number of samples.',
     HI, 'all small states and query shapes, all random outcomes', 'Sampling tests only see large errors.',
     ['src/crosscat/state.py', 'src/crosscat/sampling.py'], [('State.simulate and sampling.state_simulate', 'src/crosscat/sampling.py')])
prop('C18', 'Crosscat data edits behave like building the edited table',
     'Adding, removing and overwriting rows and cells, adding or removing columns and changing a column\'s type leave a state whose stored data, densities and scores are those of the edited table under the same partitions. Rejected edits raise and change nothing.',
     HI, 'all edit sequences up to the stated length', 'History dependent.',
     ['src/crosscat/state.py', 'src/mixtures/view.py'], [('State.incorporate, unincorporate, force_cell, incorporate_dim, unincorporate_dim, update_cctype', 'src/crosscat/state.py')])
prop('C19', 'Malformed queries are rejected and well-formed ones accepted',
     'A query to a crosscat state or a single distribution is rejected with an error when it repeats a target, makes a variable both target and condition, names an unknown variable, lacks a required input, asks the density of an observed cell, or has a condition contradicting an observed cell; every other query is answered. Rejection changes nothing.',
     I, 'all query shapes over a small model', 'Query shapes are combinatorial.',
     ['src/utils/validation.py', 'src/crosscat/state.py', 'src/mixtures/view.py'], [('query validation', 'src/utils/validation.py')])
prop('C20', 'Serialising and restoring a model preserves every answer',
     'Restoring a crosscat state, view, ensemble, linear regression or bundled model from its metadata (directly, through JSON, or pickled) yields one with the same variables, data, partitions, hyperparameters, constraints and attached models, and the same answer to every density query. Restoring twice is the same as once, edits of and inference on the copy do not reach the original nor the other way round, and metadata, once made, stays as it was.',
     HI, 'all small models', 'Every state must round-trip, tests check a few.',
     ['src/crosscat/state.py', 'src/crosscat/engine.py', 'src/mixtures/view.py', 'src/regressions/linreg.py'], [('to_metadata / from_metadata', 'src/**')])
prop('C21', 'An ensemble answers queries as a likelihood-weighted mixture',
     'An engine\'s per-state answers are those of its individual states, ensemble densities weight states by the likelihood of the conditions, ensemble samples choose states with those weights, and every edit reaches every state.',
     HI, 'all small ensembles and weights, all random outcomes', 'Weighting errors are invisible to sampled tests.',
     ['src/crosscat/engine.py'], [('Engine._likelihood_weighted_*, _process_*', 'src/crosscat/engine.py')])
prop('C22', 'Composed networks weight samples by the evidence exactly once',
     'In a network of models, forward samples follow the product of conditionals, each importance weight is the product of the densities of the evidence given its parents, and unconstrained and complete queries give the exact joint density. Answers do not depend on the order in which the models are listed, and cyclic or overlapping networks are rejected.',
     C, 'all small networks, orders and query shapes, all random outcomes', 'Topologies and query shapes are combinatorial.',
     ['src/network/importance.py', 'src/network/helpers.py'], [('ImportanceNetwork.weighted_samples, topological_sort, retrieve_required_inputs', 'src/network')])
prop('C23', 'Dependence, similarity and relevance match the partitions',
     'Dependence probability is one exactly for columns in one view, is symmetric, and never falls below reality for composed models; row similarity is the average over the views of shared cluster membership; relevance equals its definition in terms of marginal likelihoods. The ensemble versions are the per-state values in order.',
     HI, 'all small partitions and data', 'Partitions are combinatorial.',
     ['src/crosscat/state.py', 'src/crosscat/engine.py', 'src/mixtures/relevance.py', 'src/mixtures/view.py'], [('dependence_probability, row_similarity, relevance_probability', 'src/crosscat/state.py')], claim=True)
prop('C24', 'Mutual information estimates average the right log ratio',
     'The mutual information estimator is an unbiased average: over the random source, its mean is exactly the conditional mutual information (or entropy) of the density the state itself reports, with fixed conditions held throughout and marginalised conditions averaged given them, and its spread is that of the requested number of independent terms; it is zero for columns that are independent in the model, and the ensemble version is the per-state list.',
     C, 'all small models and query shapes, all random outcomes', 'An estimator bug is hidden in Monte Carlo noise.',
     ['src/crosscat/state.py', 'src/crosscat/engine.py'], [('State.mutual_information', 'src/crosscat/state.py')], claim=True)
prop('C25', 'Linear regression is the exact conjugate Bayesian posterior',
     'The linear regression model reports densities equal to the ratio of marginal likelihoods, independent of the order of data, exactly undone by removal, with categorical inputs expanded consistently; simulation uses the same posterior.',
     HI, 'all small data sets and hyperparameters', 'Matrix algebra errors show only for particular data.',
     ['src/regressions/linreg.py', 'src/utils/data.py'], [('LinearRegression.*', 'src/regressions/linreg.py')], claim=True)
prop('C26', 'Regression and forest models keep exact row accounting',
     'The forest and least-squares models hold exactly the rows added and not removed (removal undoes addition, malformed rows are rejected without effect), refit on exactly those rows, treat unseen or missing inputs consistently, report densities normalised over the output that depend only on the held rows, draw samples from the reported forest probabilities, and survive a save and restore.',
     HI, 'all histories up to the stated length', 'History dependent.',
     ['src/regressions/forest.py', 'src/regressions/ols.py'], [('RandomForest.incorporate/unincorporate/logpdf, OrdinaryLeastSquares.*', 'src/regressions')], claim=True)
prop('C27', 'Factor analysis answers Gaussian queries exactly',
     'Conditional means and covariances of a multivariate normal equal the textbook formulas, its log density is that of the normal and its gradient the derivative of that density, and factor-analysis densities and samples for any subset of observed and latent variables given any others (including the cells of a held row) are those of its joint Gaussian, with exactly the added and not removed rows held, scored and used for learning.',
     I, 'all matrices and vectors of the stated dimensions', 'Tests compare a few random matrices.',
     ['src/utils/mvnormal.py', 'src/factor/factor.py'], [('logpdf, conditional, FactorAnalysis.simulate/logpdf', 'src/factor/factor.py')], claim=True)
prop('C28', 'Kernel density conditionals are joint over marginal',
     'The kernel density model reports the product-kernel density over the rows that hold all the variables of the query, with categorical kernels over the declared categories so that densities sum to one: conditional densities equal joint divided by marginal, samples follow the reported density, a stored row conditions on its own other cells, and everything depends only on the rows currently held, also after saving and restoring. Malformed calls are rejected without effect.',
     HI, 'all small data sets and queries', 'Data and query dependent.',
     ['src/kde/mvkde.py'], [('MultivariateKde.logpdf/simulate', 'src/kde/mvkde.py')], claim=True)
prop('C29', 'Nearest-neighbour queries use exactly the K nearest rows',
     'Nearest neighbour densities and samples are built from exactly the K rows nearest in the given variables among rows with all needed values (rows equally far at the boundary chosen uniformly, strictly nearer rows always used), each with the local model of its M nearest rows in all the variables of the query, mixed uniformly. Sampled values follow the reported density, a query with nothing given resamples held rows, a stored row conditions on its own other cells, and the model depends only on the rows currently held, also after saving and restoring. Malformed calls are rejected without effect.',
     HI, 'all small data sets and queries', 'Data and query dependent.',
     ['src/knn/mvknn.py'], [('MultivariateKnn._find_neighborhoods', 'src/knn/mvknn.py')], claim=True)
prop('C30', 'Markov chain samplers leave their target distribution invariant',
     'Each generic sampler leaves the requested log density invariant: Metropolis proposals are symmetric and are accepted with probability min(1, ratio of densities), every slice move has a reverse move of the same weight, and rejection samples come from the target and not the envelope. No sample leaves the declared domain, whatever its ends, the points returned are the states of one chain after burn-in at the requested lag, and a start outside the domain is refused.',
     I, 'all target values and random outcomes along a bounded run', 'Invariance is a statement about probabilities, not samples.',
     ['src/utils/sampling.py'], [('mh_sample, slice_sample, rejection_sampling', 'src/utils/sampling.py')])
prop('C31', 'Uncollapsed distributions report the densities of their parameters',
     'The uncollapsed beta and truncated normal report the exact density of their current parameters on their support and minus infinity off it, their score is the sum of the densities of the rows held plus the prior of the parameters after any history of additions and removals, they sample from that density and never outside the support, parameters given at construction (zero included) are kept, and every parameter update is handed a target equal to the posterior given all data, up to a constant.',
     HI, 'all data and parameters in the bounds', 'Posterior targets are not observable in samples.',
     [PR + 'beta.py', PR + 'normal_trunc.py'], [('Beta.*, NormalTrunc.*', PR)])
prop('C32', 'Data coding helpers are lossless and consistent',
     'Encoding categorical inputs as indicators, guessing and parsing schemas from tables, parsing type declarations such as categorical(k=3), and resolving type names to classes map every valid value to its documented code, distinguish distinct values and reject invalid ones. The set, mapping, partition, log-probability and repeated-sampling helpers equal their definitions for every input.',
     I, 'all small inputs', 'Input shapes are combinatorial.',
     ['src/utils/data.py', 'src/utils/general.py', 'src/utils/config.py'], [('dummy_code, parse_schema, value_to_code', 'src/utils')])
prop('C33', 'Hand-written generative models are internally consistent',
     'The bundled two-variable and noise models follow their documented generative program: joint, marginal and conditional densities satisfy the product rule, discrete probabilities sum to one, conditions and inputs given are honoured, and samples follow those densities for every query shape they support.',
     I, 'all query points and parameters', 'Each query shape has its own code path.',
     ['src/dummy/fourway.py', 'src/dummy/piecewise.py', 'src/dummy/twoway.py', 'src/uncorrelated/*.py'], [('logpdf/simulate case analysis', 'src/dummy')])
prop('C34', 'Parallel map returns exactly what a sequential map would',
     'For every input list, worker count and order in which workers finish, the parallel map applies the function once to each input, returns the results in input order, raises to the caller when the function fails or its result cannot be sent back, never waits forever, and leaves no worker or channel behind.',
     ['schedules', 'inputs'], 'all completion orders of a bounded number of workers', 'The schedule is the quantifier; tests see one.',
     ['src/utils/parallel_map.py'], [('parallel_map, _process_input', 'src/utils/parallel_map.py')])
prop('C36', 'Programs in VentureScript hold exactly the recorded data',
     'A model backed by a VentureScript program holds one observation per recorded cell, at the row, inputs and value it was recorded with, and nothing else, after every sequence of calls, including calls that are refused and calls whose program fails; a contradicting or malformed call is refused before it touches the program; simulate draws each target from its own simulator at the inputs given while exactly the recorded data and the constraints are in force, and returns N draws when asked for N; inline expressions are scored and drawn at the inputs in declared order and leave the program as it was; a restored model holds, accepts and refuses what the saved one did.',
     HI, 'all small histories and all values, failures included', 'History dependent; the tests need an interpreter that is not there.',
     ['src/venturescript/vscgpm.py', 'src/venturescript/vsinline.py'], [('VsCGpm, InlineVsCGpm', 'src/venturescript')])
prop('C37', 'External inference back ends preserve data and adopt partitions',
     'Handing a state to an external inference engine (lovecat, loom) sends exactly its cells, types, hyperparameters, concentrations, dependence constraints and partitions as they are at that moment, with the options given; the state afterwards has exactly the partitions (and, for lovecat, concentrations) that came back, column by column and row by row, its data unchanged, and scores accordingly; options and columns the engine does not support are refused with nothing changed.',
     HI, 'all small states and returned partitions, all cell values', 'The translation must hold for every partition pair; the tests need libraries that are not there.',
     ['src/crosscat/lovecat.py', 'src/crosscat/loomcat.py', 'src/crosscat/state.py'], [('transition, transition_engine', 'src/crosscat/lovecat.py'), ('transition, transition_engine', 'src/crosscat/loomcat.py')])
prop('C38', 'Entropy estimators equal their published formulas',
     'The nearest-neighbour and plug-in estimators of entropy, (conditional) mutual information and divergence return the value of their published formula, in the base asked for, for every sample without ties, number of neighbours and dimension; too few samples are refused, the noise added against ties is negligible, and the shuffle test evaluates the measure on rearrangements of x alone.',
     I, 'all small samples', 'Values are data dependent.',
     ['src/utils/entropy_estimators.py'], [('entropy, mi, cmi, kldiv, micd, entropyd, midd, cmidd', 'src/utils/entropy_estimators.py')])
prop('C39', 'Inference runs exactly the requested kernels within its budget',
     'A call of transition on a state, a view or an ensemble runs exactly the kernels asked for (all of them in the default order when none are named), in the order given, for exactly the number of sweeps asked for, or starts no kernel once the time budget has passed, whichever comes first; each kernel touches exactly the columns, views and rows selected and leaves the others as they are; hooked models are moved only through their own call and only when one of their variables is asked for; the iteration counters equal the number of times each kernel ran, and a record of score, concentration and column partition is kept after every checkpoint, of the state at that moment; reporting progress changes nothing; a call naming columns or kernels that do not exist does nothing; an ensemble hands every option to each selected state once and leaves the others alone.',
     HI, 'all budgets, clock readings, kernel lists and selections within small models', 'The schedule depends on the clock; no test has a clock it controls.',
     ['src/crosscat/state.py', 'src/crosscat/engine.py', 'src/mixtures/view.py'], [('transition, _transition_generic, transition_foreign', 'src/crosscat/state.py'), ('Engine.transition', 'src/crosscat/engine.py'), ('View.transition', 'src/mixtures/view.py')])

TECH = 'symbolic execution of the real source with z3'
NOTE = ('Every path of the harnesses within the stated structural bounds is '
        'executed symbolically over the real translated source and each '
        'assertion is decided by z3 for all real/integer values in range; '
        'reals stand in for floats, special functions by their algebraic '
        'laws, random sources by enumerated outcomes with exact weights. '
        'Counterexamples are replayed with real numerics before reporting.')


def write():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'checks'))
            if f.startswith('c') and f[1:-3].isdigit()}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
    checks, na = [], []
    for p in P:
        if p['claim'] and p['id'] in have:
            checks.append({
                'property': p['id'],
                'quick_cmd': 'bin/check %s quick' % p['id'],
                'thorough_cmd': 'bin/check %s thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': TECH, 'level': 'model_checking',
                'level_note': p['note'] or NOTE})
        else:
            na.append({'property': p['id'],
                       'reason': p['reason'] or 'check not built yet'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': 'bin/setup',
            'checks': checks, 'not_applicable': na,
            'notes': 'No hooks in /repo: the checks translate /repo/src '
                     '(Python 2 source) afresh on every run.'},
            f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    write()
