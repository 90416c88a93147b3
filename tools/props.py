#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)

p('C01','Parallel map and apply give the serial result, visiting every element once',
 'Mapping or applying a user function over a vector, a matrix or a data set (by element, by row, by column, over names-bearing and multi-page data, with or without the index and parameter arguments) calls the function exactly once for each requested element, with that element\'s own data and index, and the output equals what a serial loop gives, for every number of threads and every interleaving. Sums over a map equal the sum of the individual results. Nothing outside the requested output is modified.',
 ['schedules','inputs','configurations'],'every thread count the runtime may grant (including 1 and more than the elements), every interleaving of the workers, every shape (including missing vector/matrix/weights), every part/inplace/all-pages option',
 'The test suite runs with one OpenMP thread on a handful of shapes; no test ever has two workers alive at once, so no interleaving is sampled at all.',
 ['apop_mapply.m4.c'],[('OMP_for work sharing over disjoint slots','apop_mapply.m4.c: rowloop, colloop, forloop, oldloops'),('per-thread row views','apop_mapply.m4.c: rowloop/colloop')],['calls received by the user function','returned data set / vector / scalar'])
p('C02','Every thread gets its own stable random number generator',
 'Asking for a thread\'s generator returns, for as long as the process lives, the same valid generator for the same thread number and different generators for different thread numbers, no matter how many threads ask for the first time at once and in which order. A generator handed out is never freed or moved while a caller holds it. The generators are seeded from successive values of the global seed, so generators never share a stream. A call that needs random numbers and is given no generator uses the generator of the thread it runs in, and no other.',
 ['schedules','histories'],'all interleavings of first and later requests from up to 12 threads, explicit and implicit thread numbers in any order, all seeds',
 'Tests are single threaded: the generator table never grows under a concurrent reader.',
 ['apop_asst.m4.c','apop_bootstrap.m4.c'],[('critical section around table growth','apop_asst.m4.c: apop_rng_get_thread_base'),('critical section around gsl_rng_env_setup','apop_bootstrap.m4.c: apop_rng_alloc')],['returned generator pointers and their streams'],[('rngs','array of per-thread generators','apop_asst.m4.c: apop_rng_get_thread_base')])
p('C03','Batch draws from a model are complete, reproducible and flag failures',
 'Drawing a data set of N rows from a model fills every row with one draw from the worker\'s own generator, consumes exactly N draws from the model, and for a given seed and number of threads gives the same data set under every interleaving. When some draws fail, exactly those rows are NaN and the output is marked with an error. The caller\'s model is not changed by it.',
 ['schedules','inputs','fault_sequences'],'all interleavings of the workers for 1..12 threads, all row counts (also fewer rows than threads), failing draws at any subset of rows',
 'Tests draw with one thread from models that never fail.',
 ['apop_asst.m4.c'],[('OMP_for over rows with per-thread generators','apop_asst.m4.c: apop_model_draws_base')],['returned data set, its error mark'])
p('C04','Function lookup tables behave as an atomic map under concurrent use',
 'Concurrent registrations, lookups and removals in the model-specific function tables behave as if each took effect at one instant between its call and its return, against a plain map keyed by table name and hash, where the first registration of a key wins until it is removed. Registering into one table never disturbs another. No use, in any interleaving, corrupts memory or leaves a caller waiting forever.',
 ['schedules','histories'],'all histories of add/get/drop from up to 6 threads on up to 6 tables, including first use of a table by several threads at once, keys known before and during the run',
 'Tests never touch the tables from two threads; every table is created and filled at first use by one thread.',
 ['apop_vtables.c'],[('per-table OpenMP lock','apop_vtables.c: lock/unlock'),('critical section for new tables','apop_vtables.c: add_vtable')],['return values of apop_vtable_add/get/drop'],[('vtable_list','array of tables','apop_vtables.c')])
p('C05','Concurrent draws from one shared model equal independent sequential draws',
 'When several threads draw at once from the same model object, each with its own generator, every thread receives exactly the sequence of draws it would have received alone from that model with that generator. This holds for every model whose draws do not depend on earlier draws, including the first draw, which may have to set up lookup tables, mixtures, kernels or default draw methods. No thread crashes, hangs or sees a half-built table.',
 ['schedules','inputs'],'all interleavings of up to 6 drawing threads on built-in models and transformations of them (normal, lognormal, gamma, beta, poisson, bernoulli, binomial, multinomial, multivariate normal, PMF, mixture, kernel density, cross product, coordinate transform, fixed parameters, uniform, exponential, t/F/chi-squared, dirichlet, yule, zipf)',
 'Tests draw sequentially.',
 ['model/apop_pmf.c','transform/apop_mixture.c','model/apop_kerneld.c','apop_model.m4.c','apop_arms.c','model/apop_normal.c','model/apop_multinomial.c','transform/apop_cross.c'],
 [('double-checked setup of the CMF','model/apop_pmf.c: draw'),('critical section around setup of mixture cumulative weights','transform/apop_mixture.c: mixture_draw'),('critical section for default MCMC setup','apop_model.m4.c: apop_draw')],['values drawn, return codes'])
p('C06','Harmonic sums are right and memory-safe under concurrent and repeated use',
 'The generalised harmonic number of N and s has the same value as the directly computed sum, whatever other values of N and s were asked for before, and whichever other threads are asking for other values at the same time. No call reads memory another call has freed.',
 ['schedules','histories','inputs'],'all interleavings and histories of requests (N,s) from up to 6 threads, growing and shrinking N, repeated and fresh s, and invalid N',
 'Tests call it in one thread with few arguments, so the shared cache is never extended under a reader.',
 ['apop_asst.m4.c','model/apop_zipf.c'],[('critical section around cache extension','apop_asst.m4.c: apop_generalized_harmonic')],['returned value'],[('eses/lengths/precalced','process-wide cache','apop_asst.m4.c: apop_generalized_harmonic')])
p('C07','Independent computations in different threads do not affect each other',
 'Computations on disjoint inputs run in different threads (estimating models, log likelihoods, predictions, cumulative densities, constraint checks, sorting, tests and table statistics, model transformations) give exactly the results they give when run alone, in any interleaving. None of them crashes, corrupts memory or deadlocks, including on first use in the process.',
 ['schedules','inputs','histories'],'all interleavings of up to 5 threads each running a random sequence of library computations on its own data',
 'Tests are single threaded, so state shared through static variables is never contended.',
 ['apop_linear_constraint.m4.c','apop_sort.m4.c','apop_regression.m4.c','apop_stats.m4.c','apop_fexact.c','apop_mle.m4.c','apop_model.m4.c','apop_settings.c','model/apop_ols.c','model/apop_probit.c','model/apop_bernoulli.c','model/apop_normal.c','model/apop_yule.c','model/apop_zipf.c','model/apop_t.c','model/apop_wishart.c','transform/apop_fix_params.c'],
 [('thread-local scratch state','apop_linear_constraint.m4.c, apop_sort.m4.c, apop_mle.m4.c'),('critical sections around code with static state','apop_fexact.c: apop_test_fisher_exact'),('per-table locks','apop_vtables.c')],['results returned to each thread'])
p('C08','Results do not depend on what was computed before',
 'A deterministic computation gives the same result for the same inputs no matter which other library computations ran earlier in the same thread or process and no matter what uninitialised memory happens to contain. In particular the projection of a point onto a set of linear constraints, likelihoods, estimates, sorts and summaries depend only on their arguments.',
 ['histories','inputs'],'all sequences of library computations (up to 40 steps) before the one observed, all contents of fresh memory',
 'Each test program runs its few computations once, in one fixed order, in a fresh process, with whatever memory the allocator happens to give.',
 ['apop_linear_constraint.m4.c','apop_sort.m4.c','apop_mle.m4.c','model/apop_multinomial.c','model/apop_probit.c','apop_stats.m4.c','apop_asst.m4.c'],
 [('static scratch vectors reset between calls','apop_linear_constraint.m4.c: apop_linear_constraint'),('static sort state set at entry','apop_sort.m4.c: apop_data_sort')],['returned values'])
p('C09','Committed database work survives power loss and is never half-visible',
 'After a power failure at any instant, a database written through the library reopens cleanly and holds exactly the statements the library had reported as done, plus at most the one statement or transaction in progress, whole or not at all. A table being written from a data set or read in from a text file is never left with a mixture of rows that no prefix of the reported work explains.',
 ['crash_points','histories','fault_sequences'],'a power loss at any I/O operation of any sequence of queries, transactions, table writes, merges and closes, with any subset of unsynced writes lost or torn',
 'Tests use in-memory or fresh databases in processes that end cleanly.',
 ['apop_db.m4.c','apop_db_sqlite.c','apop_conversions.m4.c'],[('BEGIN/COMMIT around bulk writes','apop_conversions.m4.c: apop_text_to_db, apop_db_sqlite.c: apop_data_to_db'),('SQLite journal','left at its safe defaults by apop_db_sqlite.c: apop_sqlite_db_open')],['rows found after reopening'])
p('C10','Database failures are reported, never returned as if they were answers',
 'When a query, a query for data, vector, text or scalar, or an open fails because of an I/O error, a full disk, a lock held by another process, a lack of memory or bad SQL, the call says so: a nonzero return, a NULL or NaN, or an error mark on the returned structure. A result without such a mark holds exactly the rows the database holds. The process survives, and the database stays usable afterwards.',
 ['fault_sequences','histories','inputs'],'any placement of disk read/write/sync/open/lock failures, disk-full, busy and allocation failures in any sequence of queries of every kind',
 'Tests run against a healthy disk with no memory pressure; the error branches are never entered except for one bad-SQL case.',
 ['apop_db.m4.c','apop_db_sqlite.c'],[('error string / return-code checks','apop_db.m4.c: apop_query, apop_query_to_*; apop_db_sqlite.c: apop_sqlite_query_to_*'),('error marks on apop_data','apop_db_sqlite.c: db_to_table')],['return values, error marks'])
p('C11','Writing a data set to the database stores every cell or reports failure',
 'Saving a data set as a table, in write or append mode, stores one row per data row with every vector, matrix, text, weight and row-name cell readable back with the same value, or else reports the failure to the caller. No failure of the disk at any point leads to a reported success with missing or altered rows. Rows already in the table before an append are kept.',
 ['fault_sequences','inputs','histories'],'any data shape with NaN/infinite cells and quotes or missing text, any placement of disk write, sync, lock and space failures, any mix of write and append calls',
 'Tests write to healthy databases and check few shapes.',
 ['apop_db_sqlite.c','apop_db.m4.c','apop_output.m4.c','apop_conversions.m4.c'],[('prepared-statement insert with per-row step','apop_conversions.m4.c: run_prepared_statements'),('text INSERT fallback','apop_db_sqlite.c: apop_data_to_db')],['return code; table contents'])
p('C12','Reading a text stream into a data set is complete or flagged, and always ends',
 'Reading delimited or fixed-width text into a data set gives the same data whatever sizes the underlying reads return, and ends after a bounded amount of work on every input, including empty and truncated ones. If reading fails part-way (I/O error, missing file), the result is NULL or carries an error mark; data without an error mark holds every row of the text that could be read. Cells the text does not provide are NaN, never leftovers from memory.',
 ['fault_sequences','inputs'],'any text within bounded size (quoting, comments, missing cells, short and long rows, no final newline, empty), any segmentation of reads, any placement of a read error or truncation',
 'Tests read a few well-formed files from a healthy file system.',
 ['apop_conversions.m4.c'],[('chunked reader with carry-over','apop_conversions.m4.c: get_next, parse_a_line'),('error mark t','apop_conversions.m4.c: apop_text_to_data_base')],['returned data set'])
p('C13','Reading text into a database table loads every line or reports failure',
 'Reading a delimited or fixed-width text file into a database table stores exactly one row per data line, the last line included whether or not it ends with a newline, with the fields that line holds, or else returns a failure code. Neither a stream error nor a disk error at any point gives a reported success with missing rows. It always ends after a bounded amount of work, and the database remains usable.',
 ['fault_sequences','inputs'],'any text within bounded size and any read segmentation, any placement of stream read errors, truncation and disk write/space/lock failures, each table-exists policy',
 'Tests read two well-formed files into a healthy database.',
 ['apop_conversions.m4.c','apop_db_sqlite.c'],[('prepared-statement insert per line','apop_conversions.m4.c: run_prepared_statements, line_to_insert'),('table-exists policy','apop_conversions.m4.c: apop_text_to_db_base')],['return code; table contents'])
p('C14','Running out of memory is reported as documented, without crash or corruption',
 'When an allocation fails inside the routines that allocate, copy, resize, stack, split, sort, transpose, prune, page or name data sets, vectors, matrices, text grids and models, the call returns NULL or its error code, or a structure marked with the allocation error, as documented, and nothing crashes. The inputs of the failed call are unchanged and can still be used and freed, apart from a data set that was to be changed in place, which is marked and can be freed. Unmarked results are complete, and a retry when memory is back succeeds with the normal result.',
 ['fault_sequences','inputs','histories'],'every allocation point in the documented routines, alone and together, in histories of up to 14 operations over data sets of all shapes, under any GSL error handler',
 'Tests never run with failing allocations.',
 ['apop_data.m4.c','apop_name.m4.c','apop_conversions.m4.c','apop_linear_algebra.m4.c','apop_model.m4.c','apop_sort.m4.c','apop_missing_data.m4.c','apop_regression.m4.c','apop_internal.h','apop.m4.h'],[('allocation checks with error mark a','apop_data.m4.c: apop_data_alloc, apop_data_copy, apop_text_alloc'),('Apop_stopif','apop.m4.h')],['returned pointer, return code and error mark; contents of inputs and outputs'])
p('C15','Interrupted or failing likelihood searches end promptly and honestly',
 'A maximum likelihood search ends within a bounded number of likelihood evaluations even when the likelihood returns NaN or infinity at arbitrary points or an interrupt arrives at any time. Interrupting returns control with the best-so-far usable model rather than killing the process, the interrupt handler is gone afterwards, and a later search in the same process is not affected. A search that failed or was interrupted is not reported as converged. A restarted search begins at the point asked for, and the better of the two estimates is returned. In a model with constraints, also one composed of others (mixtures, fixed parameters, data constraints), no likelihood is evaluated at parameters outside of the constraint, and the estimate is inside, whether or not the search was interrupted or met failing likelihoods.',
 ['fault_sequences','schedules','inputs'],'an interrupt at any likelihood evaluation, NaN/infinite likelihoods at any evaluation, for every search method, also two searches one after the other',
 'Tests run searches that converge on smooth functions, with no signals.',
 ['apop_mle.m4.c'],[('SIGINT handler and flag','apop_mle.m4.c: mle_sigint'),('NaN/iteration checks','apop_mle.m4.c: negshell, apop_maximum_likelihood')],['status in the returned model, number of evaluations, installed handler'])
p('C16','MCMC chains are valid histories whatever the target and proposals do',
 'A Metropolis-Hastings chain contains only points at which the target density was positive and, apart from burn-in, has one row per requested period, each row equal to the previous one or to an accepted proposal; the acceptance count equals the number of moves. A target that returns NaN or -infinity, or a proposal that fails, never puts an unsupported point in the chain. The same seed gives the same chain.',
 ['fault_sequences','inputs','histories'],'any placement of NaN, -infinity and failing evaluations in the target and the proposal; gibbs chunking options; any seed and chain length',
 'Tests run well-behaved targets.',
 ['apop_mcmc.m4.c','apop_update.m4.c','apop_model.m4.c'],[('accept/reject step','apop_mcmc.m4.c: main_mcmc_loop, one_chunk_step'),('burn-in handling','apop_mcmc.m4.c: apop_model_metropolis_base')],['chain returned; calls made to the target and proposal'])
p('C17','Threads sharing the database see whole, ordered effects',
 'When several threads use the library\'s database connection at once, every query that reports success takes effect exactly once and whole, every read returns a state that some serial order of the successful operations explains, each thread\'s own operations in order. Options used to shape results in one thread do not corrupt memory or crash another.',
 ['schedules','histories','fault_sequences'],'all interleavings of up to 4 threads doing inserts, updates, counts, table reads and table writes over one connection, with lock and I/O failures',
 'Tests never use the database from two threads.',
 ['apop_db.m4.c','apop_db_sqlite.c'],[('SQLite serialised mode','apop_db_sqlite.c: apop_sqlite_db_open'),('connection handle','apop_db_sqlite.c: db')],['return codes; rows read'],[('db','process-wide connection handle','apop_db_sqlite.c')])
p('C18','Raking gives the serial answer when tables are raked in parallel',
 'Raking (iterative proportional fitting) run in several threads at once gives each thread the table it would get alone, and leaves no scratch tables behind. The table has one row for each combination that can be nonzero given the starting table or the margins, the nudge and the structural zeros. It satisfies the requested margins that have such cells within the tolerance, or is marked as not converged or broken, also when the database fails meanwhile.',
 ['schedules','inputs','fault_sequences'],'all interleavings of up to 4 threads raking different tables or the same table in one database, as an OpenMP team, over inputs with starting tables, nudges, structural zeros, missing values, mistakes, and failures of storage',
 'Tests rake in one thread.',
 ['apop_rake.m4.c'],[('scratch-table names carrying the thread number','apop_rake.m4.c: apop_rake_base')],['returned data sets; tables in the database'])
p('C19','Copies of one model can be used and freed in any order by any thread',
 'Copies made of a model, with their settings groups and shared data, can be used, changed, cleared and freed by different threads in any order; each copy behaves as if it were the only one, what is shared is released once, when its last user is gone, and nothing is used after release.',
 ['schedules','histories'],'all histories and interleavings of copy, set, draw, evaluate, clear and free by up to 5 threads over models with settings groups (PMF, MCMC, mixture, kernel, loess, MLE settings)',
 'Tests copy and free in one thread in one order.',
 ['apop_settings.c','apop_model.m4.c','model/apop_pmf.c','transform/apop_mixture.c','apop_mcmc.m4.c','apop.m4.h'],[('reference counts in settings groups','apop.m4.h: Apop_settings_copy/free; model/apop_pmf.c'),('deep copy of groups','apop_model.m4.c: apop_model_copy; apop_settings.c')],['values returned by each copy; heap state'])
p('C20','Resampling estimates are reproducible and report failing replicates',
 'Bootstrap and jackknife covariance estimates run the model exactly the requested number of times on the right resamples, are reproducible for a given seed, leave the caller\'s data and model as they were, and, when some replicates fail, either ignore or report them as asked; the covariance equals the one computed directly from the replicate estimates.',
 ['fault_sequences','inputs','histories'],'any subset of replicates failing (NaN parameters, no parameters), any data shape, seed and iteration count, with and without ignoring NaNs and keeping the replicates',
 'Tests bootstrap a well-behaved model only.',
 ['apop_bootstrap.m4.c'],[('replicate loop with error checks','apop_bootstrap.m4.c: apop_bootstrap_cov_base, apop_jackknife_cov_base')],['returned covariance, boot_store, calls to the estimator'])
p('C21','Divergence and entropy sums equal the serial sums for any threads',
 'The Kullback-Leibler divergence and the entropy of models, and likelihoods summed over rows in parallel, equal the serially computed value up to the rounding of a reordered sum, for every number of threads and every interleaving, including when some cells have zero probability.',
 ['schedules','inputs'],'all interleavings for 1..8 threads over PMFs with ties, zero and missing cells, and over parametric models with draws',
 'Tests run one thread.',
 ['apop_stats.m4.c','model/apop_kerneld.c','apop_mapply.m4.c'],[('OpenMP reduction','apop_stats.m4.c: apop_kl_divergence_base; model/apop_kerneld.c')],['returned scalar'])
p('C22','Writing a data set to a text stream is complete, parseable and ordered',
 'Printing a data set to a file, pipe or named file in write or append mode produces text that holds every element, in order and to the printed precision, appends after and never over what was there, and the sequence of writes leaves each file with the outputs in call order. A file that cannot be opened or written is reported and never crashes the program.',
 ['fault_sequences','inputs','histories'],'any sequence of prints to a few files and open pipes in write and append mode, any data shape, open failures and write failures at any point',
 'Tests compare a few fixed outputs on a healthy file system.',
 ['apop_output.m4.c','apop_conversions.m4.c'],[('output set-up and tear-down','apop_output.m4.c: apop_prep_output'),('print routines','apop_output.m4.c: apop_data_print, apop_matrix_print, apop_vector_print')],['file contents'])
p('C23','Concurrent evaluations of one shared model equal evaluations taken alone',
 'Any number of threads may evaluate one model with set parameters at the same time: its log likelihood, probability, CDF, closed-form score, predictions, constraint, random draws (each with a generator of its own), copies and printed form. Every thread gets exactly what it would get from the same evaluation of a model of its own, whatever other threads do with the shared one and whatever was evaluated on it before. Evaluating a model changes neither its parameters nor the data given, and leaves no error mark on it.',
 ['schedules','histories','inputs'],'all interleavings of 2..5 threads that each evaluate up to six things, in a team or as separate threads, over some fifty kinds of model: built-in distributions, PMFs, kernel densities, mixtures, products, constrained and transformed models, regressions, models of the user',
 'The tests never evaluate a model in two threads at once, so no cache, lazily built table or scratch space in a model is ever contended.',
 ['model/apop_pmf.c','model/apop_kerneld.c','model/apop_multinomial.c','model/apop_probit.c','model/apop_ols.c','transform/apop_mixture.c','transform/apop_dconstrain.c','apop_model.m4.c','apop_settings.c'],[('tables and settings made on first use','model/apop_pmf.c, model/apop_kerneld.c, apop_model.m4.c: apop_cdf, apop_settings.c'),('scale kept with its parameters','transform/apop_dconstrain.c: current_scale'),('scratch space for likelihoods','model/apop_multinomial.c, model/apop_probit.c')],['returned numbers, text and data; model and data afterwards'])
p('C24','Threads may read one data set at the same time, and reading leaves it as it was',
 'Any number of threads may use one data set at once as input: look up elements, names and pages, take views of rows and columns, copy, sort, split, stack, transpose or pack it into new sets, summarise it (moments, covariances, percentiles, tests, bins), map functions over it, print it, and fit models to it (regressions, distributions, PMFs, likelihood searches, bootstraps, updates). Every thread gets what it would get from a data set of its own, and afterwards the data set (numbers, text, names, weights, pages) is what it was before, without an error mark.',
 ['schedules','inputs','histories'],'all interleavings of 2..5 threads making up to five readings each, of some fifty kinds, of sets with and without weights, missing values, categories, text, names and further pages',
 'The tests read data from one thread only, and rarely look at the input afterwards; a routine that changes its input for a while, or keeps scratch data in a static variable, passes them all.',
 ['apop_data.m4.c','apop_stats.m4.c','apop_sort.m4.c','apop_name.m4.c','apop_linear_algebra.m4.c','apop_missing_data.m4.c','apop_regression.m4.c','apop_hist.m4.c','apop_bootstrap.m4.c','model/apop_ols.c','model/apop_pmf.c','apop.m4.h'],[('views that share storage with the set','apop.m4.h: Apop_rs, Apop_cs, Apop_subm'),('sorting through file-level variables','apop_sort.m4.c: compare_strings and find_smallest'),('estimators that work on a copy of the data','model/apop_ols.c: apop_estimate_OLS')],['returned numbers, text and data sets; the shared set afterwards'])
p('C25','Random draws follow the model they are drawn from, and fail honestly',
 'Draws from a model have the distribution that the model describes: its rows by their weights for a PMF, the components by their weights for a mixture or kernel density, each component for a product, the part within the constraint for a constrained model, the full parameter set for a model with fixed parameters, the documented distribution for the built-in ones, inputs and then outcome for a regression. A draw writes as many numbers as the model says its draws have, never more. If a component of such a model fails to give a draw, the draw is reported as failed. The mass and cumulative mass of a row of a PMF match the weights that its draws use. Drawing leaves parameters and data as they were. In particular, a univariate model with a likelihood but no draw method can be drawn from. Every draw lies within the bounds of its settings, at a point where the density was found to be positive, and many draws together have the distribution that the density gives: from one model or from many copies of it, with several threads drawing at once, after other draws failed, and after the parameters changed and the settings were reset. When the density cannot be evaluated (not a number, infinite) during a draw, or nothing is accepted, that draw is reported as failed (nonzero, and NaN in its place): it neither kills the process, nor hangs, nor gives a point that was made up. A draw takes a bounded number of evaluations, all within the bounds; the same seed gives the same draws; the model is not changed.',
 ['schedules','histories','fault_sequences','inputs'],'some twenty-five kinds of model, one by one or in batches, from one to three threads, with components that fail at any draw; densities of eight kinds, log-concave or not, with holes or without, of any scale; bounds, starting points and envelope sizes; one to four threads; evaluations that fail at any point; copies and resets',
 'The tests draw from one thread and models that never fail, and compare at most a mean or a refitted parameter with what it should be; a row that is never drawn or a draw one number too long passes them.',
 ['apop_arms.c','apop_model.m4.c','apop_settings.c','model/apop_pmf.c','model/apop_kerneld.c','model/apop_multinomial.c','model/apop_ols.c','model/apop_probit.c','transform/apop_mixture.c','transform/apop_cross.c','transform/apop_dconstrain.c','transform/apop_fix_params.c'],[('draws of rows by weight','model/apop_pmf.c: draw, setup_cmf'),('draws from composite models','transform/apop_mixture.c: mixture_draw, transform/apop_dconstrain.c: dc_rng, transform/apop_cross.c: cross_draw'),('one draw at a time per model','apop_arms.c: apop_arms_draw'),('the envelope and its updates','apop_arms.c: initial, test, update, meet, cumulate, invert'),('default draw method','apop_model.m4.c: apop_draw')],['draws and their return codes; where and when the density is evaluated'])
p('C26','Likelihood, CDF, score, estimate and update agree, however data is laid out',
 'For every built-in distribution, and for mixtures, kernel densities, products and models with fixed parameters, the log likelihood of any set of observations is the sum of what the formula of the distribution gives for each, the probability is its exponential, an impossible observation (outside of the range of the distribution) makes the likelihood zero, the CDF and the score belong to the same distribution (the CDF is zero below and one above its range), an estimate has the likelihood that it reports and, for maximum likelihood, at least that of any other parameters, a conjugate update uses every observation once, its constraint accepts legal parameters as they are and makes illegal ones legal, and the weights that a mixture finds are the expected shares of its components. All of this is the same whether scalar observations are in the vector, in a matrix of any width or in both, and whatever number of threads evaluates them in whatever order. An evaluation for which memory ran out gives NaN, not a wrong number. Evaluating changes neither data nor model.',
 ['schedules','fault_sequences','inputs'],'nineteen kinds of distribution, 1..120 observations inside and outside of their range, four layouts, teams of 1..4 threads in every interleaving, allocations that fail during the evaluation',
 'The tests evaluate a few parameter values on data in one layout, with good data and enough memory.',
 ['model/apop_normal.c','model/apop_gamma.c','model/apop_beta.c','model/apop_exponential.c','model/apop_poisson.c','model/apop_bernoulli.c','model/apop_multinomial.c','model/apop_multivariate_normal.c','model/apop_dirichlet.c','model/apop_t.c','model/apop_uniform.c','model/apop_zipf.c','model/apop_yule.c','model/apop_kerneld.c','transform/apop_mixture.c','transform/apop_cross.c','apop_mapply.m4.c','apop_update.m4.c'],[('likelihoods summed by parallel maps','apop_mapply.m4.c: apop_map_sum'),('likelihood, score, CDF and estimator of each distribution','model/*.c'),('data split over two models','transform/apop_cross.c: get_second'),('conjugate table','apop_update.m4.c: betabernie, gammapoisson, normnorm')],['returned numbers, parameters, info page'])
p('C27','Data sets keep cells, names, text and weights through sequences of operations',
 'Splitting and stacking, sorting by any order of keys, removing or keeping rows and columns, transposing, packing and unpacking, copying rows, deleting incomplete rows, adding and removing pages, reading and writing cells by number or name, filling, and turning columns into categories or dummies do to every part of a data set (numbers, text, names, weights, pages) what they are documented to do and nothing else, in any order and whatever came before: rows stay together, nothing is lost, added, duplicated or put elsewhere, and inverse operations give back what was there. Every thread that does so with sets of its own gets the same. If memory runs out, the operation says so and can be repeated.',
 ['histories','schedules','fault_sequences','inputs'],'histories of up to ten operations of seventeen kinds, in one to three threads, on sets of every shape with repeated cells and names, and allocations that fail in any of them',
 'The tests use a few shapes and one operation at a time; ties, second keys, the last row or column, sets without a matrix and operations on the result of others are hardly touched.',
 ['apop_data.m4.c','apop_sort.m4.c','apop_name.m4.c','apop_conversions.m4.c','apop_missing_data.m4.c','apop_regression.m4.c'],[('rows moved by view and copy','apop_sort.m4.c: rearrange; apop_data.m4.c: apop_data_rm_rows'),('columns and their names','apop_data.m4.c: apop_data_split, apop_data_rm_columns, apop_data_stack'),('lists of categories kept in pages','apop_regression.m4.c: dummies_and_factors_core'),('order of numbers in a vector','apop_conversions.m4.c: apop_data_pack, apop_data_unpack')],['the set after every operation, and what the operation returned'])
p('C28','Summaries, linear algebra, least squares and tests keep to their definitions',
 'Moments, covariances, correlations, percentiles, distances, normalised vectors, entropies, moving averages, bins, dot products in every form, determinants, inverses, principal components, stacked matrices, positive semidefinite matrices, least squares with or without weights or instruments (coefficients, covariance, predicted values, residuals, sums of squares, likelihood, predictions), p-values, tests of independence and goodness of fit equal their documented definitions for any data, with any weights and however it is stored (a row, a column or part of a larger matrix), for every one of several threads that compute at once on the same data, and leave that data as it was. A request without an answer (sizes that do not match, a singular matrix, a window that is too wide) gives the documented error value.',
 ['schedules','histories','inputs'],'up to five computations of twenty-three kinds in each of one to four threads, in every interleaving, on data of 3..40 rows and 1..5 columns with ties, shifts and four kinds of weights',
 'The tests look at a few sets with well-behaved numbers, in one thread: weights, views within larger matrices, tables with fractions, upper tails and errors are hardly touched.',
 ['apop_stats.m4.c','apop_linear_algebra.m4.c','apop_tests.m4.c','apop_regression.m4.c','apop_hist.m4.c','model/apop_ols.c'],[('error handler shared by all threads','apop_linear_algebra.m4.c: apop_set_gsl_handler, apop_det_and_inv, apop_dot'),('weighted sums','apop_stats.m4.c: apop_vector_var, apop_vector_cov, wskewkurt'),('vector of zeros kept from call to call','apop_stats.m4.c: apop_vector_distance'),('least squares','model/apop_ols.c: apop_estimate_OLS, xpxinvxpy, apop_estimate_IV')],['returned numbers and error marks; the shared data afterwards'])
# ---- not decided by this technique
p('N05','The MySQL back end gives the same answers as the SQLite one',
 'Every query function returns the same data for the same table contents on a MySQL server as on SQLite, and reports server and network failures.',
 ['histories','fault_sequences'],'all queries, connection losses and server errors','No MySQL server or client is available to the tests.',
 ['apop_db_mysql.c'],[('mysql client calls','apop_db_mysql.c')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
