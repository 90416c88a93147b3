"""Budgets (runs, seconds) per tier and the words that go into the evidence files."""
Q = (120000, 20); T = (10**9, 600)
BUDGETS = {'C%02d' % i: {'quick': Q, 'thorough': T} for i in range(1, 40)}
RULES = {
 'C01': "A run picks the entry point (apply/map/sum variants by element, row or column, with or without parameter and index), data shape, pages, names, team size 1-16 and whether the runtime grants fewer threads; then the library's own worker loops run under a seeded scheduler. Non-trivial: more than one thread had elements to visit. Distinct by hash of the run's history.",
 'C02': 'A run picks 1-12 threads (OpenMP team or plain threads), the thread numbers each asks for, and the global seed; or a team of up to 6 whose threads leave it to the library (draws, bootstrap, chains, updates, annealing, SQL) to find a generator. Non-trivial: at least two threads asked. Distinct by hash of the history.',
 'C03': "A run picks a model (built-in or the harness's, also nested in a region of callers), rows, team size and failing draws. Non-trivial: more than one worker and more than one row. Distinct by hash of the history.",
 'C04': 'A run picks 1-5 threads and their lists of add/get/drop operations over a few tables and keys. Non-trivial: at least two threads. Distinct by hash of the history.',
 'C05': 'A run picks a model from the list in c05_shared.c, 2-5 threads and the number of draws of each, with the first draws inside the race. Every run is non-trivial. Distinct by hash of the history.',
 'C06': 'A run picks 1-5 threads and the (N, s) pairs each asks for, or Zipf likelihoods that use the sums. Non-trivial: more than one thread. Distinct by hash of the history.',
 'C07': 'A run picks 2-4 threads, one computation of tasks.c with its data for each, and a schedule; the reference is each computation alone in a fresh process image. Every run is non-trivial. Distinct by hash of the history.',
 'C08': 'A run picks a computation of tasks.c, a random history of other computations before it, and heap fill bytes for the two process images compared. Non-trivial: there was a history, or the fill differed. Distinct by hash of the history.',
 'C09': 'A run picks a program of database work (queries, transactions, tables written from data sets and text), a file system history and the I/O operation at which power fails or the process is killed, with unsynced writes kept, lost, torn or reordered; then recovery, and more work. Non-trivial: the process died in the middle. Distinct by hash of the history.',
 'C10': 'A run picks database calls of every kind and disk, lock, capacity, allocation and SQL failures. Non-trivial: a failure reached SQLite while a call ran, or a lock was held. Distinct by hash of the history.',
 'C11': 'A run picks data sets, ways of writing them (write, append, refusing, columns of weights, names, text), and disk, lock and allocation failures; or a crosstab. Non-trivial: the write was reached with or without failure and the table compared. Distinct by hash of the history.',
 'C12': 'A run generates a text (delimited or fixed-width, quoted, escaped, ragged, arbitrary bytes), how reads are cut up, and stream failures. Non-trivial: a data set came back and was compared with the reference parser, or a failure was delivered. Distinct by hash of the history.',
 'C13': 'As C12, into a table with disk, lock and allocation failures too. Non-trivial: a table was compared, or a failure was delivered. Distinct by hash of the history.',
 'C14': 'A run picks three data sets and up to 14 operations on them; allocations fail at seeded points inside each call. Non-trivial: at least one allocation failed. Distinct by hash of the history.',
 'C15': 'A run picks a search method, a likelihood and its settings, the evaluations that give NaN or infinity, the points of interrupts, and a second search afterwards. Non-trivial: at least one fault was delivered. Distinct by hash of the history.',
 'C16': 'A run picks the target, proposals, blocks (Gibbs or not), periods, burn-in, constraint, starting points and the evaluations that fail; or an update, or a chain swapped between models. Every run is non-trivial. Distinct by hash of the history.',
 'C17': 'A run picks 2-4 threads and their operations on shared tables, with lock and I/O failures; the observed returns must be explained by a serial order. Every run is non-trivial. Distinct by hash of the history.',
 'C18': 'A run picks 1-4 rakings over generated tables in one database with starting tables, nudges, structural zeros, missing values, mistakes, and disk and allocation failures. Non-trivial: at least one raking ran to its end. Distinct by hash of the history.',
 'C19': "A run picks a kind of model, 2-5 threads, and a tree of copies with uses, changes, clearing, copying of groups and frees. Every run is non-trivial; the reference is each copy's own history alone. Distinct by hash of the history.",
 'C20': 'A run picks data, bootstrap or jackknife, number of replicates, failing or NaN replicates, and 1-4 threads. Non-trivial: more than one thread, replicate or a failure. Distinct by hash of the history.',
 'C21': 'A run picks a divergence, an entropy, a kernel density or a likelihood over rows, the data, zero cells, failing draws and a team size. Non-trivial: more than one thread and more than one row. Distinct by hash of the history.',
 'C22': 'A run picks 1-4 threads and their sequences of prints to files, pipes and names, with formats and options, and open and write failures. Non-trivial: something was printed and read back. Distinct by hash of the history.',
 'C23': 'A run picks a kind of model, 2-5 threads, up to six evaluations per thread and their data, team or separate threads, and the library team size; every evaluation is also made alone on a fresh model in another process. Non-trivial: all runs. Distinct by hash of the history.',
 'C25': 'A run picks a kind of model with draws, its parameters, the number of draws, 1-3 threads or a batch, and failing components; or a density (kind, scale, holes), bounds, starting points and envelope size, the way of drawing, 1-4 threads that draw from one model or from copies, and evaluations that fail (NaN, +-infinity); then a second phase after a copy, a reset, or just once the faults stop. Non-trivial: all runs. Distinct by hash of the draws.',
 'C26': 'A run picks a distribution, its parameters, the observations (one of them impossible, perhaps), their layout, 1-4 threads, whether the model was prepared, and allocations that fail. Non-trivial: all runs. Distinct by hash of the history.',
 'C27': 'A run picks 1-3 threads and up to ten operations for each on a data set of its own (shape, contents, names and pages at random), and allocations that fail. Non-trivial: all runs. Distinct by hash of the sets after each operation.',
 'C28': 'A run picks 1-4 threads and up to five computations for each, of twenty-three kinds, their arguments, the shared data (shape, ties, shift, weights, storage within a larger matrix) and data of their own. Non-trivial: all runs. Distinct by hash of the answers.',
 'C24': 'A run picks a data set (weights, missing values, categories), 2-5 threads, up to five readings per thread and their arguments, team or separate threads, and the library team size; every reading is also made alone on a fresh set in another process. Non-trivial: all runs. Distinct by hash of the history.',
}
REAL = ['all of Apophenia (sources of /repo\'s working tree, unmodified, compiled with memory-access callbacks)', 'GSL 2.7', 'SQLite 3.45 (SQL engine, pager, journal)', 'glibc stdio formatting and qsort']
STUB = ['OpenMP runtime and thread scheduling (simulator)', 'malloc/free (simulated heap with shadow checks)', 'file system under stdio (in-memory files)', 'disk and locks under SQLite (simulated VFS)', 'signal delivery', 'system()']
ASSUME = ['sequentially consistent memory: compiler and hardware reorderings of racy accesses are not simulated', 'preemption happens at instrumented memory accesses of the library, lock operations and seam calls, not inside GSL or SQLite code']
NOTES = {}
