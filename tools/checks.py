# property id -> harnesses (name, share of the time) and what they generate
C = {
    'C21': dict(harnesses=[('udf_stream', 1)], workload='1-3 producers, 1-4 consumers with unbounded, timed and polling reads, optional early end and close, error records, random typed record contents'),
    'C20': dict(harnesses=[('sync', 1)], workload='2-5 threads releasing, resetting, waiting with and without limits, storing, exchanging, copying, moving and dropping handles'),
    'C10': dict(harnesses=[('pages', 1)], workload='1-3 resources of random kinds sharing a pool; allocations of all sizes and alignments, texts and binaries, checkpoints, releases, oversized requests'),
    'C11': dict(harnesses=[('pages', 1)], workload='1-4 threads acquiring, releasing and unbinding pages on 1-4 NUMA nodes, resources sharing the pool'),
    'C18': dict(harnesses=[('udf_load', 1)], workload='1-3 directories of 0-8 plugins with random configuration files, descriptor sets with shared messages and RPC names, truncated or corrupt descriptors, failing libraries'),
    'C01': dict(harnesses=[('dbtx', 1)], workload='1-3 clients running transactions of 1-4 random statements on 2 tables with optional indices, all transaction types and notification levels, crashes and restarts'),
    'C02': dict(harnesses=[('dbtx', 1)], workload='1-3 clients; statements of a transaction sent without waiting and raced by commit, rollback, dispose, status requests and cancellation'),
    'C03': dict(harnesses=[('dbreq', 1)], workload='1-3 sessions in two lives each; 10-40 requests of every kind with good and bad handles, payloads and parameters, sent one by one or in bursts from several threads; cancellation, result channel failures, store errors'),
    'C16': dict(harnesses=[('dbreq', 1)], workload='1-3 sessions in two lives each with begin, prepare, use and dispose of handles, foreign, stale and invalid handles, bursts from several threads, session end'),
    'C09': dict(harnesses=[('dbquery', 1)], workload='1-3 clients on 1-3 random shared tables and a table each: transactions of 1-3 random queries (alone or concurrently) and set-oriented statements, literal or prepared, random engine settings, cancellation, store errors'),
    'C12': dict(harnesses=[('dbquery', 1)], workload='as C09 with more cancellation, failing result channels and writers, few writers'),
    'C05': dict(harnesses=[('dbddl', 1)], workload='2-3 clients on 1-3 table names in 1-3 lives: transactions (short, long, read-only) of inserts, queries by table and by index, deletes, prepared or literal, next to CREATE/DROP TABLE and INDEX and TRUNCATE in transactions that commit, abort or end with the process; maintenance thread; store errors and conflicts'),
    'C06': dict(harnesses=[('dbddl', 1)], workload='as C05 with identity columns of random start, increment, bounds and cycle, hidden primary keys, INSERT ... SELECT in bursts, TRUNCATE RESTART IDENTITY, half of the runs with a crash and restart'),
    'C23': dict(harnesses=[('dbddl', 1)], workload='as C05, most runs with one or two crashes (also torn) or stops at a random point, restart from the durable image, then everything read, listed and written again'),
    'C19': dict(harnesses=[('dbkvs', 1)], workload='1-3 clients of the key-value and SQL services on 2 random tables: transactions of 1-5 puts, gets and removes, racing ends, malformed requests, stale handles, transactions left open; SQL statements with typed parameters, division by zero, DDL next to them'),
    'C14': dict(harnesses=[('dbload', 1)], workload='1-3 clients with loads of 0-4 files of 0-4 blocks (in a transaction or not, by column name or position, INSERT or INSERT OR REPLACE, bad files and records), dumps of 5 tables to Parquet or Arrow with record limits, shared and missing directories, dumped files loaded again, plain inserts next to them'),
}
