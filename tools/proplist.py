NOTE = 'Exploration, not proof: what holds on every simulated run. Real code under test; the scheduler, clock, allocator and faults are simulated. '
DB_NOTE = NOTE + 'The whole engine is real code (service, executor, scheduler, kvs layer, storage managers); the key-value store, the SQL compiler, the task-scheduler threads and the server interface are simulated stand-ins with the interfaces jogasaki uses. '
prop('C21', 'UDF record streams deliver each record once, in order, and never strand a reader',
 'Records pushed into a UDF result stream are delivered exactly once, in push order and unchanged, to whichever readers ask; end-of-stream and close are seen by every reader, after the remaining records for the former. '
 'A read without a time limit returns as soon as a record or the end is available, a timed read never gives up early, and not-ready is only reported when the stream was in fact empty and open.',
 ['schedules', 'inputs', 'fault_sequences'], 'all interleavings of producers, readers, end and close, all timeouts, spurious wakeups and slow threads',
 'No buildable test exercises the stream; lost wakeups, double delivery and wrong ends need particular interleavings of two readers, a producer and the closer.',
 ['src/jogasaki/udf/generic_record_impl.h', 'src/jogasaki/udf/generic_record_impl.cpp'],
 [('queue under one mutex with a condition variable', 'generic_record_stream_impl::push/next/try_next'), ('end and close flags under the same mutex, notify_all', 'generic_record_stream_impl::end_of_stream/close')],
 ['return value and record of next/try_next', 'blocked readers'],
 check=('linearizability of the recorded history against a FIFO queue model, deadlock detection, happens-before race detection',
  NOTE + 'History of each run checked for linearizability; progress by deadlock detection in the simulator. All stream code is real.'))
prop('C20', 'Synchronization primitives lose no wakeup and no update',
 'A latch released before or during a wait lets every present and later waiter through, and a timed wait reports success only if released and failure only after its full limit. '
 'A waitable atomic never misses a store or notify that changes the awaited value and its timed and conditional waits report correctly; a use count always equals the number of live copies of its handle, whatever threads copy, move, assign and drop it; '
 'a latch set releases exactly the waiter it names.',
 ['schedules', 'fault_sequences'], 'all interleavings of waiters, releasers, copiers and notifiers, spurious wakeups, slow threads, clock delays',
 'The existing tests run each primitive with one or two cooperative threads and real time; a lost wakeup or lost count needs a preemption between a test and a wait.',
 ['src/jogasaki/utils/latch.cpp', 'src/jogasaki/utils/waitable_atomic.h', 'src/jogasaki/utils/use_counter.cpp', 'src/jogasaki/utils/watch.cpp', 'src/jogasaki/utils/latch_set.h'],
 [('predicate checked under the latch mutex', 'latch::wait/release'), ('modification ordered with the waiter mutex before notify', 'waitable_atomic::notify_one/notify_all/wait')],
 ['return values of wait/wait_for', 'count()', 'blocked waiters'],
 check=('recorded history against per-primitive reference rules, deadlock detection for lost wakeups, happens-before race detection',
  NOTE + 'All primitive code is real; mutexes, condition variables and the clock are simulated.'))
prop('C03', 'Every request is answered exactly once, and bad requests do no harm',
 'Whatever a client sends - any request kind, valid or malformed payloads, unknown, disposed or missing handles, out-of-range parameter values - and whatever happens meanwhile (cancellation, failing result channels, store errors, concurrent requests of the same session), each request is answered exactly once, '
 'within a bounded number of steps and with a response of the kind that belongs to the request; a request with valid handles and arguments succeeds, an invalid one fails with the documented error code, and neither the server nor other transactions are affected by it. When all sessions are over nothing of them is left.',
 ['schedules', 'inputs', 'fault_sequences'], 'all request sequences and bursts with arbitrary field values; interleavings of their execution; cancellation and channel/store failures at any point',
 'Tests send well-formed requests one at a time and wait for each; lost, doubled or mistyped replies need particular malformed values, error paths or races.',
 ['src/jogasaki/api/impl/service.cpp', 'src/jogasaki/api/impl/service.h', 'src/jogasaki/api/impl/database.cpp', 'src/jogasaki/api/transaction_handle.cpp', 'src/jogasaki/scheduler/job_context.cpp', 'src/jogasaki/scheduler/flat_task.cpp', 'src/jogasaki/utils/cancel_request.h'],
 [('the response is sent once from the job completion callback', 'service::execute_statement / execute_query callbacks'), ('transactions and statements of a session removed with it', 'transaction_store, statement_store')],
 ['replies per request', 'error codes', 'open transactions of the store', 'crashes'],
 check=('all request kinds with good and bad handles and values, in bursts from several threads, on the whole engine; reply counting, reply kind and error code checks against a handle model',
  DB_NOTE))
prop('C16', 'Handles mean one object, in one session, until they are disposed',
 'A transaction or statement handle names the object it was created for from the reply that gives it until it is disposed or its session ends: every use in that time reaches that object, transaction handles are never given out twice, disposing is idempotent, a disposed, foreign or made-up handle is refused with the right error and touches nothing, '
 'and using, disposing and ending the session at the same time never reaches freed memory; ending a session releases everything it held.',
 ['schedules', 'histories'], 'all interleavings of begin, prepare, use, dispose, statement information lookup from other sessions and session end',
 'Tests dispose handles after everything else has finished; the lookup tables only matter when use and dispose overlap.',
 ['src/jogasaki/api/impl/transaction_store.cpp', 'src/jogasaki/api/impl/statement_store.cpp', 'src/jogasaki/api/impl/database.cpp', 'src/jogasaki/api/transaction_handle.cpp', 'src/jogasaki/api/statement_handle.cpp', 'src/jogasaki/api/impl/service.cpp'],
 [('lookup copies the shared pointer under the table lock', 'database::find_transaction, find_statement'), ('a session store leaves the database before it is cleared', 'transaction_store::dispose')],
 ['responses', 'handles given out', 'memory accesses after release', 'objects left after the session ended'],
 check=('handles used, disposed and guessed across sessions that live and end, on the whole engine; a handle model decides which uses must succeed or be refused',
  DB_NOTE))
prop('C10', 'Values in paged memory stay intact and pages return when released',
 'Memory obtained from a paged memory resource, and every text or binary value stored in it, is disjoint from all other live memory, correctly aligned and keeps its bytes until it is released, whatever order of allocation, checkpointing, release up to or back to a checkpoint and destruction the resource kind permits, '
 'with values of every size around the page and short-value limits, and also when an allocation fails (oversized or out of memory), which reports an error and leaves everything allocated before intact. '
 'Releasing gives pages back: a resource never holds more pages than its live allocations and the page in progress need, and none after it is destroyed.',
 ['inputs', 'histories', 'fault_sequences'], 'all allocation/checkpoint/release sequences of the three resource kinds, all sizes and alignments, failing page acquisitions',
 'Tests run a handful of fixed sequences; corruption needs a particular mix of sizes, page borders, checkpoints taken on empty or just-released pages and failed requests.',
 ['src/jogasaki/memory/fifo_paged_memory_resource.cpp', 'src/jogasaki/memory/lifo_paged_memory_resource.cpp', 'src/jogasaki/memory/monotonic_paged_memory_resource.cpp', 'src/jogasaki/memory/details/page_allocation_info.cpp', 'src/jogasaki/memory/details/page_allocation_info.h',
  'src/jogasaki/accessor/text.cpp', 'src/jogasaki/accessor/text.h', 'src/jogasaki/accessor/binary.h', 'src/jogasaki/utils/checkpoint_holder.h'],
 [('bump allocation inside a page with lower and upper offset', 'page_allocation_info::try_allocate_back'), ('checkpoint = head of the last page plus offset', 'fifo/lifo_paged_memory_resource::get_checkpoint/deallocate_before/deallocate_after'), ('short values inline, long ones in the resource', 'accessor::text')],
 ['addresses returned by allocate', 'bytes of live allocations', 'count_pages', 'pages given back to the pool'],
 check=('random allocation histories against a model of live ranges and contents, page accounting, allocation and mapping faults',
  NOTE + 'Every live range is re-read after each step; overlap, alignment, content and page bounds are checked against a reference list. All memory and text code is real, the page source (mmap) is simulated.'))
prop('C11', 'A memory page has one owner at a time and none is lost',
 'A page handed out by the page pool belongs to exactly one holder until it is returned, under any interleaving of threads that acquire and release pages and with failing mappings; it is page-aligned, mapped and full-size. '
 'A returned page is reused before new memory is mapped on the same node, acquisition failure is reported as an error without losing pages, and destroying the pool unmaps everything it mapped, exactly once.',
 ['schedules', 'fault_sequences'], 'all interleavings of acquire and release on several simulated NUMA nodes, failing mmap and huge-page requests',
 'The existing test acquires and releases pages from one thread on the real node; double hand-out, leaks and partial cleanup need preemptions or failing system calls.',
 ['src/jogasaki/memory/page_pool.cpp', 'src/jogasaki/memory/page_pool.h'],
 [('per node free stack under a spin lock or queue', 'page_pool::acquire_page/release_page'), ('all mapped pages remembered for unmapping', 'page_pool::~page_pool')],
 ['page addresses', 'simulated mappings', 'leaked page count'],
 check=('ownership and mapping model over the recorded history of concurrent threads, mapping faults, happens-before race detection',
  NOTE + 'mmap, munmap and NUMA placement are simulated, with a guard page after every mapping; pool code is real.'))
prop('C05', 'DDL and DML never see or change half of each other\'s work',
 'A statement runs on the table as it is at that moment or is refused: while a transaction that created, dropped or truncated a table (or created or dropped its index) is open, no other transaction can use that table, and a schema change is refused while a statement of another transaction runs on it. No statement ever reads or writes a dropped or truncated storage, not even when it was analyzed or prepared before; '
 'two creations of one name never both succeed; a query returns rows of the current table only, none twice and none of another, uncommitted or older table, by table as well as by index; refused statements are refused for a reason; storages of dropped tables are deleted once no transaction needs them, and never earlier; no combination of these hangs.',
 ['schedules', 'histories', 'fault_sequences'], 'all interleavings of any number of transactions with DML and DDL on common tables and indices, of the maintenance thread, and all moments of store errors, aborts and crashes',
 'The tests run DDL and DML one after another in one thread; what goes wrong needs a schema change between two steps of another statement, at one of dozens of places.',
 ['src/jogasaki/storage', 'src/jogasaki/executor/common/create_table.cpp', 'src/jogasaki/executor/common/drop_table.cpp', 'src/jogasaki/executor/common/truncate_table.cpp', 'src/jogasaki/executor/common/create_index.cpp', 'src/jogasaki/executor/common/drop_index.cpp', 'src/jogasaki/executor/executor.cpp', 'src/jogasaki/api/impl/database.cpp'],
 [('a statement holds a shared lock, a schema change an exclusive one to the end of its transaction', 'storage::storage_manager, impl::storage_control'), ('storages of dropped tables are deleted when no transaction refers to them', 'storage::maintenance_storage')],
 ['rows of queries by table and by index', 'errors of statements', 'list of tables, table descriptions', 'storages in the store'],
 check=('random transactions of DML and DDL from several clients on the whole engine under random schedules, store faults and crashes; the recorded history must fit one order of the schema changes and every row must come from the table generation it was asked from', DB_NOTE))
prop('C06', 'Generated values are unique, in range and never given out again',
 'Whatever runs in parallel: no two rows of a table get the same generated value; values start at START, follow INCREMENT, stay within MINVALUE and MAXVALUE and only wrap with CYCLE; a row inserted after another one finished gets a later value; a value is never skipped further than the number of statements that drew one; running out is reported as an error and only when the range is used up. '
 'After a crash or restart values of committed rows are not given out again. TRUNCATE keeps the sequence going, RESTART IDENTITY starts over, and no other sequence changes when one is created, dropped or missing.',
 ['schedules', 'crash_points', 'histories'], 'all interleavings of transactions drawing from the same and from different sequences, of sequence creation and removal; all options; all crash points',
 'Tests draw a few values in one thread and never crash; duplicate or lost values need parallel draws, a conflict in the system table or a crash between draw and commit.',
 ['src/jogasaki/executor/sequence', 'src/jogasaki/executor/common/create_table.cpp', 'src/jogasaki/executor/common/truncate_table.cpp', 'src/jogasaki/executor/common/drop_table.cpp'],
 [('a drawn value is kept with its transaction and stored at its commit', 'sequence::manager::notify_updates'), ('definition ids unique, system table changed with the transaction', 'sequence::manager, metadata_store')],
 ['values of identity columns', 'errors of inserts', 'values after a restart'],
 check=('random inserts, INSERT ... SELECT, truncates and drops with random sequence options from several clients on the whole engine, with crashes; values checked against the order and number of draws', DB_NOTE))
prop('C23', 'After a crash or restart the committed schema and data are back',
 'Whatever the moment of the crash or stop: when the database starts again, every table and index whose creation was committed durably is there with its layout, none that was dropped durably, all durable rows are in their table and in each index, none of aborted or unfinished transactions, identity columns go on, and every table can be read, listed, described and written at once. Schema changes that were not finished may or may not have happened, but leave nothing that makes the start or another table fail.',
 ['crash_points', 'histories', 'fault_sequences'], 'all histories of schema changes and transactions, all crash points incl. torn logs, repeated crashes and restarts',
 'Tests restart a clean database with a few tables; recovery errors need a crash in the middle of a schema change, between two entries of the log or before the maintenance thread has deleted a storage.',
 ['src/jogasaki/recovery', 'src/jogasaki/api/impl/database.cpp', 'src/jogasaki/executor/sequence/metadata_store.cpp', 'src/jogasaki/storage/maintenance_storage.cpp', 'src/jogasaki/proto/metadata/storage.proto'],
 [('definitions are stored as options of the storages and read back at start', 'recovery/storage_options'), ('orphaned and delete-reserved storages are recognised at start', 'database::recover_metadata')],
 ['list of tables, descriptions', 'contents by table and by index', 'new generated values', 'result of start'],
 check=('random DDL and DML histories on the whole engine cut by crashes at random points, torn logs included, and by clean stops; the restarted database compared with the states the durable history allows', DB_NOTE))
prop('C18', 'UDF plugins load completely or not at all, with one outcome each',
 'Loading a UDF directory reports exactly one outcome for every plugin that has a configuration and a library, and loads exactly the enabled ones whose configuration, library, entry points and client are good and whose messages are not defined twice, each with the settings of its own configuration file. '
 'An unreadable or corrupt descriptor, or an RPC name used twice, loads nothing at all and is reported; a read error or a vanishing file never passes for good content. Every library opened is closed exactly once, when its plugin is refused or at unload, and only after every object it made is gone; a later load works again. '
 'The deadline of a UDF call is the moment its timeout was set plus the timeout.',
 ['inputs', 'fault_sequences', 'schedules', 'histories'], 'all directory contents, failing opens, reads and library entry points, files that vanish while loading, load/unload sequences, clock jumps',
 'No buildable test loads plugins; the cleanup and all-or-nothing paths run only when files, descriptors or libraries fail at particular steps.',
 ['src/jogasaki/udf/udf_loader.cpp', 'src/jogasaki/udf/descriptor/descriptor_analyzer.cpp', 'src/jogasaki/udf/descriptor/descriptor_reader.cpp', 'src/jogasaki/udf/descriptor/validation/message_duplicate_validator.cpp',
  'src/jogasaki/udf/descriptor/validation/rpc_duplicate_validator.cpp', 'src/jogasaki/udf/udf_config.cpp', 'src/jogasaki/udf/generic_client_context.cpp'],
 [('descriptors of the whole directory analysed before any plugin', 'validate_and_prepare_descriptors'), ('handle kept only after the client exists', 'udf_loader::load_one_plugin/create_api_from_handle'), ('plugins dropped before their libraries', 'udf_loader::unload_all')],
 ['list of load results', 'get_plugins()', 'dlopen/dlclose calls', 'deadline of the call context'],
 check=('loader driven over generated directories with file, library and timing faults, outcomes compared with a reference evaluation of the same directory, library lifetime model',
  NOTE + 'The dynamic loader and gRPC channels are simulated; files are real files on a scratch directory behind a fault layer; all loader and descriptor code is real.'))
prop('C01', 'An acknowledged commit survives any crash, and nothing unrequested is committed',
 'When a commit is answered with success the transaction is committed in the store; when the answer was asked for at the stored level, its log records are durable at that moment, so it survives a crash at any later point. '
 'A commit answered with an error changed nothing, a transaction whose commit was never requested or whose statement failed is never committed, and after a crash and restart the tables and their indices hold exactly the effects of the transactions the store kept, applied in commit order.',
 ['schedules', 'crash_points', 'fault_sequences', 'histories'], 'all interleavings of concurrent clients, commit callbacks and durability notifications, all notification levels, crashes at any point, repeated crashes, store errors and slow log flushes',
 'Tests wait for one commit on a healthy in-process store and never crash; an early acknowledgement shows only when the log flush is late and the machine stops in between.',
 ['src/jogasaki/executor/executor.cpp', 'src/jogasaki/durability_manager.cpp', 'src/jogasaki/durability_callback.cpp', 'src/jogasaki/commit_common.cpp', 'src/jogasaki/kvs/transaction.cpp', 'src/jogasaki/recovery/storage_options.cpp'],
 [('commit response kinds and the wait list ordered by durability marker', 'executor::commit_async, durability_manager::add_to_waitlist/update_current_marker'), ('durability callback schedules the answers', 'durability_callback::operator()'), ('metadata restored from storage options at start', 'database::recover_metadata')],
 ['commit responses', 'store outcome and durable epoch at the moment of the response', 'table and index contents after restart'],
 check=('concurrent clients on the whole engine with crash and restart; acknowledgements compared with the durable log at that moment, state after recovery compared with a serial replay on a reference model',
  DB_NOTE + 'The store keeps only what its simulated log made durable.'))
prop('C02', 'A transaction ends once, and its statements agree with one serial execution',
 'Whatever statements, commits, rollbacks, cancellations and disposals of a transaction arrive at the same time, it ends exactly once: it is either committed with the effects of its successful statements or leaves no trace, every statement running when it ends is answered, statements arriving later are refused, and no operation touches it in the store once its end was requested. '
 'The results of the committed transactions are those of some serial order consistent with the commit order, a read-only snapshot sees one committed state, an active transaction can always be rolled back, and every transaction is given back to the store when its handle is disposed.',
 ['schedules', 'histories', 'fault_sequences'], 'all interleavings of racing statements, commit, rollback, status and dispose requests on the same transaction, conflicts and store errors at any call, request cancellation',
 'Tests issue the requests of a transaction one after the other; the termination protocol only matters when a statement is in flight at the moment of the commit or abort.',
 ['src/jogasaki/transaction_context.cpp', 'src/jogasaki/termination_state.h', 'src/jogasaki/scheduler/flat_task.cpp', 'src/jogasaki/executor/executor.cpp', 'src/jogasaki/executor/process/impl/work_context.cpp', 'src/jogasaki/kvs/transaction.cpp'],
 [('going-to-commit / going-to-abort flags with task use count in one atomic', 'details::termination_manager'), ('sticky tasks under the transaction mutex, strands for parallel reads', 'flat_task::operator(), work_context::strand')],
 ['responses of all requests', 'calls arriving at the store', 'open transactions of the store'],
 check=('racing requests on the whole engine; store call discipline, outcome and result checks against a serial replay in commit order on a reference model',
  DB_NOTE + 'The store reports two operations at a time on one handle, operations after a commit request and handles that are not given back.'))

prop('C09', 'A query or set-oriented statement yields exactly what SQL defines',
 'Whatever the tables, indices, query and settings: a query returns exactly the records its text defines over the state of its transaction - joins of every kind (inner, left, full, semi, anti) and strategy (shuffled, index lookup, index range), three-valued conditions, grouping and aggregation, DISTINCT, UNION ALL, ORDER BY, LIMIT, prepared parameters - with the right types and names, none twice and none missing, in order where an order is asked for; '
 'INSERT ... SELECT, UPDATE and DELETE change exactly the records they name and report their number. The number of threads and partitions, task stealing, page sizes, writer counts and the interleaving of the tasks never change a result.',
 ['inputs', 'schedules', 'configurations'], 'all table contents, index sets, query shapes and parameters; all interleavings of the tasks of the exchanges; all scheduler and partition settings; store errors and cancellation at any point',
 'Tests run fixed queries on fixed rows; wrong plans of data flow show only for particular combinations of NULLs, duplicate keys, directions, empty inputs, full hash tables and partition boundaries, and races only under particular task orders.',
 ['src/jogasaki/executor/exchange', 'src/jogasaki/executor/process/impl/ops', 'src/jogasaki/executor/expr', 'src/jogasaki/executor/function', 'src/jogasaki/executor/comparator.h', 'src/jogasaki/plan/compiler.cpp', 'src/jogasaki/kvs/coder.cpp'],
 [('records partitioned by a hash of the grouping key; sorted runs merged by the same comparator', 'exchange/group, exchange/aggregate'), ('consumers run after all producers of an exchange completed', 'scheduler/dag_controller_impl, step state table')],
 ['rows of the result', 'counters of a statement', 'contents of the tables afterwards', 'body head metadata'],
 check=('random queries and statements on random tables and settings, whole engine, compared with an independent reference evaluator; task orders and faults from the seed',
  DB_NOTE + 'The SQL parser and planner are the stand-in, so plans are those of the stand-in planner, not of the production compiler.'))
prop('C12', 'Result channels carry every record once, within limits, and end cleanly',
 'Each query opens one result channel whose description precedes it; every record produced goes to exactly one writer, is complete and committed before the response reports success; no more writers than configured are ever held, each is used by one task at a time and given back; when a channel or writer fails, the query is cancelled or the store fails, '
 'the request ends with an error, nothing hangs, no writer or channel stays open and later queries are not affected.',
 ['schedules', 'fault_sequences', 'inputs'], 'all interleavings of the tasks writing to a channel, writer limits from one up, channel and writer failures at any record, cancellation at any point, concurrent queries in one transaction',
 'Tests use an in-memory channel that never fails and mostly one writer; lost or torn records and leaked writers need a failure, a cancellation or a writer shortage at a particular moment.',
 ['src/jogasaki/api/impl/data_writer.cpp', 'src/jogasaki/api/impl/data_channel.cpp', 'src/jogasaki/executor/io/data_channel_writer.cpp', 'src/jogasaki/executor/io/writer_pool.cpp', 'src/jogasaki/executor/io/record_channel_adapter.cpp', 'src/jogasaki/executor/process/impl/ops/emit.cpp', 'src/jogasaki/utils/cancel_request.h'],
 [('a task reserves a writer seat before it runs and gives it back', 'io::writer_pool, writer_seat'), ('commit per record, release at task end', 'ops::emit, data_channel_writer')],
 ['bytes committed per writer', 'writers held', 'replies', 'channel state at release'],
 check=('random queries with small writer limits, failing channels and writers and cancellation on the whole engine; rules of the channel interface checked at every call, rows against a reference evaluator',
  DB_NOTE))
prop('C19', 'Key-value and SQL requests work on the same records, each answered once',
 'Every request to the key-value service is answered exactly once: with success and its effect, or with an error and no effect - malformed, unsupported and misdirected requests always with an error. A record put through the key-value service is the record SQL statements see and the other way round, with every value of every type, padded, NULL, negative or large, the same on both sides. '
 'All committed transactions of both services together have an outcome explained by some serial order, an acknowledged commit took place and a refused one did not. A transaction handle names one transaction until it is disposed and nothing afterwards, whatever requests race with its end; transactions left open are given back to the store before the database closes.',
 ['inputs', 'schedules', 'fault_sequences', 'histories'], 'all table layouts of the supported types, records and keys; all interleavings of put, get, remove, commit, rollback, dispose and SQL statements of several clients; store conflicts and errors, delayed commit callbacks, and a server stop with transactions open',
 'Tests use one thread, one transaction at a time and rarely both services; a value that differs only in sign, padding or decimal context, or a dispose next to a running request, needs particular data, threads and timing.',
 ['src/jogasaki/api/kvsservice/impl/service.cpp', 'src/jogasaki/api/kvsservice/transaction.cpp', 'src/jogasaki/api/kvsservice/transaction_utils.cpp', 'src/jogasaki/api/kvsservice/serializer.cpp', 'src/jogasaki/api/kvsservice/store.cpp', 'src/jogasaki/api/kvsservice/resource.cpp', 'src/jogasaki/api/resource/bridge.cpp', 'src/jogasaki/api/service/bridge.cpp', 'src/jogasaki/kvs/writable_stream.cpp'],
 [('transaction mutex around the end of the transaction and its handle', 'kvsservice::transaction::commit, abort, dispose'), ('one entry per live handle, ids never used again', 'kvsservice::store')],
 ['responses of the key-value service', 'responses of the SQL service', 'outcome in the store', 'open transactions when the store closes'],
 check=('random records through both services of one server started as the framework starts it; one serial replay in commit order on a reference model, final state read through both sides, handle and stop discipline',
  DB_NOTE + 'The framework that starts and stops the components is a stand-in following the order of the real one. A concurrent DROP or TRUNCATE of a table in use by the key-value service is left out, since that service takes no storage lock (a documented limitation).'))
prop('C14', 'Loads insert every record once; dumps list complete files; no false success',
 'A load answered with success inserted every record of every block of every file exactly once with its values; one that met a missing or unreadable file, a bad record or a store error is answered with an error. A failing load in a transaction leaves none of its records and a transaction that cannot be committed; a load without a transaction commits each block of a file whole or not at all. '
 'A dump answered with success wrote every row of its query, unchanged, into exactly one of the files it lists, each complete, inside the directory and within the record limit, none shared with another dump; a failing dump is answered with an error and leaves none of its files unless asked to keep them. Dumped files can be loaded again. Each is answered once and always, and nothing stays open.',
 ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'all file contents, column mappings and block layouts; all interleavings of the statements of a load and the tasks of a dump, several loads and dumps at once; failing opens, reads, writes and closes of files, full disk, failing result channels, store conflicts and errors, cancellation, a transaction ended next to its load',
 'Tests load and dump a few rows with one block at a time and files that never fail; a block finishing while others are created, a failure in the last statement or when the last file is closed, or two dumps in one second need particular timing or faults.',
 ['src/jogasaki/executor/batch', 'src/jogasaki/executor/file/loader.cpp', 'src/jogasaki/executor/io/dump_channel.cpp', 'src/jogasaki/executor/io/dump_channel_writer.cpp', 'src/jogasaki/executor/executor.cpp', 'src/jogasaki/api/impl/service.cpp', 'src/jogasaki/api/impl/database.cpp', 'src/jogasaki/scheduler/flat_task.cpp'],
 [('remaining blocks of a file and files of a load count down to one completion', 'batch_file_executor, batch_executor'), ('error recorded before the statement is counted as done', 'loader::operator()'), ('file listed after it was closed successfully', 'dump_channel_writer::close_file_writer')],
 ['responses', 'table contents', 'listed files and their records', 'files in the directory', 'open files and transactions'],
 check=('random files loaded and queries dumped through the SQL service of a whole engine; contents of tables and files compared with the records written, with file, channel and store faults from the seed',
  DB_NOTE + 'The readers and writers of Parquet and Arrow files are stand-ins on simulated files, since those libraries are not installed.'))
