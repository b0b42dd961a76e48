prop('L01', 'The shared size-bounded cache behaves like one sequential LRU cache',
     'For any number of threads using one cache concurrently, all results are explained by some one-at-a-time order of the calls on a least-recently-used cache with a byte limit: the first value stored under a key wins and is what every later store or lookup of that key returns until it is evicted, removed or cleared; lookups and repeated stores count as use; entries that cannot fit are returned but not kept. '
     'The reported total always equals the sum of the sizes of the entries held, and never exceeds the current limit. No call ever raises or blocks forever.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings of get/set/remove/clear/limit changes of any threads, all key, size and limit choices',
     'The unit tests call the cache from one thread with a handful of keys; the claim is about every interleaving of every mix of calls.',
     ['py/koladata/ext/storage/lru_size_tracking_cache.py', 'py/koladata/ext/storage/global_cache_lib.py'],
     [('re-entrant lock around every public method', 'LruSizeTrackingCache'),
      ('pop and re-insert on access', 'LruSizeTrackingCache.get'),
      ('evict-before-insert', 'LruSizeTrackingCache._shrink_cache_to_at_most')],
     'thread interleavings at every bytecode; linearizability against a sequential LRU model',
     'Real cache code, simulated locks. Assumes the documented precondition that a key always has the same size. At most 4 threads, 4 keys and about 20 concurrent calls per run.',
     observe=['results of every call', 'reported total and limit'])

prop('L02', 'A function cached by LruCache.cache_fn gives what the function gives',
     'For every element-wise deterministic function of a DataSlice, its cached form gives the same result for every argument, whatever was cached, evicted, cleared or rejected before and whoever uses the cache at the same time: values of several functions with different ids never mix, missing results stay missing, shapes are kept. '
     'The function is called at most once per call, only with the items not found in the cache (the others missing), and not at all if nothing is left; what it computed is found next time unless evicted or cleared. With is_hit_fn, a cached value it rejects counts as not found and a rejected new value is returned but not stored. A function that raises stores nothing and its exception reaches the caller. Use while tracing is refused.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'],
     'all functions, arguments, cache states, evictions and interleavings of callers',
     'The unit tests call one or two functions from one thread on a cache that hardly evicts.',
     ['py/koladata/caching/lru_cache.py'],
     [('cached function', 'LruCache.cache_fn'),
      ('keys are made of function id and argument', 'func_uuid'),
      ('only what is not cached is computed', 'uncached_args')],
     'Real lru_cache.py on simulated threads over a cache model that evicts; functions that raise or give values to be rejected; results against the function itself',
     'Real wrapper and tracing mode; the C++ cache is a model with the same contract, slices are mini-kd slices. Up to 3 threads, 3 functions, 15 calls per run. Functions are element-wise and, except for rejected values, deterministic, as the decorator requires.',
     observe=['results and arguments of every call', 'lookups and stores'])

prop('F01', 'File renames are all-or-nothing and never clobber unless asked to',
     'Renaming with overwriting enabled publishes the new content atomically: at every instant, under any concurrent readers and after any crash or I/O error, the destination holds one complete version, and a successful rename is visible to every later read. '
     'Without overwriting, a destination that already exists (file or directory, even an empty one) is never replaced or altered and the source stays intact; whatever fails, the data remains complete under its old or its new name. '
     'Creating directories succeeds when several callers create the same path at the same time.',
     ['schedules', 'crash_points', 'fault_sequences', 'inputs'],
     'all interleavings of renamers, readers and directory creators, all crash points between system calls, all I/O errors',
     'The tests run one caller on a healthy disk and look only at the end state.',
     ['py/koladata/file_io/fs_implementation.py', 'py/koladata/file_io/fs_interface.py'],
     [('os.replace / os.rename', 'FileSystemInteraction.rename'),
      ('existence check before a non-overwriting rename', 'FileSystemInteraction.rename'),
      ('exist_ok', 'FileSystemInteraction.make_dirs')],
     'interleavings at every bytecode and system call on a scratch directory, with injected I/O errors and process crashes',
     'Real file-system code on a scratch directory; system calls themselves are the kernel\'s (atomic). Two non-overwriting renames that race for one free name are excluded: the code documents that this is not atomic on Unix.',
     observe=['contents of the scratch directory', 'results seen by readers'])

prop('F02', 'A dump holds exactly what was dumped; a refused one keeps the file',
     'When kd.dump returns, kd.load of that path gives the value that was dumped - for a slice its values, schema and all that is reachable from it, mutable if it was, for a bag all it holds - and the value itself is unchanged. '
     'A dump onto an existing file without overwrite, of something that is not a Koda value, or of a value or with options that the serialiser refuses (or for which memory runs out) fails and leaves the file exactly as it was. '
     'After any failed, crashed or unfinished dump a load of that path fails or gives one of the values dumped there, never another one, and a later dump works. All I/O goes to the file system that was given.',
     ['schedules', 'crash_points', 'fault_sequences', 'inputs'],
     'all values, options and contents of the file, all I/O errors and crash points, all interleavings with loads',
     'The tests dump and load once on a healthy disk; none fails to serialise onto an existing file.',
     ['py/koladata/functions/s11n.py'],
     [('order of the checks, serialising, removing and writing', 's11n.py: dump'), ('what is extracted', 's11n.py: dumps, _extract_keep_mutability'), ('loading', 's11n.py: load, loads')],
     'sequences of dumps with refusals, invalid values and options, I/O errors, full disks, crashes and failing allocations, with concurrent loads; oracle is the set of values that each file may hold and the bytes that were there before',
     'The real dump and load over a simulated file system. The serialiser itself (arolla, riegeli) is a stand-in with a checksum. Two overlapping dumps to one path are excluded.',
     observe=['bytes on the simulated disk', 'results of loads', 'exceptions'])

prop('Q01', 'Progress reporters are scoped to the context that installed them',
     'A progress bar reports only to the reporter that was active where the bar was created, for its whole life, and to nothing if none was active. '
     'Installing or removing a reporter in one thread, copied context or coroutine never changes which reporter is active in another, new threads start with none, and leaving a scope always restores the previous reporter, also when the scope is left by an exception.',
     ['schedules', 'histories', 'fault_sequences'],
     'all nestings and interleavings of reporter scopes, bars, threads, copied contexts and coroutines, with exceptions at scope ends',
     'The tests nest two scopes in one thread; isolation between concurrently running threads and coroutines needs the interleavings.',
     ['py/koladata/ext/tqdm/context.py', 'py/koladata/ext/tqdm/tqdm.py'],
     [('context variable with token reset', 'using_reporter'),
      ('reporter captured at construction', 'tqdm.__init__')],
     'thread and coroutine interleavings at every bytecode, exceptions injected at scope ends; expected reporter tracked per context',
     'Real context and bar code plus the real tqdm package; threads, locks and clocks simulated.',
     observe=['active reporter at every step', 'reports received by each reporter'])

prop('Q02', 'Progress reports are serialised, faithful and end with one final state',
     'For every bar that reports, the reporter is called by one thread at a time, counts never go backwards, and the last report is the single final one, marked closed, carrying the number of iterations actually completed and shown exactly if the bar is to be left on screen, however the loop ends (exhausted, broken out of, exception, explicit or repeated close). '
     'A refresh of an open bar delivers exactly its current count, total, initial value, unit and postfix, and every report survives conversion to its record and back. '
     'This holds with slow or failing reporters, clock jumps, concurrent bars and background refreshes, and neither a failing nor a slow reporter ever breaks the loop, loses an item or blocks it forever; a disabled bar is never reported as shown.',
     ['schedules', 'fault_sequences', 'histories', 'inputs'],
     'all schedules of bars, threads and the background refresher, all reporter failures and delays, all clock jumps',
     'The tests drive one bar on one thread with a well-behaved reporter and the real clock.',
     ['py/koladata/ext/tqdm/tqdm.py', 'py/koladata/ext/tqdm/types.py'],
     [('reporter lock', 'ProgressReporter.set_progress'),
      ('final report before close', 'tqdm.close'),
      ('failures are logged, not raised', 'tqdm._set_progress'),
      ('snapshot and its record', 'ProgressState.from_tqdm')],
     'thread interleavings at every bytecode with simulated clock; injected reporter failures, delays and clock jumps; history check per bar',
     'Real bar, reporter base class and tqdm package (including its monitor thread); threads, locks and clock simulated. Each bar is driven by one thread plus the monitor.',
     observe=['states received by the reporter', 'items seen by the loop'])

prop('X01', 'Tracing mode is confined to its scope, thread and context',
     'Code sees tracing behaviour exactly while the innermost enclosing scope of its own thread or context enables it: module attributes resolve to the traced version inside, to the eager version outside, and eager-only ones are unavailable inside, whatever their values are (falsy, not comparable, aliased). '
     'Enabling or disabling tracing in one thread, copied context or coroutine never affects another, and the previous mode is always restored when a scope ends, also by an exception or interrupt.',
     ['schedules', 'histories', 'fault_sequences'],
     'all nestings and interleavings of scopes, threads, copied contexts and coroutines',
     'The tests check one nesting and one pair of threads.',
     ['py/koladata/expr/tracing_mode.py'],
     [('context variable with token reset', 'enable_tracing'),
      ('dispatching descriptor', '_TracingDescriptor.__get__')],
     'thread and coroutine interleavings at every bytecode, exceptions and interrupts injected at scope ends',
     'Real tracing-mode module; threads simulated. The traced functor machinery on top needs the compiled extension and is outside the simulation.',
     observe=['mode and attribute resolution at every step'])

prop('X02', 'Type-checking decorators check exactly the calls they should',
     'A function under kd.check_inputs / check_output behaves like the plain function, called with any mix of positional, keyword and omitted default arguments, except that a call with an argument or result of the wrong type is refused: at once for known values, eagerly or while tracing, and when the traced function is evaluated for values only known then; static_when_tracing arguments must be known while tracing. '
     'Only traced checks are suspended, and only inside the scope that disables them, in its own thread, copied context or coroutine; leaving the scope in any way (also by an exception) switches them on again.',
     ['schedules', 'histories', 'inputs'],
     'all nestings and interleavings of tracing and disabling scopes over threads, contexts and coroutines, all argument mixes',
     'The test nests two scopes in one thread and always passes every argument.',
     ['py/koladata/type_checking/type_checking.py'],
     [('context-local switch', 'disable_traced_type_checking'),
      ('eager or traced verification', 'check_inputs'),
      ('assertions in the trace', '_with_lazy_constraint_verification')],
     'thread and coroutine interleavings at every bytecode, exceptions at scope ends; expected checks tracked per context, traced functions evaluated',
     'Real type_checking and tracing_mode; slices and lazy expressions are small models, so only schema, duck-type and static constraints are generated (no functor signatures).',
     observe=['result or error of each decorated call', 'result or error of evaluating what was traced'])

prop('M01', 'kd.map_py gives the same result with any number of threads',
     'kd.map_py, map_py_on_cond and map_py_on_selected call the function exactly once for every item (or row) that the inputs, condition and include_missing select, with the aligned arguments under their names, and return each result at the position of its item, whatever max_threads is, however long items take and in whatever order they finish. '
     'Never more than max_threads items run at once; each runs in the cancellation context of the caller; item_completed_callback is called in the thread of the caller, once per finished item with its result. '
     'An exception of a function or callback ends the call with that very error without waiting for items still running, and a cancellation ends a multi-threaded call at the next item that finishes; items not yet begun are then dropped, and the pool always goes away.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all shapes, masks, missing values and thread counts, all orders in which items finish, failures at any item, cancellation at any time',
     'The tests use two or three fixed slices and a pool whose order of completion nobody controls.',
     ['py/koladata/operators/py.py'],
     [('results by index of the future', '_parallel_map'),
      ('pool shut down without waiting, pending items cancelled', '_parallel_map'),
      ('cancellation context handed to the pool', '_ThreadPoolExecutor.submit'),
      ('select and inverse_select around the calls', '_basic_map_py')],
     'thread interleavings at every bytecode of map_py with slow, stuck and failing functions and callbacks and cancellations; plain loop as reference',
     'Real py.py and the real standard-library thread pool on simulated threads; DataSlices and the vectorised operators (align, has, select, inverse_select, conversion from Python) are a small model. At most 2 concurrent callers, 3 dimensions, 8 threads.',
     observe=['calls of the function and the callback', 'result or error'])

_DBM = ['py/koladata/ext/storage/data_bag_manager.py', 'py/koladata/functions/s11n.py', 'py/koladata/file_io/fs_interface.py']
_DSM = ['py/koladata/ext/storage/data_slice_manager.py', 'py/koladata/ext/storage/data_bag_manager.py', 'py/koladata/ext/storage/schema_helper.py', 'py/koladata/ext/storage/stubs_and_minimal_bags_lib.py']
_STORE_NOTE = ('Real storage-layer Python, protobuf metadata and thread pools; Koda data itself is sim/minikd.py (the compiled extension cannot be built here), validated against the repository\'s storage tests; file system, threads, clock and uuids simulated. '
               'Crash means process crash: completed writes survive. The file system is assumed to have atomic renames, as the code requires. ')

prop('B01', 'A bag store survives a crash anywhere with exactly its acknowledged data',
     'If a process dies at any moment while it creates a bag manager or adds bags, reopening the directory afterwards succeeds and shows every bag of every acknowledged call with its content, order, dependencies and custom metadata, and the interrupted call either completely or not at all. '
     'The reopened manager accepts new bags, through any number of crash and restart rounds.',
     ['crash_points', 'histories'],
     'every crash point between and inside file operations of create and add, any sequence of lifetimes',
     'The tests only ever run to completion; a crash between two particular file operations is not in them.',
     _DBM, [('write to a temporary name, then rename', '_persist_metadata'), ('bags are written before the metadata that names them', 'DataBagManager._add_bags')],
     'crash points in every file operation across several process lifetimes; reference model is the list of acknowledged bags',
     _STORE_NOTE + 'At most 4 lifetimes and about 10 bags per run.',
     observe=['a fresh instance after each crash'])

prop('B02', 'A failed or refused bag operation changes neither manager nor directory',
     'Whenever adding or loading bags raises, for whatever reason (I/O error, full disk, torn or short write, lost acknowledgement, interrupt, invalid arguments), the same manager object still shows exactly the state before the call, a fresh instance shows that state or the complete call, and once the fault is gone the manager, or a fresh instance of it, accepts the call again. '
     'A failing read never changes later answers.',
     ['fault_sequences', 'inputs', 'histories'],
     'every fault kind at every file operation of every call, including several calls in a row',
     'The tests inject no I/O errors apart from one failing rename; the claim is about all fault points.',
     _DBM, [('state assigned only after persisting', 'DataBagManager._add_bags'), ('argument validation before any write', 'DataBagManager.add_bags')],
     'I/O faults at every file operation, interrupts at any bytecode, invalid batches; model comparison of live object and directory',
     _STORE_NOTE + 'Interrupts: the code may declare the instance inconsistent, which is accepted.',
     observe=['the instance after the failure', 'a fresh instance after the failure'])

prop('B03', 'Concurrent bag writers never lose or mix updates; readers see snapshots',
     'When several processes add bags to one directory at the same time, every acknowledged call is in the final state exactly once and complete, every refused call is not there at all, the acknowledged calls form a single order in which each writer had seen all earlier ones, and an instance that lost a race is refused instead of overwriting. '
     'An instance opened at any moment sees a complete committed state and keeps seeing it unchanged; once the others stop, a newly opened writer succeeds.',
     ['schedules', 'crash_points', 'histories'],
     'all interleavings of file operations of any writers and readers, with crashes and stalls',
     'The tests run two managers alternately in one thread; the race is between individual file operations.',
     _DBM, [('numbered metadata files with non-overwriting rename', '_persist_metadata'), ('unique bag file names', 'DataBagManager._add_bags')],
     'interleavings of file operations of 2-4 simulated processes, with crashes and stalls; serialisability check of the recorded history',
     _STORE_NOTE + 'The simulated non-overwriting rename is atomic, which the code states as its requirement.',
     observe=['results of every call', 'what each instance shows', 'final directory'])

prop('B04', 'Loading bags gives exactly their dependency closure, whatever is cached',
     'For every set of bag names, the minimal bag contains exactly the named bags and everything they transitively depend on, combined in the order in which they were added, and extending with dependents adds exactly their transitive dependents with those closures. '
     'The answer is the same whatever was loaded before, however the parallel loads are scheduled, whatever the size of the shared cache and whatever other managers and threads put into or evict from it.',
     ['schedules', 'inputs', 'histories'],
     'all dependency graphs, request sets, load orders, cache sizes and load schedules',
     'The tests use a few fixed graphs with a warm cache and unscheduled thread pools.',
     _DBM + ['py/koladata/ext/storage/global_cache_lib.py', 'py/koladata/ext/storage/lru_size_tracking_cache.py'],
     [('transitive closure over dependencies', 'DataBagManager.get_minimal_bag'), ('parallel load through the cache', 'DataBagManager._load_bags_into_cache')],
     'thread-pool schedules at every bytecode, cache sizes and evictions, random dependency graphs; closure recomputed by the model',
     _STORE_NOTE + 'Graphs of up to about 12 bags.',
     observe=['contents of the returned bags'])

prop('B05', 'Branches and extracts of bags are complete and independent of the origin',
     'A branch or an extract starts with exactly the selected bags: same names, contents, order, dependencies and custom metadata. '
     'From then on no write, branch or crash on either side changes what the other shows, also for branches of branches, and no manager, branch or extract is ever made in a directory that already holds data; a crash while copying never damages the origin.',
     ['histories', 'crash_points', 'inputs'],
     'all sequences of add, branch, extract, reopen and crash over any tree of branches',
     'The tests branch once or twice in a fixed order.',
     _DBM, [('branch metadata refers to the original directory', 'DataBagManager.create_branch'), ('copy of the selected closure', 'DataBagManager.extract_bags')],
     'operation histories over trees of branches, with crash points inside the copying operations; one model per directory',
     _STORE_NOTE, observe=['every manager, live and reopened'])

prop('D01', 'A slice store survives a crash anywhere with its acknowledged revisions',
     'If a process dies at any moment while it creates or updates a data slice manager, reopening the directory succeeds and shows exactly the acknowledged revisions, data, schema and history, plus possibly the interrupted update as one complete further revision. '
     'What is shown equals applying the same updates one after the other to an ordinary in-memory slice, and the reopened manager can be updated and read further through any number of crashes.',
     ['crash_points', 'histories', 'inputs'],
     'every crash point in every file operation of create and update, any sequence of updates and lifetimes',
     'The tests run to completion; the four directories a single update touches make many partial states possible that no test creates.',
     _DSM, [('metadata written last, read first', 'DataSliceManager.update'), ('only bags named in the metadata are used', 'DataSliceManager._get_schema_node_name_to_data_bag_names')],
     'crash points in every file operation across process lifetimes; oracle is the same updates applied to an in-memory slice',
     _STORE_NOTE + 'Updates draw from primitives, entities, named and recursive schemas, lists, dicts and aliases; up to 3 lifetimes with 3 updates each.',
     observe=['a fresh instance after each crash'])

prop('D02', 'A failed or refused update leaves the slice manager unchanged and usable',
     'Whenever update() or a read raises (I/O error, full disk, torn write, lost acknowledgement, interrupt, invalid path or value), the manager still shows exactly the previous revision: data, schema, paths and history. A fresh instance shows that revision or the complete new one. '
     'When nothing was committed, repeating the update afterwards succeeds on that instance or, after a lost acknowledgement, on a fresh one; an instance that is behind the directory is refused and never replaces a committed revision.',
     ['fault_sequences', 'inputs', 'histories'],
     'every fault kind at every file operation of update and read, interrupts at any bytecode, repeated',
     'The tests fail one rename; the claim is about every fault point in four cooperating stores.',
     _DSM, [('state assigned after persisting', 'DataSliceManager.update'), ('version check before commit', '_persist_metadata')],
     'I/O faults at every file operation and interrupts at any bytecode; model comparison of live object and directory after each failure',
     _STORE_NOTE + 'An interrupt between the last two assignments may declare the instance inconsistent, which the code documents.',
     observe=['the instance after the failure', 'a fresh instance after the failure'])

prop('D03', 'Concurrent updates of a slice store are serial: none lost or half applied',
     'When several processes update one directory at the same time, the final history contains every acknowledged update exactly once and no refused one, each update was applied on top of exactly the revisions before it, and data and schema equal applying that history in order. '
     'A reader opened at any time sees one complete committed revision and keeps seeing it; once the others stop, a newly opened instance can update.',
     ['schedules', 'crash_points', 'histories'],
     'all interleavings of file operations of any updaters and readers, with crashes and stalls',
     'The tests alternate two instances in one thread; races between the single file operations of the four inner stores are not reachable that way.',
     _DSM, [('numbered metadata with non-overwriting rename', '_persist_metadata'), ('unique bag names', 'DataSliceManager._get_fresh_bag_name')],
     'interleavings of file operations of 2-4 simulated processes, with crashes and stalls; serialisability check against in-memory slices',
     _STORE_NOTE, observe=['results of every update', 'what each instance shows', 'final directory'])

prop('D04', 'Every committed revision stays readable, unchanged, for ever',
     'Opening a directory at any index of its revision history gives exactly the data, schema, paths and history as of that revision, whatever was updated, failed, crashed or cached since. History entries never change or disappear, indexes outside the history are refused, and updates on a read-only or outdated instance are refused without effect.',
     ['histories', 'fault_sequences', 'inputs'],
     'all update histories with failures in between, all revisions, in any visiting order',
     'The tests open a few revisions of fixed histories without failures in between.',
     _DSM, [('metadata per revision', '_read_metadata'), ('revision history in the metadata', 'DataSliceManager.get_revision_history')],
     'update histories with injected crashes and faults between; every revision re-read in random order and compared with the recorded slice',
     _STORE_NOTE, observe=['instances opened at each revision'])

prop('D05', 'Branches of a slice store start at their revision and stay independent',
     'A branch, from any revision and with a given or chosen directory, starts with exactly the data and schema of that revision and records where it came from. Afterwards no update, branch, crash or failure on any side changes what the others show, in memory or reopened. '
     'Branches made at the same time by several processes, also while the trunk is updated, never share or overwrite a directory, and branching onto a used directory is refused; a branch whose making was cut short is whole or cannot be opened. A branch that is given its own file system uses only that for its directory.',
     ['histories', 'schedules', 'crash_points', 'fault_sequences'],
     'all trees of branches and updates, all interleavings of concurrent branching and updating, with crashes and faults',
     'The tests branch sequentially in fixed shapes.',
     _DSM, [('revision-limited branch of the inner stores', 'DataSliceManager.branch'), ('fresh branch directory', '_get_dir_for_new_branch')],
     'operation histories and concurrent interleavings with crashes and I/O faults; one in-memory slice per branch as oracle',
     _STORE_NOTE + 'Two branches racing for the same explicitly given directory are excluded.',
     observe=['every manager, live and reopened'])

prop('D06', 'Loading any part of a slice agrees with loading all, and with plain Koda',
     'After any sequence of updates (new and overwritten attributes, changed types, aliases, shared and recursive schemas, lists, dicts, missing values), loading any set of paths, with or without descendants, gives on those paths exactly what applying the updates to an ordinary in-memory slice gives; separately loaded parts combine; everything else that happens to be loaded is up to date. '
     'The set of existing paths and the schema agree as well, and the answers do not depend on what is cached, on reopening, or on how the parallel loads are scheduled.',
     ['inputs', 'histories', 'schedules'],
     'all update sequences, all path sets, all cache states and load schedules',
     'The space of update sequences and path sets is what matters; the tests fix about ninety examples.',
     _DSM, [('index from schema nodes to bags', 'DataSliceManager.update'), ('needed schema nodes', 'SchemaHelper.get_schema_node_names_needed_to')],
     'random update histories and path sets under random cache sizes and load schedules; differential oracle: in-memory slice',
     _STORE_NOTE + 'Up to 8 updates, paths up to depth 3. One genuine defect is listed in known_findings.json (values of attributes whose type was overwritten).',
     observe=['loaded slices', 'paths', 'schema'])

prop('D07', 'Read-only copies and composites stay pinned to their revision',
     'A read-only copy keeps showing exactly the revision at which it was taken while the original is updated, also from other threads reading it at the same time, and refuses updates. '
     'A manager whose initial data is composed of other managers starts with exactly their data as of its creation, in order of precedence; it, its branches and its reopened instances never change when the sources are updated later, nor the sources when it is updated.',
     ['histories', 'schedules', 'inputs'],
     'all sequences of updates, copies, composites and branches, with concurrent readers of the copies',
     'The tests take a copy or composite once, in one thread, and look at it once.',
     _DSM + ['py/koladata/ext/storage/composite_initial_data_manager.py'],
     [('copy of metadata and helper', 'DataSliceManager.get_readonly_copy'), ('recorded revision of each source', 'CompositeInitialDataManager')],
     'operation histories with concurrent reader threads at every bytecode; oracle is the in-memory slice recorded at each copy',
     _STORE_NOTE, observe=['copies, composites and originals after every step'])

prop('D08', 'Views follow their manager; filter is one documented, atomic update',
     'A view is nothing but a manager and a path: whatever updates happen, through this or any other view, it is valid exactly when its path exists, shows exactly the data and schema found there (with the requested other views), and leads to exactly the children, descendants and ancestors of its path; writing through it is the same update of the manager. An invalid view or request is refused and changes nothing. '
     'filter() keeps exactly the selected items, removes containers and entities of which nothing is left, up to the root attribute, touches nothing else, and appears as one revision or, if it fails or the process dies, not at all; keeping everything adds no revision. branch() and select() give the same in a new branch and never change the original. The in-memory manager agrees with the persistent one throughout.',
     ['inputs', 'histories', 'crash_points', 'fault_sequences'],
     'all histories of updates, filters, selects and branches through any views, with crashes and disk errors at any point',
     'The tests filter one nested example, without faults, and look at views right after creating them.',
     [_DSM[0].replace('data_slice_manager.py', 'data_slice_manager_view.py'), 'py/koladata/ext/storage/simple_in_memory_data_slice_manager.py'],
     [('validity checked at each use', 'DataSliceManagerView._check_path_from_root_is_valid'), ('one update at the root attribute', 'DataSliceManagerView.filter'), ('filter in a new branch', 'DataSliceManagerView.select')],
     'histories of view operations under crashes and disk faults; oracle is the in-memory slice, and for filter a direct description of what must be left',
     _STORE_NOTE + 'Masks never select a missing item while removing others: what then becomes of its container is not documented. Filters that would give one shared entity two different values are not generated.',
     observe=['views', 'data, schema and history of all managers'])

_PAR = 'koladata/functor/parallel/'
_PAR_NOTE = ('The real C++ of the parallel runtime, compiled from the tree and instrumented; threads, locks, atomics and the thread pool are the simulator\'s; containers, strings, status, QTypes and data slices are small stand-ins. '
             'Sequentially consistent interleavings plus happens-before race detection, use-after-free and leak checks. ')

prop('P01', 'Every reader of a stream sees the same items in order, then the same end',
     'However writers, readers, closers and drops interleave, all readers of a stream see exactly the accepted items, each once and in the order of the writes, followed by one final status that never changes; a refused write leaves no trace and nothing is accepted after the stream is closed or reported as orphaned. '
     'A subscriber is notified exactly once and always finds an item or the end when it looks again, no completed write stays invisible, an item handed to a reader keeps its value while the reader lives, and a stream whose writer goes away ends instead of hanging.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings, at every memory access, of any writers, closers, readers and owners, any item size and chunking',
     'The unit tests use one or two unscheduled threads; lost wake-ups, torn ends and use-after-free need particular interleavings.',
     [_PAR + 'stream.h', _PAR + 'stream.cc'],
     [('chunk list with spin-free published size', 'stream.cc: Chunk / Buffer'), ('callbacks handed over under the mutex, run outside', 'stream.cc: SubscribeOnce, TryWrite, TryClose'), ('the writer closes on destruction', 'stream.cc: writer destructor')],
     'interleavings at every memory access, lock and atomic; recorded history of writes, closes and reads judged after each run',
     _PAR_NOTE + 'Up to 4 readers, 3 writers, 2 closers and 8 writes each.',
     observe=['results of every read, write and close', 'notifications'])

prop('P02', 'A future takes one value and gives it to every consumer exactly once',
     'Every consumer of a future, registered before, while or after the value is set, from any thread or from inside another consumer, is called exactly once with the value or error that was set; looking never shows a value that later changes or disappears. '
     'A future whose writer goes away without a value gives a cancellation error, and nobody waits forever; the stream made from a future holds exactly that value or error.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of one setter, any consumers, readers and owners, with and without abandonment',
     'The tests register consumers before or after the set, on one thread.',
     [_PAR + 'future.h', _PAR + 'future.cc', _PAR + 'stream.cc'],
     [('consumers handed over under the mutex, run outside', 'future.cc: SetValue, AddConsumer'), ('abandonment sets an error', 'FutureWriter destructor')],
     'interleavings at every memory access, lock and atomic; count and value of every consumer call checked',
     _PAR_NOTE + 'Up to 3 user threads with 3 operations each.',
     observe=['consumer calls', 'peeked values'])

prop('P03', 'Mapping a stream in parallel gives the same items and end as a plain loop',
     'Mapping a stream calls the function exactly once for every item until the first failure and produces, in the input\'s order, exactly the results before that failure followed by its error, or all results followed by the input\'s end; the unordered form produces the same results in some order, each once, and some failure that occurred. '
     'This holds on every executor, any input timing and any order of completion.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all executors, task orders and interleavings, all positions of failing items and failing inputs',
     'The tests use an eager executor or a free-running pool, so they see a handful of completion orders.',
     [_PAR + 'stream_map.cc', _PAR + 'basic_routine.cc'],
     [('results kept in slots until their turn', 'stream_map.cc'), ('first error wins in order', 'stream_map.cc')],
     'interleavings at every memory access on simulated pools with arbitrary task order; results compared with a sequential map',
     _PAR_NOTE + 'Up to 9 items.',
     observe=['items and end of the result', 'calls of the function'])

prop('P04', 'Chained and interleaved streams keep every input complete and in order',
     'A chain of streams gives the items of its inputs one input after the other, each complete and contiguous, in the order in which the inputs were added, and ends with the first failure in that order; an interleaving gives every item of every input exactly once with each input\'s own order kept, and ends well only when all inputs did. '
     'This holds for any number of threads adding inputs, inputs that are still being written, and inputs that fail.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all interleavings of adders, writers and readers, any number of inputs, single items and errors',
     'The tests add finished inputs from one thread.',
     [_PAR + 'stream_composition.h', _PAR + 'stream_composition.cc'],
     [('hand-over from one input to the next', 'StreamChain'), ('shared writer with a count of inputs', 'StreamInterleave')],
     'interleavings at every memory access; the result is parsed against the recorded inputs of each adder',
     _PAR_NOTE + 'Up to 2 adders with 4 inputs each.',
     observe=['items and end of the result'])

prop('P05', 'Parallel for, while and reduce loops equal the sequential loop',
     'A loop over a stream, a while loop and a reduction produce exactly the values, in order, and the final status of the sequential program: bodies, conditions and finalizers are called one at a time, each the right number of times, with the item and the variables that the previous call left, and a false condition, an error or a malformed result ends the loop where the sequential program would. '
     'This holds on every executor, whenever items and condition values arrive, including conditions that are themselves streams.',
     ['schedules', 'inputs', 'programs', 'fault_sequences'],
     'all loops of the given kinds, all executors, schedules, arrival times and failing steps',
     'The tests run a few fixed loops to completion on one executor.',
     [_PAR + 'stream_for.cc', _PAR + 'stream_while.cc', _PAR + 'stream_loop_internal.cc', _PAR + 'stream_reduce.cc', _PAR + 'stream_reduce_stack_or_concat.cc'],
     [('one routine resumes where it waited', 'basic_routine.cc'), ('variables updated from the named result', 'stream_loop_internal.cc')],
     'interleavings at every memory access of random loops; oracle is a sequential interpreter of the same loop',
     _PAR_NOTE + 'Up to 7 iterations; three variables.',
     observe=['items and end of the result', 'arguments of every call'])

prop('P06', 'Asynchronous calls run once, when their arguments are ready, with their values',
     'An asynchronous call or operator evaluation runs exactly once if all awaited arguments succeed, never before they are ready, and with exactly their values in their positions; if any fails, it does not run and the result carries such a failure. '
     'The result, a value or a whole stream, equals that of the direct evaluation for every dependency graph, executor and order of arrival, and is delivered to every consumer.',
     ['schedules', 'programs', 'fault_sequences'],
     'all dependency graphs, argument kinds, arrival orders and executors',
     'The tests evaluate fixed small graphs on one executor.',
     [_PAR + 'async_eval.cc', _PAR + 'stream_call.cc'],
     [('count of pending inputs', 'async_eval.cc'), ('arguments awaited in turn', 'stream_call.cc')],
     'interleavings at every memory access of random graphs; oracle is direct evaluation',
     _PAR_NOTE + 'Up to 7 nodes; expression compilation is a stand-in.',
     observe=['calls and their arguments', 'results'])

prop('P07', 'Cancelled, abandoned or starved pipelines end cleanly and never lie',
     'Whatever is cancelled, abandoned, never finished by its input or dropped by an executor that is shutting down, the output of a pipeline is always a beginning of the uncancelled output, ends well only when it is complete, and otherwise ends with the failure, the cancellation or an orphaned status: never with a wrong value. '
     'After a cancellation every output is closed promptly even if the input never ends or a call of a functor does not return, endless loops stop once cancelled or unread, functions run under the caller\'s cancellation context, and nothing is leaked or used after it was freed.',
     ['schedules', 'fault_sequences', 'programs', 'histories'],
     'all pipelines of the operators, all moments of cancellation, abandonment and discarded tasks, on all executors',
     'The tests cancel at one or two chosen points; the claim is about every point between any two memory accesses.',
     [_PAR + 'basic_routine.cc', _PAR + 'stream_map.cc', _PAR + 'stream_call.cc', _PAR + 'stream_for.cc', _PAR + 'stream_while.cc', _PAR + 'stream_reduce.cc', _PAR + 'async_eval.cc'],
     [('cancellation subscription per routine', 'basic_routine.cc'), ('dropped routines orphan their output', 'basic_routine.cc'), ('writers that report orphaned', 'stream.cc')],
     'cancellation, abandonment, discarded tasks and stuck inputs injected at arbitrary points of all interleavings; prefix and end checked against the uncancelled model',
     _PAR_NOTE + 'Pipelines of 1-3 operators, up to 6 items.',
     observe=['items and end of the output', 'live values and closures at the end'])

prop('P08', 'Executors run every task once, in its own context, and clean up',
     'Every task scheduled on an executor runs exactly once (or never, if the executor discards it while shutting down), after what was written before it was scheduled, inline for the eager executor, and never more at once than the thread limit. '
     'In a task CurrentExecutor() is that executor and IsExecutorTask() holds, inside the contexts of all the executors it derives from, base outermost, which end on the same thread in reverse order; scopes nest, and afterwards the thread is as before. Executors whose last reference goes away, even inside their own tasks, end their threads without deadlock and lose no task.',
     ['schedules', 'histories', 'programs'],
     'all programs that schedule, nest, override and drop executors, on all executors and interleavings',
     'The tests schedule a few tasks on one executor and wait for them.',
     [_PAR + 'executor.h', _PAR + 'executor.cc', _PAR + 'derived_executor.cc', _PAR + 'asio_executor.cc', _PAR + 'default_asio_executor.cc', _PAR + 'eager_executor.cc', _PAR + 'get_default_executor.cc', _PAR + 'make_executor.cc', _PAR + 'context_guard.h'],
     [('task wrapper', 'executor.h: Executor::Schedule'), ('thread-local current executor', 'executor.cc'), ('pool joined on the default executor', 'asio_executor.cc: destructor')],
     'interleavings at every memory access of random programs; a model of each thread\'s state is compared after every step',
     _PAR_NOTE + 'Up to 8 executors, 4 user threads and 14 tasks.',
     observe=['runs of tasks', 'current executor and contexts after every step', 'live executors, pools and closures at the end'])

prop('P12', 'Object ids are unique across threads, kinds, sizes and reseeds',
     'No two allocations of a process, of whatever kind and size and from whatever threads, ever share an id, also when threads use up their shares of the id space. A new allocation has room for what was asked (less than twice as much), all its members are of the kind asked for and belong to it and to no other, and the text of an id stands for exactly that id. '
     'All ids between two reseeds carry the same process-wide allocator, never the zero epoch, and no id from after a successful reseed carries one from before; a refused reseed changes nothing. A set of allocations holds exactly those inserted, one by one or merged, in any order, and two sets are equal exactly if they hold the same.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings of allocating threads and reseeds, all sizes and kinds, all values of the random source including zeros, all histories of sets',
     'The tests allocate from a few threads in real time and compare what they happen to get; shares of the id space are never used up.',
     ['koladata/internal/object_id.h', 'koladata/internal/object_id.cc', 'koladata/internal/pseudo_random.cc', 'koladata/internal/pseudo_random.h', 'koladata/internal/op_utils/base62.cc'],
     [('atomic share counters and thread-local positions', 'object_id.cc: Allocate, AllocateSingleObject'), ('epoch chosen once', 'pseudo_random.cc: PseudoRandomEpochIdPtr'), ('sorted prefix and hash set', 'object_id.cc: AllocationIdSet')],
     'interleavings at every memory access of allocating threads with reseeds, a random source that may return zero, and shares of ids that run out; global audit of all ids handed out; sets against std::set',
     'The real allocation code compiled from the tree and instrumented; threads and the random source simulated. Up to 5 threads; overflow of the 40-bit and larger thread counters is out of reach.',
     observe=['every id handed out', 'epoch ids', 'contents and equality of sets'])

prop('P13', 'Forks, frozen copies and merges of a DataBag are independent of it',
     'A fork, frozen copy or merge of a DataBag holds what the bag held at that moment and nothing that is written afterwards to either changes the other, also when several threads fork, freeze, merge, read and let go of one bag at once and its owner goes on writing next to readers of its forks. '
     'A bag that is immutable never changes and refuses every write; mutable bags cannot become fallbacks. Fallbacks are consulted in priority order, each once; merging resolves conflicts as asked, an update reproduces the overwriting merge. '
     'Metadata cached on an immutable bag is set once per key and type, whoever comes first, is never lost, inherited or mixed up, and never cached on a mutable bag. Bags stacked however deep are taken down without deep recursion and without leaks.',
     ['schedules', 'histories'],
     'all interleavings of users of shared bags, all histories of forks, merges, fallbacks and writes',
     'The tests use a few bags from one thread and look at one fork at a time.',
     ['koladata/data_bag.h', 'koladata/data_bag.cc'],
     [('lazy fork of a shared mutable bag', 'data_bag.h: GetMutableImpl; data_bag.cc: FallbackFreeFork'), ('metadata cache', 'data_bag.h: SetCachedMetadata, GetCachedMetadataOrNull'), ('postponed destruction', 'data_bag.cc: ~DataBag'), ('fallback order', 'data_bag.cc: VisitFallbacks, MergeFallbacksToForkedImpl')],
     'interleavings at every memory access of threads that fork, freeze, merge, read, cache on and drop shared bags while owners write; every bag compared with a model after each operation and, all of them, after each phase; data races, leaks and stack depth',
     'The real DataBag code compiled from the tree and instrumented; the store inside it is a small stand-in with the same contract (its own vectorised code is not run). Up to 3 threads and about 20 bags; towers of up to 6000 bags.',
     observe=['contents, flattened fallbacks, size and mutability of every bag', 'cached metadata', 'live stores', 'stack depth of destruction'])

prop('P14', 'Python streams and executors are exact, timely and safe across threads',
     'Python threads that share streams and executors get what the writer did: read_all, yield_all and read_available give its items in order, then the end, the very exception passed to close(), or `orphaned` if the writer was dropped. '
     'A call with a timeout waits no longer, and raises TimeoutError only if the stream was not closed (or, for next(), had nothing new) in time; cancellation or Ctrl-C ends a waiting call, and in a cancelled context read_all, read_available, subscribe_once and schedule raise. '
     'subscribe_once and schedule run the callable exactly once, on that executor, with the GIL, in the caller\'s cancellation context; after it read_available has something; what it raises is reported and nothing is lost. '
     'Misuse (a second close, write after close, also from a callback; one iterator in two threads; bad arguments) raises, never crashes. No call loses an exception, holds the GIL while it waits, or leaks.',
     ['schedules', 'fault_sequences', 'histories'],
     'all interleavings of Python threads, callbacks and executors, all timeouts, cancellations, Ctrl-C and moments a writer is closed or dropped',
     'The tests run one thread at a time with real sleeps, and cannot choose when the GIL changes hands or time passes.',
     ['py/koladata/functor/parallel/py_stream.cc', 'py/koladata/functor/parallel/py_executor.cc'],
     [('waiting without the GIL', 'py_stream.cc: PyStream_read_all, PyStreamYieldAll_iternext'), ('callbacks on the executor', 'py_stream.cc: PyStreamReader_subscribe_once; py_executor.cc: PyExecutor_schedule'), ('closing and dropping', 'py_stream.cc: PyStreamWriter_close, PyStreamWriter_dealloc')],
     'interleavings at every memory access of threads that write, close, drop, read, wait with timeouts, subscribe and schedule on real executors, with simulated time, cancellation, Ctrl-C, raising callbacks and callbacks that use the writer; oracle is the history of the writer\'s calls with their times; data races, deadlocks, GIL misuse, leaks of objects',
     'The real Python extension code compiled from the tree and instrumented, over a small stand-in for CPython that checks its rules (GIL held, one exception at a time, reference counts). Garbage collection and subclassing are not modelled. Up to 2 streams, 4 writers, 3 readers.',
     observe=['results and exceptions of calls, with simulated times', 'callbacks and their cancellation context', 'unraisable exceptions', 'live Python objects'])

prop('P15', 'Caches and registries shared by threads are transparent, bounded, deadlock-free',
     'Threads of Python and C++ that share one LruCache, the caches behind kd.eval and behind operators applied by name, and the registries of slices, iterable types and parallel transforms see: '
     'a cache that acts as one least-recently-used cache doing their operations one at a time - a lookup gives, with its attributes and schema, what was last stored under that very key, or missing; its size stays within the capacity; clear() empties it. '
     'Every eval of an expression or operator gives what evaluating it alone with its own inputs gives, whatever is cached, evicted or cleared meanwhile, for every type of its inputs: value, error (the operator\'s own message or exception) or rejection of missing, doubled or non-I./V. inputs; non-deterministic operators run each time; Ctrl-C reaches it. '
     'A registration succeeds once per name and stays where it is; there is one iterable type per value type; a transform configuration has the flag asked for, the built-in replacements and every extension made before. No call waits for a lock with the GIL, races, deadlocks or leaks.',
     ['schedules', 'inputs', 'histories'],
     'all interleavings of lookups, stores, clears, registrations and evaluations, all expressions and types of inputs, all moments of eviction and Ctrl-C',
     'The tests use one thread and caches that never fill up.',
     ['py/koladata/caching/clib.cc', 'koladata/expr/expr_eval.cc', 'py/koladata/expr/py_expr_eval.cc', 'koladata/serving/slice_registry.cc', 'koladata/operators/arolla_bridge.cc', 'koladata/iterables/iterable_qtype.cc', 'koladata/functor/parallel/transform_config_registry.cc', 'koladata/functor/parallel/create_transform_config.cc'],
     [('store, lookup, clear', 'clib.cc: LruCacheWrapper'), ('keys of the caches', 'expr_eval.cc: TransformExprForEval, Compile, CompileOp'), ('leaving and entering Python', 'py_expr_eval.cc: PyEvalExpr, PyEvalOp, PyEvalOrBindOp'), ('operators by name, quoted expressions', 'arolla_bridge.cc: EvalCompiler, ExprEvalCompiler'), ('registries', 'slice_registry.cc, iterable_qtype.cc, transform_config_registry.cc')],
     'interleavings at every memory access of threads that store, look up, clear, register, evaluate and bind with caches of one to four entries; oracles are a linearizability check against a reference LRU cache and a reference evaluator; data races, deadlocks with the GIL, GIL misuse, leaks of Python objects',
     'The real C++ and Python extension code compiled from the tree and instrumented, over small stand-ins for CPython, pybind11, the arolla expression compiler and DataSlice. Up to 3 Python and 2 native threads, 4 keys, expressions of depth 4.',
     observe=['results and exceptions of calls', 'live Python objects', 'inputs that a compiled expression gets'])

prop('P16', 'kd.print writes each message once, whole and in order, and disturbs nobody',
     'However many threads, of Python or not, print at the same time (kd.print, kd.core.with_print): each message - the parts joined by sep, then end - is written exactly once, in one piece, and after every message whose print had returned before; it goes to the print callback set last. '
     'with_print returns its first argument unchanged; if a part cannot be shown, it fails with that error and writes nothing. '
     'If sys.stdout raises or memory runs out, printing neither fails, nor leaves an exception behind, nor loses another message; one that is no valid UTF-8 (an expression shown shortened) is written with replacement characters. sys.stdout is called with the GIL, and may let other threads run; no call deadlocks, races or leaks.',
     ['schedules', 'fault_sequences', 'inputs'],
     'all interleavings of threads that print and of changes of the callback, all messages, all failures of sys.stdout and of memory',
     'The tests print from one thread to a stdout that never fails.',
     ['koladata/operators/print.cc', 'koladata/internal/op_utils/print.cc', 'py/koladata/base/init.cc'],
     [('one message', 'print.cc: WithPrintOperator'), ('one printer', 'op_utils/print.cc: PrinterImpl'), ('out of sys.stdout', 'init.cc: SetPrintCallback')],
     'interleavings at every memory access of threads that print, with a sys.stdout that raises, releases the GIL or runs other threads, allocations that fail and text that cannot be decoded; oracle is the recorded history of what was printed and written; data races, deadlocks, GIL misuse, leaks of Python objects',
     'The real code compiled from the tree and instrumented, over a small stand-in for CPython that checks its rules. A sys.stdout that prints in turn is not modelled. Up to 4 threads with 3 messages each.',
     observe=['what was written, in which order', 'results of with_print', 'pending exceptions', 'live Python objects'])

prop('P17', 'Queued recursion runs each callback once, in the order recursion would',
     'A TrampolineExecutor runs what its callbacks enqueue exactly as recursion would call it: each callback once, after the one that enqueued it has returned and after all that was enqueued before it by the same callback, with everything that came of that. '
     'The first failure, of the root callback too, is returned as it is, and no further callback is called; what is left is destroyed. What a callback captured stays as it was until it has run, and is gone when the executor returns. '
     'The depth of the recursion costs no stack, and callbacks that have run are not kept. Executors within callbacks and in other threads do not affect one another.',
     ['inputs', 'fault_sequences', 'schedules'],
     'all trees of callbacks, all moments of failure, all nestings of executors, all interleavings of threads that have their own',
     'The tests run a few chosen programs in one thread, without counting what is destroyed.',
     ['koladata/internal/op_utils/trampoline_executor.h', 'koladata/internal/op_utils/trampoline_executor.cc'],
     [('enqueue and flush', 'trampoline_executor.cc: FlushBuffer'), ('loop', 'trampoline_executor.cc: Run')],
     'random programs of callbacks that enqueue (also through subroutines), fail, and run executors of their own, in several threads; oracle is the order of calls of plain recursion; life of every captured object, stack depth, data races, memory errors',
     'The real executor compiled from the tree and instrumented. Programs of up to 80 callbacks, chains of up to 1000.',
     observe=['calls in order', 'status', 'life of captured objects', 'stack depth'])

prop('P18', 'Future and stream operators pass on exactly what their inputs hold',
     'Every operator over futures and streams (as_future, unwrap_future_to_future and _to_stream, stream_from_future, future_from_single_value_stream, future_iterable_from_stream, stream_from_iterable, async_unpack_tuple, async_eval, add_source_location_on_error, stream_make, stream_chain and stream_interleave with their _from_stream forms, map, reduce, for, while, call) gives exactly the values of its inputs, in their order, and the error that ends them, whenever and from whichever thread they arrive; a result is settled once, also when an input fails or is abandoned. '
     'Nothing depends on the arguments outliving the call. A stream that must be a single value and is not gives an error. '
     'unsafe_blocking_wait and sync_wait return when the value or the cancellation has come, whichever the caller sees first, and never wait beyond that; sync_wait in a task of an executor is refused.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all inputs and moments of their arrival, failure, abandonment and cancellation, all executors and interleavings',
     'The tests call the operators on inputs that are complete or are completed in one fixed order.',
     [_PAR + 'future_operators.cc', _PAR + 'stream_operators.cc', _PAR + 'async_eval_operator.cc'],
     [('reading until the end', 'Process functions'), ('waiting', 'stream_operators.cc: UnsafeBlockingWait'), ('what the closures keep', 'lambdas of DoBind')],
     'interleavings at every memory access of operators on inputs that are late, fail, are dropped or stall; oracle is the definition of each operator on the recorded inputs; data races, memory errors, leaks, lost wake-ups',
     'The real operators, streams, futures and executors compiled from the tree and instrumented, run on frames that are destroyed when the operator returns. Frames, slots, sequences and functors are stand-ins. The reduce_stack and reduce_concat and JSON operators are covered below their operator form (P05, P09).',
     observe=['values and ends of results', 'status of waits', 'arguments that functors get'])

_JSON = 'koladata/operators/json_stream.cc'
_JSON_NOTE = ('The real json_stream.cc and stream_filter_json.cc on the real streams and executors, compiled from the tree and instrumented; threads, locks and the pool are the simulator\'s; data slices are a small stand-in that holds one string. '
              'Texts of up to 4 values, split at random points. ')

prop('P09', 'JSON operators do not depend on how the text is cut, nor lie about its end',
     'Every JSON stream operator gives the same text for the same input text, however that is cut into chunks (within tokens, escapes or, where bytes need not be UTF-8, characters), whenever the chunks arrive, on every executor and with missing items in between; each output chunk is valid UTF-8 if the input is. '
     'If the input fails, holds a wrong item, never ends, or the call is cancelled or abandoned, what was given is a beginning of that output, and the end is that error, never a success.',
     ['inputs', 'schedules', 'fault_sequences'],
     'all texts, all cuts and arrival times of the chunks, all operators and their arguments, all moments of failure and cancellation',
     'The tests feed chosen texts in a few cuts without concurrency or faults.',
     [_JSON, _PAR + 'stream_filter_json.cc', 'koladata/operators/json_stream_parser.cc'],
     [('byte-wise state machines that survive chunk ends', 'json_stream.cc: process_input functions'), ('reader and writer of one routine', 'json_stream.cc: JsonStreamImpl'), ('chunk parser and buffer', 'stream_filter_json.cc')],
     'interleavings at every memory access of a chunked, failing, stuck or cancelled input; oracle is the same operator on one chunk with an eager executor',
     _JSON_NOTE,
     observe=['text and chunks of the output', 'its end'])

prop('P10', 'JSON stream operators give the documented values for every valid input',
     'For any sequence of valid JSON values, each JSON stream operator (head, select_nonempty_objects, select_nonempty_arrays, select_nonnull, get_object_key_value and _values, get_array_nth_value, implode_array, explode_array, prettify, chunk_values, quote, unquote, filter_json, stream_string_value) gives exactly the documented values in order: compact and separated by newlines, prettify in the layout of json.dumps, chunk_values one value to a chunk; strings and numbers keep their value. '
     'head ends as soon as it has its values even if the input never does.',
     ['inputs', 'schedules', 'fault_sequences'],
     'all valid texts (whitespace, escapes, numbers, nesting, duplicate keys, empty containers), arguments, cuts and schedules',
     'The tests check chosen texts; the state machines have many combinations of container, position and kind of value.',
     [_JSON, _PAR + 'stream_filter_json.cc', 'koladata/operators/json_stream_parser.cc'],
     [('state machine per operator', 'json_stream.cc'), ('path matching', 'json_stream_parser.cc')],
     'generated texts, cut and scheduled by the simulator; oracle is a strict JSON parser and the operator defined on values',
     _JSON_NOTE + 'Paths of filter_json use keys without escapes.',
     observe=['values, layout and chunks of the output'])

prop('P11', 'JSON salvage gives valid JSON for any text and keeps the values of JSON',
     'For any input text, JSON salvage ends well with valid JSON values separated by newlines, ASCII only with ensure_ascii and without NaN or infinities unless allow_nan, however the text is cut into chunks. '
     'If the input is JSON, possibly with comments, single-quoted and triple-quoted strings, unquoted keys, hexadecimal numbers, trailing commas, Python constants and the other documented variations, within max_depth, the output has exactly its values.',
     ['inputs', 'schedules'],
     'all texts, also not UTF-8, all cuts, options and schedules',
     'The tests check chosen texts; the claim about validity is about every text.',
     [_JSON],
     [('state machine of the salvaging parser', 'json_stream.cc: JsonSalvage'), ('surrogate and escape handling', 'json_stream.cc: JsonSalvage')],
     'generated values in many spellings, and token soup, cut and scheduled by the simulator; oracle is a strict JSON parser and the generated values',
     _JSON_NOTE + 'Values are up to 3 deep; soup up to 10 fragments.',
     observe=['values and separators of the output'])
