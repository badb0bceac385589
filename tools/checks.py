# Registered checks: for every property, which harness modes run, in which build flavour, how many cases per tier.
# 'require' names counters that must be non-zero, so that a run that observed nothing is an error, not a pass.
CHECKS = {
    'C11': dict(
        harness='c11', technique='round-trip monitor with an independent deep comparison, AddressSanitizer and UBSan', level='exploration',
        rule='seeded random values of every serializable type (boundary-biased numbers, arbitrary byte strings, nested containers to depth 4, containers at the lengths where the encoding of the length changes); '
             'distinct = distinct encoded byte strings round-tripped',
        require=['typed_roundtrips', 'object_roundtrips', 'poly_roundtrips', 'big_roundtrips'],
        jobs=[dict(mode='typed', quick=1600), dict(mode='object', quick=12000), dict(mode='big', quick=30, thorough=150), dict(mode='unser', quick=8, shards=1)],
        assumptions=['values are compared by an independent deep comparison in the harness', 'lengths above 2^32 are not generated']),
    'C07': dict(
        harness='c07', technique='byte-queue model monitor', level='exploration',
        rule='random sequences of push/forward/pop/require/hold/clear over fresh, sub-range, slab, generic and circular buffers against a byte queue; '
             'blocks with random reserves fed fragmented buffers; sources with output reserves; distinct = distinct operation sequences',
        require=['pushes', 'pops', 'requires_real', 'forwards', 'holds', 'block_works', 'message_wakeups', 'output_fronts', 'output_pops', 'output_reserves_raised'],
        jobs=[dict(mode='acc', quick=4000), dict(mode='block', quick=160), dict(mode='outres', quick=120)],
        assumptions=['pops are bounded by the front buffer, as the API requires']),
    'C24': dict(
        harness='c24', technique='reference-model monitors and mutual-exclusion monitors', level='exploration',
        rule='random operation sequences on RingDeque/OrderedQueue against std::deque/ticket models with lifetime-tracking elements; UIDs from threads and forked processes; '
             'lock stress with in-section monitors under TSan with injected delays; distinct = distinct operation sequences / contention outcomes',
        require=['ring_ops', 'oq_ops', 'uids', 'spin_sections', 'rw_writes', 'rw_reads', 'rw_reader_overlaps', 'filelock_sections'],
        jobs=[dict(mode='ring', quick=2400), dict(mode='oq', quick=2400), dict(mode='uid', quick=40), dict(mode='flock', quick=80),
              dict(mode='spin', flavor='tsan', quick=60, perturb=(300, 0, 50)), dict(mode='rw', flavor='tsan', quick=60, perturb=(300, 0, 50))],
        assumptions=['pushes respect the documented capacity', 'OrderedQueue indices are tickets below its capacity']),
    'C06': dict(
        harness='c06', technique='buffer ownership model and content monitors', level='exploration',
        rule='random acquire/slice/copy/hold/release/destroy histories on generic and circular managers against an exact ticket model, amalgamations, pools, shared and mapped buffers; '
             'topologies whose sinks hold stream buffers while external threads release them; contents of every held reference re-verified; distinct = distinct histories',
        require=['takes', 'releases', 'full_recoveries', 'amalgamations_held', 'pool_gets', 'circular_buffers', 'subranges', 'topo_held_verified', 'mt_returns', 'manager_destroyed_while_held', 'circular_under_mmap_load'],
        jobs=[dict(mode='mgr', quick=2400), dict(mode='amalg', quick=2400), dict(mode='pool', quick=800), dict(mode='shared', quick=400), dict(mode='bad', quick=1), dict(mode='circmt', quick=48, perturb=(0, 20, 40)),
              dict(mode='topo', quick=48, perturb=(100, 400, 100)), dict(mode='topo', flavor='tsan', quick=32, perturb=(100, 400, 100)),
              dict(mode='mt', quick=40, perturb=(200, 0, 50)), dict(mode='mt', flavor='tsan', quick=24, perturb=(200, 0, 50))],
        assumptions=['a manager is driven by one owner at a time, with returns serialized by its callback, as the output port does']),
    'C01': dict(
        harness='c01', technique='stream content monitor over random topologies', level='exploration',
        rule='random topologies of sources, copying/in-place/forwarding/repacking/rate-changing blocks, multi-input blocks and fan-out sinks on random thread pools with injected delays; '
             'every byte offered to a block is checked against the content function of the stream it is connected to, delivery counts at quiescence; distinct = distinct topology shapes',
        require=['elements_verified', 'in_place_works', 'forwarded_buffers', 'sent_produce', 'sent_getbuffer', 'sent_allocated', 'sent_subrange', 'circular_managers', 'generic_managers', 'pushed_elements', 'wait_inactive', 'sibling_designs', 'spanning_fronts'],
        jobs=[dict(mode='graph', quick=320, perturb=(60, 600, 100)), dict(mode='graph', flavor='tsan', quick=120, perturb=(60, 600, 100)),
              dict(mode='push', quick=64, perturb=(60, 600, 100)), dict(mode='push', flavor='tsan', quick=32, perturb=(60, 600, 100)),
              dict(mode='siblings', quick=96, perturb=(60, 300, 100)), dict(mode='siblings', flavor='tsan', quick=32, perturb=(60, 300, 100))],
        assumptions=['connected ports use the same element size', 'in-place blocks consume at least what they write', 'blocks consume no more than offered']),
    'C02': dict(
        harness='c02', technique='label position/conservation monitor over random topologies', level='exploration',
        rule='random topologies (fan-out, chains, decimation, interpolation) whose label sets are a pure function of the element index, labels posted shuffled and ahead of their elements; '
             'every offered label range is compared with the exact expected set; distinct = distinct topology shapes and label patterns',
        require=['labels_checked', 'labels_posted', 'labels_removed', 'future_labels', 'propagations', 'cross_size', 'labels_pushed', 'label_arith'],
        jobs=[dict(mode='graph', quick=200, perturb=(60, 600, 100)), dict(mode='graph', flavor='tsan', quick=48, perturb=(60, 600, 100)),
              dict(mode='xsize', quick=60), dict(mode='preload', quick=40), dict(mode='label', quick=20)],
        assumptions=['labels preloaded from outside use one-byte elements, where the index unit is unambiguous', 'labels at the same position may arrive in any relative order']),
    'C03': dict(
        harness='c03', technique='exactly-once/ordering monitor over message histories', level='exploration',
        rule='random fan-out/fan-in of message ports, signals to overloaded slots, probes, rings and concurrent external pushes; values are a pure function of (sender, number), each receiver checks the next number of '
             'every sender; handlers and senders throw at random; distinct = distinct topology shapes / push histories',
        require=['deliveries', 'slot_calls', 'probe_replies', 'signals_emitted', 'messages_posted', 'pushed_messages', 'handler_exceptions', 'sender_exceptions', 'near_full_outputs', 'signal_messages', 'peeks', 'ring_hops', 'preloaded'],
        jobs=[dict(mode='graph', quick=240, perturb=(60, 600, 100)), dict(mode='graph', flavor='tsan', quick=80, perturb=(60, 600, 100)),
              dict(mode='push', quick=64, perturb=(60, 600, 100)), dict(mode='push', flavor='tsan', quick=32, perturb=(60, 600, 100)), dict(mode='ring', quick=32, perturb=(60, 600, 100))],
        assumptions=['an unserviced input queues at most 1024 messages (documented overflow bound)', 'signals are emitted from the emitting block\'s own context', 'a prober is the only user of its probe']),
    'C04': dict(
        harness='c04', technique='ThreadSanitizer plus in-block exclusion monitors', level='exploration',
        rule='random topologies whose blocks keep unprotected state touched by every callback (work, prepare, labels, slots, calls, probes, activate, deactivate, manager queries), driven by worker threads and external '
             'callers, pushes, stats queries, commits and pool changes with injected delays; distinct = distinct topology/edit shapes',
        require=['entries_work', 'entries_prepare', 'entries_labels', 'entries_slot', 'entries_call', 'entries_activate', 'entries_deactivate', 'entries_inmgr', 'entries_outmgr', 'entries_probe', 'entries_overload', 'external_operations'],
        jobs=[dict(mode='excl', quick=160, perturb=(60, 600, 100)), dict(mode='excl', flavor='tsan', quick=160, perturb=(60, 600, 100))],
        assumptions=['topology edits come from one controlling thread', 'external callers use call(), proxies and the port push functions']),
    'C05': dict(
        harness='c05', technique='progress monitors (quiescence counted in polls, hangs confirmed by re-run) under pool churn and injected delays', level='exploration',
        rule='single events injected into idle chains under every pool configuration; streams through pools that are replaced and torn down; concurrent topology lifecycles; producers starved of buffers; consumers that ask for a larger front once everything is queued; '
             'waitInactive against recorded activity; distinct = distinct pool/topology configurations',
        require=['kicks', 'pool_changes', 'pool_runs', 'lifecycles', 'starved_producers', 'inactive_checks', 'active_reported', 'pop_turns', 'circular_reserves', 'reserve_raises', 'fresh_waits'],
        jobs=[dict(mode='kick', quick=96, perturb=(40, 800, 60)), dict(mode='kick', flavor='tsan', quick=24), dict(mode='pools', quick=48, perturb=(40, 800, 60)), dict(mode='pools', flavor='tsan', quick=24, perturb=(40, 800, 60)),
              dict(mode='life', quick=48, perturb=(40, 800, 60)), dict(mode='life', flavor='tsan', quick=24, perturb=(40, 800, 60)), dict(mode='resource', quick=64, perturb=(40, 800, 60)), dict(mode='asker', quick=96, perturb=(40, 800, 60)), dict(mode='inactive', quick=48)],
        assumptions=['a stall is 4000 or more 1 ms polls without any progress anywhere in the process', 'every block that needs another turn says so with yield()']),
    'C08': dict(
        harness='c08', technique='phase monitor in every block callback over edit histories', level='exploration',
        rule='random histories of connect/disconnect/commit/disconnect-all/destroy with throwing activate and deactivate, free-running producers, pushes to inactive blocks and blocks destroyed after removal; '
             'activation counts compared with the set difference of declared designs after every commit; distinct = distinct edit histories',
        require=['activations', 'deactivations', 'failed_activations', 'failed_deactivations', 'commits', 'faulty_commits', 'works_checked', 'slots_checked', 'stay_checks', 'topologies_destroyed', 'blocks_destroyed_after_removal', 'pushes_to_inactive'],
        jobs=[dict(mode='hist', quick=240, perturb=(40, 800, 60)), dict(mode='hist', flavor='tsan', quick=96, perturb=(40, 800, 60))],
        assumptions=['topology edits come from one thread', 'calls made directly on a block are not work and may run while it is inactive']),
    'C09': dict(
        harness='c09', technique='delivery matrix monitor against an independently flattened graph model', level='exploration',
        rule='random edit histories (connect, disconnect, disconnect-all, refused requests, commits) over random trees of nested topologies with boundary and pass-through flows; after each commit every leaf output sends a tagged '
             'element, label, message and signal and every input\'s log must equal the reachability of the declared graph; reported structure compared with the declarations; distinct = distinct edit histories',
        require=['connects', 'disconnects', 'boundary_disconnects', 'pass_throughs', 'refused_connects', 'refused_requests', 'disconnect_alls', 'commits', 'probe_rounds', 'deliveries_checked', 'structure_checks', 'flat_flows', 'auto_ports', 'dense_flat_flows', 'wide_pass_throughs'],
        jobs=[dict(mode='edit', quick=240, perturb=(20, 0, 40)), dict(mode='auto', quick=48, perturb=(40, 800, 60)), dict(mode='auto', flavor='tsan', quick=32, perturb=(40, 800, 60)), dict(mode='edit', flavor='tsan', quick=32)],
        assumptions=['designs in which two boundary paths join the same two ports are not built', 'all blocks live in one process', 'topology edits come from one thread']),
    'C13': dict(
        harness='c13', technique='construction/destruction ledger against a reference-graph model, AddressSanitizer and ThreadSanitizer', level='exploration',
        rule='random histories of object operations (make, emplace, reference, copy, move, self-assignment, swap, assignment from the replaced value\'s own contents, containers, throwing constructors) checked after every step '
             'against a model of which value each object refers to; threads copy, drop, read and mutate shared objects without other synchronisation; distinct = distinct histories',
        require=['states_checked', 'refused_extracts', 'sole_owner_refs', 'shared_refs_refused', 'self_assignments', 'child_assignments', 'mutations', 'throwing_constructions', 'thread_reads', 'thread_mutations', 'thread_values'],
        jobs=[dict(mode='seq', quick=3000), dict(mode='threads', quick=800, perturb=(20, 200, 20)), dict(mode='threads', flavor='tsan', quick=1500, perturb=(20, 200, 20))],
        assumptions=['one Object instance is used by one thread at a time; only the held value is shared']),
    'C14': dict(
        harness='c14', technique='conversion results against a wide-integer/long-double reference, UBSan float-cast and overflow checks', level='exploration',
        rule='every pair of the 17 registered number types at the limits of all types (powers of two and neighbours, fractions, non-finite values, imaginary parts), vectors element by element, byte strings, and nested object/proxy '
             'containers; distinct = distinct source values',
        require=['conversions', 'refused', 'vector_conversions', 'proxy_vector_conversions', 'string_conversions', 'container_conversions', 'ability_checks', 'colliding_keys'],
        jobs=[dict(mode='numbers', quick=800), dict(mode='containers', quick=800)],
        assumptions=['conversions that need the optional SIMD code (widening vector conversions) cannot run in this build and are not exercised']),
    'C15': dict(
        harness='c15', technique='comparison/hash results against an exact reference order, all pairs and triples of generated pools', level='exploration',
        rule='pools of numbers of every type around shared values (including beyond double precision and infinities), strings differing in single bytes, nulls, booleans, complex and unordered values, and numbers equal to other values\' '
             'hashes; every pair and triple is checked, and sets and maps keyed by the pool are compared with a list; distinct = distinct pools',
        require=['comparisons', 'incomparable', 'equal_hashes', 'triples', 'lookups', 'rebuilt'],
        jobs=[dict(mode='coherent', quick=2400)],
        assumptions=['NaN has no order and is not used', 'complex numbers with an imaginary part are unordered', 'types without a registered comparison or hash are equal only to themselves (same object)']),
    'C16': dict(
        harness='c16', technique='argument-recording targets against a model of bindings', level='exploration',
        rule='random bind/unbind/copy/call histories over functions, methods, const methods, function objects and constructors of 13 signatures, with exact, convertible, unconvertible, missing and surplus arguments and throwing '
             'targets; overloads registered on blocks in random order; callables shared by threads; distinct = distinct histories / registration orders',
        require=['calls', 'thrown', 'refused_args', 'too_few', 'extra_args', 'binds', 'unbinds', 'copies', 'shape_checks', 'factories', 'registry_calls', 'overload_calls', 'no_match', 'registry_refused', 'topology_calls', 'concurrent_calls'],
        jobs=[dict(mode='bind', quick=6000), dict(mode='factory', quick=800), dict(mode='registry', quick=4000), dict(mode='mt', quick=60), dict(mode='mt', flavor='tsan', quick=60, perturb=(100, 0, 20))],
        assumptions=['surplus arguments are ignored (existing tests rely on it)', 'argument conversion itself is judged by C14']),
    'C17': dict(
        harness='c17', technique='twin instances: each proxied operation is repeated directly in C++ and all state compared', level='exploration',
        rule='random histories of construction (value/new/shared), overloaded and inherited calls, fields, statics, proxies as arguments (also of another environment), references, failures, opaque and wildcard handlers, and values '
             'moved into an environment and back; every instance compared with its directly driven twin after each step; distinct = distinct histories',
        require=['constructed', 'refused_constructions', 'references', 'deletes', 'proxy_arguments', 'foreign_proxies', 'reference_results', 'thrown', 'static_calls', 'echoes', 'derived_methods', 'refused_calls', 'calls', 'inherited_calls', 'opaque_calls', 'wildcard_calls', 'values', 'containers', 'concurrent_calls'],
        jobs=[dict(mode='inst', quick=6000), dict(mode='opaque', quick=2400), dict(mode='values', quick=2400), dict(mode='mt', quick=60), dict(mode='mt', flavor='tsan', quick=48, perturb=(100, 0, 20))],
        assumptions=['argument conversion itself is judged by C14', 'null proxies are not passed as arguments', 'instances made with new are deleted once by their user']),
    'C20': dict(
        harness='c20', technique='tree model, per-path linearizability checking of recorded concurrent histories, ThreadSanitizer', level='exploration',
        rule='random path strings against the path grammar; random add/remove/handler histories with the whole tree and all event logs compared after each step; types whose converters, comparisons, hashes and classes come and go; histories of module loads, repeated and failing loads, copies and unloads in one or several threads; '
             'concurrent histories recorded with invocation/response times and searched for a sequential explanation; distinct = distinct histories / outcome patterns',
        require=['valid_paths', 'rejected_paths', 'adds', 'refused_adds', 'removes', 'refused_removes', 'handlers', 'removed_handlers', 'events', 'trees_checked', 'type_checks', 'clean_errors', 'history_ops', 'overlapping_ops', 'concurrent_events', 'churned_types', 'conversions_during_churn', 'attributions', 'modules_loaded', 'modules_reloaded', 'modules_unloaded', 'plugins_unloaded', 'module_plugins_removed', 'bad_modules', 'concurrent_module_worlds', 'shared_releases'],
        jobs=[dict(mode='paths', quick=800), dict(mode='seq', quick=480), dict(mode='types', quick=400), dict(mode='mt', quick=160, perturb=(100, 300, 20)), dict(mode='mt', flavor='tsan', quick=160, perturb=(100, 300, 20)),
              dict(mode='churn', quick=24), dict(mode='churn', flavor='tsan', quick=24, perturb=(100, 0, 20)),
              dict(mode='modules', quick=160, case_timeout=60), dict(mode='modules', flavor='tsan', quick=64, perturb=(100, 0, 20), case_timeout=60)],
        assumptions=['event counts are compared for handlers registered before the changes they observe', 'list order is compared for names that were never removed']),
    'C21': dict(
        harness='c21', technique='reference evaluation of generated expression trees, garbled-text stress under AddressSanitizer/UBSan, concurrent evaluation under ThreadSanitizer', level='exploration',
        rule='random expression trees (numbers in all notations, booleans, strings, functions, conditionals, list arithmetic, nested lists and maps, constants) printed with random spacing and bracketing and compared with the value computed on the tree; '
             'histories of constant changes and failing evaluations; garbled, random and unbalanced texts; several threads sharing one environment; distinct = distinct expression texts',
        require=['values', 'containers', 'with_strings', 'constants', 'unregistered', 'unknown_names', 'odd_rejected', 'odd_accepted', 'accepted', 'rejected', 'unbalanced', 'concurrent_evals'],
        jobs=[dict(mode='expr', quick=2400), dict(mode='history', quick=800), dict(mode='hostile', quick=1600), dict(mode='mt', quick=320, perturb=(100, 300, 20)), dict(mode='mt', flavor='tsan', quick=240, perturb=(100, 300, 20))],
        assumptions=['whole numbers beyond 2^53 are rounded by the parser library', 'matrices of several rows, negation of a list, comparison of lists that differ only after their first element, and tabs between tokens are outside the grammar (parser library)', 'nesting up to 200 levels', 'the parser library (muparserx) itself is not instrumented']),
    'C12': dict(
        harness='c12', technique='AddressSanitizer, UBSan and LeakSanitizer over truncations and mutations of valid encodings, with accept/reject oracles', level='exploration',
        rule='every truncation (sampled for long encodings) of random values, byte/length/splice mutations, raw bytes and hand-made hostile structures fed to object and typed deserialization and to both ends of the remote-call protocol; distinct = distinct encodings',
        require=['truncations', 'mutations_accepted', 'mutations_rejected', 'raw_accepted', 'raw_rejected', 'typed_truncations', 'typed_accepted', 'typed_rejected', 'requests_served', 'requests_refused', 'requests_undecodable', 'request_truncations', 'framing_altered', 'client_calls_ok', 'client_conversations', 'client_errors', 'metered_decodes', 'pointer_loads'],
        jobs=[dict(mode='obj', quick=400, leaks=1, alloc_mb=256), dict(mode='raw', quick=400, leaks=1, alloc_mb=256), dict(mode='typed', quick=200, leaks=1, alloc_mb=256), dict(mode='server', quick=240, leaks=1, alloc_mb=256), dict(mode='client', quick=240, leaks=1, alloc_mb=256)],
        assumptions=['inputs of at most 64 KiB with containers nested at most 60 levels deep', 'a decode may hold 16 MiB plus 512 times its input at once (values, read-ahead per nesting level)']),
    'C18': dict(
        harness='c18', technique='differential monitor of remote against local calls, per-caller reply oracle and object-lifetime ledger under AddressSanitizer and ThreadSanitizer', level='exploration',
        rule='random call histories performed on twin objects locally and over a connection and compared step by step (values of every serializable kind, exceptions, errors, constructors, statics, fields, proxies as arguments and results, unserializable values), with the set of live remote objects compared to the references held after every step; 2-7 threads over one connection (in-process stream with arbitrary chunking, or loopback socket) checking that every reply is their own and every call executed once; proxies of two server processes, a second connection and the local process mixed as arguments of each other\'s calls; distinct = distinct histories',
        require=['same_results', 'same_messages', 'same_errors', 'lifetime_checks', 'releases', 'proxies_passed', 'aliases_checked', 'unserializable', 'descriptions', 'concurrent_calls', 'exactly_once_effects', 'second_connections', 'tcp_sessions', 'arguments_same_process', 'arguments_across_processes', 'compares_across', 'objects_other_connection', 'unsendable_objects'],
        jobs=[dict(mode='same', quick=400), dict(mode='threads', quick=160, perturb=(20, 400, 50)), dict(mode='tcp', quick=80), dict(mode='peers', quick=100), dict(mode='threads', flavor='tsan', quick=160, perturb=(20, 400, 50))],
        assumptions=['a call argument or result whose type is not serializable fails that call only']),
    'C19': dict(
        harness='c18', technique='fault injection at byte positions of real conversations with per-caller verdict monitors under AddressSanitizer and ThreadSanitizer', level='exploration',
        rule='a fixed conversation cut (or replaced by noise and closed) at byte positions spread over both directions; 2-7 concurrent callers with the connection closed or cut in either direction at random moments; loopback sockets closed or reset by the server; every caller must return its own complete reply or a library error, later calls must fail, the served session must end, another session must be unaffected; distinct = distinct cut positions and break histories',
        require=['conversations_completed', 'conversations_failed', 'cuts_of_requests', 'cuts_of_replies', 'garbled_tails', 'callers_failed', 'late_calls', 'connections_broken', 'calls_acknowledged', 'write_failures', 'tcp_breaks'],
        jobs=[dict(mode='cut', quick=900), dict(mode='break', quick=400, perturb=(20, 400, 50)), dict(mode='break', flavor='tsan', quick=300, perturb=(20, 400, 50)), dict(mode='tcpbreak', quick=120)],
        assumptions=['a broken stream reports end-of-file or an error in bounded time; a connection that stays open while delivering nothing is not broken']),
    'C23': dict(
        harness='c23', technique='reference-model monitors of types, chunks, mappings and conversions under AddressSanitizer and UBSan', level='exploration',
        rule='every element type in every spelling (case, whitespace, leading zeros, typeid, object and proxy construction) with random dimensions, and malformed texts; random histories of chunk operations compared with a byte model after each step; circular memory and its aliases; mapped files; all ordered pairs of numeric types for real-to-complex and component conversions with partial counts, vector dimensions and guard bytes; distinct = distinct markups, histories and conversions',
        require=['spellings', 'equal_pairs', 'unequal_pairs', 'malformed_rejected', 'chunks_checked', 'sub_buffers_refused', 'appends', 'alias_checks', 'wrapped_appends', 'mappings', 'mappings_refused', 'write_only_mappings', 'real_to_complex', 'complex_to_components', 'small_outputs_refused', 'conversions_refused', 'views'],
        jobs=[dict(mode='type', quick=11000), dict(mode='chunk', quick=12000), dict(mode='circ', quick=800), dict(mode='mmap', quick=1000), dict(mode='conv', quick=12000)],
        assumptions=['conversions that need the SIMD kernels are not available in this build and are not exercised', 'values converted are in the range of the output type']),
    'C10': dict(
        harness='c10', technique='statistics snapshots bracketed by per-block counters, conservation at an immediate stop, set-up model', level='exploration',
        rule='random graphs of counting blocks (produce, post, labels, messages, signals, throwing work, declined prepare, removed labels, empty pops, nested topologies) with statistics queried live from one or two threads and '
             'the graph stopped at an arbitrary moment; queues of idle blocks; random sequences of port, call, probe and alias set-up; boundary ports and pools of topologies; distinct = distinct graphs and set-up sequences',
        require=['live_snapshots', 'rest_snapshots', 'port_balances', 'elements', 'labels', 'messages', 'empty_pops', 'labels_removed', 'stopped_with_backlog', 'nested_designs', 'fresh_blocks', 'queue_checks', 'mismatched_pushes', 'clears',
                 'setup_steps', 'refused_setups', 'auto_ports', 'auto_ports_removed', 'probes', 'calls_checked', 'boundary_checks', 'topology_aliases', 'pools', 'pool_args'],
        jobs=[dict(mode='run', quick=160, perturb=(40, 800, 60)), dict(mode='run', flavor='tsan', quick=48, perturb=(40, 800, 60)), dict(mode='queue', quick=400), dict(mode='setup', quick=800), dict(mode='topo', quick=240)],
        assumptions=['the system clock is not set back during a run', 'port names with leading zeros are not used']),
    'C22': dict(
        harness='c22', technique='recording blocks against the generator\'s model of the description, instance ledger, AddressSanitizer', level='exploration',
        rule='random descriptions (globals, locals, shadowing, expressions, literal strings, lists, maps, constructor arguments, calls, pools, connections, self ports) compared step by step with what the described blocks saw; '
             'one defect planted per description, random structural mutations, and descriptions registered through the conf loader with overriding arguments; distinct = distinct descriptions',
        require=['blocks_described', 'calls_described', 'connections_described', 'variables', 'topologies_compared', 'pool_pairs', 'invalid_refused', 'mutants_accepted', 'mutants_refused', 'loaded_topologies', 'loader_refused', 'bad_confs'],
        jobs=[dict(mode='good', quick=600), dict(mode='pool', quick=80), dict(mode='bad', quick=600), dict(mode='fuzz', quick=800), dict(mode='loader', quick=160)],
        assumptions=['block ids are distinct', 'string arguments that are overridden through the loader hold no quotes']),
    'C25': dict(
        harness='c25', technique='generator\'s model against the parsed description, planted mistakes, mutations, recording loader and blocks, AddressSanitizer and UBSan', level='exploration',
        rule='source texts in eight comment styles with random directives, unrelated code and comments, compared with the declared model through every parser and generator output; one planted mistake per text; byte-level mutations; very long lines; '
             'directory trees of conf files read by a recording loader; description files; random histories of the block evaluator; distinct = distinct texts and histories',
        require=['documents', 'directives', 'files', 'mistakes_refused', 'mutants_accepted', 'mutants_refused', 'long_line_chars', 'registrations', 'json_outputs', 'conf_files', 'conf_failures', 'other_files', 'descriptions_registered', 'bad_descriptions', 'properties', 'evaluations_ok', 'evaluations_failed', 'calls_ok', 'calls_failed'],
        jobs=[dict(mode='docs', quick=4000), dict(mode='baddocs', quick=3000), dict(mode='fuzzdocs', quick=6000), dict(mode='long', quick=64), dict(mode='cpp', quick=400), dict(mode='conf', quick=400), dict(mode='desc', quick=600), dict(mode='eval', quick=1200)],
        assumptions=['brackets inside parameter and option texts are escaped, as the markup asks', 'directive lines are shorter than 4 KiB', 'property files as Poco reads them']),
}
