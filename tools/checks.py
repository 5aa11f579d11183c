"""What each check runs; MANIFEST.json is generated from this table by tools/gen_manifest.py."""
ASSUMPTIONS = [
    'rmw, rcutils, rcpputils and the generated message types are stand-ins (/verif/env) that follow the documented behaviour of those packages; '
    'the sources of rmw_dds_common are compiled unmodified from /repo against them, and its own tests pass on them (run.py --selftest)',
]
G = 'h_graph'
TWO = ['opt', 'asan']
GR = ('one case is one sequence of real GraphCache calls (all calls of the alphabet that are within their documented preconditions, in every order, up to the '
      'bound; plus every edge of the state graph of the reference model, reached by its shortest history); distinct cases are counted by the '
      'fingerprint of everything the queries answered')


def graph(rule=GR, technique='explicit-state exploration: all histories to a depth and all model-state edges, replayed on the real GraphCache against a reference model',
          bounds=None, level='model_checking', **kw):
    return dict(harness=G, variants=TWO, level=level, rule=rule, technique=technique, bounds=bounds, **kw)


CHECKS = {
    'C01': graph(bounds={
        'quick': 'every edge of the state graphs also with an hour or 40 days between the operations; names of every length to 300 and around powers of two to 65537, and with every byte; state graph of 2 gids x 2 kinds x 3 attribute sets; all histories of 5 of 9 endpoint calls, of 4 of 12 mixed calls; gids differing in one byte (16 positions x 5 byte pairs) '
                 'depth 3; up to 20 endpoints; 13 x 13 unusual names; every combination of names, type, type hash (every byte and version), QoS (every field value) of one endpoint; observed after every step and only at the end',
        'thorough': 'state graph of 3 gids x 2 kinds x 3 attribute sets (4096 states), histories of 6 calls, one-byte gids depth 5, up to 40 endpoints'},
        note='Within the bounds, every history of endpoint additions and removals (all overloads) gives exactly the reference registry; gids, counts and QoS values come from small pools.'),
    'C02': graph(bounds={
        'quick': 'every edge of the state graphs also with an hour or 40 days between the operations; two further demanglers of each type; names of every length to 300 and around powers of two to 65537, and with every byte; state graphs and histories (depth 4 and 5) of 10-11 calls on 4 topics, 3 types, 2 nodes, 2 participants, with identity and with filtering/merging demanglers; local association histories depth 5; '
                 'one-byte gids depth 3; up to 24 endpoints per node; 13 x 13 unusual names; every announcement of a pool (all node and gid lists of the pool) replaced by every other one',
        'thorough': 'same alphabets, depth 6 and 7, one-byte gids depth 5'},
        note='Every reachable state of the bounded endpoint/announcement model, with two demangling conventions; names come from a pool.'),
    'C03': graph(bounds={
        'quick': 'every edge of the state graphs also with an hour or 40 days between the operations; names of every length to 300 and around powers of two to 65537, and with every byte; state graph of 2 participants x 2 enclaves x announcements x local nodes (duplicates allowed), histories of 4-5 of 9-14 calls, participants differing in one byte, up to 40 nodes per participant; every announcement of a pool (all node and gid lists of the pool) replaced by every other one',
        'thorough': 'same alphabets, depth 6'},
        note='Every reachable state of the bounded participant/node model; removal choice among equal names is not judged.'),
    'C04': graph(bounds={
        'quick': 'every edge of the state graphs also with an hour or 40 days between the operations; names of every length to 300 and around powers of two to 65537, and with every byte; state graphs of announcements (14 calls) and local associations (11 and 12 calls), histories depth 4 and 6, one-byte gids depth 3, every position of the announcing node (<=6 nodes, <=5 gids); every announcement of a pool (all node and gid lists of the pool) replaced by every other one, triples of one-node ones, participants leaving and returning',
        'thorough': 'same alphabets, depth 6 and 8, one-byte gids depth 5'},
        note='Every reachable state of the bounded announcement model; several nodes announcing one gid accept any of them.'),
    'C05': graph(technique='model checking: every delivery order (interleaving of per-entity fact streams) replayed on the real GraphCache and compared with the order-independent final state',
        rule='one case is one interleaving of the per-entity event streams of a fact set, delivered to a real cache; distinct cases are counted by the final model state',
        bounds={'quick': '6 fact sets of 7-11 events in 4-7 streams, and for every pair of a pool of announcements the fact set in which the second replaces the first; every interleaving', 'thorough': '7 fact sets, up to 11 events in 8 streams, every interleaving'},
        note='All delivery orders of each bounded fact set; per-entity order is preserved as DDS does.'),
    'C06': graph(technique='model checking: all local operation histories x all loss/duplication patterns of their messages x initial replica states, sender and replica being real GraphCaches',
        rule='one case is a history of local operations of a sender together with, per message, lost/delivered/delivered twice, and one of four initial replica states; distinct cases are counted by the fingerprint of what the replica answered',
        bounds={'quick': 'every edge of the state graphs also with an hour or 40 days between the operations; names of every length to 300 and around powers of two to 65537, and with every byte; histories of 4 of 7-8 local operations, 3 deliveries per message, 4 replica states; state graph of messages with 3 nodes; up to 24 endpoints per node; every announcement of a pool (all node and gid lists of the pool) replaced by every other one on a replica', 'thorough': 'histories of 5-6 operations'},
        note='All message loss and duplication patterns of every bounded local history.'),
    'C07': graph(bounds={'quick': 'every edge of the state graphs also with an hour or 40 days between the operations; state graphs over 10-18 calls including callback set/replace/clear and queries, histories of 4 and 6 calls; every announcement of a pool (all node and gid lists of the pool) replaced by every other one; 5 kinds of callable (temporary, named, const, reference, large)', 'thorough': 'histories of 6 and 7 calls'},
        rule='one case is a sequence of calls with a counting callback; the number of invocations is compared after every call; distinct cases by the sequence of kinds of call and invocation counts',
        note='Every bounded history; the number of callback invocations is compared after each call.'),
    'C08': graph(level='fault_enumeration', technique='exhaustive fault enumeration on the real queries: every allocation, library call, operator new and demangler call fails in turn',
        rule='one case is one query on one graph shape with the k-th fault point of one kind failing, for every k up to the last one reached; distinct non-trivial cases are (query, fault kind, outcome) classes in which the fault was reached',
        bounds={'quick': '296 graph shapes (<=3 writers, readers and types, <=2 nodes and participants; 8 with 9-17 endpoints, types, topics or nodes) x 7 queries x 6 fault kinds x every fault point', 'thorough': 'up to 4 writers, readers and 3 nodes'},
        note='Every single fault point (and every allocation failing from a point on) of each query on each bounded graph shape.'),
    'C09': graph(technique='exhaustive enumeration of all combinations of argument states of the real queries against a reference verdict',
        rule='one case is one query with one combination of allocator state and output states on one graph shape; distinct cases are (query, valid or not, verdict) classes',
        bounds={'quick': '7 allocator states x 5 or 6 states of each output x graph shapes x known/unknown node', 'thorough': 'all graph shapes up to 4 writers and readers'},
        note='All combinations of the enumerated argument states.'),
    'C26': graph(bounds={'quick': 'every edge of the state graphs also with an hour or 40 days between the operations; names of every length to 300 and around powers of two to 65537; state graph and histories (depth 4) of 15 calls; up to 20 endpoints and 11 nodes; every announcement of a pool (all node and gid lists of the pool) replaced by every other one', 'thorough': 'histories of 5 calls'},
        note='Every bounded history; the dump is parsed and compared as sets of entries.'),
    'C27': graph(
        rule='one case is one history of real GraphCache or Context calls whose last call is cut short by one fault: its k-th operator new (or every one from the k-th on) fails, or the change or publish '
             'callback throws; every k until the call no longer notices; distinct cases are counted by (fault, position, call, whether it was hit)',
        technique='fault enumeration: every bounded history x every allocation failure point and every callback exception of its last call, on the real GraphCache and Context against the reference model',
        bounds={'quick': 'histories of up to 3 calls (2 on a populated graph) of 19 graph calls and 10 context calls, all fault positions, two continuations; histories one shorter under AddressSanitizer',
                'thorough': 'histories of up to 4 calls (3 on a populated graph)'},
        note='Every position at which memory can run out inside every update of every bounded history, and every exception of the two callbacks; after each one the rest of the graph, the locks, the '
             'notifications and the memory are checked.'),
    'C24': dict(harness='h_sec', variants=TWO, level='model_checking',
        technique='exhaustive enumeration of the environment states (security directory contents, configurations, file faults) of the real lookup against a reference selection model',
        rule='one case is one real directory state (kind of each of 11 files), configuration (PKCS#11, prefix, root form, initial map) and set of injected file faults, looked up by the real code; '
             'states are directory states, transitions the file-system calls observed; distinct cases by configuration and pattern of selected sources',
        bounds={'quick': 'systematic .p11 texts (word lengths to 65537, blank runs, every byte at several positions, scheme variations), prefixes and roots of every length and with every byte, prefixes overlapping with the root, 8 roots relative to the enclave; 3^4 x 2^4 x 3 coarse directories; every pair of 22 .p11 kinds x 13 .pem kinds per attribute x all configurations; 13^3 governance/permissions/CRL kinds; single and paired faults; one file failing from its second access or after n bytes',
                'thorough': '3^4 x 3^4 x 2 x 2 x 3 coarse directories and all configurations of the fine product'},
        note='Every combination of the enumerated kinds on a real file system; file contents come from a pool of 15 texts and a systematic table.'),
    'C25': dict(harness='h_sec', variants=TWO, level='fault_enumeration',
        technique='exhaustive fault enumeration: every single and paired file fault, every unusable directory state, on the real lookup with interposed file-system calls',
        rule='as C24, including every state in which a required file is missing or unusable, unusable roots, and injected errors (11 error codes, 4 fault classes) on every file and pair of files; '
             'the directory is compared before and after each lookup; distinct cases by configuration and outcome',
        bounds={'quick': 'all single faults (12 targets x 4 classes x 11 errors; 3 classes x every error number), faults from the second access on or after n bytes, and pairs on 17 base directories; 3^4 x 2^6 coarse directories; all subsets of unusable files x 4 kinds; 13 root forms; prefixes and roots of every length and with every byte; the .p11 text table of C24',
                'thorough': 'all pairs of errors; coarse directories with 3 CRL kinds; all configurations of the fine product'},
        note='Every single and paired fault within the enumerated classes; faults are injected at the libc interface (stat, open, fopen, read).'),
    'C16': dict(harness='h_qos', variants=TWO, level='model_checking',
        technique='exhaustive enumeration of the state space of profile pairs on the real function against a transcription of the matching rules',
        rule='one case fixes the four durations (or the non-policy fields) and enumerates all policy combinations of a publisher/subscription pair, i.e. 15625 or 6561 states of the pair, each checked with the real function; '
             'distinct cases by the vector of verdicts',
        bounds={'quick': '5^6 policies x 13^4 durations (446 million pairs) and 72^2 variants of the other fields x 3^6 policies x 9 durations; a sub-box under ASan/UBSan', 'thorough': 'the full box also under ASan/UBSan'},
        note='Every pair of the bounded profile domain; durations come from a pool of 13 (or 3) normalized values, some beyond 64 bits of nanoseconds.'),
    'C17': dict(harness='h_qos', variants=TWO, level='model_checking',
        technique='exhaustive enumeration of profile pairs x every reason buffer size on the real function',
        rule='one case is a profile pair explained into every buffer size from 0 to three bytes more than the full text, each size one transition; distinct cases by the full text',
        bounds={'quick': '5^6 policies x up to 16 duration situations x every buffer size, guard bytes; 3^6 policies with exact heap buffers under ASan', 'thorough': 'all 16 duration situations and 5^6 policies in both variants'},
        note='Every buffer size for every pair of the bounded profile domain.'),
    'C18': dict(harness='h_qos', variants=TWO, level='model_checking',
        technique='exhaustive enumeration of publisher lists x every subset of best-available policies on the real adaptation against a reference',
        rule='one case is a list of publishers and a set of own values, adapted for each of the 32 subsets of best-available fields; distinct cases by the vector of results',
        bounds={'quick': 'lists of 0-4 publishers over policy/duration sub-boxes (all 5^3 x 9^2 singles, 200^2 and 256^2 pairs, triples, quadruples) and lists of 5-20 with one deviating field', 'thorough': 'lists up to 5, long lists up to 40'},
        note='Every list of the bounded domain.'),
    'C19': dict(harness='h_qos', variants=TWO, level='model_checking',
        technique='exhaustive enumeration of subscription lists x every subset of best-available policies on the real adaptation against a reference',
        rule='as C18 for lists of subscriptions',
        bounds={'quick': 'as C18', 'thorough': 'as C18'},
        note='Every list of the bounded domain.'),
    'C20': dict(harness='h_qos', variants=TWO, level='fault_enumeration',
        technique='exhaustive enumeration of best-available subsets x endpoint lists x query results x release results x missing arguments on the real functions with a recording query and allocator',
        rule='one case is one call with one combination; distinct cases by return code and resulting profile',
        bounds={'quick': '2 sides x 32 subsets x 2 own values x 7 lists x 9 query results x 9 release results x 4 missing arguments; services: 5^3 policies x 11^2 durations x 15 other fields', 'thorough': '72 other fields'},
        note='Every combination of the enumerated arguments and failures.'),
    'C21': dict(harness='h_util', variants=TWO, level='model_checking',
        technique='exhaustive enumeration of user-data texts (token and byte sequences up to a length) and of hash/neighbour combinations on the real functions',
        rule='one case is a user-data text (or block of texts sharing a prefix), parsed from an exactly sized heap buffer, or a round trip of a hash among other pairs; distinct cases by outcome class and text length or text',
        bounds={'quick': 'all sequences of up to 5 of 15 tokens, 4 more after a complete key; all strings of 1-3 bytes, 4-7 letters of a 7-letter alphabet; every byte of a well-formed pair replaced/inserted/dropped; '
                         '3 x 32 x 32 x 256 hashes; up to 2 of 15 pairs before and after x 4 trailers; allocation failures', 'thorough': 'up to 6 and 5 tokens, strings of 8 letters'},
        note='Every text of the bounded grammar; what counts as a pair is defined by rmw\'s parser (stand-in).'),
    'C22': dict(harness='h_util', variants=TWO, level='model_checking',
        technique='exhaustive enumeration of a boundary grid of durations on the real function against 128-bit arithmetic',
        rule='one case is one seconds (or nanoseconds) value against all nanoseconds (or seconds near the limit) of the grid; distinct cases by class',
        bounds={'quick': '2200 x 1600 grid around every power of two, INT_MAX, UINT_MAX, 2^63 and 2^64-1, and seconds within 64 of the limit for every nanosecond value', 'thorough': 'wider windows (300 seconds, 40 carries)'},
        note='Every duration of the bounded grid.'),
    'C23': dict(harness='h_util', variants=TWO, level='model_checking',
        technique='exhaustive enumeration of gid pairs and single gids on the real functions against a byte-wise reference',
        rule='one case is one gid against the pool, one byte position with all 256^2 values, or one gid converted and printed under 5 stream states; distinct cases by gid',
        bounds={'quick': 'pool of 19475 gids with up to two deviating bytes (every 7th partner), 256^2 values of every byte under 5 backgrounds with agreeing and contradicting successors', 'thorough': 'all pairs of the pool'},
        note='Every pair of the bounded pool.'),
    'C14': dict(harness='h_ctx', variants=TWO, level='fault_enumeration',
        technique='model checking: all histories of context operations x all patterns of publish failures on the real Context; the local graph before and after is read back from the real cache',
        rule='one case is a history of context operations, each with success or one kind of publish failure, judged at its last operation (every prefix is a case of its own); distinct cases by resulting local graph and failure kind',
        bounds={'quick': 'histories interleaved with 8 kinds of discovery; 2 s to 158 years between the operations; node names of every length to 300, around 512-4096, and with every byte; histories of up to 5 operations on 1 node name (duplicates allowed), up to 4 on 2 names x 2 endpoints and with a remote participant, up to 3 on 3 names; 14 publish outcomes for the last operation; '
                         'graphs of up to 9 nodes x 4 endpoints, every position; a reader and a writer of one gid; after 127-257 earlier operations', 'thorough': 'one operation deeper; up to 14 nodes x 8 endpoints; after 65536 operations'},
        note='Every bounded history and failure pattern; exceptions thrown by the callback are in C27.'),
    'C15': dict(harness='h_ctx', variants=TWO, level='model_checking',
        technique='model checking: all histories of context operations on the real Context against a reference model of the announcement',
        rule='as C14; the last operation\'s announcements (number, publisher, content) are compared with the model; distinct cases by announcement and operation',
        bounds={'quick': 'histories interleaved with 8 kinds of discovery; 2 s to 158 years between the operations; node names of every length to 300, around 512-4096, and with every byte; histories of up to 6 operations on 1 node x 2 endpoints, up to 5 on 2 nodes x 2 endpoints with failures and on 3 nodes with a remote participant; graphs of up to 9 nodes x 4 endpoints, every position; a reader and a writer of one gid; after 127-257 earlier operations',
                'thorough': 'one operation deeper; up to 14 nodes x 8 endpoints; after 65536 operations'},
        note='Every bounded history; concurrent operations are covered by C12.'),
    'C28': dict(harness='h_pure', variants=['conc'], level='model_checking', nshards=16,
        technique='explicit enumeration of all call sequences, and stateless model checking of all schedules of concurrent calls under a controlled scheduler with a data race detector, against each call alone in a fresh process',
        rule='one state is a sequence of calls or a concurrent program; transitions count calls and scheduling points, traces sequences and schedules; distinct cases by answers',
        bounds={'quick': 'a pool of about 68 calls (QoS compatibility with several buffers, adaptations, type hashes, clamping, gids, security lookups on real directories): all sequences of 3, 40 repetitions of each before '
                         'every other, all schedules of 1x1, 2x1 and 1x1x1 concurrent calls; 6000 pairs of calls whose arguments differ in one bit, field, character or file, in turn, in a process of their own',
                'thorough': 'all sequences of 4, 300 repetitions'},
        note='Every bounded sequence and schedule of the pool; a call outside the pool is not covered. Calls into the C and C++ libraries are not instrumented, except those that copy or format memory.'),
    'C29': dict(harness='h_conc', variants=['conc'], level='model_checking',
        technique='stateless model checking: every schedule of bounded programs, each thread on a Context and GraphCache of its own, under a controlled scheduler with a data race detector, against each program alone',
        rule='as C10; distinct cases by results and final states',
        bounds={'quick': '20 context operations, 25 updates, 37 queries (also failing ones), set and clear of the callback, and starting anew with a new instance: every pair; 1x2 and 1x1x1 over 24, 2x2 and 3x1 over 11; all schedules with at most one preemption',
                'thorough': '2x2 over 24, 3x2, 2x1x1 over 11; at most two preemptions'},
        note='Every schedule of the bounded programs on two or three instances with equal contents.'),
    'C30': dict(harness='h_mem', variants=['opt'], level='model_checking',
        technique='explicit enumeration of all closed walks of operations of the real objects over the reference model, each repeated with new gids under an allocation counter, and of all walks in short-lived objects',
        rule='one case is one walk of calls (closed in the model, or any walk followed by destruction), repeated 20 times (400 when memory grew); states count walks, transitions calls',
        bounds={'quick': 'graph cache: 25 calls (updates, all queries, queries with failing allocators, bad arguments and throwing demanglers, callbacks), walks of up to 5 from the empty cache and 4 from a populated one; '
                         'walks of up to 3 in short-lived caches; contexts: 10 operations with publish success and failure, walks of up to 5; 68 calls of free functions, singly and in pairs (memory and open files)',
                'thorough': 'walks of up to 6, short-lived ones of up to 4, contexts up to 6'},
        note='Every closed walk within the bounds; growth that starts only after more than 400 repetitions or larger contents is not seen. Names are the same in every round, gids are new.'),
    'C31': dict(harness='h_net', variants=TWO, level='model_checking',
        technique='explicit-state exploration of a domain of participants: all orders of local operations, announcements and discovery events (sleep-set partial-order reduction), executed on real Contexts, judged against the ground truth',
        rule='one case is one complete execution (one per class of orders that differ only in commuting events) of one tuple of scripts, after which every participant and a late joiner are compared with the ground truth; states count tuples of scripts, transitions events; distinct cases by what was seen',
        bounds={'quick': 'two participants, new (12 operations) or established (14), with failing announcements and leaving (participant or endpoints first): scripts of 0-3 operations against none, 2 against 1, 2 against 2 (new ones); three participants 1x1x0; every order, every choice of skipped announcements; with one loss of the other participant at every point: 0x0, 0x1, 1x0, 1x1, 2x0, 0x2, two losses 1x0',
                'thorough': '2x2 for established ones, 3x1, 4x0, three participants 1x1x1'},
        note='Every execution of the bounded scripts; announcements are reliable, keep last 1; discovery is FIFO per pair; announcements of a participant that left are lost; a participant lost for a while is discovered again with what there is.'),
    'C10': dict(harness='h_conc', variants=['conc'], level='model_checking',
        technique='stateless model checking: every schedule of bounded concurrent programs on the real GraphCache under a controlled scheduler, judged by a data race detector and by all sequential orders',
        rule='one program is a tuple of operation lists, one per thread; states counts programs, transitions scheduling points, traces complete schedules executed; distinct cases by results and final state',
        bounds={'quick': '25 usual and more unusual updates (unknown gids, endpoint gids equal to participant gids), 16 queries and failing queries (used outputs, invalid or failing allocator, throwing demangler), set and clear of the callback: every pair of calls, every 1x2 and 1x1x1 combination; 2x2 over 11 calls, 1x1x1x1 over 11, 3x3 over 5, query x 2 updates x 1 and query x 3 updates; and the same pairs with objects of every age: after 127, 128, 255 and 256 earlier calls of each kind, and in graphs of 17 to 260 endpoints; all schedules (no preemption bound), scheduling points at every lock, atomic and condition operation',
                'thorough': '1x1x1x1 over all 43 calls, 2x2 over 19, 3x3 over 8, query x 2 x 2, query x 4 updates'},
        note='Every schedule (over synchronization operations) of the bounded programs; complete because an execution with a data race is itself reported.'),
    'C11': dict(harness='h_conc', variants=['conc'], level='model_checking',
        technique='stateless model checking: every schedule of bounded programs of callback registration, clearing and graph updates on the real GraphCache under a controlled scheduler',
        rule='as C10; distinct cases by numbers of invocations',
        bounds={'quick': '26 updates x every sequence of 1-4 set/clear calls (updater of 1-2 calls), 2+1 set/clear threads, 1-3 set/clear calls x every pair of updaters, 4 threads, 3x3 mixed; the callback itself has a scheduling point; woken threads: every notifying update x every query (x a third thread); set/clear x update after 127-256 earlier calls of each kind and in graphs of 17 to 260 endpoints; all schedules',
                'thorough': 'up to 6 set/clear calls, 3+2+1 threads, 4x3 mixed'},
        note='Every schedule of the bounded programs.'),
    'C12': dict(harness='h_conc', variants=['conc'], level='model_checking',
        technique='stateless model checking: every schedule of bounded programs of context operations with publish outcomes on the real Context under a controlled scheduler, against a reference model',
        rule='as C10; distinct cases by order of the announcements',
        bounds={'quick': '20 context operations (each with publish success and failure), private endpoints per operation: 1x1, 2x1, 2x2, 1x1x1, 1x1x1 with discovery updates and queries; 1x1 after 127-256 earlier operations of each kind and in graphs of 17 to 260 endpoints; all schedules, with a scheduling point inside publish',
                'thorough': '2x1x1, 1x1x1x1, 2x3, 2x2x1'},
        note='Every schedule of the bounded programs.'),
    'C13': dict(harness='h_conc', variants=['conc'], level='model_checking',
        technique='stateless model checking: every schedule of bounded programs of context and graph operations, with a publish callback that blocks on or makes graph calls, under a controlled scheduler with deadlock detection',
        rule='as C10; distinct cases by final local graph',
        bounds={'quick': '20 context operations x 25 updates and 16 queries (1 and 2 of them, and with a second context operation) while publish is blocked on them or from inside publish; pairs, 1x2 and 1x1x1 of 35 operations, 2x2x1 with an on-change callback; all histories of 1-3 of 110 usual, unusual and failing calls of one thread followed by an update, a query and a context operation of another; blocked and calling publishes after 127-256 earlier calls of each kind and in graphs of 17 to 260 endpoints; all schedules with deadlock detection',
                'thorough': 'all 2x2x1 of 14 operations, nested calls with a second context operation for every update and query'},
        note='Every schedule of the bounded programs.'),
}
NOT_APPLICABLE = {}
