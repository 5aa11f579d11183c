#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one JSON object per line) from the table below.
import json, os
G='rmw_dds_common/src/graph_cache.cpp'; GH='rmw_dds_common/include/rmw_dds_common/graph_cache.hpp'
C='rmw_dds_common/src/context.cpp'; CH='rmw_dds_common/include/rmw_dds_common/context.hpp'
Q='rmw_dds_common/src/qos.cpp'; QH='rmw_dds_common/include/rmw_dds_common/qos.hpp'
U='rmw_dds_common/src/gid_utils.cpp'; T='rmw_dds_common/src/time_utils.cpp'
S='rmw_dds_common/src/security.cpp'; SH='rmw_dds_common/include/rmw_dds_common/security.hpp'
P=[]
def p(id,title,st,over,text,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p('C01','Endpoint registry reports exactly the live readers and writers',
 "After any sequence of endpoint additions and removals, the per-topic reader and writer counts and the per-topic endpoint listings report exactly the endpoints that were added and not removed since, each exactly once and with the type, type hash, gid, kind and complete QoS it was first added with. Adding a gid that is already present, or removing one that is absent, returns false and changes nothing; every effective call returns true. Readers and writers are independent: the same gid may be registered as both, and an operation on one never affects the other.",
 ['histories','inputs'],'every sequence of add/remove calls (all overloads) for readers and writers, every gid, topic, type, hash and QoS',
 'The unit tests run a handful of fixed add/remove scripts with one QoS and few gids; none explores operation orders such as re-adding with other attributes, removing between two live gids, or a gid used on both sides.',
 [G,GH],[('first insertion wins, keyed by full gid',G+': add_writer/add_reader'),('erase by gid',G+': remove_writer/remove_reader'),('filter by exact topic name',G+': __get_count, __get_entities_info_by_topic')],
 ['get_writer_count','get_reader_count','get_writers_info_by_topic','get_readers_info_by_topic','return values of add_*/remove_*'])
p('C02','Topic listings contain exactly the topics and types with live endpoints',
 "The global topic listing contains every demangled topic name that has at least one live reader or writer, exactly once, with exactly the set of distinct demangled type names used on it by either side; topics whose demangled name is empty are left out. The by-node reader and writer listings do the same for exactly the live endpoints of that kind which the node announced, ignoring announced gids that are not (yet) discovered, and return the node-does-not-exist code exactly when no known participant has a node with that name and namespace.",
 ['histories','inputs'],'every history of endpoint, node, association and remote-update operations, every choice of names, types and demangling functions',
 'Tests use identity demangling and a few fixed graphs; duplicate types, topics shared by readers and writers, filtered names, undiscovered gids and node removal are sampled once or never.',
 [G],[('merge readers and writers into name to type-set map',G+': get_names_and_types'),('resolve announced gids to endpoints',G+': __get_names_and_types_from_gids'),('node lookup by name and namespace',G+': __find_node')],
 ['get_names_and_types','get_writer_names_and_types_by_node','get_reader_names_and_types_by_node'])
p('C03','Node listing is exactly the nodes of the known participants',
 "At any time the listed nodes, and the reported number of nodes, are exactly the nodes (duplicates included) currently held by all known participants, whether they were added locally or announced by the latest message of a remote participant. Each listed position pairs a node's own name and namespace with the enclave of the participant that owns it; a participant known only from its message has an empty enclave, setting an enclave never changes nodes, and replacing nodes never changes the enclave. Removing a participant removes all its nodes and its enclave and nothing else.",
 ['histories','inputs'],'every interleaving of participant add/remove, local node add/remove and remote announcements, over any number of participants',
 'Tests check a few fixed scripts; they never reorder participant discovery with announcements, shrink announcements, or re-add participants.',
 [G],[('node sequence replaced by latest message',G+': update_participant_entities'),('enclave kept apart from nodes',G+': add_participant'),('lockstep fill of three arrays',G+': get_node_names')],
 ['get_node_names','get_number_of_nodes','return value of remove_participant'])
p('C04','Every endpoint is attributed to the node that announced it',
 "In per-topic endpoint listings, an endpoint whose owning participant is known and one of whose nodes has announced that endpoint (as that kind) carries exactly that node's name and namespace. If the participant is known but none of its nodes announced the endpoint as that kind, it carries the unknown-node markers (_NODE_NAME_UNKNOWN_ / _NODE_NAMESPACE_UNKNOWN_); if the participant is not known, it carries the bare-DDS-application markers. Only nodes of the endpoint's own participant are considered, and attribution always reflects the current associations.",
 ['histories','inputs'],'every history of endpoint discovery, associations, dissociations, announcements and participant removal, every gid',
 'Tests assert the three outcomes on fixed graphs only; no test mixes several participants announcing the same gid, readers and writers sharing a gid, or dissociation followed by queries.',
 [G],[('search in the endpoint participant only',G+': __find_name_and_namespace_from_entity_gid'),('placeholder names',G+': __get_entities_info_by_topic')],
 ['node_name and node_namespace of get_writers_info_by_topic/get_readers_info_by_topic'])
p('C05','The graph does not depend on the order in which discovery data arrives',
 "For a given set of discovery facts (participants with enclaves, the latest announcement of each participant, live endpoints), every order in which the facts are delivered leads to the same answers from every query. This includes endpoints arriving before or after their participant's announcement, announcements arriving before the participant itself, and facts that arrive, are withdrawn and arrive again.",
 ['histories','schedules'],'every delivery order (every interleaving of the independent per-entity event streams) of every discovery fact set',
 'Tests deliver facts in one order. Order-dependence shows only when many delivery orders of the same facts are compared with each other.',
 [G],[('participant created on first mention',G+': update_participant_entities/add_participant'),('late binding of gids at query time',G+': __get_entities_info_by_topic, __get_names_and_types_from_gids')],
 ['all introspection queries'])
p('C06','Local updates yield full snapshots that bring remote caches to the same state',
 "Every message produced by adding or removing a local node or by associating or dissociating an endpoint carries the local participant's gid and its complete node list with all associated reader and writer gids as of right after that update. A remote cache that applies such messages in order attributes nodes and endpoints exactly as the sender does after the last one it applied, no matter how many earlier messages were lost, how often a message was repeated, or what it knew before.",
 ['histories','fault_sequences'],'every history of local operations, every subset of messages lost and every duplication',
 'Tests compare messages of short fixed scripts and never feed them to another cache under loss or duplication.',
 [G],[('message built from the complete participant state',G+': __create_participant_info_message'),('receiver replaces the whole sequence',G+': update_participant_entities')],
 ['returned ParticipantEntitiesInfo messages','queries on a replica cache'])
p('C07','Change notifications fire exactly when the graph changes',
 "While a change callback is set, it is invoked exactly once for each effective update: an endpoint really added or removed, a participant added or really removed, a participant announcement applied, a local node added or removed, an endpoint associated or dissociated. It is never invoked by a duplicate endpoint addition, by the removal of an absent endpoint or participant, or by any query.",
 ['histories'],'every history of updates and queries, with the callback set, replaced or cleared at any point',
 'Tests count callbacks along a few scripts; exactness for every operation in every state (in particular no-op calls) is not covered.',
 [G],[('conditional callback after each mutation',G+': GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK_IF')],
 ['invocations of the registered callback'])
p('C08','A failing query leaks nothing and leaves the cache usable',
 "Whatever allocation or library call fails while a query fills its output, or if a caller-supplied demangling function throws, the query reports an error (or propagates that exception) instead of success, everything it allocated through the caller's allocator has been released (or is released by the normal finalizer of the outputs, exactly once), the cached graph is unchanged, and the cache can still be updated and queried. Allocation failures are reported as the out-of-memory code.",
 ['fault_sequences','inputs'],'every query, on every small graph shape, with a failure injected at every single allocation or library call it makes',
 'Tests fail the allocator globally or at a few points; they do not enumerate each allocation of each query, nor exceptions from callbacks, nor check what is left in the outputs and in the cache.',
 [G],[('cleanup labels and scope guard',G+': __populate_rmw_names_and_types, get_node_names, __get_entities_info_by_topic'),('lock guard',G+': every query')],
 ['return codes','allocator ledger','follow-up queries and updates'])
p('C09','Invalid query arguments are rejected without side effects',
 "A count query without an output, a topic or node listing with an invalid allocator, and a topic or node listing whose output is missing or not zero-initialized are rejected with the invalid-argument code (the allocator and outputs being checked before the cache is consulted). A rejected query allocates nothing, leaves the caller's outputs and the cache as they were, and does not disturb later queries; the enclave output of the node listing is optional.",
 ['inputs','histories'],'every combination of missing, invalid, pre-filled and valid arguments of every query, on empty and non-empty graphs',
 'Tests try a few bad-argument cases on one graph; they do not check combinations, untouched outputs, or that no allocation happened.',
 [G],[('argument checks at query entry',G+': get_writer_count, get_names_and_types, __get_names_and_types_by_node, get_node_names')],
 ['return codes','outputs','allocator ledger'])
p('C10','The graph cache is safe for concurrent use and linearizable',
 "Any number of threads may call any update and query of one graph cache concurrently: there is no data race, and the results of all calls are those of some sequential order of the same calls that respects real-time order. In particular every query and every returned message sees a state in which each update is either fully applied or not at all.",
 ['schedules'],'every interleaving of every combination of concurrent updates and queries',
 'The existing tests are single threaded.',
 [G],[('one mutex held by every operation',G+': mutex_ lock in every member function')],
 ['results of concurrently issued operations'])
p('C11','Change callbacks have a clean lifecycle under concurrency',
 "Once clearing the change callback has returned, the callback is never running and is never invoked again, so its captured state may be destroyed, even while other threads keep updating the graph; setting a new callback likewise means the old one is not running and is never invoked again. A callback set before an update is invoked for it, and a thread woken by the callback that then queries the graph observes the update that caused it.",
 ['schedules'],'every interleaving of set, replace and clear with concurrent updates and queries',
 'The existing tests are single threaded; a use of a destroyed callback needs a specific interleaving.',
 [G,GH],[('callback read, invoked and replaced under the cache mutex',G+': clear_on_change_callback; '+GH+': set_on_change_callback')],
 ['callback invocations','queries issued after a notification'])
p('C12','Announcements are published in the order the updates took effect',
 "When several threads create and destroy nodes, publishers, subscriptions, clients and services of one context concurrently, announcements are published one at a time and in the order in which their updates took effect. Each announcement contains its own operation's effect together with all earlier ones and nothing of later ones, so the last announcement published equals the final local graph and a peer that applies them in order ends up with it.",
 ['schedules'],'every interleaving of concurrent context operations',
 'No existing test exercises the context at all, and a stale last announcement needs a particular interleaving of two threads.',
 [C,CH],[('update and publish under one mutex',C+': node_update_mutex in every operation')],
 ['sequence of messages given to the publish callback','graph queries'])
p('C13','Publishing never blocks the graph, and nothing deadlocks',
 "While a publish is in progress (however long it takes), graph queries and graph updates coming from remote discovery complete without waiting for it, also when they are made from inside the publish callback. No combination of context operations, graph updates, queries and callback registration deadlocks.",
 ['schedules'],'every interleaving, with the publish callback blocked at any point',
 'No existing test has more than one thread or a blocking publish callback.',
 [C,CH,G],[('graph lock released before publishing; separate context mutex',C+': every operation')],
 ['completion of operations while a publish is blocked'])
p('C14','A failed graph operation is reported, and a failed addition is rolled back',
 "A context operation returns success exactly when its announcement was published; a missing publisher, a missing publish callback or any non-success publish result makes it return an error. A failed addition leaves the local graph exactly as it was before the call, whatever other nodes and endpoints exist; a failed removal still removes locally. After a failure the context keeps working, and the next successful announcement describes the local graph exactly.",
 ['fault_sequences','histories'],'every history of context operations with every subset of publishes failing, with or without publisher and callback',
 'No existing test exercises the context or a failing publish.',
 [C],[('compensating update on publish failure',C+': add_*_graph')],
 ['return codes','graph queries after failures','later announcements'])
p('C15','Each context operation announces once, and services appear as a whole',
 "Each context operation calls the publish callback exactly once, with the context's own publisher and a message carrying the context's participant gid and its complete, already updated node and endpoint lists. Creating or destroying a client or service changes its reader and its writer together in one message, so no published message ever shows only half of one, and each endpoint appears on the side (reader or writer) of its role and on the named node only.",
 ['histories','schedules'],'every history of context operations over any nodes and gids, and every interleaving of them',
 'No existing test exercises the context.',
 [C],[('both associations before the single publish',C+': add_client_graph, remove_client_graph, add_service_graph, remove_service_graph')],
 ['arguments of the publish callback'])
p('C16','QoS compatibility verdicts follow the publisher/subscription matching rules',
 "For every pair of profiles the verdict is ERROR exactly when some policy pair is definitely incompatible: best-effort publisher with reliable subscription, volatile publisher with transient-local subscription, automatic publisher with manual-by-topic subscription liveliness, or a subscription deadline or lease duration that is set and shorter than the publisher's or set while the publisher's is not. Otherwise it is WARNING exactly when reliability, durability or liveliness is system-default or unknown on a side such that some concrete value would be incompatible with the other side, and otherwise OK. History, depth, lifespan and namespace-convention settings never influence the verdict.",
 ['inputs'],'every pair of QoS profiles (all policy values on both sides, all orderings of durations)',
 'The tests sample about fifty pairs, mostly with one policy varied at a time; the product of all policies on both sides is not covered.',
 [Q,QH],[('policy-pair rules',Q+': qos_profile_check_compatible')],
 ['compatibility output of qos_profile_check_compatible'])
p('C17','The QoS reason text is bounded, terminated and consistent with the verdict',
 "For every profile pair and every reason buffer size, the call succeeds, never writes outside the given buffer, leaves a NUL-terminated text in it, and that text is a prefix of the full explanation one gets with a large buffer. The full text is empty exactly when the verdict is OK, and names an ERROR (only) for incompatible and a WARNING (only) for possibly incompatible profiles, with one entry per policy problem: the entry names that policy and, where a side's value is undetermined, that value, and is the one the problem alone would give. The verdict does not depend on the buffer; a missing verdict output, or a missing buffer with non-zero size, is rejected as an invalid argument.",
 ['inputs'],'every profile pair combined with every buffer size from absent and zero to larger than the longest text',
 'Tests use one large buffer and two small sizes on single profile pairs.',
 [Q],[('bounded append at current offset',Q+': _append_to_buffer'),('argument checks',Q+': qos_profile_check_compatible')],
 ['reason buffer and its surroundings','return code'])
p('C18','Best-available subscription QoS matches all publishers',
 "Given any list of publishers, each best-available policy of a subscription becomes: reliable, transient local or manual-by-topic if every publisher has that value and otherwise best effort, volatile or automatic; deadline and lease duration become the default if every publisher has the default and otherwise the largest one set. All other policies and all fields that were not best-available are left unchanged. If all publishers have concrete policies and durations are not default for some and set for others, a fully best-available subscription becomes compatible with every listed publisher.",
 ['inputs'],'every list of publishers of any length in any order, and every subscription profile',
 'Tests check single policies with a few publisher lists; combinations of policies, orderings and list lengths are not covered.',
 [Q,QH],[('counting and maximum over publishers',Q+': qos_profile_get_best_available_for_subscription')],
 ['resulting profile'])
p('C19','Best-available publisher QoS matches all subscriptions',
 "Given any list of subscriptions, each best-available policy of a publisher becomes: reliable; transient local; manual-by-topic if at least one subscription is manual-by-topic and otherwise automatic; deadline and lease duration the default if every subscription has the default and otherwise the smallest one set. All other policies and all fields that were not best-available are left unchanged. If all subscriptions have concrete policies, a fully best-available publisher becomes compatible with every listed subscription.",
 ['inputs'],'every list of subscriptions of any length in any order, and every publisher profile',
 'Tests check single policies with a few subscription lists; combinations of policies, orderings and list lengths are not covered.',
 [Q,QH],[('any-of and minimum over subscriptions',Q+': qos_profile_get_best_available_for_publisher')],
 ['resulting profile'])
p('C20','Best-available adaptation for topics and services only touches what it must',
 "Adapting a profile for a topic queries endpoint information exactly once, for the given node and topic and with the node's allocator, if at least one policy is best-available, and not at all otherwise; the result is then exactly the adaptation to the reported endpoints. If a required argument is missing or the endpoint query or the release of its result fails, that error code is returned, and a rejected or failed query leaves the profile unchanged; the endpoint information is always released exactly once. The service variant replaces exactly the best-available policies by the service defaults and keeps everything else.",
 ['inputs','fault_sequences'],'every subset of best-available policies, every endpoint list, every result code of the endpoint query, every missing argument',
 'Tests run a few cases with a stub query; they do not cover each policy being the only best-available one, failures combined with partial results, or leaks.',
 [Q,QH],[('best-available detection',Q+': _qos_profile_has_best_available_policy'),('query, adapt, finalize',Q+': qos_profile_get_best_available_for_topic_subscription/_publisher'),('service defaults',Q+': qos_profile_update_best_available_for_services')],
 ['profile, return code, calls of the endpoint query, allocator ledger'])
p('C21','Type hashes survive the trip through user data, and bad data is reported',
 "Encoding any set type hash as user data and parsing it back yields the same hash, also when other key/value pairs precede or follow it; an unset hash encodes to nothing and parses back as unset. Parsing arbitrary bytes never reads out of bounds: it returns success with a cleared hash when there is no type-hash key, an error when the key is there but its value is not a well-formed hash of a known version, and an invalid-argument error when there is no data pointer.",
 ['inputs'],'every hash value, every surrounding user data, every truncation and corruption of the encoding',
 'Tests round-trip one hash and try a few bad strings.',
 [Q,QH],[('key/value parsing and hash parsing',Q+': parse_type_hash_from_user_data'),('encoding',Q+': encode_type_hash_for_user_data_qos')],
 ['encoded string, parsed hash, return codes'])
p('C22','Time clamping preserves representable durations and saturates the rest',
 "For every duration, the clamped result has nanoseconds below one second and seconds not above the DDS limit (2^31-1). If the total duration is at most that limit plus 999999999 ns the result represents exactly the same total, otherwise it is exactly the largest representable duration; no intermediate overflow changes this.",
 ['inputs'],'every pair of 64-bit seconds and nanoseconds',
 'Tests sample about a dozen values.',
 [T],[('carry and saturation logic',T+': clamp_rmw_time_to_dds_time')],
 ['returned time'])
p('C23','Gid comparison, conversion and printing use all bytes faithfully',
 "Gid ordering is a strict total order given by unsigned comparison of all bytes from the first to the last, equality holds exactly when no byte differs, and ordering and equality agree with each other and ignore which middleware the gid came from. Converting a gid to its message form and back preserves every byte and changes nothing else, and printing writes every byte in hexadecimal separated by dots so that different gids print differently, leaving the stream's number formatting decimal.",
 ['inputs'],'every pair and triple of gids, every byte position and value',
 'Tests compare one or two gid pairs.',
 [U],[('lexicographic unsigned byte compare',U+': Compare_rmw_gid_t'),('byte copies',U+': convert_gid_to_msg, convert_msg_to_gid'),('printing',U+': operator<<')],
 ['comparison results, converted gids, printed text'])
p('C24','Security file selection picks the right file and value for each attribute',
 "When all required security files can be provided, the result maps each of the six required attributes to the value of its highest-priority usable source: with PKCS#11 support, the first word of its .p11 file if that starts with the pkcs11: scheme, otherwise the given prefix followed by the path of its regular .pem or .p7s file; governance and permissions never come from .p11 files. Without PKCS#11 support .p11 files are ignored. The revocation list is included exactly when its file is a regular file, and no other keys are added.",
 ['inputs','configurations'],'every combination of presence, kind and content of every file in the security directory, every prefix, both PKCS#11 settings',
 'Tests build about ten directories; mixed .p11/.pem availability per attribute, unusable .p11 contents and odd file kinds are sampled rarely.',
 [S,SH],[('priority-ordered processors per attribute',S+': get_security_files'),('usable-source tests',S+': process_file_uri_security_file, process_pkcs_uri_security_file')],
 ['result map'])
p('C25','Security lookup is all-or-nothing under any file-system trouble',
 "If any required security file is missing, is not a usable file, or cannot be examined because of any file-system error, the lookup returns false with an empty result, even if the result map held entries before or other files were found first; it never throws and never returns a partial set. An optional file that cannot be examined is simply left out, and the lookup only reads: it never changes the security directory.",
 ['fault_sequences','inputs','configurations'],'every single and paired failure (missing, wrong kind, permission, loop, over-long name, I/O error) of every file, with any initial result map',
 'Tests cover one missing file at a time and never file-system errors.',
 [S,SH],[('clear on first missing attribute',S+': get_security_files')],
 ['return value, result map, exceptions'])
p('C26','The printed graph shows exactly the cached graph',
 "Printing a graph cache lists every discovered writer and reader once with its gid, topic and type under its own heading, and every participant once with its enclave and each of its nodes with exactly its associated reader and writer gids; nothing else is listed and printing changes nothing.",
 ['histories'],'every history of updates','No existing test compares the printed graph with the operations performed.',
 [G],[('stream output under the cache lock',G+': operator<<')],['text written to the stream'])
p('C27','An update cut short by an exception leaves the graph usable and consistent',
 "If an update of a graph cache or context is cut short by an exception (memory runs out at any allocation inside it, or the on-change or publish callback throws), no lock stays held and no memory is lost, and later operations, queries, messages and notifications work as always. The exception is not swallowed: a call that returns normally and reports success has had its full effect, and an exception of the on-change callback reaches the caller. Afterwards the graph is exactly as before or exactly as after the graph cache update; only an update announcing or discovering a participant may leave that participant's own entry incomplete, which repeating the call repairs and which touches nothing else. A context operation made of several updates may stop between them. A context whose publish callback throws either throws or reports an error, and stays usable.",
 ['fault_sequences','histories'],'every history of updates and context operations, every allocation of the last call as the one that fails (alone, or all from there on), every exception type of either callback',
 'No test makes operator new fail or lets a callback throw; the damage needs one particular allocation to fail after one particular history.',
 [G,GH,C,CH],[('scoped locks around every update',G+': all members'),('change notification guard',G+': CALL_ON_CHANGE_CALLBACK_IF'),('locks and publish',C+': Context members')],
 ['thrown exceptions, return values','all queries afterwards','invocations of the callbacks','memory'])
p('C28','Free functions keep no state and are thread-safe',
 "The answer of every free function (QoS compatibility and adaptation, type-hash encoding and parsing, time clamping, gid comparison, conversion and printing, security file lookup on an unchanged directory) depends only on its arguments: it is the same as in a fresh process whatever calls came before, however often, and whatever calls other threads make at the same time, and concurrent calls on separate arguments have no data race.",
 ['histories','schedules'],'every sequence of calls and every schedule of concurrent calls',
 'Tests call each function in one fixed order from one thread; caches, static buffers and lazily filled tables show only for particular earlier or concurrent calls.',
 [Q,QH,U,T,S,SH],[('no static or global state; results through arguments',Q+', '+U+', '+T+', '+S+': all functions')],
 ['results and output arguments','data races'])
p('C29','Graph caches and contexts are independent of each other',
 "What one graph cache or context does, answers, notifies and publishes depends only on the calls made on it: operations on another instance, before or concurrently in another thread, change nothing, never block it, never invoke its callbacks, and cause no data race; a new instance starts empty even where another one was destroyed.",
 ['schedules','histories'],'every program of operations on two or more instances and every schedule of them',
 'Tests use a single cache in a single thread.',
 [G,GH,C,CH],[('all state in members',GH+': GraphCache; '+CH+': Context'),('member mutexes',G+', '+C)],
 ['results of all operations on each instance','messages and notifications','data races','blocking'])
p('C30','Memory use follows the contents, not the history',
 "However long it runs, a process holds a bounded amount of memory: a sequence of graph cache or context operations (updates, queries, failed ones too) that ends with the contents it started from can be repeated any number of times, with new endpoints and participants each time, without holding more memory, and destroying a cache or context releases everything it held. Free functions hold no memory and no open files after they return.",
 ['histories','fault_sequences'],'every sequence of operations, repeated any number of times',
 'A test that runs a script once and exits does not see that something is kept; long-running nodes do.',
 [G,GH,C,CH,Q,S],[('entries erased by removals',G+': remove_*, update_participant_entities'),('query results handed over or released',G+': queries'),('temporary strings and arrays',Q+', '+S)],
 ['memory held by the process'])
p('C31','All participants of a domain converge to the same, right graph',
 "However the announcements of the contexts of a domain (reliable, keep last: superseded ones may be skipped) and the discovery of participants and endpoints (in order per participant) interleave with each other and with local operations, once everything sent has arrived every participant sees the same graph: exactly the nodes each living participant last announced successfully, with its enclave, exactly the living endpoints, each attributed to its node, its own part as it is now, and nothing of participants that left. A participant that joins late and is told only the current state sees the same. So does one that loses another participant for a while (lease expired) and then discovers it and hears its current announcement again.",
 ['schedules','histories','fault_sequences'],'every script of operations of every participant, every order of arrival',
 'Tests use one cache at a time and hand it one prepared message; agreement between several participants needs many orders of arrival.',
 [G,GH,C,CH],[('announcements of context operations',C+': Context members'),('remote participants',G+': update_participant_entities, add_participant, remove_participant'),('endpoints',G+': add_*, remove_*')],
 ['all queries at every participant','announcements exchanged'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
