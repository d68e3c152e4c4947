#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
S = 'rmw_dds_common/src/'
H = 'rmw_dds_common/include/rmw_dds_common/'
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
NT = 'This source file is not even built by the registered test run here, and its upstream test '

prop('C01', 'Security enclave lookup is all-or-nothing',
 'Looking up an enclave returns true exactly when every one of the six required attributes (IDENTITY_CA, CERTIFICATE, PRIVATE_KEY, PERMISSIONS_CA, GOVERNANCE, PERMISSIONS) has a usable source, and then the result map contains all six. Otherwise it returns false and the result map is empty, whatever it held before. A path that is missing, not a regular file, unreadable or cannot even be examined counts as "no usable source"; it never makes the call throw.',
 ['inputs', 'configurations', 'fault_sequences'],
 'every subset of files present/absent/of another kind/unexaminable in the enclave directory, every prior content of the result map, PKCS#11 on or off, every prefix and root string',
 'test_security creates a handful of enclave layouts (complete, one file missing, one PKCS#11 mix) out of the several thousand combinations of file states, and never one where examining a path fails.',
 [S+'security.cpp', H+'security.hpp'],
 [('required attribute loop clears the result and returns false on the first unresolved attribute', S+'security.cpp: get_security_files'),
  ('per-candidate processors', S+'security.cpp: process_file_uri_security_file, process_pkcs_uri_security_file')],
 observe=['return value and result map of get_security_files'])
prop('C02', 'Each security attribute takes the highest-priority usable source',
 'With PKCS#11 support, an attribute that allows it (identity CA, certificate, private key, permissions CA) takes the first whitespace-delimited token of its .p11 file verbatim, with no prefix, if that token begins with "pkcs11:". In every other case the value is the prefix followed by the generic path of the attribute\'s regular file inside the secure root (identity_ca.cert.pem, cert.pem, key.pem, permissions_ca.cert.pem, governance.p7s, permissions.p7s). The .p11 files have no influence when PKCS#11 is unsupported, nor on governance and permissions.',
 ['inputs', 'configurations'],
 'every combination of file presence and .p11 content, every prefix and secure root, both PKCS#11 settings',
 'The tests look at a few fixed layouts and contents; they cannot cover the cross product of six attributes, two sources, arbitrary contents and prefixes.',
 [S+'security.cpp'],
 [('ordered candidate lists per attribute', S+'security.cpp: required_files table in get_security_files')],
 observe=['values stored in the result map of get_security_files'])
prop('C03', 'Optional CRL and untouched caller entries in a security lookup',
 'On success the result gains the key CRL exactly when crl.pem in the secure root is a regular file, with value prefix + its generic path; its absence or inaccessibility never affects success. No other key is added, changed or removed: entries the caller already had under other keys keep their values on success. The overload without the PKCS#11 flag behaves exactly as if PKCS#11 were unsupported.',
 ['inputs', 'configurations', 'fault_sequences'],
 'every state of crl.pem, every prior map content, every prefix/root',
 'Tests check the CRL key in two layouts with an empty initial map and never the frame over other keys or an unexaminable crl.pem.',
 [S+'security.cpp'],
 [('optional_files loop', S+'security.cpp: get_security_files'), ('two-argument overload', S+'security.cpp: get_security_files')],
 observe=['result map of get_security_files'])
prop('C04', 'Clamping a time to the DDS range never wraps and keeps the duration',
 'For every pair of 64-bit seconds and nanoseconds, clamping yields a time whose nanoseconds are below one second and whose seconds are at most INT32_MAX. Its total equals the exact input total when that is at most INT32_MAX seconds + 999999999 ns, and equals that maximum otherwise. No intermediate computation wraps around.',
 ['inputs'], 'all 2^128 (sec, nsec) pairs',
 'test_time_utils samples eight points; the interesting boundaries are products of two 64-bit values.',
 [S+'time_utils.cpp', H+'time_utils.hpp'],
 [('normalise then saturate', S+'time_utils.cpp: clamp_rmw_time_to_dds_time')],
 observe=['return value of clamp_rmw_time_to_dds_time'])
prop('C05', 'GID ordering is a strict total order consistent with GID equality',
 'The comparison used to key all graph maps is the lexicographic order of the 16 GID bytes taken as unsigned values: irreflexive, transitive, and exactly one of a<b, b<a, a==b holds. Two GIDs are equal exactly when all 16 bytes are equal. Neither depends on the implementation identifier.',
 ['inputs'], 'all pairs and triples of GIDs, including bytes above 127 and differing implementation identifiers',
 'test_gid_utils compares two or three fixed GIDs; order laws quantify over triples of 128-bit values.',
 [S+'gid_utils.cpp', H+'gid_utils.hpp'],
 [('lexicographical compare of data', S+'gid_utils.cpp: Compare_rmw_gid_t::operator()'), ('memcmp equality', S+'gid_utils.cpp: operator==')],
 observe=['Compare_rmw_gid_t, operator== on rmw_gid_t'])
prop('C06', 'GID to message conversion is lossless both ways',
 'Converting a GID to its message form and back, or a message to a GID and back, reproduces all 16 bytes. Each conversion writes exactly the destination\'s 16 data bytes: the source and the destination\'s implementation identifier are unchanged.',
 ['inputs'], 'all GIDs and messages',
 'test_gid_utils converts one fixed GID.',
 [S+'gid_utils.cpp'],
 [('convert_gid_to_msg / convert_msg_to_gid', S+'gid_utils.cpp')],
 observe=['arguments of convert_gid_to_msg and convert_msg_to_gid after the call'])
prop('C07', 'QoS compatibility verdict is exact for every pair of profiles',
 'The verdict is ERROR exactly when at least one incompatibility holds: best-effort publisher with reliable subscription; volatile publisher with transient-local subscription; automatic publisher with manual-by-topic subscription; subscription requests a deadline (or liveliness lease) and the publisher offers none or a longer one (durations in normalised form, nanoseconds below one second). Otherwise it is WARNING exactly when for reliability, durability or liveliness an undetermined value (system default or unknown) on one or both sides could make that pair incompatible; otherwise it is OK. History, depth, lifespan and the reason buffer never influence the verdict.',
 ['inputs'], 'all pairs of QoS profiles (every enum value, every 64-bit duration), with or without reason buffer',
 'test_qos checks a table of a few dozen pairs out of the product of two profiles; interactions of several policies and the deadline/lease boundaries are not enumerated.',
 [S+'qos.cpp', H+'qos.hpp'],
 [('error checks then warning checks', S+'qos.cpp: qos_profile_check_compatible'), ('rmw_time_t comparison operators', S+'qos.cpp')],
 observe=['*compatibility after qos_profile_check_compatible'])
prop('C08', 'QoS compatibility check respects its arguments and reason buffer',
 'A null verdict pointer, or a null reason with a non-zero size, returns INVALID_ARGUMENT and writes nothing. Otherwise no byte outside reason[0..size) is ever written, for every size including 0 and 1, and a buffer of size at least 1 is always NUL-terminated on return. On success the reason is the empty string exactly when the verdict is OK (for size at least 2), and it is the concatenation of one message per detected conflict truncated to the buffer.',
 ['inputs', 'fault_sequences'], 'every pair of profiles, every buffer size and prior buffer content, every formatting failure',
 'Tests pass a 2048-byte buffer and never look at short buffers for multi-conflict pairs.',
 [S+'qos.cpp'],
 [('append at the current end of the string, bounded by the remaining size', S+'qos.cpp: _append_to_buffer')],
 observe=['reason buffer and return value of qos_profile_check_compatible'])
prop('C09', 'Best-available subscription QoS follows the documented rules',
 'For any number of publishers (zero included), each BEST_AVAILABLE policy of the subscription profile is replaced: reliability RELIABLE, durability TRANSIENT_LOCAL, liveliness MANUAL_BY_TOPIC exactly when all publishers have that value (else BEST_EFFORT, VOLATILE, AUTOMATIC); deadline and lease duration become DEFAULT if all publishers have DEFAULT, else the largest one among the publishers (durations compared by seconds, then nanoseconds). Policies that were not BEST_AVAILABLE, and history, depth and lifespan, are unchanged. Null arguments give INVALID_ARGUMENT and change nothing.',
 ['inputs', 'configurations'], 'all publisher lists of any length and content, all initial profiles',
 'test_qos uses lists of zero to three publishers; the claim is over every length, order and duration value.',
 [S+'qos.cpp', H+'qos.hpp'],
 [('single pass accumulating counts and maxima', S+'qos.cpp: qos_profile_get_best_available_for_subscription')],
 observe=['subscription profile after the call'])
prop('C10', 'Best-available publisher QoS follows the documented rules',
 'For any number of subscriptions (zero included), each BEST_AVAILABLE policy of the publisher profile is replaced: reliability RELIABLE; durability TRANSIENT_LOCAL; liveliness MANUAL_BY_TOPIC if at least one subscription has it, else AUTOMATIC; deadline and lease duration become DEFAULT if all subscriptions have DEFAULT, else the smallest non-DEFAULT one (compared by seconds, then nanoseconds), and never more than the infinite duration. Policies that were not BEST_AVAILABLE, and history, depth and lifespan, are unchanged. Null arguments give INVALID_ARGUMENT and change nothing.',
 ['inputs', 'configurations'], 'all subscription lists of any length and content, all initial profiles',
 'test_qos uses lists of zero to three subscriptions; the claim is over every length, order and duration value.',
 [S+'qos.cpp', H+'qos.hpp'],
 [('single pass accumulating flags and minima', S+'qos.cpp: qos_profile_get_best_available_for_publisher')],
 observe=['publisher profile after the call'])
prop('C11', 'Topic-based best-available lookup queries once and cleans up',
 'Null node, topic or profile gives INVALID_ARGUMENT without querying. If no policy is BEST_AVAILABLE the profile is returned unchanged and no query is made; otherwise the supplied query is called exactly once with the given node and topic and the node context\'s allocator, a query failure is returned as is with the profile unchanged, and on query success the endpoint list it produced is always finalised with the same allocator. On overall success the profile is exactly what the list-based rule gives for the queried endpoints.',
 ['inputs', 'fault_sequences'], 'all profiles, all query results and failures, all finalisation failures',
 'Tests use one stub query; failure of the query and of the finalisation are not combined with the profiles.',
 [S+'qos.cpp'],
 [('topic wrappers', S+'qos.cpp: qos_profile_get_best_available_for_topic_subscription/_publisher'), ('detection of BEST_AVAILABLE', S+'qos.cpp: _qos_profile_has_best_available_policy')],
 observe=['calls made to the query function, profile, return value'])
prop('C12', 'Service QoS replaces exactly the BEST_AVAILABLE policies',
 'The returned profile has each BEST_AVAILABLE policy (reliability, durability, liveliness, deadline, lease duration) replaced by the corresponding value of the services default profile. Every other field is copied unchanged from the input.',
 ['inputs'], 'all QoS profiles',
 'One or two profiles are tested; a field forgotten or replaced in a rare combination is not seen.',
 [S+'qos.cpp'], [('qos_profile_update_best_available_for_services', S+'qos.cpp')],
 observe=['returned profile'])
prop('C13', 'Type hash survives the USER_DATA encoding',
 'Encoding a type hash with a set version yields "typehash=<string form>;", an unset version yields the empty string, and parsing such an encoding gives back the same hash. Parsing data without a typehash key succeeds with the zero hash, a present but malformed value gives an error, and null data gives INVALID_ARGUMENT. Encoding failures are reported (BAD_ALLOC for allocation failures) and leave the output string untouched; the intermediate string is released exactly once.',
 ['inputs', 'fault_sequences'], 'all hashes, all byte strings, all failures of the conversions',
 'Tests encode and decode a single hash; the failure paths are not exercised.',
 [S+'qos.cpp', H+'qos.hpp'],
 [('encode_type_hash_for_user_data_qos, parse_type_hash_from_user_data', S+'qos.cpp')],
 observe=['return values and outputs of the two functions'])
prop('C14', 'Discovered endpoints form a set keyed by GID',
 'Adding a writer or reader whose GID is not yet known to that collection stores exactly the given topic, type, type hash (the zero hash for the overloads without one), participant and QoS and returns true; adding a known GID returns false and leaves the stored data unchanged. Removing returns true exactly when the GID was present and removes only that entry. Readers and writers are independent collections, and add/remove_entity acts on exactly the one selected by is_reader.',
 ['histories', 'inputs'], 'every cache content and every sequence of additions and removals with any GIDs',
 'test_graph_cache runs a few fixed sequences with distinct GIDs; set semantics quantify over all histories.',
 [S+'graph_cache.cpp', H+'graph_cache.hpp'],
 [('emplace/erase on data_writers_, data_readers_', S+'graph_cache.cpp: add_writer, add_reader, add_entity, remove_*')],
 state=[('data_writers_/data_readers_', 'discovered endpoints by GID', H+'graph_cache.hpp')],
 observe=['return values; later introspection results'])
prop('C15', 'Participant updates are keyed by GID and preserve the rest',
 'Adding a participant records its enclave, creating the participant if new and keeping its nodes if known; an entities message replaces exactly the sender\'s node list, creating the participant if new (empty enclave) and keeping its enclave if known. Removing a participant returns true exactly when it was present. No operation on one participant changes any other participant or any endpoint.',
 ['histories', 'inputs'], 'every cache content, every message and every order of discovery events',
 'Tests use a few participants in fixed orders, mostly participant before message.',
 [S+'graph_cache.cpp'],
 [('find-or-emplace then assign', S+'graph_cache.cpp: add_participant, update_participant_entities, remove_participant')],
 state=[('participants_', 'participants by GID with enclave and nodes', H+'graph_cache.hpp')],
 observe=['introspection results after the operations'])
prop('C16', 'Adding and removing nodes edits exactly one participant\'s node list',
 'Adding a node appends one node with that name and namespace and no endpoints to the given participant\'s list; removing a node deletes exactly the first node with that name and namespace, keeping the order of the others. Both return a message with the participant\'s GID and its complete node list after the change. Nothing else in the cache changes.',
 ['histories', 'inputs'], 'every cache content (duplicate node names included) with the participant present (and the node present for removal)',
 'Tests add and remove a few uniquely named nodes; the frame over other participants and nodes and the returned snapshot are sampled only.',
 [S+'graph_cache.cpp'],
 [('add_node, remove_node, __create_participant_info_message', S+'graph_cache.cpp')],
 state=[('participants_', 'node lists', H+'graph_cache.hpp')], observe=['returned message; introspection results'])
prop('C17', 'Endpoint association edits exactly one GID list of one node',
 'Associating a reader (writer) appends its GID to the reader (writer) list of the first node with the given name and namespace in the given participant; dissociating removes the first occurrence of the GID from that list and is a no-op when absent. The returned message is the participant\'s GID and complete node list after the change. No other list, node, participant or endpoint changes.',
 ['histories', 'inputs'], 'every cache content with that participant and node present, including duplicate names and duplicate GIDs',
 'Tests associate a few endpoints with uniquely named nodes.',
 [S+'graph_cache.cpp'],
 [('__modify_node_info with a functor', S+'graph_cache.cpp: associate_*/dissociate_*')],
 state=[('reader_gid_seq/writer_gid_seq', 'endpoints of a node', 'rmw_dds_common/msg/NodeEntitiesInfo.msg')],
 observe=['returned message; by-node introspection'])
prop('C18', 'The on-change callback fires exactly once per change',
 'Every successful addition or removal of an endpoint, participant or node, every participant update and every (dis)association invokes a registered callback exactly once. Operations that report "no change" (duplicate add, removal of something absent) and all queries never invoke it. After clearing it, or when none was set, no operation calls anything.',
 ['histories', 'inputs'], 'every operation from every cache content, with and without a callback',
 'Tests count calls for some operations from a fresh cache.',
 [S+'graph_cache.cpp', H+'graph_cache.hpp'],
 [('GRAPH_CACHE_CALL_ON_CHANGE_CALLBACK[_IF]', S+'graph_cache.cpp')],
 state=[('on_change_callback_', 'user callback', H+'graph_cache.hpp')], observe=['invocations of the callback'])
prop('C19', 'Reader and writer counts are exact',
 'For every topic name the writer (reader) count is the number of discovered writers (readers) whose DDS topic name equals it. A null output pointer gives INVALID_ARGUMENT. The cache is not modified.',
 ['inputs', 'histories'], 'every cache content and topic name',
 'Tests count on caches with a handful of endpoints.',
 [S+'graph_cache.cpp'], [('__get_count', S+'graph_cache.cpp')], observe=['*count and return value'])
prop('C20', 'Endpoint info by topic lists every matching endpoint once, correctly',
 'On success the array has exactly one element per discovered writer (reader) on the topic, carrying its GID, demangled type, type hash, QoS and endpoint kind; with no match the output is left untouched and the call succeeds. Node name and namespace are those of the first node of the endpoint\'s participant that lists the GID for that kind; when there is none they are the documented placeholders for an undiscovered node (participant known) or for a participant not created by ROS (participant unknown).',
 ['inputs', 'histories'], 'every cache content (any number of endpoints, participants and nodes), topic and demangle function',
 'Tests use a few endpoints with consistent participants; the unknown-participant and listed-by-another-node cases and larger mixes are not covered.',
 [S+'graph_cache.cpp'],
 [('__get_entities_info_by_topic', S+'graph_cache.cpp'), ('__find_name_and_namespace_from_entity_gid', S+'graph_cache.cpp')],
 observe=['endpoints_info after get_writers/readers_info_by_topic'])
prop('C21', 'Failed introspection leaks nothing and leaves outputs zeroed',
 'When any allocation or conversion step inside an introspection query fails, the query returns an error and every output array it initialised is back to its zero-initialised state, with all memory it obtained released exactly once. An output that is not zero-initialised or an invalid allocator is rejected with INVALID_ARGUMENT before anything is written by get_names_and_types, the by-node variants and get_node_names. On success all obtained memory is owned by the outputs.',
 ['fault_sequences', 'inputs'], 'failure at every possible allocation/conversion point, for every cache content',
 'Tests inject failures through an allocator at a few points on a small cache; leaks on partially filled outputs depend on where the failure hits.',
 [S+'graph_cache.cpp'],
 [('delete-on-error guard', S+'graph_cache.cpp: __get_entities_info_by_topic'), ('goto cleanup / goto fail', S+'graph_cache.cpp: __populate_rmw_names_and_types, get_node_names')],
 observe=['return code, output arrays, balance of allocator calls'])
prop('C22', 'Topic names and types are exactly the demangled discovered ones',
 'On success the output holds each distinct non-empty demangled topic name of the discovered readers and writers exactly once, and for each of them exactly the set of distinct demangled types of its endpoints. Endpoints whose topic demangles to the empty string contribute nothing. With nothing to report the output stays zero-initialised and the call succeeds.',
 ['inputs', 'histories'], 'every cache content and every pair of demangle functions',
 'Tests use identity-like demanglers on small caches.',
 [S+'graph_cache.cpp'],
 [('__get_names_and_types', S+'graph_cache.cpp'), ('__populate_rmw_names_and_types', S+'graph_cache.cpp')],
 observe=['topic_names_and_types after get_names_and_types'])
prop('C23', 'Names and types by node cover exactly that node\'s known endpoints',
 'For an existing node (the first one in participant order with that name and namespace) the writer (reader) query reports exactly the demangled names and types of the GIDs in its writer (reader) list that are known endpoints of that kind; unknown GIDs and names demangled to the empty string are skipped. If no node has that name and namespace the result is NODE_NAME_NON_EXISTENT and the output is untouched.',
 ['inputs', 'histories'], 'every cache content, node and demangle function',
 'Tests query a few nodes with complete data; lists containing unknown GIDs or same-named nodes are not covered.',
 [S+'graph_cache.cpp'],
 [('__find_node, __get_names_and_types_from_gids', S+'graph_cache.cpp')],
 observe=['topic_names_and_types after get_*_names_and_types_by_node'])
prop('C24', 'Node listing is complete and its columns line up',
 'The number of nodes is the sum over participants of their node lists. A successful listing yields that many names, namespaces and (if requested) enclaves, in which position i of each column describes the same node and every node of every participant appears exactly once, with its participant\'s enclave. Omitting the enclave output changes nothing else.',
 ['inputs', 'histories'], 'every cache content, with and without enclaves',
 'Tests list a few nodes.',
 [S+'graph_cache.cpp'], [('get_node_names, __get_number_of_nodes', S+'graph_cache.cpp')],
 observe=['output string arrays of get_node_names, return of get_number_of_nodes'])
prop('C25', 'Context additions publish the new state or roll back completely',
 'Adding a node, publisher, subscription, client or service updates the local graph and then publishes exactly one message, through the context\'s publisher, holding the participant\'s full state after the whole update, and returns OK. If publishing is impossible or fails, ERROR is returned and the graph is exactly as before the call, for any prior content provided the endpoint is not already associated with that node.',
 ['histories', 'fault_sequences', 'inputs'], 'every prior graph (same-named nodes included), every publish outcome, missing publisher or callback',
 'There is no test of the context in this repository at all.',
 [S+'context.cpp', H+'context.hpp'],
 [('update, publish, undo on failure', S+'context.cpp: add_*_graph')],
 observe=['return value, published messages, graph content afterwards'])
prop('C26', 'Context removals update the graph and publish the new state once',
 'Removing a node, publisher, subscription, client or service applies the removal to the local graph and publishes exactly one message holding the participant\'s full state after the whole removal, returning OK. If publishing is impossible or fails, ERROR is returned and the removal stays applied.',
 ['histories', 'fault_sequences', 'inputs'], 'every prior graph, every publish outcome, missing publisher or callback',
 'There is no test of the context in this repository at all.',
 [S+'context.cpp', H+'context.hpp'], [('remove_*_graph', S+'context.cpp')],
 observe=['return value, published messages, graph content afterwards'])
prop('C27', 'All graph state is accessed under its lock, update and publish atomically',
 'Every read or write of the graph content or of the on-change callback, by any operation, happens while that graph\'s lock is held, and every operation releases what it acquired on every path. A context operation performs its whole graph update and the publication of the resulting message inside one uninterrupted critical section of the context\'s update lock. No operation acquires a lock it already holds.',
 ['schedules', 'inputs'], 'all interleavings of concurrent operations (through the lock discipline, for every path of every operation)',
 'No test runs operations concurrently; a missing or shortened critical section only shows under particular schedules.',
 [S+'graph_cache.cpp', H+'graph_cache.hpp', S+'context.cpp', H+'context.hpp'],
 [('lock_guard on mutex_ in each public operation', S+'graph_cache.cpp'), ('lock_guard on node_update_mutex', S+'context.cpp')],
 state=[('mutex_', 'graph lock', H+'graph_cache.hpp'), ('node_update_mutex', 'update+publish lock', H+'context.hpp')],
 observe=['lock operations relative to accesses'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
