import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
S="component/server/src/"; D="component/dict/src/"; B="component/db/src/"; C="component/common/src/"; PD="component/pd/src/"

p("C01","One well-formed reply per request, in order, however bytes arrive",
 "On every client connection each well-formed request is answered with exactly one well-formed protocol reply, in request order, no matter how the request bytes are split or batched over the network. Any byte string used as key, member, field or value (empty, binary, containing CR/LF, large) is stored and returned unchanged and can never make one reply look like several or corrupt a following reply.",
 ["inputs","schedules"],"every sequence of requests, every fragmentation/pipelining of its bytes, every payload byte string",
 "The tests send one short ASCII command at a time, unfragmented, and wait for its reply; they never pipeline, never split a frame and never use binary or CR/LF payloads.",
 [C+"connection/mod.rs",C+"connection/parse/frame.rs",C+"connection/parse/mod.rs",S+"lib.rs",S+"frame_parse.rs",S+"cmd/mod.rs"],
 [("incremental frame parser over a growing read buffer, consumed prefix advanced on the next read",C+"connection/mod.rs"),("RESP encoder",C+"connection/parse/frame.rs"),("sequential read-execute-reply loop",S+"lib.rs")],
 ["client TCP connection (raw bytes)"])
p("C02","Hostile or malformed input is contained to its own connection",
 "Whatever bytes or arguments one client sends (malformed frames, absurd lengths, deep nesting, extreme or invalid arguments, abrupt disconnects, half-sent requests), the server process stays alive, other clients keep being served correctly, data that the hostile client did not validly modify is unchanged, and the resources of the hostile connection are released.",
 ["inputs","fault_sequences"],"every byte stream a client can send and every point at which it can disconnect",
 "The tests contain no malformed input, no extreme arguments and no second client, so neither crash containment nor state isolation is ever exercised.",
 [C+"connection/parse/frame.rs",C+"connection/mod.rs",C+"connection/parse/mod.rs",S+"lib.rs",S+"limit.rs",D+"cmd/server/restore.rs",D+"cmd/sorted_set/mod.rs"],
 [("per-connection task isolates errors and panics",S+"lib.rs"),("parse errors terminate only that connection",C+"connection/parse/mod.rs"),("lock guards released on unwinding",B+"slot.rs")],
 ["process liveness and exit status","canary connections and canary keys","SYNCSNAPSHOT dump of the physical state"])
p("C03","The connection limit is enforced and every closed connection gives its slot back",
 "With a configured maximum of N connections the server never serves more than N clients at once, further clients wait instead of failing, and every way a connection can end (clean close, reset, protocol error, failing command, snapshot transfer) frees its place, so that N new clients can always be served afterwards.",
 ["histories","schedules","configurations"],"every history of connects and disconnects, every way a connection ends, every configured maximum",
 "Each test opens a single connection and never configures the limit.",
 [S+"limit.rs",S+"lib.rs",C+"config.rs",S+"cmd/syncsnapshot.rs"],
 [("semaphore acquired before accept, permit returned by the handler's drop",S+"limit.rs"),("max_connections configuration",C+"config.rs")],
 ["number of simultaneously answered connections"])
p("C04","String and counter commands behave as a sequential key-value map",
 "For every sequence of SET (with NX, XX, GET, KEEPTTL and expiry options), GET, INCR, DECR, INCRBY, DECRBY, SETEX, PSETEX, DEL and EXISTS on any keys, the replies and the resulting data are those of a sequential map of byte strings and 64-bit counters as documented for the Redis commands they implement. A counter operation that would leave the 64-bit range or whose operand or stored value is not an integer is refused and changes nothing.",
 ["inputs","histories"],"every sequence of these commands with every argument",
 "The tests replay a handful of examples of the Redis web site with fixed arguments on one key each; interactions, boundary values and option combinations are not covered.",
 [D+"cmd/simple/set.rs",D+"cmd/simple/incr.rs",D+"cmd/simple/del.rs",D+"cmd/simple/get.rs",D+"data_type/mod.rs",S+"cmd/base/set.rs",S+"cmd/base/incrby.rs",S+"cmd/base/decrby.rs",S+"cmd/base/get.rs","component/macros/src/parse_frames.rs"],
 [("set request with nx_xx/expiry options",D+"cmd/simple/set.rs"),("integer conversion and addition",D+"cmd/simple/incr.rs")],
 ["client replies compared with a reference model; periodic full read-back and SYNCSNAPSHOT dump"])
p("C05","Lists behave as sequential double-ended queues",
 "For every sequence of LPUSH, RPUSH, LPUSHX, RPUSHX, LPOP, RPOP (with and without count), LRANGE and LLEN the replies and the stored list are those of a sequential deque: elements keep their order and multiplicity, negative and out-of-range indexes and counts are clamped as documented, and no element is lost or duplicated.",
 ["inputs","histories"],"every sequence of list commands with every index, count and element",
 "The tests run each documented example once with tiny lists; index arithmetic at the boundaries and long histories are not covered.",
 [D+"cmd/deque/push.rs",D+"cmd/deque/pop.rs",D+"cmd/deque/range.rs",D+"cmd/deque/len.rs",D+"data_type/deque.rs",S+"cmd/list/lpop.rs",S+"cmd/list/lrange.rs"],
 [("index shaping",D+"data_type/deque.rs"),("drain from either end",D+"cmd/deque/pop.rs")],
 ["client replies compared with a reference deque","full LRANGE read-back"])
p("C06","Hashes behave as sequential field maps",
 "For every sequence of HSET, HSETNX, HGET, HMGET, HGETALL, HEXISTS, HDEL and HINCRBY the replies and the stored fields are those of a sequential map from field to value: HSET and HDEL report exactly the fields added or removed, HSETNX never overwrites, HMGET keeps the order of the requested fields, and HINCRBY refuses non-integers and overflow without effect.",
 ["inputs","histories"],"every sequence of hash commands with every field and value",
 "The tests run fixed examples; repeated and duplicate fields, boundary counters and long histories are not covered.",
 [D+"cmd/kvp/set.rs",D+"cmd/kvp/del.rs",D+"cmd/kvp/incr.rs",D+"cmd/kvp/get.rs",D+"cmd/kvp/get_all.rs",S+"cmd/hash/hset.rs",S+"cmd/hash/hmget.rs"],
 [("field map update with old and new size",D+"cmd/kvp/set.rs")],
 ["client replies compared with a reference map","HGETALL read-back"])
p("C07","Sets behave as sequential mathematical sets",
 "For every sequence of SADD, SREM, SISMEMBER, SMISMEMBER and SMEMBERS the replies and the stored members are those of a sequential set of byte strings: additions and removals report exactly the number of members that changed, duplicates in one command count once, and membership answers follow the order asked.",
 ["inputs","histories"],"every sequence of set commands with every member list",
 "The tests run one example per command with two or three ASCII members.",
 [D+"cmd/set/add.rs",D+"cmd/set/remove.rs",D+"cmd/set/exists.rs",D+"cmd/set/get_all.rs",S+"cmd/set/smismember.rs"],
 [("hash-set update with old and new size",D+"cmd/set/add.rs")],
 ["client replies compared with a reference set"])
p("C08","Sorted sets keep one score per member and every view of them agrees",
 "For every sequence of ZADD (with NX, XX, GT, LT, CH and INCR), ZREM and ZREMRANGEBY* a sorted set holds each member exactly once with its latest score, ordered by score and then member bytes, and rank, range, score-range and lexicographic-range queries in both directions, with limits and open or closed bounds, all return exactly the members that order implies. Update flags change exactly the members they allow, and reported counts equal the members added, changed or removed.",
 ["inputs","histories"],"every sequence of sorted set commands with every score (including infinities and extreme magnitudes), bound, limit and rank",
 "The tests run the documented examples with three to seven members and small integer scores; update flags, ties, extreme scores, empty or inverted ranges are not covered.",
 [D+"cmd/sorted_set/add.rs",D+"cmd/sorted_set/mod.rs",D+"cmd/sorted_set/range_by_score.rs",D+"cmd/sorted_set/range_by_lex.rs",D+"cmd/sorted_set/range_by_rank.rs",D+"cmd/sorted_set/rank.rs",D+"cmd/sorted_set/remove.rs",D+"cmd/sorted_set/remove_by_score_range.rs",D+"cmd/sorted_set/remove_by_rank_range.rs",D+"cmd/sorted_set/remove_by_lex_range.rs",C+"options/range_cmd_order.rs",C+"float.rs"],
 [("member->score map and score-ordered tree kept in step",D+"cmd/sorted_set/add.rs"),("bounds and limits shaping",D+"cmd/sorted_set/mod.rs")],
 ["client replies compared with a reference ordered set","both internal indexes read from the SYNCSNAPSHOT dump"],
 state=[("hash","member to score","component/dict/src/data_type/sorted_set.rs"),("value","members ordered by score","component/dict/src/data_type/sorted_set.rs")])
p("C09","A refused command changes nothing and an emptied collection ceases to exist",
 "A command that is answered with an error, including any command applied to a key that holds another type, leaves every key, value and expiry exactly as it was. A list, hash, set or sorted set whose last element is removed, by whatever command, no longer exists: it is absent for every command and its key may be reused with any type.",
 ["inputs","histories"],"every command applied to every state of its keys",
 "The tests contain a few wrong-type replies but never look at the state afterwards, and never look at a key after removing its last element.",
 [D+"cmd/deque/pop.rs",D+"cmd/kvp/del.rs",D+"cmd/set/remove.rs",D+"cmd/sorted_set/remove.rs",D+"cmd/sorted_set/remove_by_rank_range.rs",D+"cmd/sorted_set/add.rs",D+"cmd/kvp/incr.rs",D+"cmd/simple/incr.rs"],
 [("type test before mutation",D+"cmd/mod.rs"),("removal of empty containers",D+"cmd/deque/pop.rs")],
 ["replies","DUMP and PTTL of every key before and after the refused command","EXISTS and SYNCSNAPSHOT after removals"])
p("C10","A key is visible up to its deadline and never after it",
 "A key with a deadline is fully usable at every instant before the deadline and, from the deadline on, every command treats it as absent: it is not read, counted, deleted, reported, extended or used as the old value of an update, and writing to it starts from nothing and without a deadline of its own.",
 ["inputs","histories","schedules"],"every command, every type, every instant relative to the deadline, whether or not background reclamation has run",
 "The tests look at one string key some 10 ms after a 90 ms deadline and at keys whose deadline is years in the past; no other command or type is tried around the deadline instant.",
 [D+"lib.rs",D+"cmd/simple/ttl.rs",D+"cmd/simple/del.rs",D+"cmd/simple/set.rs",D+"cmd/simple/get_last_visit_time.rs",D+"cmd/simple/get_visit_times.rs",B+"expire.rs",C+"lib.rs"],
 [("deadline test in the dictionary lookup",D+"lib.rs")],
 ["replies at deadline-1ms, deadline, deadline+1ms under a controlled wall clock"])
p("C11","Expiry options set, keep, compare and clear deadlines exactly as specified",
 "EXPIRE, PEXPIRE, EXPIREAT and PEXPIREAT with NX, XX, GT and LT, the expiry options of SET, SETEX, PSETEX and RESTORE, KEEPTTL and plain overwrites leave each key with exactly the deadline their definitions imply, to the millisecond; commands that modify a value in place keep its deadline, and TTL and PTTL report the remaining time. Times in the past expire the key at once, and times that cannot be represented are refused or saturate but never wrap around to another deadline or to no deadline.",
 ["inputs","histories"],"every combination of options, previous deadline and argument value",
 "The tests check two option combinations with a tolerance of half a second.",
 [D+"cmd/simple/expire.rs",D+"cmd/simple/set.rs",D+"cmd/simple/ttl.rs",S+"cmd/base/expire.rs",S+"cmd/base/pexpire.rs",S+"cmd/base/expireat.rs",S+"cmd/base/pexpireat.rs",S+"cmd/base/set.rs",S+"cmd/base/setex.rs",S+"cmd/base/psetex.rs",S+"cmd/base/ttl.rs",S+"cmd/base/pttl.rs",S+"cmd/others/restore.rs",C+"options/set_cmd_expires.rs",C+"options/gt_lt.rs",C+"options/nx_xx.rs"],
 [("condition table of EXPIRE",D+"cmd/simple/expire.rs"),("deadline computation from seconds/milliseconds",S+"cmd/base/expire.rs")],
 ["PTTL/TTL replies under a controlled wall clock","deadlines in the SYNCSNAPSHOT dump"])
p("C12","Expired keys are reclaimed promptly and live keys are never reclaimed",
 "Without any client touching it, a key whose deadline has passed is physically removed within a short bounded time. A key whose deadline was extended, cleared, or that was deleted and re-created is never removed because of an earlier deadline, under any interleaving of clients with the background reclaimer. A deadline that was changed or dropped (by any command that overwrites, deletes or empties the key) is forgotten: changing the deadlines of a few keys again and again does not make the server's memory grow.",
 ["schedules","histories"],"every interleaving of deadline changes with the background reclaimer, any number of keys",
 "Lazily hidden keys look the same as reclaimed ones to the tests, and no test changes deadlines concurrently.",
 [B+"expire.rs",B+"slot.rs",B+"lib.rs",D+"cmd/simple/expire.rs",D+"cmd/simple/set.rs",D+"cmd/simple/del.rs"],
 [("ordered set of deadlines fed by a queue, purge task woken for an earlier deadline",B+"expire.rs"),("deadline re-checked under the slot lock before removal",B+"expire.rs")],
 ["SYNCSNAPSHOT dump of the physical content","client reads of keys that must survive"],
 state=[("expiration_data","pending deadlines","component/db/src/lib.rs")])
p("C13","Concurrent single-key commands are linearizable",
 "For any number of clients issuing single-key commands concurrently, there is one order of the commands of each key, consistent with the real-time order of requests and replies, in which every reply is the one the sequential semantics gives; multi-key DEL and EXISTS act on each key atomically.",
 ["schedules","histories"],"every interleaving of any number of connections over the worker threads",
 "Every test uses one connection, so no two commands ever overlap.",
 [B+"slot.rs",B+"lib.rs",S+"lib.rs",D+"lib.rs"],
 [("per-slot mutex around each command",B+"slot.rs")],
 ["invocation/response history of all clients, checked by a linearizability checker"])
p("C14","Concurrent updates are never lost, doubled or torn",
 "Under concurrent clients, increments add up exactly, every pushed list element is popped exactly once and in per-producer order, conditional writes (SET NX, HSETNX) have exactly one winner, and set and sorted-set insertions and removals report success to exactly one client per change.",
 ["schedules","histories"],"every interleaving of concurrent read-modify-write commands on shared keys",
 "No test runs two clients at once.",
 [B+"slot.rs",D+"cmd/simple/incr.rs",D+"cmd/deque/pop.rs",D+"cmd/deque/push.rs",D+"cmd/kvp/set.rs",D+"cmd/kvp/incr.rs",D+"cmd/simple/set.rs",D+"cmd/set/add.rs",D+"cmd/sorted_set/add.rs"],
 [("lock held over the whole read-modify-write",B+"slot.rs")],
 ["conservation audit over all replies and the final state"])
p("C15","FLUSHALL removes everything that was there and nothing written afterwards",
 "After FLUSHALL (plain or SYNC) is acknowledged no key written before it was issued exists, in any data type and with or without deadline; keys written after the acknowledgement are fully kept, including their deadlines, and concurrent writers see each of their keys either flushed or kept whole.",
 ["schedules","histories"],"every data set, every concurrent workload, both modes",
 "The tests flush a database of one key.",
 [B+"lib.rs",B+"slot.rs",B+"expire.rs",S+"cmd/others/flushall.rs"],
 [("per-slot swap of the dictionary",B+"slot.rs"),("deadline index rescanned",B+"expire.rs")],
 ["SYNCSNAPSHOT dump after the acknowledgement","client reads"])
p("C16","DUMP and RESTORE reproduce a value exactly or not at all",
 "Restoring what DUMP returned, under any key of any server, yields an equal value of the same type that behaves identically under further commands, with exactly the requested deadline. RESTORE onto an existing key without REPLACE, and RESTORE of bytes that are not a valid value, are refused and leave the key unchanged.",
 ["inputs","histories"],"every value of every type and every payload",
 "One test restores one fixed list payload; it never restores what DUMP returned, other types, REPLACE or damaged payloads.",
 [D+"cmd/server/dump.rs",D+"cmd/server/restore.rs",S+"cmd/others/dump.rs",S+"cmd/others/restore.rs",D+"data_type/mod.rs",D+"data_type/sorted_set.rs",D+"data_type/deque.rs",D+"data_type/kvp.rs"],
 [("bincode value encoding",D+"cmd/server/dump.rs"),("busy-key test",D+"cmd/server/restore.rs")],
 ["replies","value equality through type-specific reads and continued differential execution"])
p("C17","A snapshot transfer is a complete, consistent cut of the data",
 "A SYNCSNAPSHOT taken at any moment of any workload delivers, for the requested slot or for all slots, every key with its value and deadline exactly as of one instant: it contains the effects of every write acknowledged before the request, no partial command, no write that is missing an earlier one, and a per-slot sequence number that matches that content. Taking it neither blocks nor alters the running server, and it is delivered completely whatever its size and however slowly it is read.",
 ["schedules","histories","fault_sequences"],"every workload, every moment of the request, every size and reader speed",
 "No test requests a snapshot.",
 [S+"cmd/syncsnapshot.rs",B+"child_process.rs",B+"slot.rs",D+"lib.rs"],
 [("all slot locks held across fork, child serialises its frozen copy",S+"cmd/syncsnapshot.rs")],
 ["decoded snapshot stream checked against the recorded client history"])
p("C18","The replication stream carries every write exactly once with its sequence number",
 "A subscriber of the replication stream receives, for every slot, each write executed after its subscription was confirmed exactly once, numbered without gaps or repeats, and applying a slot's stream in number order to the state at the subscription reproduces the leader's data. Slow, failing or disconnecting subscribers never lose writes for other subscribers or disturb clients.",
 ["schedules","histories","fault_sequences"],"every concurrent workload, any number of subscribers joining and leaving at any time",
 "No test opens the replication port.",
 [B+"forward/mod.rs",B+"forward/connection.rs",B+"forward/message.rs",B+"slot.rs",D+"cmd/mod.rs"],
 [("sequence number assigned under the slot lock",B+"slot.rs"),("fan-out queue per subscriber",B+"forward/connection.rs")],
 ["decoded replication stream, replayed by an independent interpreter and compared with a final snapshot"],
 state=[("write_id","per-slot sequence number of the last write","component/dict/src/lib.rs")])
p("C19","A follower applies each replicated write once, in order, and heals gaps",
 "Whatever duplicates, reorderings, gaps, stale messages and connection losses occur on the replication stream, a follower's slot always equals some state its leader's slot had, never applies a numbered write twice or before its predecessors, and, once the stream is quiet and the leader reachable, equals the leader's slot.",
 ["fault_sequences","histories"],"every sequence of stream messages and snapshot answers a leader, network or restart can produce",
 "No test starts a follower.",
 [B+"slot/replica_update.rs",B+"pd_handle/replica.rs",B+"pd_handle/mod.rs",B+"slot.rs"],
 [("sequence number comparison before applying",B+"slot/replica_update.rs"),("snapshot re-synchronisation of a slot on a gap",B+"pd_handle/replica.rs")],
 ["follower driven by a scripted leader and placement driver; its state read back through clients and snapshots"])
p("C20","Followers converge to their leader and take over with its data",
 "In a group formed through the placement driver, once writes stop and links work again, every follower holds exactly the leader's keys, values and deadlines, whatever writes happened before, during or after it joined and whatever connection breaks occurred. When the leader dies a surviving follower becomes leader with everything it had received, and the remaining followers follow it.",
 ["schedules","fault_sequences","histories","crash_points"],"every workload and join time, link break and leader crash",
 "No test starts more than one node.",
 [B+"pd_handle/mod.rs",B+"pd_handle/replica.rs",B+"forward/connection.rs",S+"cmd/syncsnapshot.rs",PD+"status.rs"],
 [("subscribe, snapshot, replay",B+"pd_handle/replica.rs"),("role changes pushed by heartbeat answers",B+"pd_handle/mod.rs")],
 ["snapshots of leader and followers compared after quiescence"])
p("C21","The placement driver gives unique identities and at most one leader per group",
 "Groups and the servers of a group get identities that are never reused, registration in an unknown group is refused, a group has at most one leader at any time and all answers name that same leader, and a heartbeat is answered with the current status exactly when the reported status differs from it. Groups never influence each other.",
 ["histories","schedules","inputs"],"every sequence and interleaving of group creations, registrations and heartbeats",
 "No test starts the placement driver.",
 [PD+"status.rs",PD+"cmd.rs",PD+"connect.rs",C+"pd_message.rs"],
 [("single lock around the status table",PD+"status.rs")],
 ["protocol answers of the real placement driver, checked against a reference state machine"])
p("C22","Failover happens exactly when the leader is silent, to a live follower",
 "While a leader keeps sending heartbeats it is never replaced. When it has been silent for the failure timeout, the longest-joined live follower of the same group becomes leader within a bounded time if there is one, dead servers are never promoted, and a returning former leader is told to follow the new leader.",
 ["fault_sequences","histories","schedules"],"every pattern of heartbeats, silences and returns of the servers of any number of groups",
 "No test starts the placement driver or lets time pass between heartbeats.",
 [PD+"status.rs",B+"pd_handle/mod.rs",C+"pd_message.rs"],
 [("periodic survival check",PD+"status.rs"),("server side heartbeat and status update",B+"pd_handle/mod.rs")],
 ["protocol answers over time","roles of real servers"])
p("C23","Every key lives in the slot the cluster specification assigns to it",
 "Each key is stored in, read from, expired in and snapshotted from exactly one slot, the one computed from the key or its hash tag by the Redis Cluster key hash, for every key including binary, empty and oddly braced ones.",
 ["inputs"],"every key",
 "One test asks for a braced key that does not exist; slot numbers are never observed.",
 [B+"lib.rs",B+"slot.rs"],
 [("CRC16 and hash tag extraction",B+"lib.rs")],
 ["per-slot SYNCSNAPSHOT content compared with an independent CRC16 implementation"])
p("C24","No input or schedule causes undefined behaviour or a data race",
 "No request stream, fragmentation, command or concurrent schedule makes the server or its parsing and data-structure code read or write memory outside live objects, use a dangling or aliased reference, or race on memory.",
 ["inputs","schedules"],"every request stream and thread schedule",
 "The unsafe re-borrow of the read buffer and the interior-mutable argument cursor are exercised by the tests only with trivial input and without any instrumentation.",
 [C+"connection/mod.rs",C+"connection/parse/mod.rs",C+"connection/parse/frame.rs",S+"cmd/mod.rs",S+"cmd/syncsnapshot.rs"],
 [("unsafe re-borrow of the read buffer",C+"connection/mod.rs"),("UnsafeCell argument cursor",C+"connection/parse/mod.rs"),("unsafe self-reference while parsing a command",S+"cmd/mod.rs")],
 ["AddressSanitizer, ThreadSanitizer and Miri reports"])
p("C25","The server keeps answering under background work and stops cleanly on SIGINT",
 "Under any mix of client load, mass expiry, flushes, snapshot transfers and replication subscribers, every request is answered within a bounded time (no deadlock or starvation). On SIGINT the server stops accepting clients and the process exits by itself within a bounded time, whatever it did before, leaving no process behind except one that is still delivering a requested snapshot to its reader.",
 ["schedules","histories","fault_sequences"],"every mix of foreground and background activity and every moment of the signal",
 "No test combines activities, has a time limit on replies under load, or sends a signal.",
 [S+"lib.rs","bin/server.rs",B+"child_process.rs",B+"expire.rs",B+"lib.rs",S+"cmd/syncsnapshot.rs"],
 [("short slot critical sections, deadline index lock ordering",B+"expire.rs"),("select on the shutdown future",S+"lib.rs")],
 ["reply latency watchdog","process table after SIGINT"])
p("C26","Usage statistics of a key count its uses and nothing else",
 "OBJECT IDLETIME reports the seconds since a key was last used (within its 10 s resolution) and OBJECT FREQ a usage counter: each use of an existing key by a command of its type sets its idle time to zero and raises its counter by exactly one, also under concurrent clients; each minute that passed since the previous use lowers it by one, down to zero; it saturates at 65535 and never wraps. A new or overwritten value starts afresh, RESTORE with IDLETIME and FREQ sets both, asking for statistics or remaining time and using other keys changes nothing, and an absent or expired key has no statistics.",
 ["inputs","histories","schedules"],"every history of uses, pauses, overwrites, restores and questions, up to the limits of the counter",
 "No test asks for OBJECT IDLETIME or FREQ after a pause, after many uses, of an expired key or from several clients; there the packed counter fields could overflow into each other.",
 [D+"lib.rs",D+"cmd/simple/get_visit_times.rs",D+"cmd/simple/get_last_visit_time.rs",D+"cmd/server/restore.rs",S+"cmd/others/object.rs"],
 [("last use, decay minute and counter packed in one word",D+"lib.rs"),("reading without counting",D+"cmd/simple/get_visit_times.rs")],
 ["OBJECT IDLETIME and OBJECT FREQ under a frozen clock, compared with the recorded uses"],
 state=[("visit_log","last visit, last decay minute and visit count of a value",D+"lib.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,sch)
print(len(P))
