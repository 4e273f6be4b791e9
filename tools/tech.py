SETUP = 'harness srv asan tsan miri'
SEQ = 'online differential monitor: every reply of generated and systematic command sequences on the real server compared with a sequential reference model, content read back and compared with the decoded physical snapshot'
SEQN = 'Holds on the executions observed: a systematic state-by-command matrix plus random sequences (seeded, shrunk on failure). Trusts the reference model in harness/src/model.rs and the harness client; the clock of the server is frozen by an LD_PRELOAD shim.'
for i in ['C04', 'C05', 'C06', 'C07', 'C08', 'C09']:
    TECH[i] = (SEQ, SEQN)
for i in ['C10', 'C11']:
    TECH[i] = (SEQ + '; the clock is stepped to just before, at and after deadlines', SEQN)
NETN = 'Holds on the executions observed. Trusts the strict RESP client of the harness.'
TECH['C01'] = ('trace monitor: a strict RESP reader checks that every request gets exactly one well-formed reply, in order, whatever the fragmentation, pipelining and content of the arguments, and that stored bytes come back unchanged', NETN)
TECH['C02'] = ('runtime monitor under hostile input: canary connections, canary keys and physical snapshots, liveness, panics, file descriptors and memory of the real server are watched while malformed, absurd and mutated requests are sent', NETN)
TECH['C03'] = ('trace monitor over connection histories: number of clients served at once, and service of fresh clients after every way of ending a connection', NETN)
CN = 'Holds on the schedules observed: four server configurations (all cores, one core, two cores, delays injected inside commands). Trusts the reference model and the history recorder.'
TECH['C13'] = ('offline linearizability checking (Wing-Gong search per key, reference model) of recorded concurrent client histories', CN)
TECH['C14'] = ('offline conservation and exactly-once checkers over recorded concurrent storms', CN)
TECH['C15'] = ('offline interval checker over recorded histories with FLUSHALL, and physical snapshots', CN)
TECH['C12'] = ('runtime monitor of the stored state: physical snapshots and memory of the real server are polled while keys with deadlines are created, changed, flushed and left alone; nothing with a passed deadline may stay stored on a quiet server, and no stale deadline may remove a key', 'Holds on the executions observed. Reclamation is expected within 3 s of the deadline on a quiet server (it normally takes milliseconds). Trusts the snapshot decoder of the harness.')
TECH['C16'] = ('round-trip monitor: DUMP payloads of generated values are restored on the same and on another server and compared with the source through every reading command and through decoded physical snapshots; mutated payloads must be refused without a trace', NETN)
TECH['C23'] = ('runtime monitor: slots seen in replication messages and physical snapshots compared with an independent CRC16 hash-tag oracle', NETN)
TECH['C25'] = ('runtime monitor with deadlines: every reply is timed under mixes of hostile and heavy activity, then SIGINT is sent at a random moment and exit status, open ports and left processes are watched', 'Holds on the executions observed. A reply or an exit that takes more than 15 s counts as none.')
TECH['C21'] = ('online checker of a trace specification: every answer of the real placement driver is judged by the set of states a reference state machine allows for the group, with frozen and stepped clock, hostile requests and concurrent registration rushes', 'Holds on the executions observed. Trusts the reference state machine in harness/src/pdp.rs.')
TECH['C22'] = ('online checker of a trace specification over stepped frozen clocks (the check is known to have run from a sentinel group), plus failovers in real time of scripted and of real servers that are killed, stopped or cut off', 'Holds on the executions observed. The failure timeout is taken as 3000 ms with 50 ms of tolerance; real-time failovers must happen within 15 s.')
TECH['C17'] = ('offline checker over recorded histories and decoded snapshot transfers: per-client prefixes, one common cut, deadlines, completeness under slow, stalled and leaving readers, and content against the replication stream at the same number', 'Holds on the executions observed. Trusts the reference model, the decoders and the recorder of the harness.')
TECH['C18'] = ('offline checker over the recorded replication streams of several subscribers of the real server under load: contiguous numbers, exactly-once unique writes, replay to the final snapshot', 'Holds on the executions observed. Trusts the reference model, the decoders and the recorder of the harness. Keys whose deadline passes during a run are only written as a whole.')
TECH['C19'] = ('runtime monitor with a scripted leader: a real follower is fed duplicated, lost, reordered, cut, delayed and switched streams and snapshots; its content must become the history of its leader, never anything that history does not explain', 'Holds on the executions observed. Healing must happen within the bounds stated in the evidence. Trusts the scripted leader and placement driver of the harness. One known finding is reported.')
TECH['C20'] = ('runtime monitor of whole groups of real processes (placement driver, leader, followers) behind faulty relays: convergence after quiet, and an heir that holds everything it received after the leader dies', 'Holds on the executions observed. Convergence and takeover must happen within 30 s. Trusts the relays and the recorder of the harness.')
TECH['C24'] = ('AddressSanitizer and ThreadSanitizer builds of the real server and placement driver under the workloads of the other checks (hostile bytes, fragmentation, storms, snapshots, faults of replication), and the real server interpreted by Miri under every command, malformed and fragmented requests; any report is a violation', 'Holds on the executions observed. Miri runs the server on one thread with 64 slots (cfg miri) and without fork; races are looked for by ThreadSanitizer with an instrumented standard library.')
TECH['C26'] = ('online differential monitor under a frozen and stepped clock: OBJECT IDLETIME and FREQ of the real server compared with the recorded uses of every key, through random histories, storms of several clients and climbs to the limit of the counter', 'Holds on the executions observed. Trusts the use counter of the harness; whether EXISTS, EXPIRE and DUMP are uses is not judged.')
HOOKS = ['0266edb3c9ec5a9785be3a622fe2d942d359f62a']
