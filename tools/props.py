"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

WEB = "src/keri/db/webdbing.py"
DST = "deterministic simulation with fault injection"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None, technique=DST, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=a), technique, note))


WNOTE = ("Seeded exploration of the shipped module on simulated asynchronous storage (write queue per namespace, seeded "
         "completion order, sync failures, crashes keeping a prefix of queued writes). Evidence, not proof. Trusts the storage "
         "model: writes of one namespace apply in order and one assignment is durable or not as a whole.")

prop("W01", "Browser store: a flush that returned survives any crash",
     "Once a flush of the browser database has returned, every write made before that flush was called is still there after any "
     "later crash and reopen, unless a later write superseded it. Writes never flushed may be lost, but only as a suffix of the "
     "write history of their store.",
     ["crash_points", "schedules", "histories"],
     "every operation history, order of storage completions and crash point, including crashes between the writes of one flush",
     "tests flush against an in-memory fake that completes at once and never crash, so no partially completed flush exists in them",
     [WEB], [("flush", f"{WEB}:WebDBer.flush"), ("dirty tracking in every write method", f"{WEB}:WebDBer"),
             ("load on open", f"{WEB}:WebDBer.open")], WNOTE,
     ["WebDBer.flush result", "contents after WebDBer.open"])
prop("W02", "Browser store: after a crash each store is one state it really had",
     "After a crash at any point, including inside a flush or inside the clearing of a database, every named store of the browser "
     "database reopens with exactly the contents it had at some moment between its last acknowledged flush and the crash. It is never "
     "a mixture of two moments, never garbled, and the database always opens.",
     ["crash_points", "fault_sequences", "histories"],
     "every history of writes and flushes and every crash point or failed sync, with any prefix of queued storage writes durable",
     "the tests never interrupt a flush; a crash between the assignments of one flush is invisible to them",
     [WEB], [("records and metadata written per store", f"{WEB}:WebDBer.flush"), ("metadata guard", f"{WEB}:WebDBer.open"),
             ("serialisation", f"{WEB}:_serialize_records")], WNOTE)
prop("W03", "Browser store: writes during a flush or after a failed flush are not lost",
     "A write made while a flush is in progress, or after a flush failed, is made durable by the next flush that succeeds. "
     "Overlapping flushes each return once storage responds, and none of them reports success for data that did not reach storage.",
     ["schedules", "fault_sequences"],
     "every interleaving of writes with one or more flushes awaiting storage and every pattern of storage failures",
     "the tests await each flush to completion on storage that answers immediately, so no write ever happens inside a flush",
     [WEB], [("per-store dirty mark", f"{WEB}:WebDBer.flush"), ("dirty flag", f"{WEB}:SubDb.dirty")], WNOTE)
for pid, fam, what in (
        ("W04", "plain key-value", "put inserts only when absent, set overwrites, remove and prefix operations act on exactly the named keys"),
        ("W05", "ordinal-keyed", "append uses one past the greatest ordinal of that key only, ranges by ordinal are exact and ordered, "
                "and keys that share prefixes never affect each other"),
        ("W06", "insertion-ordered set", "members are unique and kept in insertion order, replacing a set is exact, and last-member and "
                "counting queries agree with the contents"),
        ("W07", "ordinal-keyed set", "sets at each ordinal are unique and insertion ordered, and forward, backward, last-member and "
                "counting queries over ordinals agree with the contents")):
    prop(pid, f"Browser store: {fam} operations match their sequential model",
         f"At every step of any history, including across crashes and reopens, every {fam} operation of the browser database returns "
         f"what a simple sequential model returns and leaves exactly the model's contents: {what}.",
         ["histories", "inputs", "crash_points"],
         "every history of operations over colliding and separator-bearing keys, custom separators and boundary ordinals, interleaved "
         "with flushes, failures and restarts",
         "the tests call each operation a few times on fixed keys; histories, key shapes that collide and restarts in between are not sampled",
         [WEB], [(f"{fam} methods", f"{WEB}:WebDBer"), ("key encoding", f"{WEB}:onKey, suffix")], WNOTE)
prop("W08", "Browser store: version, duplicate flag and clear are durable facts",
     "The duplicate flag of a store is fixed by its first opening and keeps that value across later openings, crashes and reopens; the "
     "version last set before an acknowledged flush is the version read after reopen. Opening with clear yields empty stores and no "
     "version, and stores not declared cannot be opened.",
     ["histories", "crash_points"],
     "every history of store openings, version changes, clears, flushes and crashes",
     "tests check one fresh database and one reopen, with no crash between the flag being chosen and being persisted",
     [WEB], [("dupsort latch", f"{WEB}:WebEnv.open_db"), ("version", f"{WEB}:WebDBer.version"), ("clear", f"{WEB}:WebDBer.open")], WNOTE)
prop("W09", "Browser store: an operation never touches another store or database",
     "A write, removal, clear or version change in one named store changes no other store of that database and no other database that "
     "shares the storage, in memory or after reopen, including stores that exist in storage but were not declared when opening.",
     ["histories", "crash_points"],
     "every history over several stores and databases with similar names, with flushes, crashes and clears",
     "tests use one store at a time",
     [WEB], [("namespacing", f"{WEB}:WebDBer.open"), ("store table", f"{WEB}:WebEnv.open_db")], WNOTE)
prop("W10", "Browser store: iterating while the store changes is safe",
     "An iteration that is in progress while the store is changed never raises, never skips or repeats an entry that was present "
     "throughout, never yields an entry that was never present, and keeps the store's order.",
     ["schedules", "histories"],
     "every interleaving of iterator steps with writes and removals, for every iterator the browser database offers",
     "tests exhaust every iterator before the next write",
     [WEB], [("snapshot iteration", f"{WEB}:WebDBer.getTopItemIter and the other iterators")], WNOTE)

DB = "src/keri/db/dbing.py"
DNOTE = ("Seeded exploration of the shipped LMDBer on a simulated LMDB (ordered maps, snapshot readers, atomic durable write "
         "transactions) with failures and process death at begin, write, commit and just after commit. Evidence, not proof. "
         "Trusts LMDB's own transaction guarantees.")
prop("D01", "LMDB store: key, ordinal and set operations match a sequential model",
     "At every step of any history, including across crashes, failed transactions and reopens, every plain, ordinal-keyed, "
     "insertion-ordered-set and ordinal-set operation of the LMDB layer returns what a simple sequential model returns and leaves "
     "exactly the model's contents: ordinals append past the greatest, set members stay unique in insertion order, keys sharing "
     "prefixes or separators never affect each other, and other stores are untouched.",
     ["histories", "inputs", "crash_points"],
     "every history of operations over colliding and separator-bearing keys, custom separators and boundary ordinals, interleaved "
     "with crashes, failed transactions and reopens",
     "the tests call each operation a few times on fixed keys with the default separator; colliding keys and long histories are not sampled",
     [DB], [("store operations", f"{DB}:LMDBer"), ("key encoding", f"{DB}:onKey, suffix, unsuffix")], DNOTE)
prop("D02", "LMDB store: duplicate-value operations match a sequential model",
     "At every step of any history the duplicate, insertion-ordered duplicate and ordinal duplicate operations return what a "
     "sequential model returns and leave exactly its contents: values of one key are unique, insertion order survives removals and "
     "reopens, re-adding moves nothing, and last-value, counting and backward queries agree with the contents.",
     ["histories", "inputs", "crash_points"],
     "every history of duplicate-value operations over colliding keys and repeated values, interleaved with crashes, failed "
     "transactions and reopens",
     "tests use a handful of values on a handful of keys; repeated values in one call, custom separators and gaps are not sampled",
     [DB], [("duplicate operations", f"{DB}:LMDBer"), ("insertion order proem", f"{DB}:LMDBer.addIoDupVal")], DNOTE)
prop("D03", "LMDB store: every operation is all or nothing under crash and error",
     "A single database operation interrupted by process death or by a failing transaction leaves its store either exactly as before "
     "or exactly as after the operation, never in between. Once an operation returned its effect survives any later crash, and an "
     "operation whose transaction failed never reports success.",
     ["crash_points", "fault_sequences", "histories"],
     "every operation, history and every point at which a transaction can begin, write, commit, fail or the process die",
     "tests never interrupt an operation, and an operation split over two transactions looks the same as one without a crash",
     [DB], [("one write transaction per operation", f"{DB}:LMDBer")], DNOTE)
prop("D04", "LMDB store: an iteration sees the store as it was when it began",
     "An iteration in progress yields exactly the entries, in order, that the store held when the iteration started, whatever is "
     "written or removed meanwhile, never raises and ends after finitely many steps.",
     ["schedules", "histories"],
     "every interleaving of iterator steps with writes and removals, for every iterator of the LMDB layer, key sets and separators",
     "tests exhaust every iterator before the next write",
     [DB], [("iterators over one read transaction", f"{DB}:LMDBer.getTopItemIter and the other iterators")], DNOTE)
prop("D05", "LMDB store: version and stores survive crash and reopen unchanged",
     "A database is stamped with the library version exactly when it is created; afterwards every reopen, however it happens and "
     "wherever its files live, reads the version last set, so an outdated database is never mistaken for a current one. Contents of "
     "every store survive reopen and crash, including death during the very first open.",
     ["crash_points", "histories"],
     "every history of version changes, reopens and crashes including inside open, with default and custom head directories",
     "tests open fresh temporary databases and never die inside open",
     [DB], [("version stamp", f"{DB}:LMDBer.reopen"), ("version property", f"{DB}:LMDBer.version")], DNOTE)

EV = "src/keri/core/eventing.py"
BA = "src/keri/db/basing.py"
PA = "src/keri/core/parsing.py"
KNOTE = ("Seeded exploration of the shipped Parser, Kevery, Kever, Baser and their databases on several simulated nodes with simulated "
         "LMDB, clock, network and process death, against an independent reference of KERI acceptance rules. Evidence, not proof. "
         "Signatures, digests and LMDB itself run as deterministic stand-ins; CESR and serialisation code is the shipped code.")
KWHY = ("tests deliver a few hand-made logs in order to one process that never dies; forks, partial signatures, reordering, retries and "
        "restarts between them are not sampled")
prop("K01", "Key event log: append-only, first seen wins, one chain per identifier",
     "Whatever messages a node receives, in any order and from anyone, it accepts an event only when the event is genuine and extends "
     "the identifier's accepted chain (or is a valid recovery superseding its unrecovered tail). The first-seen log only grows, with "
     "consecutive ordinals; what was accepted is never rewritten; the key state always equals that of the accepted chain; and a "
     "conflicting later event is refused and kept as evidence of duplicity.",
     ["histories", "schedules", "inputs", "crash_points"],
     "every history of genuine, forged, forked and recovery events delivered to several nodes in any order, with crashes and restarts",
     KWHY, [EV, BA],
     [("event acceptance", f"{EV}:Kevery.processEvent"), ("validation and state update", f"{EV}:Kever.update"),
      ("first-seen and key event logs", f"{EV}:Kever.logEvent"), ("duplicity evidence", f"{EV}:Kevery.escrowLDEvent")], KNOTE)
prop("K02", "Key event log: all nodes converge whatever the delivery order",
     "Once messages stop being lost and escrow processing has run, every node that received the same genuine events, signatures and "
     "witness receipts holds the same key state, whatever the order, splitting or repetition in which they arrived and however often it "
     "restarted; nothing genuine that arrived too early is lost, and no message makes a node fail with an internal error.",
     ["schedules", "histories", "fault_sequences"],
     "every delivery order, duplication, loss followed by retry, splitting of signatures over messages and every crash point",
     KWHY, [EV, PA, BA],
     [("escrows", f"{EV}:Kevery.processEscrows"), ("out of order", f"{EV}:Kevery.processEscrowOutOfOrders"),
      ("partial signatures", f"{EV}:Kevery.processEscrowPartialSigs"), ("partial witnessing", f"{EV}:Kevery.processEscrowPartialWigs"),
      ("partial delegation", f"{EV}:Kevery.processEscrowPartialDels")], KNOTE)
prop("K03", "Key event log: signing and rotation thresholds are never undercut",
     "An event is accepted only when distinct controller keys that satisfy the current signing threshold have really signed it and, for "
     "a rotation, when the revealed keys satisfy the next-key threshold committed by the prior establishment event. Repeating one "
     "signature, moving it to another index or encoding it differently never counts twice.",
     ["inputs", "histories"],
     "every combination of genuine, repeated, moved, re-encoded and junk signatures over several messages, with numeric, fractional "
     "and nested weighted thresholds",
     "tests sign with exactly the right keys; adversarial signature sets accumulated over several deliveries are not sampled",
     [EV], [("signature verification", f"{EV}:Kever.valSigsWigsDel"), ("unique verified signatures", f"{EV}:verifySigs"),
            ("prior next threshold", f"{EV}:Kever.exposeds")], KNOTE)
prop("K04", "Key event log: acceptance needs the witness threshold of that event",
     "A node that is neither the controller nor a witness accepts an event only when at least the declared number of distinct witnesses "
     "of that event (after its cuts and adds) really signed it; receipts count whether they come attached, as indexed signatures or as "
     "couples, before or after the event, but never for another event, another witness list or twice for one witness.",
     ["inputs", "histories", "schedules"],
     "every witness pool change, threshold, split and order of receipts, and junk or repeated witness signatures",
     "tests use one fixed witness list with all receipts present", [EV, BA],
     [("witness threshold", f"{EV}:Kever.valSigsWigsDel"), ("receipt attachment", f"{EV}:Kevery.processReceipt"),
      ("escrowed receipts", f"{EV}:Kevery.processEscrowUnverWitness")], KNOTE)
prop("K05", "Delegation: acceptance needs the delegator's anchored seal; recovery rules",
     "A delegated inception or rotation is accepted only when the delegator's accepted log holds a seal of exactly that event, and a "
     "delegator that declared do-not-delegate never delegates. A superseding recovery is accepted only where the rules allow it: a "
     "rotation over unrecovered interactions, or a delegated rotation whose delegating event supersedes.",
     ["histories", "schedules", "inputs"],
     "every interleaving of delegator and delegate events, missing, wrong or early seal references, and competing recoveries",
     "tests anchor each delegated event once, in order, on the same process", [EV, BA],
     [("delegation validation", f"{EV}:Kever.validateDelegation"), ("seal search", f"{BA}:Baser.fetchLastSealingEventByEventSeal")], KNOTE)
prop("K06", "Key event log: a crash never loses or tears what was accepted",
     "After process death at any point, including between the database writes of one acceptance, the node restarts with a first-seen log "
     "and key state that extend those it had before, every logged event fully readable with its signatures, the reloaded key state equal "
     "to that of the accepted chain, and it goes on accepting the missing events.",
     ["crash_points", "histories"],
     "every crash point before, inside and after every database transaction of every history",
     "no test kills the process between two writes of one acceptance", [EV, BA],
     [("acceptance writes", f"{EV}:Kever.logEvent"), ("reload", f"{BA}:Baser.reload"), ("key state record", f"{EV}:Kever.state")], KNOTE)
prop("K07", "Escrows drain: everything waiting is resolved or dropped in bounded time",
     "Processing escrows never raises and always ends; an escrowed item leaves its escrow once it can be judged; and once the clock has "
     "passed its timeout no expired item of that escrow remains, whatever was put there.",
     ["histories", "fault_sequences", "inputs"],
     "every history of incomplete, premature and junk messages and every advance of the clock",
     "tests process each escrow once with the missing piece at hand and never move the clock past a timeout", [EV],
     [("escrow processing", f"{EV}:Kevery.processEscrows"), ("timeouts", f"{EV}:Kevery.TimeoutOOE and the other timeouts")], KNOTE)
prop("K08", "Receipts: stored only when genuine, and not lost when they come early",
     "Every receipt a node stores for an accepted event, by a witness, a watcher or another identifier, is a signature that party's key "
     "really made over exactly that event; and a genuine receipt that arrives before its event or before its signer's log is stored once "
     "both are accepted.",
     ["inputs", "schedules", "histories"],
     "every order of receipts, events and signers' logs, with genuine, misattributed and junk receipts, crashes and restarts",
     "tests deliver each receipt after its event with the signer already known", [EV],
     [("receipts", f"{EV}:Kevery.processReceipt"), ("attached receipts", f"{EV}:Kevery.processAttachedReceiptCouples, processAttachedReceiptSigGroups"),
      ("escrowed receipts", f"{EV}:Kevery.processEscrowUnverNonTrans, processEscrowUnverTrans")], KNOTE)

ROU = "src/keri/core/routing.py"
RNOTE = ("Seeded exploration of the shipped parser, reply processing and database code; signatures, digests, LMDB and the clock are "
         "simulated stand-ins. Evidence, not proof.")
prop("R01", "Replies: what a node publishes about an identifier was really authorised by it",
     "An endpoint role, endpoint location or watched-identifier entry is accepted only from a reply that the identifier itself signed: its "
     "own non-transferable key, or distinct keys meeting the signing threshold of one of its accepted establishment events. While the "
     "entry stands the node still holds that reply, its datetime and that complete set of signatures, whatever else arrives, times out "
     "or crashes.",
     ["inputs", "histories", "crash_points"],
     "every combination of genuine, partial, re-signed, misattributed and junk signature groups over several messages, escrow timeouts "
     "and crash points",
     "tests send each reply once with exactly the right signatures and never let a stray signature group on an accepted reply expire",
     [ROU, EV], [("acceptance", f"{ROU}:Revery.acceptReply"), ("removal", f"{ROU}:Revery.removeReply"),
                 ("escrow", f"{ROU}:Revery.processEscrowReply")], RNOTE)
prop("R02", "Replies: best available data acceptance is monotonic",
     "For each entry the accepted reply only ever moves forward: a reply replaces another only when signed under a later establishment "
     "event or, under the same one, carrying a later datetime. No replay of older replies, re-signing, escrow, timeout or crash ever "
     "brings an older reply back, and a fully signed later reply is always accepted.",
     ["histories", "schedules", "crash_points"],
     "every order, repetition and re-signing of replies, key rotations of the author, replays and crash points",
     "tests apply two or three replies in order; rollback after an escrow timeout, re-signing or crash is not sampled",
     [ROU, EV], [("comparison", f"{ROU}:Revery.acceptReply"), ("entries", f"{EV}:Kevery.updateEnd, updateLoc, updateWatched")], RNOTE)
prop("R03", "Replies: nodes converge on the latest reply in any order of arrival",
     "Whatever the order in which an author's events, replies and parts of multi-signature replies arrive, once everything has arrived "
     "each entry on each node states exactly what the author's latest reply says: allowed or cut, the location, enabled or not. Processing "
     "never fails internally, and after a crash sending the replies again repairs a half-made entry.",
     ["schedules", "histories", "crash_points"],
     "every arrival order and split of signatures, before or after the key events they depend on, with crashes and retries",
     "tests deliver replies after the key events and with all signatures together", [ROU, EV],
     [("escrow", f"{ROU}:Revery.escrowReply, processEscrowReply"), ("handlers", f"{EV}:Kevery.processReplyEndRole, processReplyLocScheme, "
                                                                 "processReplyAddWatched")], RNOTE)
prop("R04", "Replies: the reply escrow drains and leaves nothing behind",
     "A reply that cannot be accepted leaves escrow by its timeout whatever was attached to it, and once escrow is empty the database holds "
     "exactly the replies and signatures of the current entries: replaced and dropped replies are gone.",
     ["histories", "fault_sequences"],
     "every history of partial, premature, stale and junk replies and every advance of the clock",
     "tests never advance the clock past the reply timeout with several replies in escrow", [ROU],
     [("escrow", f"{ROU}:Revery.processEscrowReply"), ("removal", f"{ROU}:Revery.removeReply")], RNOTE)

KR = "src/keri/core/kraming.py"
MNOTE = ("Seeded exploration of the shipped request authentication, parser, event processing and database code; signatures, digests, LMDB "
         "and the clock are simulated stand-ins. Evidence, not proof.")
prop("M01", "KRAM: a request is accepted at most once",
     "A node that protects requests with KRAM dispatches each signed request at most once: sent again at any later time, through the same "
     "or another form of authentication, with more or fewer of its signatures, after pruning of the caches, key rotations, a crash or a "
     "restart, it is never dispatched a second time while the node's clock moves forward.",
     ["histories", "schedules", "crash_points"],
     "every repetition of single-key, multi-key, sealed and non-transferable requests at every clock advance, prune and restart",
     "tests repeat a request once at a fixed time; prune times relative to acceptance windows and mixed forms are not sampled",
     [KR], [("acceptance", f"{KR}:Kramer.kramit"), ("pruning", f"{KR}:Kramer prune methods")], MNOTE)
prop("M02", "KRAM: only timely and authentic requests are dispatched",
     "A request is dispatched only if its datetime lies within the configured drift and lag around the node's clock when it arrived, and "
     "only when it is authenticated by its sender: by the sender's non-transferable key, by enough distinct keys of the sender's current "
     "establishment event, or by a seal in the sender's accepted log. Signatures over other messages, of other or earlier keys, or "
     "counted twice never add up to acceptance.",
     ["inputs", "histories", "crash_points"],
     "every combination of genuine, partial, stale-key, misattributed and junk authentication, arriving over several messages and restarts",
     "tests present each kind of attachment alone, on a sender that never rotates", [KR],
     [("acceptance", f"{KR}:Kramer.kramit"), ("signatures", f"{KR}:Kramer signature verification")], MNOTE)
prop("M03", "KRAM: a genuine timely request is accepted",
     "A first-time request that is timely and completely authenticated is accepted and handed to its handler, in one message or with its "
     "signatures spread over several, whatever junk or forged attachments came with or before it, and whether its sender's key state is "
     "in memory or only in the database. KRAM itself never fails with an internal error.",
     ["inputs", "schedules", "histories"],
     "every sender kind, split of signatures, seal and junk order, after rotations and restarts",
     "tests use in-memory senders at inception and never mix junk with genuine parts", [KR],
     [("acceptance", f"{KR}:Kramer.kramit")], MNOTE)
prop("M04", "KRAM: the caches drain",
     "Once the clock has passed a cached request's windows one prune removes it with everything stored for it (partial signatures, key "
     "states, attachments); after pruning with nothing live, every KRAM table is empty, also when an earlier prune or intake was "
     "interrupted by a crash.",
     ["histories", "crash_points"],
     "every history of complete, partial and refused requests, clock advances, prunes and crash points inside them",
     "tests prune fully formed entries and never crash between the writes of one intake or prune", [KR],
     [("pruning", f"{KR}:Kramer prune methods"), ("intake writes", f"{KR}:Kramer.kramit")], MNOTE)
prop("M05", "KRAM: reconfiguration opens no replay window",
     "Changing the window parameters of existing cache types while the node runs never lets a request be accepted twice and never fails "
     "internally, whatever the order of growing and shrinking changes and the requests already cached; a configuration that leaves a "
     "coverage hole is refused and changes nothing.",
     ["histories", "schedules", "configurations"],
     "every sequence of window changes, requests, clock advances and prunes",
     "tests change the configuration once with an empty or freshly filled cache", [KR],
     [("reconfiguration", f"{KR}:Kramer.changeConfig and reconcileConfig"), ("pruning", f"{KR}:Kramer prune methods")], MNOTE)

VE, VV = "src/keri/vdr/eventing.py", "src/keri/vdr/verifying.py"
TNOTE = ("Seeded exploration of the shipped registry, credential, parser, event processing and database code; signatures, digests, LMDB and "
         "the clock are simulated stand-ins. Evidence, not proof.")
prop("T01", "Registries: only anchored, chained and backed events enter a log",
     "An event enters the log of a registry or a credential only if an accepted key event of the registry's controller seals exactly that "
     "event (identifier, sequence number, digest), it follows the log's last event by number and prior digest, its type fits the registry "
     "(with or without backers), a revocation comes from the registry that issued, and, in a registry with backers, the threshold of "
     "distinct backers of the registry event in force signed it. What a log holds is never replaced.",
     ["inputs", "schedules", "histories", "crash_points"],
     "every arrival order of key, registry and credential events with stripped, redirected and forged anchors and backer signatures, events "
     "sealed by strangers or naming other registries, twins, and crashes inside writes",
     "tests deliver a handful of well formed events in order; none mixes registries of different controllers",
     [VE], [("validation", f"{VE}:Tever.update, issue, revoke, valAnchorBigs, verifyAnchor"), ("sequencing", f"{VE}:Tevery.processEvent")], TNOTE)
prop("T02", "Registries: anchored events are accepted in any delivery order",
     "Every registry and credential event whose key events, predecessors and registry have been delivered is accepted: at once when all of "
     "it is there, otherwise from escrow, whatever the order, whatever else waits in escrow for the same log, and events delivered once are "
     "not lost. The registry state kept in memory and in the database is the one its log determines, and processing never fails internally.",
     ["schedules", "histories", "inputs"],
     "every order and delay of key events, anchors, registry inceptions, backer rotations, issuances and revocations",
     "tests hold back one event of one kind at a time and never two events of one log together",
     [VE], [("escrows", f"{VE}:Tevery.processEscrowAnchorless, processEscrowOutOfOrders, escrowOOEvent, Tever.escrowALEvent")], TNOTE)
prop("T03", "Registries: logs and states survive crashes and replay",
     "After a crash at any point of any write, everything a registry or credential log held before is still there, the reloaded registry "
     "state (sequence number, digest, backers, threshold, controller) is the one its log determines once missing events are delivered again, "
     "and an empty node fed this node's key and registry logs reaches the same logs.",
     ["crash_points", "histories"],
     "every crash point in processing of inceptions, rotations, issuances, revocations and escrow passes, with restarts between",
     "tests never reopen a registry database after a rotation nor crash between its writes",
     [VE], [("writes", f"{VE}:Tever.logEvent"), ("reload", f"{VE}:Tever.reload, rbdict"), ("replay", f"{VE}:Reger.clonePreIter")], TNOTE)
prop("T04", "Credentials: only issued, valid, chained ones are accepted; status is true",
     "A credential is accepted only if its issuer controls the registry it names, that registry's log of the credential holds its issuance, "
     "its content satisfies its schema, and each credential it chains to is itself accepted, not revoked, satisfies the edge's operator "
     "(issuer to issuee, same issuee) and the edge's schema. A registry reports for a credential exactly the last event of that "
     "credential's log with a key event that seals it, and nothing for credentials issued elsewhere.",
     ["inputs", "schedules", "histories"],
     "every mixture of genuine and forged credentials, registries of other controllers, edges, operators, schemas and revocations in any order",
     "tests verify single credentials from one issuer in the order of issuance",
     [VV, VE], [("credential checks", f"{VV}:Verifier.processCredential, verifyChain"), ("status", f"{VE}:Tever.vcState")], TNOTE)
prop("T05", "Credentials: genuine ones are accepted in any order and indexed",
     "A genuine credential is accepted as soon as its issuance, schema and chained credentials are, whichever arrived last; an accepted "
     "credential is stored and found by issuer, schema and subject (also when the process died while saving it), the indexes name nothing "
     "else, and credentials that can not be accepted leave escrow by their timeouts.",
     ["schedules", "histories", "crash_points"],
     "every arrival order of credentials, issuances, schemas and chained credentials, escrow passes between, and crashes inside saving",
     "tests escrow one credential for one missing thing",
     [VV], [("escrows", f"{VV}:Verifier.processEscrows"), ("saving", f"{VV}:Verifier.saveCredential")], TNOTE)
prop("T06", "Registry queries are answered truly and completely",
     "A query for registry events is answered to the querier with exactly the accepted events of the registry and of the credential it "
     "names, so that an empty node fed with the answers reaches the same logs; a query for transaction state tells the true current state of "
     "the registry and, when issued there, of the credential; nothing is told of unknown ones; the responders send what was cued and go on.",
     ["inputs", "histories", "crash_points"],
     "every query shape (with and without credential, known, unknown, of another registry, any querier and serialisation) at every point of a "
     "registry's life, also after crashes", "no test sends a registry query through the processor",
     [VE, "src/keri/app/storing.py", "src/keri/app/habbing.py"],
     [("query", f"{VE}:Tevery.processQuery"), ("state", f"{VE}:Tever.state"), ("credential state", f"{VE}:Tever.vcState"),
      ("clone", f"{VE}:Reger.clonePreIter"), ("responder", "src/keri/app/storing.py:Respondant.cueDo")], TNOTE)

HAB, KEEP, BAS = "src/keri/app/habbing.py", "src/keri/app/keeping.py", "src/keri/db/basing.py"
HNOTE = ("The real Habery, Hab, Manager, Keeper and Baser run over a simulated LMDB; the process dies or storage fails inside any write of either "
         "database and restarts on what was committed; a second real validator sees everything published.")
prop("H01", "Wallet: an identifier can always be signed with and rotated",
     "After any history of makes, rotations, refused calls, deletions of others, passcode changes, crashes and storage failures, each identifier "
     "of a wallet can sign with exactly its current keys, can be rotated to exactly the next keys it committed to (with any new number of next "
     "keys), and a validator that has its earlier events accepts every event it publishes; the wallet always opens again.",
     ["histories", "crash_points", "fault_sequences"],
     "every history of wallet operations and every point in them at which the process dies or storage fails",
     "tests rotate a wallet a few times without interruption",
     [HAB, KEEP], [("rotation", f"{HAB}:Hab.rotate"), ("key lots", f"{KEEP}:Manager.rotate, replay, incept, ingest")], HNOTE)
prop("H02", "Wallet: it never forks its own log, and what it returned stays",
     "A wallet never has two events in force at one sequence number of its own identifier: an event it returned is in its log, signed, after every "
     "crash, in the order made, with key state equal to the last one; an operation that was interrupted is afterwards either wholly in the log or "
     "not at all, and refused operations leave the log as it was.",
     ["histories", "crash_points", "fault_sequences"],
     "every history of wallet operations and every crash or storage failure inside them",
     "tests never interrupt an operation",
     [HAB, BAS], [("own events", f"{HAB}:BaseHab.rotate, interact, incept"), ("reload", f"{BAS}:Baser.reload")], HNOTE)
prop("H03", "Wallet: secrets stay encrypted, and only the passcode opens them",
     "While a wallet has a passcode no private key, root salt or identifier salt lies unencrypted in its databases; opening it with no, a wrong or a "
     "former passcode is refused and changes nothing; setting, changing or removing the passcode leaves every secret readable with the new one, "
     "and when interrupted with either the old or the new one.",
     ["histories", "crash_points", "inputs"],
     "every mixture of makes from random, derived or given secrets, rotations, passcode changes and crashes inside them",
     "tests encrypt single keys and change a passcode once without interruption",
     [KEEP, HAB, "src/keri/cli/commands/passcode/set.py", "src/keri/cli/commands/passcode/remove.py"],
     [("passcode change", f"{KEEP}:Manager.updateAeid"), ("authentication", f"{KEEP}:Manager.setup; {HAB}:Habery.setup")], HNOTE)
prop("H04", "Wallet: keys are never reused, refused rotations undo, stale keys erased",
     "No public key is ever used in two establishment events of a wallet, whatever names, counts, refused or interrupted operations came between; a "
     "refused rotation leaves the keys the wallet considers current and next as they were; private keys made stale by a rotation are gone after "
     "the following one, while those of the current and next keys are kept.",
     ["histories", "inputs", "crash_points"],
     "every mixture of good, refused and interrupted operations, key counts, salts and reused names",
     "tests use one refused rotation and no reused names",
     [HAB, KEEP], [("roll back", f"{HAB}:Hab.rotate"), ("key creation", f"{KEEP}:Creatory, Manager.incept, rotate")], HNOTE)
prop("H05", "Wallet: names and identifiers map all or nothing",
     "Every identifier of a wallet is listed and found by its name and by its prefix, after every restart too; a make or deletion that was "
     "interrupted leaves either all of it or nothing, and no ghost; a name whose make was refused or interrupted or whose identifier was deleted "
     "can be used again; the signator stays the same.",
     ["histories", "crash_points", "fault_sequences"],
     "every history of makes, deletions, restarts and the points at which they are interrupted",
     "tests make and delete one identifier without interruption",
     [HAB, BAS], [("names", f"{HAB}:Habery.makeHab, deleteHab, loadHabs, BaseHab.save"), ("reload", f"{BAS}:Baser.reload")], HNOTE)

PARSE, CNT, COR = "src/keri/core/parsing.py", "src/keri/core/counting.py", "src/keri/core/coring.py"
PNOTE = ("The real Parser, Counter, Matter, Indexer and Serder code reads streams composed by an independent encoder (every message kind, JSON, CBOR, "
         "MGPK and native, versions 1 and 2, text and binary, every attachment group, nested groups and messages); the processors behind it are "
         "recording stubs that raise at random.")
prop("P01", "Streams: a message is read the same wherever its bytes are cut",
     "Every well-formed message with its attachments, of every kind, encoding, version and framing, is handed once, in order and with exactly its "
     "attachments to its processors, wherever the stream was cut into arrivals, whatever came before it, and whether or not processing of "
     "earlier messages failed.",
     ["inputs", "schedules", "histories"],
     "every sequence of messages, encodings, group nestings and version codes, and every cut of it into arrivals",
     "tests parse whole buffers of a few fixed messages",
     [PARSE, CNT, COR], [("stream", f"{PARSE}:Parser.parsator, groupParsator, msgParsator"), ("dispatch", f"{PARSE}:Parser.msgProcess")], PNOTE)
prop("P02", "Streams: damage inside a counted group costs only that message",
     "When the bytes inside a counted group of a stream (a message group, or the attachment group of a message) are damaged, every message before "
     "and after it is still read in full, nothing is read that was not sent, and the stream goes on.",
     ["inputs", "fault_sequences", "schedules"],
     "every flip, cut, insertion, duplication and replacement inside every counted group of every stream, with every cut into arrivals",
     "tests damage one fixed stream at one place",
     [PARSE], [("recovery", f"{PARSE}:Parser.groupParsator, msgParsator (SizedGroupError)")], PNOTE)
prop("P03", "Streams: garbage never stops the parser nor forges a message",
     "After any damaged, truncated, spliced or random bytes the parser flushes what it could not read and goes on: a well-formed frame that arrives "
     "afterwards is read in full, no bytes stay for ever, and no message or attachment is handed on that was not in the bytes.",
     ["inputs", "fault_sequences", "histories"],
     "every damage to every frame, followed by every kind of well-formed frame",
     "tests feed no damaged frames followed by good ones",
     [PARSE, COR], [("flush", f"{PARSE}:Parser.parsator, allParsator, groupParsator")], PNOTE)

EXC, IPX, IPX2, FWD, STO = "src/keri/peer/exchanging.py", "src/keri/vc/protocoling.py", "src/keri/acdc/ipexing.py", "src/keri/app/forwarding.py", "src/keri/app/storing.py"
XNOTE = ("The real Exchanger, IPEX, forward and challenge handlers, Mailboxer, Parser, Kevery and Baser run on every node over simulated storage; "
         "the habery is a namespace of the real database, notifier, signaler and two handlers are recording stubs.")
prop("X01", "Exchange: only messages signed by their sender are accepted, and stay provable",
     "A node accepts an exchange message, and hands it to its handler, only with verified signatures of its sender that meet the signing threshold "
     "of the key state they name (or the sender's one key); whatever other signatures came with it or before it, the accepted message can at "
     "once be cloned and serialized with signatures, and nested parts, that prove it to others.",
     ["histories", "inputs", "schedules", "crash_points"],
     "every mixture of partial, foreign, false, early and repeated signatures by rotating and non-transferable senders, in any order, with crashes",
     "tests send fully signed messages of one sender",
     [EXC], [("acceptance", f"{EXC}:Exchanger.processEvent"), ("proof", f"{EXC}:verify, cloneMessage, serializeMessage")], XNOTE)
prop("X02", "Exchange: a genuine message is accepted once its proof is there, escrow drains",
     "An exchange message whose signatures and sender key state a node has is accepted, at once or on the next escrow pass before its timeout, "
     "and handed to its handler with its whole payload; what stays incomplete leaves the escrow after the timeout; no message makes the exchanger fail "
     "internally.",
     ["schedules", "histories", "inputs"],
     "every order and split of signatures, key events and escrow passes, message versions and kinds, payloads and handlers",
     "tests use one fixed split",
     [EXC], [("escrow", f"{EXC}:Exchanger.escrowPSEvent, processEscrowPartialSigned"), ("handlers", f"{IPX}:IpexHandler; {IPX2}:IpexHandler")], XNOTE)
prop("X03", "IPEX: only valid steps are accepted, each answered at most once",
     "A node accepts an issuance and presentation exchange step only if it may open an exchange or answers an accepted step it may answer, carries "
     "exactly the artifacts it commits to, and that step has no accepted answer yet; a step all this holds for is accepted, whatever other "
     "messages refer to the same prior.",
     ["histories", "inputs", "schedules", "crash_points"],
     "every sequence of apply, offer, agree, grant, admit and spurn, competing, out of order, escrowed, with odd priors and artifacts, and crashes",
     "tests walk one valid exchange and a few refusals",
     [IPX, IPX2, EXC], [("steps", f"{IPX}:IpexHandler.verify; {IPX2}:IpexHandler.verify"), ("answers", f"{EXC}:Exchanger.logEvent")], XNOTE)
prop("X04", "Mailbox: forwarded messages are kept byte for byte, in order, without gaps",
     "Every accepted forward puts its embedded message with its attachments, byte for byte, at the end of its receiver's topic; a topic is numbered "
     "without gaps from zero and read from any number on; stored messages are never changed, hidden or lost by other topics, failures or "
     "crashes, and sending again heals what a crash cut off.",
     ["histories", "crash_points", "inputs", "schedules"],
     "every sequence of forwards of every message kind over topics that are prefixes or extensions of each other, with crashes inside them",
     "tests store a few JSON messages without a crash",
     [FWD, STO, "src/keri/db/dbing.py"], [("forward", f"{FWD}:ForwardHandler.handle"), ("mailbox", f"{STO}:Mailboxer.storeMsg, cloneTopicIter")], XNOTE)

QNOTE = ("Runs the shipped Parser, Kevery query handling, Habery/Hab responder, Respondant and Baser on simulated LMDB and clock; queriers, network, "
         "attackers and crashes are simulated.")
prop("Q01", "Queries are answered only when their criteria hold, completely and truly",
     "A node answers a query for a log, key state or mailbox only when it knows the identifier and, as asked, holds the sequence number or a witnessed "
     "event with the anchor and has its latest event fully witnessed; the answer goes to the querier and carries every first-seen event from the asked "
     "number on (delegator's too) so that a newcomer reaches the node's state, or exactly the true key state.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "every interleaving of queries of every kind with event and receipt delivery on validators and witnesses, with partial witnessing, delegation and re-encoded signatures",
     "tests query a complete log once", ["src/keri/core/eventing.py", "src/keri/db/basing.py"],
     [("answer", "src/keri/core/eventing.py:Kevery.processQuery"), ("witnessed", "src/keri/db/basing.py:Baser.fullyWitnessed, fetchAllSealingEventByEventSeal"),
      ("replay", "src/keri/db/basing.py:Baser.clonePreIter, cloneEvtMsg")], QNOTE)
prop("Q02", "Unanswerable queries are kept, answered once they can be, and time out",
     "A query whose criteria hold is answered at once; any other, by a transferable or non-transferable querier, is kept, survives a crash, is answered "
     "once by the first escrow pass after its criteria hold, is not given up before its timeout, is gone after it, and may then be asked again.",
     ["histories", "schedules", "crash_points", "fault_sequences"],
     "every order of queries, repeats, deliveries, escrow passes, clock steps and crashes on several nodes",
     "tests answer one escrowed query without crashes, repeats or timeouts", ["src/keri/core/eventing.py"],
     [("keep", "src/keri/core/eventing.py:Kevery.escrowQueryNotFoundEvent"), ("retry", "src/keri/core/eventing.py:Kevery.processQueryNotFound")], QNOTE)
prop("Q03", "Responders turn every cue into the due signed messages and never fail",
     "Whatever arrives, turning the cues it left into messages never raises; every replay is sent whole and in order, every key state reply carries the "
     "responder's own signature and reaches the querier asked from, and nothing is sent to someone who did not ask.",
     ["histories", "inputs", "schedules"],
     "every cue that a history of events, receipts and queries leaves, through Hab.processCuesIter and Respondant",
     "tests feed made-up cues one at a time", ["src/keri/app/habbing.py", "src/keri/app/storing.py"],
     [("hab", "src/keri/app/habbing.py:BaseHab.processCuesIter"), ("respondant", "src/keri/app/storing.py:Respondant.cueDo")], QNOTE)

GRP = "src/keri/app/grouping.py"
HBB = "src/keri/app/habbing.py"
GNOTE = ("Runs the shipped Habery, Hab, GroupHab, Exchanger, Multiplexor, Notifier, Counselor, Parser, Kevery and Baser of 2-4 members on simulated "
         "LMDB and clock; operators, the network between members, witnesses, attackers and crashes are simulated.")
prop("G01", "Groups: events need the approval of enough members, and those that get it happen",
     "A member's machine accepts an event of a group identifier only with valid signatures of members meeting its thresholds; no member's "
     "signature appears on an event its operator did not approve; one that enough members approved is accepted by each of them once their "
     "messages arrived, whatever was lost, repeated or reordered before and whoever crashed; nothing of this fails internally.",
     ["histories", "schedules", "crash_points", "fault_sequences"],
     "every interleaving of proposals, approvals, member rotations, message delivery, escrow passes and crashes of 2-4 members, with thresholds of every shape",
     "tests walk one inception of three members in one process",
     [GRP, HBB, EV], [("group", f"{HBB}:GroupHab; Habery.makeGroupHab, joinGroupHab"), ("replay", f"{GRP}:Multiplexor._replayApproved")], GNOTE)
prop("G02", "Group coordination: complete means accepted and fully witnessed, and is reached",
     "Counselor.complete() of a group event is true only when that very event is in the member's log with receipts of all its witnesses, stays true "
     "across restarts, and becomes true for each event members approved, once it is accepted and the submission to its witnesses was carried "
     "out, whichever members rotated, crashed or had other events pending meanwhile.",
     ["histories", "schedules", "crash_points", "fault_sequences"],
     "every order of approvals, acceptance, member rotations, coordinator passes, witness submission and fetches, and crashes",
     "tests run one event at a time without witnesses, rotation of members or crash",
     [GRP], [("coordinator", f"{GRP}:Counselor.start, complete, processEscrows")], GNOTE)
prop("G03", "Group proposals: operators hear of each, and approved ones gather signatures",
     "Each accepted proposal message of another member, unless the operator approved before, is told to it, at most once per arrival, with its submitters "
     "and exactly the proposed event; once approved, the signatures the others sent are merged whether they came before or after; forged messages "
     "leave no trace.",
     ["histories", "schedules", "crash_points", "inputs"],
     "every order of proposal messages of both protocol versions, approvals, repeats, forgeries and crashes",
     "tests send one message per proposal, well formed and in order",
     [GRP, EXC], [("multiplexor", f"{GRP}:Multiplexor.add, get, _replayApproved"), ("handlers", f"{GRP}:MultisigNotificationHandler, loadHandlers")], GNOTE)

CRD, VEV, VVF = "src/keri/vdr/credentialing.py", "src/keri/vdr/eventing.py", "src/keri/vdr/verifying.py"
CNOTE = ("Seeded runs over one issuer's machine: slow and partial witnesses, other key events and witness changes in between, restarts, crashes inside any "
         "write; witnesses, publication clients, operator and transport are simulated, the TEL and credential code is shipped; single-signature issuers.")
prop("C01", "Registry steps complete exactly when anchored and witnessed, over any crash",
     "An issuer's registry inception, issuance or revocation is reported complete only once it is in the registry log, its seal is in the accepted key event "
     "recorded as its anchor, and every witness of that event receipted it; it does complete, over any crash and restart, and never reverts.",
     ["histories", "schedules", "crash_points", "fault_sequences"],
     "every order of registry steps, key events, witness answers, escrow passes and restarts, every write inside which the process dies",
     "tests take the steps in order, with no event in between, witnesses answering at once and no restart",
     [CRD, VEV], [("registrar", f"{CRD}:Registrar.incept, issue, revoke, complete, processEscrows"), ("registry", f"{CRD}:Regery, Registry"),
                  ("anchorless", f"{VEV}:Tevery.processEscrowAnchorless")], CNOTE)
prop("C02", "Issued credentials are saved and, once sent, accepted by one who knew nothing",
     "An issuer reports a credential issued only when it holds it unchanged with its issuance in the registry log, does so in the end, never takes it back, "
     "and what it sends to a recipient suffices for one that knows nothing to hold the same status and, unless revoked, accept it and its sources.",
     ["histories", "schedules", "crash_points", "configurations"],
     "every history of issuances, edges, revocations, key events, witness answers and crashes, sent to a fresh holder at any point",
     "tests send single credentials between parties that already know each other and never restart",
     [CRD, VEV, VVF], [("credentialer", f"{CRD}:Credentialer.issue, complete, processCredentialMissingSigEscrow"), ("sending", f"{CRD}:sendCredential, sendArtifacts"),
                       ("cloning", f"{VEV}:Reger.sources, cloneCred, clonePreIter")], CNOTE)

NOT_APPLICABLE = []
