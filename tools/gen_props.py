#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so the anchors stay readable)."""
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

BT="internal/datastructures/btree/"; BA="internal/datastructures/btree_associated/"; BO="internal/datastructures/btree_one_to_many/"
QC="internal/willow/brokers/queue_channels/"; QQ="internal/willow/brokers/queues/"; LIM="internal/limiter/"

p("P01","Ordered index is an exact ordered map for every operation history",
  "For every sequence of create, find-or-create, lookup, range query, delete, destroy and destroy-all operations, including creations whose value callback declines and deletions whose callback refuses, the in-memory ordered index behaves exactly like a sorted map: nothing is lost, duplicated or left behind, and a failed operation changes nothing. Every lookup or comparison query (equal, not equal, less, greater, and the or-equal forms, with any type restriction and with early stop) visits exactly the matching keys, once each. The index reports empty exactly when it holds no key.",
  ["histories","inputs"],"all operation sequences over a small key domain (several value types and the wildcard) up to a depth, from every reachable tree shape",
  "the unit tests sample a few insert/delete orders; splits, merges and rotations interact with callbacks that refuse only in specific shapes",
  [BT+"threadsafe_create.go",BT+"threadsafe_find.go",BT+"threadsafe_delete.go",BT+"threadsafe_destroy.go",BT+"btree.go"],
  [("node split/rotate/merge",BT),("callback-gated create and delete",BT)],["results and callback visits of the index API"])
p("P02","Ordered index is linearizable and deadlock-free under concurrency",
  "When several callers use the in-memory ordered index at the same time, every call returns, no call crashes the process, and the results are those of some one-at-a-time order of the calls that respects real-time order, with a traversal visiting every key present throughout it exactly once. A destroyed key or index refuses work with the documented error instead of hanging or resurrecting entries.",
  ["schedules"],"all interleavings, up to a deviation bound, of 2-4 concurrent callers on small trees in every shape class",
  "tests run a few goroutines under the OS scheduler; hand-over-hand locking errors need one specific preemption",
  [BT+"threadsafe_create.go",BT+"threadsafe_find.go",BT+"threadsafe_delete.go",BT+"threadsafe_destroy.go"],
  [("hand-over-hand node locks",BT),("destroying markers and wait groups",BT)],["call results, callback visits, termination"])
p("P03","Key-value store identifies entries by their exact key-value set",
  "An entry of the associated key-value store is found, created, deleted or destroyed by its exact set of typed key-values or its identifier, and by nothing else: two different sets are different entries (also when one contains the other, or values differ only in type), identifiers are unique and stay with their entry, and a create that declines or a delete that is refused leaves the store unchanged. After an entry is removed no lookup, query or match reports it, and its key-values can be created again.",
  ["histories","inputs"],"all operation histories up to a depth over a small universe of key-value sets (overlapping, nested, same text with other type, wildcard values)",
  "unit tests build a handful of fixed stores and rarely mix failed creates and deletes with later queries",
  [BA+"threadsafe_create.go",BA+"threadsafe_find.go",BA+"threadsafe_delete.go",BA+"threadsafe_destroy.go"],
  [("per-key/value id lists indexed by set size",BA),("identifier tree",BA)],["API results of the store"])
p("P04","Concurrent use of the key-value store never hangs, crashes or corrupts",
  "When several callers create, find, query, match and delete entries of the associated key-value store at the same time, every call returns without crashing, and the outcomes equal those of some one-at-a-time order: at most one create per key-value set succeeds, each removal succeeds once, and at the end the store holds exactly the entries implied by the outcomes.",
  ["schedules"],"all interleavings, up to a deviation bound, of 2-3 concurrent callers over overlapping key-value sets",
  "tests start many goroutines but observe only the schedules the runtime happens to produce",
  [BA+"threadsafe_create.go",BA+"threadsafe_query.go",BA+"threadsafe_match.go",BA+"threadsafe_delete.go",BA+"threadsafe_destroy.go"],
  [("ordered acquisition of per-value id nodes",BA),("destroy guard",BA)],["call results, termination, final contents"])
p("P05","Queries and matches select exactly the entries their predicate describes",
  "For every stored population and every valid query, a query over the store returns exactly the entries whose key-values satisfy the query's predicate (comparisons with type restrictions, key-value count bounds, and/or composition, exact identifiers), each once (several not-equal comparisons in one selection exclude the entries that equal all of them), and evaluating the same query against one entry's key-values gives the same verdict. A match action returns exactly the entries all of whose key-values are contained in (or wildcard-compatible with) the given key-values within the requested count bounds.",
  ["inputs","histories"],"all queries of a bounded grammar against all populations of a bounded universe of key-value sets",
  "unit tests check single comparisons; disagreement appears only for combinations of several keys, negations, wildcards and composition",
  [BA+"threadsafe_query.go",BA+"threadsafe_match.go","pkg/models/api/common/v1/query_associated_action/","pkg/models/api/common/v1/query_match_action/"],
  [("id-set algebra over the index",BA+"threadsafe_query.go"),("direct evaluation on key-values","pkg/models/api/common/v1/query_associated_action/")],["query results of every service"])
p("P06","Grouped store keeps groups isolated and complete",
  "In the one-to-many store every entry belongs to the group it was created in: operations naming one group never see, change or remove another group's entries even when key-values are equal, an entry is always visible with its final identifier, and destroying a group removes exactly that group's entries after which the group can be used again. These hold for every operation history and for concurrent callers, without hangs or crashes.",
  ["histories","schedules"],"all operation histories up to a depth, and all interleavings up to a deviation bound of 2-3 callers",
  "the tests exercise one group at a time with few interleavings",
  [BO+"threadsafe_create.go",BO+"threadsafe_query.go",BO+"threadsafe_delete.go",BO+"threadsafe_destroy.go",BO+"threadsafe_match.go"],
  [("reserved group key in the associated store",BO)],["API results of the grouped store"])
p("P07","A lock is held by at most one session at a time",
  "For any set of key-values, at no moment do two clients both hold a lock grant that the service has issued and that has neither been released with its own session, nor timed out, nor been abandoned by a client that went away; every grant carries a session different from all earlier ones. A release or heartbeat with a session or lock id that does not own the lock is refused and changes nothing.",
  ["schedules","histories"],"all interleavings up to a deviation bound of 2-3 clients obtaining, heartbeating and releasing overlapping locks with cancellations and timer expiry as choices",
  "tests obtain locks in a few fixed orders; the handover between holder, waiter, timeout and cancellation is a race",
  ["internal/locker/lock_manager/exclusive_locker.go","internal/locker/lock_manager/exclusive_lock.go"],
  [("single owner goroutine handing out claims","internal/locker/lock_manager/exclusive_lock.go")],["ObtainLock/Heartbeat/Release/LocksQuery results"])
p("P08","Every lock request and lock operation completes",
  "Once the current holder releases, times out or goes away, some waiting client obtains the lock; a cancelled waiter returns without obtaining it and leaves nothing behind; and obtain, heartbeat, release and query never hang or crash the service. When nobody holds or waits for a lock it no longer exists, and on service shutdown every waiting call returns.",
  ["schedules","fault_sequences"],"all interleavings up to a deviation bound with client cancellation, lock expiry and shutdown injected at every point",
  "a lost handover or a blocked release needs a specific order of cancellation, release and expiry",
  ["internal/locker/lock_manager/exclusive_locker.go","internal/locker/lock_manager/exclusive_lock.go"],
  [("claim/release/lost-client channels","internal/locker/lock_manager/exclusive_lock.go")],["termination of calls, lock listing"])
p("P09","Leases expire only after a full silent timeout, and then they do",
  "A lock or dequeued item whose holder stops heartbeating is taken back once its timeout has elapsed, and never before a full timeout has passed since it was handed out or since the last heartbeat that the service accepted. A supervised lease ends in exactly one way (stopped, timed out or shut down), a stop or heartbeat reported successful really took effect, and after the end every further stop or heartbeat is refused.",
  ["schedules","histories"],"all interleavings up to a deviation bound of heartbeat, stop, expiry and shutdown in virtual time",
  "tests use real sleeps; an expiry racing a heartbeat or stop is not controllable",
  ["internal/heartbeater/heartbeater.go","internal/locker/lock_manager/exclusive_lock.go","internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go"],
  [("ticker reset on heartbeat","internal/heartbeater/heartbeater.go"),("lease loop of a lock","internal/locker/lock_manager/exclusive_lock.go")],["heartbeat/stop/timeout callbacks and their virtual times"])
p("P10","Limiter admits a counter exactly when every matching limit allows it",
  "For every history of rule, override and counter operations, an increment succeeds if and only if for every rule whose group-by keys are all present in the counter, the total already counted for that group plus the requested increase stays within the applicable limit: each matching override's limit if any override of the rule matches, otherwise the rule's own limit, where -1 means unlimited. A refused increment changes no counter, a decrement never leaves a negative or zero-valued counter behind, and setting a counter stores exactly that value.",
  ["histories","inputs","configurations"],"all histories up to a depth over a small universe of rules, overrides, counters and limits {-1,0,1,2}",
  "tests fix one rule set at a time; interaction of several rules, overrides and group values is combinatorial",
  [LIM+"counters/counter_client_local.go",LIM+"rules/rules_client_local.go",LIM+"overrides/overrides_client_local.go"],
  [("rule/override matching and group totals",LIM+"counters/counter_client_local.go")],["IncrementCounters/DecrementCounters/SetCounter/QueryCounters"])
p("P11","Concurrent increments never push a group over its limit",
  "However many clients increment and decrement counters at once, the total counted for a limited group never exceeds its limit, every stored counter equals the admitted increments minus decrements, an increment is refused only if the limit could have been reached at that time, and every request returns. This holds as long as the guarding locks are kept; a request that loses one of them while it waits for another is refused, and a lost lock or a cancelled request leaves neither a partial effect nor a held lock. Rules may change meanwhile: each request is judged by limits that were in force during the call.",
  ["schedules","fault_sequences"],"all interleavings up to a deviation bound of 2-3 concurrent increments/decrements sharing groups, with lock loss and cancellation injected",
  "tests run the increments against a mocked locker, one request at a time or in one schedule",
  [LIM+"counters/counter_client_local.go","internal/locker/lock_manager/exclusive_locker.go"],
  [("locks per rule group around check-and-increment",LIM+"counters/counter_client_local.go")],["increment results, stored counters"])
p("P12","Rules and overrides are stored, matched, updated and removed exactly",
  "A rule or override created with given group-by key-values is returned by id, query and match with its current limit until it is deleted, duplicates of the same key-values are refused, an override must contain its rule's keys, and updates change only the addressed object. Deleting a rule removes it and all of its overrides and nothing else, and reads, updates and rule deletions of missing ids report not found (deleting a missing override is a no-op). Concurrent administration of one rule behaves like some order of the calls, apart from calls refused while the rule is being deleted.",
  ["histories"],"all operation histories up to a depth over a small universe of rules and overrides",
  "tests cover single operations on fixed objects, not their interplay after updates and deletes",
  [LIM+"rules/rules_client_local.go",LIM+"overrides/overrides_client_local.go"],
  [("associated store for rules, grouped store for overrides",LIM)],["rule and override client results"])
p("P13","Channel order, in-place update and retry follow the documented discipline",
  "Items of a channel are handed out first-in first-out; an enqueue replaces the last waiting item exactly when that item is updateable; a failed or timed-out item is retried at its requested position until its retry attempts are used up, except that an updateable item is superseded by newer waiting work at the front. A successful acknowledgement removes the item for good, acknowledging or heartbeating an item that is not being processed is refused without effect, and a channel disappears exactly when its last item is gone.",
  ["histories","inputs"],"all operation histories up to a depth over item kinds (updateable or not, retry front/back, attempts 0-2)",
  "tests script a few fixed sequences; updates, retries and positions interact",
  [QC+"memory/memory_queue_channel.go",QC+"memory/memory_queue_channel_item.go",QC+"queue_channels_client_local.go"],
  [("enqueued id list, item tree, notifier",QC+"memory/memory_queue_channel.go")],["enqueue/dequeue/ack results and data"])
p("P14","No item is lost or processed twice at the same time",
  "Under any concurrency of producers, consumers, acknowledgements, timeouts and failed deliveries, each accepted item is handed to consumers one at a time, becomes available again if its consumer fails, times out or could not be reached while attempts remain, and is never handed out again after its holder acknowledged it successfully (the acknowledgement of a consumer whose time was over counts for the attempt then in progress). No such interleaving hangs or crashes the service.",
  ["schedules","fault_sequences"],"all interleavings up to a deviation bound of 2-3 clients on one or two channels with timeouts and delivery failures as choices",
  "the queue tests drive the channel from one goroutine with real time",
  [QC+"memory/memory_queue_channel.go",QC+"queue_channels_client_local.go"],
  [("dequeue callback protocol with success/failure",QC+"memory/memory_queue_channel.go")],["deliveries observed by consumers, ack results"])
p("P15","Limiter accounting of a queue equals its real contents",
  "Whenever a channel is quiet, the limiter's enqueued counter for it equals the number of items the channel holds (waiting plus processing) and its running counter equals the number being processed; both are gone when the channel is gone. An enqueue is refused exactly when the limiter refuses the enqueued counter, and no item is handed out while the limiter refuses the running counter, but it is handed out after the limit clears.",
  ["histories","schedules"],"all operation histories up to a depth (with limiter refusals as inputs), and interleavings up to a deviation bound",
  "tests mock the limiter with fixed expectations and never compare totals with the channel's contents",
  [QC+"memory/memory_queue_channel.go"],
  [("counter updates around each item transition",QC+"memory/memory_queue_channel.go")],["limiter client calls, channel contents"])
p("P16","A waiting consumer gets matching work and only matching work",
  "A consumer's dequeue returns only an item from a channel of the named queue whose key-values satisfy its query; whenever such an item is available, or becomes available while it waits (including through a channel created after it started waiting), some waiting consumer that matches receives it. A consumer that goes away or a server shutdown ends the wait without consuming an item.",
  ["schedules","inputs"],"all interleavings up to a deviation bound of consumers with different queries, producers creating channels, cancellations and channel deletion",
  "a missed wake-up needs channel creation to fall between a consumer's registration and its scan",
  [QC+"queue_channels_client_local.go",QC+"memory/memory_queue_channel.go"],
  [("clients-waiting list and merged readers",QC+"queue_channels_client_local.go")],["dequeue results, termination"])
p("P17","Queues and channels are created, found, limited and deleted exactly",
  "A queue exists from successful creation to successful deletion under its unique name with its current limit; operations on a missing queue report not found, creating a duplicate is refused, and a failed creation or deletion leaves the set of queues and their limits as before. Deleting a queue or channel removes all of its items, counters and its limit, interrupts nothing else, and the name can then be reused.",
  ["histories","fault_sequences"],"all operation histories up to a depth with limiter failures injected at each call",
  "the queue client has no unit tests and the integration tests do not run",
  [QQ+"queues_client_local.go",QQ+"memory/memory_queue.go",QC+"queue_channels_client_local.go"],
  [("queue tree and limiter override per queue",QQ)],["queue client results, limiter overrides"])
p("P18","Deletion and shutdown of queues always terminate cleanly",
  "Deleting a queue or channel, or shutting the service down, while producers, consumers, acknowledgements and item timeouts are in progress always completes, never crashes, and returns every caller (a consumer waiting for work keeps waiting across a deletion and is turned away at shutdown); after a deletion no item of the deleted channel is handed out.",
  ["schedules","fault_sequences"],"all interleavings up to a deviation bound of deletion or shutdown with 1-2 other operations and item timeouts",
  "tests never delete or shut down in the middle of another operation",
  [QC+"memory/memory_queue_channel.go",QC+"queue_channels_client_local.go",QQ+"queues_client_local.go"],
  [("force delete, task manager shutdown",QC)],["termination, call results"])
p("P19","Typed values have one total order and survive encoding unchanged",
  "Typed values are strictly and totally ordered (by type, then by value) with equal values indistinguishable, and encoding a value or key-value set to the wire and decoding it gives back the identical typed value. Text that does not denote a value of its declared type, an unknown type, or data that does not fit the declared type is rejected rather than altered.",
  ["inputs"],"all values of a boundary-value domain per type, all pairs and triples, and all malformed encodings of a bounded grammar",
  "tests check one value per type and few cross-type pairs",
  ["pkg/models/datatypes/encapsulated_value.go","pkg/models/datatypes/datatypes.go","pkg/models/datatypes/map_string_encapsulated_value.go"],
  [("type-tagged comparison and string encoding","pkg/models/datatypes/encapsulated_value.go")],["comparison results, JSON round trips"])
p("P20","Every HTTP request gets one faithful answer and a bad one has no effect",
  "For every request of the documented APIs, valid or malformed, the service answers exactly once with the documented status and a decodable body and never crashes; a request that fails decoding or validation changes nothing, and a request reported successful has exactly its documented effect, as seen through the other endpoints and the client libraries.",
  ["inputs","histories"],"all request sequences up to a depth over a bounded grammar of bodies (well-formed, missing and ill-typed fields) on all routes",
  "the handlers and clients have almost no unit tests and the integration tests cannot run (expired certificates)",
  ["internal/locker/api/v1/handlers/locker_handler.go","internal/limiter/api/v1/handlers/","internal/willow/api/v1/handlers/","pkg/models/api/server.go","pkg/clients/"],
  [("decode-validate-execute-encode handlers","internal/*/api/v1/handlers")],["HTTP status and bodies, client results"])
p("P21","The lock client signals loss promptly and releases exactly once",
  "A lock obtained through the client library is kept alive by heartbeats until it is released or lost; it is signalled as done when released, when the service refuses a heartbeat, or when the lock's timeout has passed since the last successful heartbeat was sent, even while the same client is obtaining or releasing other locks. Releasing succeeds at most once, after the end the same key-values can be obtained again, and no call hangs while the service answers.",
  ["schedules","fault_sequences"],"all interleavings up to a deviation bound of obtain/release/heartbeat with service failures injected on each request, in virtual time",
  "tests use a real server and wall-clock timers with one failure at a time",
  ["pkg/clients/locker_client/locker_client.go","pkg/clients/locker_client/lock.go"],
  [("heartbeat goroutine and local lock tree","pkg/clients/locker_client/lock.go")],["Done channel, Release results, requests received by the service"])

p("P22","The queue client keeps an item alive and reports its outcome truthfully",
  "An item dequeued through the client library is kept alive by heartbeats until it is acknowledged or lost: as long as heartbeats succeed the service never times it out, and Done is closed at the acknowledgement or, when heartbeats fail, go unanswered or are refused, within the item's timeout after the last successful heartbeat was sent (never before nine tenths of it). An acknowledgement returns no error exactly when the service accepted it and reaches the service without delay, no heartbeat follows it, and whatever the service answers ends as an item or an error, never as a crash.",
  ["schedules","fault_sequences"],"all interleavings up to a deviation bound of dequeue, heartbeats and acknowledgements with service failures injected on each request, in virtual time, for timeouts of every rounding",
  "the queue client has no unit tests",
  ["pkg/clients/willow_client/item.go","pkg/clients/willow_client/channel.go"],
  [("heartbeat goroutine of an item","pkg/clients/willow_client/item.go")],["Done channel, ACK results, requests received by the service"])

p("P23","The services start, stop and survive each other",
  "Each service run as a process: the limiter (the locker's client) and willow (the limiter's client) started before the service they depend on keep trying and serve once it is there, and give up only when their documented retries are used up; a service whose port is taken, or that gives up, ends with a failure and is not left half alive. An interrupted service answers every request it has accepted (a request that waits is told so), refuses new connections, releases what it holds and ends by itself with success, in whatever order the services are stopped. A crash of a service or of a client at any moment of a request, and its return, leave the other services running and answering every request with success or an error, what was granted to the dead party becomes available again within its timeout, counters stay equal to what was accepted, and a service restarted on its own resumes its work. With TLS configured a server answers no plain requests, clients use only a server whose certificate they trust, and unusable certificate files end the start with a failure.",
  ["schedules","crash_points","fault_sequences"],"all interleavings up to a deviation bound of requests with an interrupt, crash or restart of each process at every scheduling point of each kind of request, every moment of coming up of the services relative to each other, every order of stopping",
  "the mains, the servers and their shutdown have no unit tests, and tests start no second process",
  ["cmd/locker/main.go","cmd/limiter/main.go","cmd/willow/main.go","internal/locker/api/locker_server_tcp.go","internal/limiter/api/limiter_tcp.go","internal/willow/api/willow_tcp.go","internal/willow/brokers/queue_channels/memory/memory_queue_channel.go"],
  [("wait for the dependency and signal handling","cmd/limiter/main.go"),("server start and shutdown","internal/limiter/api/limiter_tcp.go")],["exit codes, answers of requests, what the services list afterwards"])

p("P24","Configuration is what the flags and the environment say",
  "For each service and for the client libraries: a setting given in the environment replaces the one given on the command line, which replaces the default, for every combination of settings; the help names the variables that are read; an invalid or incomplete combination (missing or unreadable certificates, a key without its certificate, certificates that do not belong together, an unknown log level or storage, an invalid port, a client that is half configured) is refused with an error, a valid one is accepted, and the resulting configuration and clients use exactly the certificates, CA and addresses given: a client with a certificate presents it, with a CA it trusts only that, and never skips the verification.",
  ["inputs","configurations"],"every combination of every setting's states (absent, valid, invalid on the command line and in the environment) per service, and every combination of url, CA, certificate and key states of a client",
  "the unit tests set one variable at a time; interactions of flags, variables and certificates are not tested",
  ["internal/config/locker_config.go","internal/config/limiter_config.go","internal/config/willow_config.go","pkg/clients/client_config.go","pkg/clients/http_client.go"],
  [("parsing and validation of a configuration","internal/config/limiter_config.go"),("construction of a client","pkg/clients/http_client.go")],["parsed configuration values, errors, TLS settings of the client"])

p("P25","A request can be traced through all services",
  "What is done on behalf of a request carries its X-Request-ID unchanged: the requests that the serving service sends to the services it depends on (lock, release, counters, overrides, queries; heartbeats aside), however deep the chain, and every log line written while serving it. A request that comes without an id is given one that no other request has and that is then used in the same way. Concurrent requests never take each other's ids.",
  ["schedules","histories"],"a history over every kind of request that makes another service work, with and without ids given by the caller, and all interleavings up to a deviation bound of concurrent requests with different ids over the three services",
  "the unit tests of the clients and the middleware are separate; nothing looks at a chain of services",
  ["internal/middleware/tracer.go","internal/middleware/logger.go","pkg/clients/http_request.go","pkg/clients/headers.go","pkg/clients/locker_client/locker_client.go","pkg/clients/limiter_client/counter.go"],
  [("id of a request in its context","internal/middleware/tracer.go"),("header of the requests of a client","pkg/clients/http_request.go")],["headers of the requests between the services","fields of the log lines"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
