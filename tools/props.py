#!/usr/bin/env python3
"""Single source of properties.jsonl: run `python3 tools/props.py` after editing."""
import json, os

R = "core/actor/actor_runtime_impl.go"
SYS = "core/node/system_impl.go"
AB = "core/addressbook/addressbook_impl.go"
P = []

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, id
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

# ---------------------------------------------------------------- actors
p("A01", "An actor never runs two callbacks at the same time",
  "Whatever mixture of calls, sends, published messages and timer ticks reaches an actor, its event handlers (with their middleware), subscription handlers and timer callbacks run one at a time: one has returned before the next begins. State touched only from an actor's callbacks therefore needs no locks. Different actors do run concurrently: one actor busy in a handler never delays another.",
  ["schedules", "inputs"], "all interleavings of producers (calls, sends, publishes, timers) and all handler durations, over one to several actors",
  "The tests send a few messages from one goroutine; none overlaps producers with timers and subscriptions, nor looks at whether callbacks overlap.",
  [R], [("single update loop per actor selecting over mailbox, timer channel and reenter queue", R)],
  [("q/timerChan/reenterQueue", "the sources the loop serialises", R)], ["entry and exit of user callbacks"])
p("A02", "Accepted messages run exactly once, in per-sender order, on their own chain",
  "Every message an open actor accepts (the send or call was not refused) is executed exactly once, by the chain registered for its event name, with the request it was sent with. Messages one sender got accepted one after another are executed in that order. A message whose event has no chain is dropped without running anything, its caller is released, and later messages are unaffected; a second registration of an event name is refused and leaves the first chain in force.",
  ["schedules", "inputs", "histories"], "any number of concurrent senders, bursts, handler durations and event names, registered or not",
  "Tests exchange single messages and wait; loss, duplication or reordering under concurrent bursts is never exercised.",
  [R, "lib/mpsc/mpsc.go", SYS], [("lock-free multi-producer queue with a one-slot wake-up channel", "lib/mpsc/mpsc.go"), ("event to chain map", R)],
  [("chains", "event name to chain", R)], ["handler invocations", "return values of Call/Send"])
p("A03", "A failing callback is contained and its caller is still released",
  "If an event handler, middleware, subscription handler or timer callback panics or returns an error, the process survives, the actor goes on executing the messages and ticks that follow, and nothing else is lost or repeated. A synchronous caller whose message was being handled is released as soon as the handler has ended, not left waiting for the timeout. Other actors are unaffected.",
  ["inputs", "fault_sequences", "schedules"], "any placement of panics and errors among the callbacks of a workload",
  "No test makes a handler, middleware or timer panic or fail.",
  [R], [("recover around each callback, completion signalled in the same deferred function", R)], (), ["messages executed after the fault", "return time of Call"])
p("A04", "A chain runs before, handler, after in order and stops at the first error",
  "A chain runs its before-functions in the order given, then the handler, then its after-functions in the order given, each at most once, all on the same message, so what one writes the next can read. The first one that returns an error ends the chain: nothing after it runs and that error is the chain's result. With no error every element runs exactly once and the result is nil.",
  ["inputs", "programs"], "chains of any length with errors at any position",
  "Tests only use chains consisting of one handler, or of one before-function.",
  ["core/actor/actor_chain.go"], [("DefaultChain.Execute", "core/actor/actor_chain.go")], (), ["order of function invocations", "result of Execute"])
p("A05", "Actor exit drains what was accepted, then nothing runs any more",
  "Shutting an actor down (directly, by unregistering it, or with its node) first executes every message accepted before the shutdown began, provided that takes less than ten seconds; messages offered after that are refused with an error. When the shutdown call returns, no callback of the actor is running, and none (handler, timer, subscription) ever runs again. The call itself returns within about ten seconds plus the running callback's own duration, also when it is repeated or issued concurrently, and never crashes.",
  ["schedules", "histories"], "any backlog, handler durations, live, pending or cancelled timers, and the moment and number of shutdown calls",
  "Tests leave their actors running; nothing checks what happens to a backlog or to timers when an actor exits.",
  [R, SYS], [("shutdown channel, closed flag, drain poll with 10 s limit", R), ("Unregister/Exit", SYS)],
  [("closed", "0 open, 1 draining, 2 closed", R)], ["callbacks after Exit returned", "errors of late sends"])
p("A06", "A synchronous call waits for its whole call tree, or says it gave up",
  "A synchronous call made from outside an actor returns success without an error mark only after the target's handler and every further call made with that message's context from within the handlers it triggered, directly or through a chain of actors, has finished; the response written by the handlers is then visible to the caller. Waiting is bounded: if the work is not finished after five seconds, or when the caller's own context ends first, the call returns at that moment and the failure is visible as a returned error or as the message's error. In time to spare it never reports a failure.",
  ["programs", "schedules", "inputs"], "any tree of nested calls over several actors, any handler durations, any caller deadlines",
  "TestCall and TestCallBlock sample two fixed call chains with fixed durations; neither deadline nor five-second limit nor fan-out is reached.",
  [SYS, "lib/warpwaitgroup/warpwaitgroup.go", "router/msg/msg.go"], [("wait group carried in the message context", "router/msg/msg.go"), ("localCall root wait", SYS)],
  [("WaitGroupKey", "per call tree counter", "router/msg/msg.go")], ["return time and error of Call", "handler end times"])
p("A07", "A message that cannot be delivered is refused with an error, nowhere handled",
  "A call or send to an empty id, to an id or type nobody has registered, to an actor that has been shut down, or from an actor to itself (also at one remove, when the message originated at the target) returns an error promptly, and no handler of any actor runs because of it. A refusal has no lasting effect: later deliverable messages, also in the same call tree, behave as if it had not happened, and the refused message itself can be used again.",
  ["inputs", "histories"], "any mixture of deliverable and undeliverable targets, from outside and from inside handlers, before and after registrations and unregistrations",
  "Tests address only existing actors.",
  [SYS, R], [("target resolution in Call and Send", SYS), ("origin check and closed check on receipt", R)], (), ["errors of Call/Send", "handler invocations"])
p("A08", "A reentrant call never blocks its actor and completes its future exactly once",
  "A reentrant call returns at once and the actor keeps executing other messages while it is pending; its target sees the caller, or the origin the message already had, as where it comes from, and the whole message as handed over, a response it carries included. Its future completes exactly once: with the target's response when the call succeeds, with the error when the target cannot be reached, with an error when the caller's context ends first (all this while its actor lives), and every continuation attached to it, before or after, runs exactly once with that outcome, or with the outcome passed along the chain.",
  ["schedules", "inputs", "fault_sequences"], "any target delays, failures, deadlines and cancellations, any number and nesting of continuations",
  "TestReenter samples one success and one timeout; its third case is known to be decided by a race.",
  [R, "core/actor/actor_reenter_impl.go"], [("ReenterCall goroutines, reenter queue", R), ("Future", "core/actor/actor_reenter_impl.go")], (), ["continuation invocations", "time of return of ReenterCall"])
p("A09", "A future settles once and every continuation sees that result exactly once",
  "A future keeps the first result it is completed with and ignores later completions. Every continuation, whether attached before or after completion and from whatever goroutine, runs exactly once with that result, and the future returned by attaching it completes with the same result after that continuation has run. Completion is never reported before it happened and never forgotten afterwards.",
  ["schedules", "programs"], "any interleaving of completions, attachments and chains of attachments",
  "No test addresses futures on their own.",
  ["core/actor/actor_reenter_impl.go"], [("mutex and done channel", "core/actor/actor_reenter_impl.go")], [("callbacks", "continuations not yet run", "core/actor/actor_reenter_impl.go")], ["continuation invocations"])
p("A10", "Actor timers fire when due, at their interval, and never after being cancelled",
  "A timer first fires when its due time has passed (without a due time: one interval after creation), then once per interval; an interval of 0 means it fires exactly once, at its due time. After it has been stopped or cancelled, at any moment, also before its first tick or with a tick already queued, its callback does not start again unless it is reset; a reset of a live timer makes it continue at the new interval (0 keeps the old one), and stopping reports whether it was active. Each firing passes the arguments given at creation, and timers of one actor do not disturb one another.",
  ["inputs", "schedules", "histories"], "any due times, intervals, number of timers and sequences of stop, cancel and reset at any time, relative to any handler load",
  "timer_test.go measures a handful of fixed intervals in real time with wide tolerances and never stops a timer early.",
  ["core/actor/actor_timer.go", R], [("per-timer goroutine with ticker feeding the actor loop", R), ("active flag", "core/actor/actor_timer.go")], (), ["virtual-time instants of callbacks", "results of Stop and Reset"])
p("A11", "An actor's context and build options belong to that actor alone",
  "What an actor's context reports (id, type, system) is that actor's own, also inside handlers of concurrently running actors of the same type; values stored in it are read back by the same actor, last write wins, and are invisible to every other actor, while values of the registering context are visible. Options, id and type set on one builder never show up in another builder, in another actor, or in the factory's template. Picking asks the loader once, with that builder and context, and returns its answer.",
  ["inputs", "histories", "schedules"], "any set of actors of shared types with any sequences of option, id, type and context-value writes",
  "Tests build each actor with few options and never compare two builders of one type.",
  ["core/actor/actor_context_impl.go", "core/actor/actor_build_impl.go"], [("context values per Init", R), ("builder copy of the constructor", "core/actor/actor_build_impl.go")], (), ["context getters", "builder getters"])

# ---------------------------------------------------------------- system / address book
p("S01", "The address book agrees on every node with what is registered where",
  "After any history of registrations, removals and node clean-ups on several nodes sharing one store, looking an actor up by id on any node yields exactly the node and address where it is registered, or unknown if it is not; looking up by type yields exactly the registered actors of that type, and the type count equals their number. Registering an id again on the node that holds it is refused and changes nothing; an id that was removed or cleaned up can be registered again, there or elsewhere. Clearing a node removes all of that node's entries and no other node's.",
  ["histories", "configurations"], "any sequences of operations over several nodes, types and ids, with ids unique in the cluster and each node removing only its own actors",
  "addressbook_test.go registers and removes a few actors on one node.",
  [AB, "core/addressbook.go"], [("redis hash by id, set by type, pipeline per change", AB)], [("IDMap", "local id cache", AB)], ["GetByID, GetByType, GetActorTypeCount on every node"])
p("S02", "Node load is the sum of live actor weights and picks follow it",
  "A node's recorded load, in total and per type, always equals the sum of the weights of the actors registered on it. Asking for a low-load node returns a registered node with the least recorded load; resolving an any-actor-of-this-type target returns a registered actor of that type and, if at most ten of them exist, one on a least-loaded node among those hosting the type; if there is none it is an error. This stays true across registrations, removals and node clean-ups.",
  ["histories", "configurations"], "any sequences of registrations with arbitrary weights and removals over several nodes",
  "TestDynamicPicker prints the distribution over equal nodes without asserting it.",
  [AB], [("HINCRBY of node load in the same pipeline as the record", AB), ("GetLowWeightNodeForActor, GetWildcardActor", AB)], [("{node:ID} total_weight", "node load", AB)], ["picks compared with the model", "stored load"])
p("S03", "Registration rules hold: unique ids, per-node uniqueness, cluster-wide limits",
  "A node holds at most one actor per id: a second registration of a live id is refused and the first actor keeps working. A type declared unique per node never has two live actors on one node, with or without a cluster-wide limit, and a type with a cluster-wide limit never gets registered beyond it by one-after-another registrations from any nodes. A refused registration leaves nothing behind, neither actor nor address entry nor load, and after a removal the freed place can be used again.",
  ["histories", "configurations", "inputs"], "any sequences of registrations and removals over nodes, types, limits and uniqueness flags",
  "Tests register distinct actors only and never hit a limit.",
  [SYS, AB], [("checks before address book registration", SYS)], [("actoridmap", "live actors of the node", SYS)], ["results of Register", "FindActor, Actors, address book"])
p("S04", "A message reaches the right actor on the right node and its answer comes back",
  "In a cluster of several nodes a call to an id, to any actor of a type, or to a local-first actor of a type, from any node, runs exactly one handler once: the one of that id, of some registered actor of that type, or of a local one whenever the caller's node has one. The handler sees the caller's event, body, custom fields, token and origin unchanged, and what it writes as response (body and header) is what the caller finds. Sends reach their target the same way, across nodes too.",
  ["configurations", "inputs", "histories"], "any placement of actors over nodes, all three kinds of addressing, any payloads",
  "All tests run one node in one process; the remote path is never taken.",
  [SYS, "core/node/system_acceptor.go", "router/router.pb.go"], [("target resolution and gRPC forwarding", SYS), ("Acceptor.Routing", "core/node/system_acceptor.go")], (), ["handler log per node", "caller's response"])
p("S05", "A failure on the way to or at a remote actor is reported to the caller",
  "If a call to an actor on another node cannot be carried out (the node is gone or unreachable, the target is no longer there, or its handling did not finish in time), the caller gets an error and never a success with an empty or stale response; a send that cannot be handed over is reported as well. Nothing is handed over twice because of a failure. Such a failure leaves both nodes working: following calls to reachable actors succeed. A handler that panics remotely does not bring down its node.",
  ["fault_sequences", "configurations"], "any sequences of calls with nodes stopped, records stale, handlers slow or panicking",
  "No test involves a second node.",
  [SYS, "core/node/system_acceptor.go"], [("error propagation in Routing and handleRemoteCall", "core/node/system_acceptor.go")], (), ["error of Call/Send"])
p("S06", "Shutting a node down drains its actors and removes exactly its own records",
  "Node shutdown, on request or by a termination signal, waits for every actor's accepted messages (within the limits of actor exit), after which no callback runs on the node; it removes the node and all its actors, also those an earlier run of it left behind, from the address book, whatever topics exist, touching no other node's records. Calls from other nodes that are in progress when the shutdown begins get their answer if there is time. Afterwards other nodes no longer resolve the actors that lived there, and the freed ids and places can be registered again by them.",
  ["histories", "configurations", "schedules"], "any placement of actors, backlog and timing over several nodes, and any subset of nodes shut down",
  "Tests call shutdown only as clean-up and assert nothing about it.",
  [SYS, "core/node/node_process_impl.go", AB], [("System.Exit", SYS), ("Clear under distributed mutex", AB), ("WaitClose", "core/node/node_process_impl.go")], (), ["store contents after exit", "callbacks after exit"])
p("S07", "A store failure during registry operations surfaces and loses nothing else",
  "If the shared store fails at any single step of a registration, removal, look-up, call or node clean-up, the operation reports an error or completes correctly; it never crashes the process, hangs, reports success for an actor nobody can find, or damages records of other actors. A removal takes the actor off its node in any case; a record it has to leave behind is dealt with when the removal is repeated or somebody addresses the actor. Once the store works again the failed operation can be repeated, and everything registered before still works.",
  ["fault_sequences", "histories"], "each store command or pipeline of each operation failing, executed or not, in any history of operations; pipelines also broken off half-way; contexts of the caller that end at any command",
  "The tests run against a store that never fails.",
  [AB, SYS, "lib/dismutex/dismutex.go"], [("error returns after every pipeline", AB)], (), ["results of operations", "store contents"])
p("S08", "A stale address record heals and does not trap its callers",
  "If the store holds a record that says an actor lives on this node although it does not (left behind by an earlier crash), a call or send to it from this node returns an error without running any handler, and removes the record, so the id is then unknown, its weight no longer counts, and it can be registered and used again. This also holds for records of types the node does not know, and the live actors around it are unaffected.",
  ["crash_points", "histories", "configurations"], "any set of stale and live records and any order of accesses to them by id or type",
  "Tests start from an empty store.",
  [SYS, AB], [("self-address check with clean-up in Call and Send", SYS)], (), ["errors", "store contents"])
p("S09", "The registry stays consistent under concurrent use",
  "Concurrent registrations, removals, look-ups, listings, calls and a shutdown on one node never crash the process; of several concurrent registrations of one id at most one succeeds, and each success can be found. After the dust has settled the actors listed are exactly those successfully registered and not removed, each reachable and each with exactly one address record.",
  ["schedules"], "any interleaving, including at every store command, of several workers' registry operations",
  "Tests register sequentially.",
  [SYS, AB], [("mutex around the actor map", SYS)], [("actoridmap", "live actors", SYS)], ["results of concurrent operations", "final listing and store"])

# ---------------------------------------------------------------- lib
p("L01", "The mailbox queue loses, repeats and reorders nothing and wakes its reader",
  "Every item pushed by any number of concurrent producers is popped exactly once by the single consumer, and items of one producer come out in the order they went in. A consumer that pops one item per wake-up token never stalls while an item is present. The count equals pushed minus popped whenever nothing is in progress, and emptiness is reported truthfully.",
  ["schedules", "histories"], "any number of producers, items and interleavings with the consumer",
  "There is no test of the queue.",
  ["lib/mpsc/mpsc.go"], [("swap of head then link; token after each count change", "lib/mpsc/mpsc.go")], [("count", "items present", "lib/mpsc/mpsc.go"), ("C", "wake-up token", "lib/mpsc/mpsc.go")], ["popped items", "tokens"])
p("L02", "The unbounded buffer delivers every item once, in order, whatever the backlog",
  "Everything put into an unbounded buffer comes out exactly once and in the order it was put, however many items are waiting, when the reader follows each receive with a load. Putting never blocks. The reported length is the number of items waiting behind the one ready to be received.",
  ["histories", "schedules"], "any sequences of puts and receive-load pairs, with any number of concurrent producers",
  "There is no test of the buffer.",
  ["lib/unbounded/unbounded.go"], [("one-slot channel plus backlog under a mutex", "lib/unbounded/unbounded.go")], (), ["received items"])
p("L03", "A subscribed channel gets every published message once, in order, unchanged",
  "Each message published to a topic after a channel on it has been subscribed reaches that channel's actor exactly once, with event and body unchanged, in publication order, through the chain given for the channel when the event names it. Publishing needs no subscriber on the publishing node. Several actors subscribed under one channel share its messages, each message going to one of them. Messages of one topic never appear on another, and a publication without event name is refused and delivers nothing.",
  ["inputs", "histories", "schedules"], "any topics, channels (one per topic), bodies, publication bursts and publishing nodes; a topic with two channels is a recorded finding",
  "TestPubsub publishes one message on one topic.",
  ["lib/pubsub/ps_channel.go", "lib/pubsub/ps_topic.go", SYS], [("redis stream with one group per channel, ack and delete after hand-over", "lib/pubsub/ps_channel.go")], (), ["handler log per subscriber"])
p("L04", "Topic management keeps what it creates and removes only what is unused",
  "Asking for a topic by name yields the same topic every time, concurrently too, and an existing topic's messages survive it; creating one makes it known in the store and applies a requested time-to-live. Closing a topic removes it from the store exactly when it has neither channels nor messages, and otherwise leaves messages and channels as they are. When one of several subscribers of a channel closes it, the channel stays for the others. A channel subscribed from the beginning gets the messages already stored, one subscribed normally only later ones.",
  ["histories", "inputs"], "any sequences of create, publish, subscribe, close with any options",
  "The package tests cover one fixed sequence each of create, publish, subscribe and close.",
  ["lib/pubsub/ps_mgr.go", "lib/pubsub/ps_topic.go", "lib/pubsub/ps_channel.go"], [("topic map under lock, XINFO checks in Close", "lib/pubsub/ps_topic.go")], (), ["store contents after each operation"])
p("L05", "The distributed mutex is exclusive, owner-released, and expires",
  "At most one holder has a given lock at any time within its ten-second lease; attempts while it is held fail after a bounded number of retries, and succeed if it is freed between retries. Only the value handed to the holder releases it: unlocking with another, an empty or an outdated value reports false and releases nothing, and an unlock the store did not confirm is not reported as done. Locks with different names are independent and an empty name is refused.",
  ["schedules", "histories"], "any interleavings of lock and unlock by several contenders with any delays, including lease expiry",
  "There is no test of the mutex.",
  ["lib/dismutex/dismutex.go"], [("SET NX with expiry, compare-and-delete script", "lib/dismutex/dismutex.go")], (), ["results in virtual time"])

# ---------------------------------------------------------------- messages
p("M01", "Custom fields set on a message read back equal, and merge by key",
  "A custom field written to a request or response is read back with the same value as the type it was written with (strings, booleans, every integer type within 53 bits, floats), and likewise after the message has crossed the wire, been swapped for a nested call, or been built with a map serialiser of the user's own that keeps the kinds of values JSON has. Writing fields keeps those already there and replaces equal keys; writing a whole map replaces everything. Reading an absent key or a wrong type yields the zero value and never panics, and request and response fields are independent.",
  ["inputs", "histories"], "any keys, values and sequences of writes and reads",
  "The message tests read no custom field.",
  ["router/msg/msg_custom_map.go", "router/msg/map_custom_serialize.go"], [("JSON map in the header", "router/msg/msg_custom_map.go")], (), ["values read"])
p("M02", "Messages survive the wire unchanged and malformed bytes are rejected cleanly",
  "Every message, route request and route response encodes to the standard protocol-buffer form of its schema and decodes to an equal one; the announced size is the encoded length. Unknown fields are skipped. Decoding arbitrary bytes either yields a message or an error; it never panics, hangs or reads beyond its input.",
  ["inputs"], "all field values; all byte strings",
  "No test encodes a message.",
  ["router/router.pb.go"], [("generated marshal, size and unmarshal code", "router/router.pb.go")], (), ["bytes and decoded values against an independent codec"])
p("M03", "Building, wrapping and swapping messages keep every part",
  "A built message carries exactly the header fields, body and custom object it was given, request and response apart; copying a header in keeps all of its fields. Custom objects read back equal, an absent one is an error, and an unencodable one is reported on the message. Swapping for a nested call keeps request, response, serialisers and context values, with a call tree of its own and without the error of the original; bodies given or read are never changed by the message. Messages built from a handler's context belong to the same call tree, others to a new one.",
  ["inputs", "programs"], "any headers, bodies, objects and orders of builder calls",
  "TestObjectSerialize round-trips one fixed object.",
  ["router/msg/msg.go", "router/msg/map_custom_object.go"], [("MsgBuilder", "router/msg/msg.go")], (), ["wrapper contents"])

# ---------------------------------------------------------------- rpc
p("G01", "The RPC client limits concurrency, reports true outcomes and leaks no slot",
  "At no time are more calls in flight through a client's limited call path than its configured maximum; a caller that cannot get a slot before its context ends gets an error. Every call returns the server's reply or an error for an error status, a cancelled or expired context, an unknown connection or an invalid option, and afterwards its slot is free again. The waiting call path connects to new addresses on demand, a server that was away and came back can be called again, and client interceptors run around each call in the order given.",
  ["schedules", "inputs", "fault_sequences"], "any limits, numbers of callers, server delays and outcomes, cancellations",
  "client_test.go uses one limit and one fixed delay, and checks no upper bound on in-flight calls.",
  ["lib/grpc/client.go", "lib/grpc/client_opt.go"], [("worker channel as semaphore", "lib/grpc/client.go")], (), ["server-side in-flight maximum", "results"])
p("G02", "The RPC server serves through its interceptors and stops as configured",
  "Every request reaching the server passes all configured interceptors in the order given around the registered handler, and its result or error status is what the client sees. With graceful stop, closing lets requests in progress finish with their normal result and accepts no new ones; without it, what is sent after the close is not served. An address in use is reported as an error and options apply only to the server built with them.",
  ["schedules", "inputs", "configurations"], "any numbers of interceptors and requests, durations and the moment of close",
  "Tests use a server only as the client's counterpart.",
  ["lib/grpc/server.go", "lib/grpc/server_opt.go"], [("interceptor chain, GracefulStop", "lib/grpc/server.go")], (), ["client results", "interceptor log"])

# ---------------------------------------------------------------- small libraries
p("T01", "Tokens identify exactly their entity and cannot be altered",
  "A token created for a non-empty entity id parses back to that id, for every valid text. An altered, truncated, differently signed or unsigned token, or any other string, is rejected with an error and yields no id, unless it decodes to the very same signed content. Creating a token for an empty id is refused.",
  ["inputs"], "all ids; all alterations of valid tokens; arbitrary strings",
  "TestToken round-trips one id.",
  ["lib/token/token.go"], [("HS256 JWT", "lib/token/token.go")], (), ["Create and Parse results"])
p("T02", "Error codes keep their identity through wrapping and comparison",
  "A code made from a positive number and a message reports that number and message, also after being given context as an error any number of times (errors.Wrap and the like of the errors package the project uses). Comparison is an equivalence that holds exactly when the numbers are equal, with nil counting as OK; plain errors map to the unknown code with their text, and the empty text to OK. Making a code from a number that is not positive is refused.",
  ["inputs"], "all numbers, messages and wrapping depths",
  "There is no test.",
  ["lib/errcode/errcode.go"], [("Cause, Equal", "lib/errcode/errcode.go")], (), ["codes and comparisons"])
p("T03", "Service timers run at once after the delay, then every interval, until stopped",
  "A started task runs first after its delay and then once per interval, with the before and end hooks around each run, on its own context; a task marked ended by its context skips its body, and a task created as not runnable never runs. After a stop no further run starts, also when stopped during the delay; a restart resumes at the same rate and starting a running task changes nothing. A run that panics or returns an error is reported to the exception hook once and changes neither the rate nor other tasks.",
  ["histories", "inputs", "fault_sequences"], "any tasks, delays, intervals, start and stop times, errors and panics",
  "There is no test of this package.",
  ["lib/timer/timer.go", "lib/timer/timer_tick.go"], [("one goroutine and ticker per running task", "lib/timer/timer_tick.go")], (), ["virtual-time instants of handler runs"])
p("T04", "Tracing follows a call across actors and nodes without changing its outcome",
  "With tracing on, each call or send yields exactly one finished span at the node that makes it, tagged with event, target and method, a child of the span in the message's context; when it crosses nodes, the spans of the request, of its service and of the delivery there continue it in the same trace, and the handler runs in the last of them. A node without tracer adds none. Spans are finished whether the call succeeds or fails. Results, errors and delivered messages are the same with tracing on or off.",
  ["programs", "inputs", "configurations"], "any call trees over actors and nodes, succeeding or failing",
  "No test switches tracing on.",
  ["lib/span/span_call.go", "lib/span/span_grpc.go", SYS], [("span begin/end around Call and Send", SYS), ("metadata injection and extraction", "lib/span/span_grpc.go")], (), ["finished spans of a recording tracer"])
p("T05", "The store wrapper does what the command it names does",
  "Each command of the store client wrapper sends the store the same command with the same arguments as the underlying client's method of that name, in the caller's context, and hands back its reply or error unchanged. A client is built with the options given to it and no others. Pipelines execute their commands in order, and decoding a list of pipeline results gives their values in order or reports the error of the one that failed.",
  ["inputs", "histories"], "all wrapped commands with arbitrary arguments over arbitrary store states",
  "Tests use a few commands indirectly.",
  ["3rd/redis/client.go", "3rd/redis/client_utils.go"], [("one-line delegations", "3rd/redis/client.go")], (), ["commands sent", "replies"])
p("T06", "File helpers write and read exactly the given bytes and names",
  "Saving bytes to a file, plainly or as JSON text, makes the file contain exactly those bytes, whatever it contained before, and reading gives them back. Existence is reported truthfully. Extension and base name split a name at its last dot, so that together they give the name back, and both are empty for a name without a dot.",
  ["inputs", "histories"], "all contents, sequences of writes to one path, and file names",
  "There is no test.",
  ["utils/file/file.go"], [("os file calls", "utils/file/file.go")], (), ["file contents"])
p("T07", "Version strategies are found by version and step through every version once",
  "A registered version strategy is found by exactly its version, and an unregistered version is an error. From any version the next one is the smallest registered version above it, or the same if there is none, so stepping from any start visits every higher registered version exactly once in order and ends at the highest. Strategies are registered in ascending order.",
  ["histories", "inputs"], "any ascending sets of versions and start points",
  "There is no test.",
  ["core/entity.go"], [("ordered strategy list", "core/entity.go")], (), ["results of look-ups"])
p("T08", "The span reporter delivers every sampled span once and flushes at close",
  "With full sampling every span reported while fewer than a hundred are waiting is handed to the sender exactly once, in order; with sampling switched off none is, and one that finds no room is dropped and counted. Reporting never blocks the caller. Spans handed over are flushed about once a second and at the latest when the reporter is closed, closing returns after that flush, and closing twice is harmless.",
  ["schedules", "histories", "fault_sequences"], "any numbers and timing of spans, sender delays and errors, moment and number of closes",
  "There is no test.",
  ["lib/tracer/slow_reporter.go"], [("queue with one processing goroutine", "lib/tracer/slow_reporter.go")], (), ["calls on the sender"])
p("T09", "Database wrapper operations act on the named collection only",
  "Each operation of the document-database wrapper is carried out once, on the connection, database and collection it was obtained for, with the context, filter, documents, indexes and options given, and its result or error is returned unchanged; asking for a database no connection was configured for is refused loudly.",
  ["inputs", "histories"], "all operations, filters and documents",
  "There is no test and no server to run one against; the check answers the wire protocol itself and compares every command with what the bare driver sends.",
  ["3rd/mgo/collection.go", "3rd/mgo/mgr.go"], [("delegations to the driver", "3rd/mgo/collection.go")], (), ["documents stored"])

p("T10", "The tracer delivers every sampled span once, under its name and parent",
  "Every span made by a registered factory and ended exactly once arrives at the configured collector (or agent) exactly once, at the latest when the tracer is closed, with its operation, tags, trace and parent, under the configured service name; with sampling off none arrives. A factory is found by exactly its name, the first registered of a name wins, an unknown name is an error, and a factory's own error is returned.",
  ["histories", "inputs", "configurations"], "any factories, span trees, tags, samplers and collectors",
  "There is no test.",
  ["lib/tracer/jaegertracing.go", "lib/tracer/opts.go", "lib/span/span_call.go", "lib/span/span_grpc.go"], [("reporter and transport set up in BuildWithOption", "lib/tracer/jaegertracing.go")], (), ["batches received by a collector or agent"])
p("T11", "Each log call writes exactly one complete line, or none below the level",
  "Each call of the log functions at or above the configured level writes exactly one line, complete and with its tag, level, formatted text and system fields, to the configured file (and standard output where asked for), in the order of each caller and whatever others log meanwhile; calls below the level write nothing. Plain warnings and errors carry the stack of their caller. Rotation loses, tears or doubles no line, the link names the current file, exporting another logger redirects later lines only, and caller, function and skip options name the place asked for. Flow fields hold exactly the given values.",
  ["histories", "inputs", "schedules", "configurations"], "any loggers, options, levels, texts, fields, concurrent callers and rotations",
  "There is no test.",
  ["lib/log/options.go", "lib/log/helper.go", "lib/log/mlog.go", "lib/log/rotation.go", "lib/log/flow.go"], [("zap core built from the options", "lib/log/options.go")], (), ["lines in files and on standard output"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    assert len({q["id"] for q in P}) == len(P)
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    print(len(P), "properties")
