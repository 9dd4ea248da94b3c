# Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py).
L = "score/mw/com/impl/bindings/lola/"
G = "score/mw/com/gateway/transport_layer/sample/"
P = []
def p(id, title, statement, over, text, why, files, mech, note, cost="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, cost=cost, na=na))
SC = "Sequentially consistent memory, no spurious compare-exchange failure."

p("C01", "A sample being read is never overwritten, and slots are handed out exclusively",
  "While a consumer holds a reference to an event sample, no provider writes into that sample's storage, and what the consumer reads is exactly the completely written value published with it. A storage slot is never handed to the provider while it is referenced or already being written.",
  ["schedules", "inputs"], "all interleavings (bounded preemptions) of one provider and one or two consumers over all initial slot contents",
  "unit tests run the lock-free slot protocol single threaded or under a few random schedules; torn reads need a particular interleaving of the slot search, the compare-exchange and the reference count.",
  [L + "event_data_control.cpp", L + "provider_event_data_control_local_view.cpp", L + "consumer_event_data_control_local_view.cpp", L + "event_slot_status.cpp"],
  [("slot search and claim", L + "provider_event_data_control_local_view.cpp"), ("reference by compare-exchange on the slot word", L + "consumer_event_data_control_local_view.cpp")],
  "Real provider and consumer views run symbolically as threads with solver-decided slot contents; every interleaving up to the preemption bound. " + SC)
p("C02", "Slot allocation takes a free slot first, then the oldest unreferenced sample",
  "Allocation succeeds exactly if some slot is free or holds an unreferenced sample. It prefers a free slot and otherwise recycles the unreferenced sample with the oldest timestamp, and it changes no other slot.",
  ["inputs", "histories"], "every content of every slot word, for the stated slot counts",
  "tests use a handful of slot fillings with small timestamps; the policy has to hold for all combinations of state, reference count and timestamp.",
  [L + "provider_event_data_control_local_view.cpp", L + "event_slot_status.cpp"], [("oldest-slot search", L + "provider_event_data_control_local_view.cpp")],
  "One operation from an arbitrary slot state, so histories of any length are covered for the stated slot counts.")
p("C03", "New samples are delivered newest-limited, in order, once, and completely",
  "A poll delivers the most recent published samples that are newer than the last delivered one, at most the requested number, in ascending publication order and each at most once over all polls. Each delivered sample is referenced until released and nothing else is referenced.",
  ["inputs", "histories", "schedules"], "all slot contents, all requested maxima, successive polls, and polls concurrent to a publishing provider",
  "tests check short fixed histories; ordering and exactly-once must hold for any slot permutation, any reference counts and a provider publishing while the poll is running.",
  [L + "slot_collector.cpp", L + "consumer_event_data_control_local_view.cpp"], [("collection loop", L + "slot_collector.cpp"), ("newest sample below a bound", L + "consumer_event_data_control_local_view.cpp")],
  "Real collector over symbolic slot words, differential against a reference model; concurrent variant over all interleavings within the preemption bound. " + SC)
p("C04", "The reported number of new samples matches what a poll can deliver",
  "The number of new samples reported to a consumer equals the number of published samples newer than the last one it received. With a provider publishing at the same time it stays between the counts before and after.",
  ["inputs", "schedules"], "all slot contents and reference timestamps; interleavings with a publishing provider",
  "tests sample some fillings only and never query while a slot is being rewritten.",
  [L + "consumer_event_data_control_local_view.cpp", L + "slot_collector.cpp"], [("GetNumNewEvents", L + "consumer_event_data_control_local_view.cpp")],
  "Symbolic slot words against a counting reference model, and interleavings. " + SC)
p("C05", "Mixed-criticality events stay consistent for QM and ASIL-B consumers",
  "A sample of an event offered to both QM and ASIL-B consumers is allocated, published and discarded in both sections together, only when no consumer of either side holds it. If QM consumers block every slot, allocation falls back to ASIL-B alone, reports it, and never touches the QM section again.",
  ["inputs", "schedules", "histories"], "all contents of both sections that a run can produce; interleavings of the provider with consumers on both sides",
  "tests hit a few combinations; the two-section update is not atomic, so only interleavings show a leaked or doubly used slot.",
  [L + "event_data_control_composite.cpp", L + "event_data_control_composite.h"], [("two-section slot locking", L + "event_data_control_composite.cpp")],
  "Real composite over symbolic slot words and interleavings with consumers of both sections. " + SC)
p("C06", "A misbehaving QM process cannot disturb ASIL-B communication",
  "Whatever a QM process writes into the shared QM control section, at any time, ASIL-B allocation, publication and reading keep working with the guarantees they have without QM consumers: no termination, no overwrite of a held ASIL-B sample. At worst QM consumers are cut off and this is reported.",
  ["inputs", "fault_sequences", "schedules"], "every 64-bit value in every QM slot word, and arbitrary QM writes at arbitrary points of the provider's operations",
  "tests corrupt a slot with one or two values; freedom from interference is a claim about all values at all times.",
  [L + "event_data_control_composite.cpp"], [("QM disconnection", L + "event_data_control_composite.cpp")],
  "QM words are unconstrained solver variables, and an adversary thread writes arbitrary values at every schedule point. A genuine defect found this way is repaired (known_findings.txt).")
p("C11", "A provider restart reclaims the slots its predecessor was writing",
  "After a provider crash at any point of publishing, cleaning up at restart frees exactly the slots that were being written; published samples stay readable and referenced slots stay referenced. The restarted provider can again use the reclaimed slots and continues with newer timestamps.",
  ["crash_points", "inputs"], "all slot contents a crash can leave",
  "tests set one slot by hand; the crash can leave any number of slots in any state.",
  [L + "provider_event_data_control_local_view.cpp", L + "event_data_control_composite.cpp"], [("RemoveAllocationsForWriting", L + "provider_event_data_control_local_view.cpp")],
  "One clean-up from arbitrary slot words.")
p("C07", "A restarted consumer gives back exactly what its crashed predecessor held",
  "If a consumer crashes between two operations, rolling back at its restart releases exactly the sample references and subscriptions it held, leaves other consumers untouched, tells the provider about the outdated process, and subscribing works again. A crash within an operation is either rolled back or reported as not restartable; references of others are never lost.",
  ["crash_points", "inputs", "schedules"], "a crash at every shared-memory access of subscribe, receive, release and unsubscribe; all slot contents, application ids and process ids",
  "tests build a few logs by hand; the guarantee is about every point at which a process can die and about what several proxies of several applications leave behind.",
  [L + "transaction_log.cpp", L + "transaction_log_local_view.cpp", L + "transaction_log_set.cpp", L + "transaction_log_rollback_executor.cpp", L + "consumer_event_data_control_local_view.cpp", L + "rollback_synchronization.cpp"],
  [("write-ahead transaction log", L + "transaction_log_local_view.cpp"), ("rollback at start", L + "transaction_log_rollback_executor.cpp")],
  "The real consumer code is stopped at every shared access, then the real rollback runs on what is left. " + SC)
p("C08", "Subscriptions never exceed the configured subscriber and sample limits",
  "A subscription is granted exactly if the number of subscribers stays within the limit and, where enforced, the sum of requested samples stays within the slots; otherwise the right reason is reported and nothing is consumed. Unsubscribing gives back exactly what was taken, also with several processes subscribing at the same time.",
  ["inputs", "histories", "schedules"], "all requested sample counts and slot limits, histories of several operations, and concurrent subscribers up to the preemption bound",
  "tests use a few fixed limits and one thread; over-commit needs a particular interleaving or boundary value.",
  [L + "event_subscription_control.cpp", L + "event_subscription_control.h"], [("packed subscriber and slot counters updated by compare-exchange", L + "event_subscription_control.cpp")],
  "Histories against a counting reference and two concurrent threads. " + SC)
p("C10", "Every subscriber gets a transaction log of its own",
  "No two live registrations share a transaction log, also when several processes register at the same time. Registration succeeds while a log is free and reports a full set otherwise, and a log that was unregistered can be used again.",
  ["schedules", "histories"], "all interleavings of two or three registering threads up to the preemption bound; 1 to 3 logs",
  "tests register from one thread; two processes with one log need a particular interleaving.",
  [L + "transaction_log_set.cpp", L + "transaction_log_set.h"], [("acquire by compare-exchange", L + "transaction_log_set.cpp")],
  "Real registration and release as threads. " + SC)
p("C13", "The subscription state follows subscribe, unsubscribe and provider restarts",
  "A proxy is subscribed, pending or not subscribed exactly as its calls and the provider's disappearance and return demand. Wrong calls are rejected without effect, and capacity taken is given back. A receive handler set in any state is registered with the current provider while subscribed, and unregistered afterwards.",
  ["histories", "schedules", "inputs"], "every history of operations up to the bound with every sample count and provider process id; user calls concurrent to provider restart",
  "tests check each transition once; combinations of handlers, re-subscription and provider restarts, and races between the user thread and service discovery, are not covered.",
  [L + "subscription_state_machine.cpp", L + "subscription_subscribed_states.cpp", L + "subscription_subscription_pending_states.cpp", L + "subscription_not_subscribed_states.cpp", L + "subscription_helpers.cpp"],
  [("state objects", L + "subscription_state_machine.cpp"), ("handler registration", L + "subscription_state_machine.cpp")],
  "Real state machine against a reference model over all bounded histories; messaging is a recorder. " + SC)
p("C09", "Each application has exactly one registered process, also across restarts",
  "Registering an application stores its process id and returns the previously registered one, if any, so that an outdated process is recognised. Concurrent registrations never share an entry, lose one or exceed the table, and an entry whose owner died while registering can be taken over.",
  ["inputs", "schedules", "crash_points", "histories"], "all application and process ids, histories up to the bound, concurrent registrations up to the preemption bound with a death at any shared access",
  "tests register from one thread with fixed ids; the entry protocol has a window in which a process can die or be overtaken.",
  [L + "application_id_pid_mapping.cpp", L + "application_id_pid_mapping.h", L + "application_id_pid_mapping_entry.cpp", L + "application_id_pid_mapping_entry.h"],
  [("entry status and id packed into one atomic word", L + "application_id_pid_mapping_entry.cpp"), ("registration", L + "application_id_pid_mapping.cpp")],
  "The real table, sequential with all ids, and as threads with crashes. " + SC)
I = "score/mw/com/impl/"
p("C12", "A consumer never holds more samples than it asked for at subscription",
  "The samples a proxy element holds plus those granted to running polls never exceed the maximum given at subscription. A poll is granted what it asks for limited by what is left, unused grants and released samples become available again, and allocatee counts on the provider side are exact.",
  ["histories", "inputs", "schedules"], "histories of polls, moves and releases up to the bound with all maxima and requests; concurrent polls and releases up to the preemption bound",
  "tests check one poll at a time; a lost or doubled count needs a particular order of moves or an interleaving of poll and release.",
  [I + "sample_reference_tracker.cpp", I + "sample_reference_tracker.h", I + "sample_allocatee_tracker.cpp", I + "sample_allocatee_guard.cpp"],
  [("counter of available samples", I + "sample_reference_tracker.cpp"), ("guards", I + "sample_allocatee_guard.cpp")],
  "Real tracker and guards against a counting reference, and as threads. " + SC)
M = "score/memory/shared/"
p("C16", "Address arithmetic is exact or rejected, never silently wrapped",
  "Adding and subtracting offsets to and from addresses, differences of addresses, mixed signed/unsigned sums and size alignment give the exact mathematical result if it is representable; otherwise the process terminates. Aligning gives the smallest multiple not below the size, and sequences are laid out with every element's alignment.",
  ["inputs"], "every 64-bit operand; every power-of-two alignment",
  "tests check a few values near the borders; a wrapped address passes all later bounds checks and corrupts memory.",
  [M + "pointer_arithmetic_util.cpp", M + "pointer_arithmetic_util.h"], [("overflow checks", M + "pointer_arithmetic_util.cpp"), ("CalculateAlignedSize", M + "pointer_arithmetic_util.h")],
  "The real functions over all 64-bit operands against 128-bit arithmetic.")
p("C14", "Pointers stored in shared memory mean the same object in every process",
  "A pointer kept in shared memory leads to the same object whatever address the memory is mapped at. Copying, converting, comparing, swapping and moving it by elements, inside and outside shared memory, behave like a raw pointer, and null stays null.",
  ["inputs", "histories"], "histories of operations over pointers inside and outside shared memory with every target and distance, seen through two mappings",
  "tests use one address space and fixed targets; offsets computed relative to the wrong place only show with another mapping or a copy to another place.",
  [M + "offset_ptr.h", M + "offset_ptr.cpp"], [("offset relative to its own address", M + "offset_ptr.h")],
  "The real template over two mappings of the same memory against raw pointers.")
p("C15", "Corrupted shared-memory pointers never lead outside their memory region",
  "Whatever another process writes into a pointer in shared memory, using it, or a copy of it, yields an object completely inside the region or terminates; a valid pointer is never rejected.",
  ["inputs"], "every bit pattern of a pointer in shared memory; every address, offset, size and region for the check itself",
  "tests forge a few offsets; the check must hold for every bit pattern including wrap-around of the address space.",
  [M + "offset_ptr_bounds_check.cpp", M + "offset_ptr.h", M + "memory_region_map.cpp"], [("bounds check", M + "offset_ptr_bounds_check.cpp"), ("bounds kept by copies outside shared memory", M + "offset_ptr.h")],
  "Pointer bits, addresses and regions are unconstrained solver variables; the result is compared with exact containment.")
p("C17", "Control words keep timestamp, reference count and state apart",
  "A slot word is free, being written, or a sample with a timestamp and a reference count, never two of these. Changing one part leaves the other as it is, adding one to the word adds one reference, and the word carries the whole state to another process. A log entry's begin and end marks are independent.",
  ["inputs", "histories"], "every 64-bit slot word, timestamp, reference count and timestamp interval; histories of modifications",
  "tests use small timestamps and counts; a bit shared by two parts only shows at particular values.",
  [L + "event_slot_status.cpp", L + "event_slot_status.h", L + "transaction_log_slot.h", L + "skeleton_event_properties.h"], [("timestamp and reference count in one word", L + "event_slot_status.cpp")],
  "One operation from an arbitrary word and short histories, against the plain meaning of the parts.")
F = "score/message_passing/non_allocating_future/"
p("C18", "A wait on a result ends exactly when the result is there, complete",
  "Waiting on a pending result returns only after the result was marked ready, with the complete value, and every waiter is woken whatever the order of waiting, completing and unrelated notifications of the shared condition variable.",
  ["schedules"], "all interleavings of one or two waiting threads and a completing thread up to the preemption bound, with foreign notifications",
  "tests wait from one thread with a delay; a lost wake-up needs the completion to fall between the check and the blocking.",
  [F + "non_allocating_future.h", F + "non_allocating_future.cpp"], [("condition variable wait and notification", F + "non_allocating_future.h")],
  "The real template with mutex and condition variable modelled by the scheduler; a waiting thread that nobody wakes is reported.")
MT = I + "methods/"; LM = L + "methods/"
p("C19", "A method call carries arguments and result unchanged",
  "The handler of a method sees exactly the arguments the caller passed and the caller gets exactly the handler's result, whatever the types' sizes and alignments. Their storage is reserved while a pointer to an argument or the result lives: a further call is then refused and nothing in use is overwritten; afterwards it can be used again.",
  ["inputs", "histories"], "all argument values; argument packs with alignments 1 to 64; histories of calls, allocations, releases, moves and failures",
  "tests use a few types and one call at a time; overlapping or misaligned arguments and storage released too early need other packs or an unusual order of operations.",
  [I + "util/type_erased_storage.h", LM + "type_erased_call_queue.cpp", MT + "method_signature_element_ptr.h", MT + "proxy_method.h", MT + "proxy_method_with_in_args_and_return.h", MT + "skeleton_method.h", L + "proxy_method.cpp", L + "skeleton_method.cpp"],
  [("argument layout", I + "util/type_erased_storage.h"), ("in-use flags owned by argument and result pointers", MT + "method_signature_element_ptr.h")],
  "Real proxy and skeleton methods of both layers, joined by a stand-in for messaging.")
p("C20", "Method calls reach live proxies only, also after a proxy process restarts",
  "Every subscribed proxy has exactly one call handler and one memory region of its own. When a process of an application comes back with a new process id, handlers and regions of its predecessor are dropped before new ones are added, those of other applications stay, and unsubscribing removes exactly its own.",
  ["histories", "inputs"], "histories of subscriptions, failures and unsubscriptions of several proxies of several applications with all process ids",
  "tests restart one process once; mixed-up proxies need several applications and instances and a particular order.",
  [L + "skeleton_method.cpp", LM + "method_resource_map.cpp", LM + "offered_state_machine.cpp", LM + "unique_method_identifier.cpp", LM + "proxy_method_instance_identifier.cpp", L + "proxy_instance_identifier.cpp"],
  [("registration guards per proxy", L + "skeleton_method.cpp"), ("regions per application and process", LM + "method_resource_map.cpp")],
  "Real classes against a reference model; messaging is a recorder.")
p("C21", "A service is offered completely or not at all",
  "Offering a service prepares it, all its events and fields, publishes initial field values and only then makes it visible; if any step fails, everything done so far is undone and it is not visible. Withdrawing happens exactly if it was offered, first making it invisible; a service that is not offered sends nothing. Moving the service keeps this.",
  ["fault_sequences", "histories"], "a fault at any step of offering, in histories of offers, stops, moves, updates and sends",
  "tests fail a few of the steps once; the state left by a failure only shows in what is done next.",
  [I + "skeleton_base.cpp", I + "skeleton_event_base.h", I + "skeleton_field_base.h", I + "skeleton_event.h", I + "skeleton_field.h", I + "flag_owner.h"],
  [("rollback guards", I + "skeleton_base.cpp"), ("offered flags", I + "skeleton_event_base.h")],
  "The real skeleton, event and field over bindings that record what is prepared. A genuine defect found this way is repaired (known_findings.txt).")
p("C22", "Memory regions in use are known exactly, also while others come and go",
  "An address is found in the registered region it lies in and in no other, overlapping regions are refused without trace, and a region is forgotten exactly when it is removed. Lookups never wait for registrations and never miss a region that stays registered meanwhile. A resource is found under its id only, and memory management data outside its own region is not used.",
  ["inputs", "histories", "schedules"], "histories of registrations and removals with arbitrary addresses and an arbitrary queried address; lookups interleaved with a writer that recycles every version",
  "tests use a few fixed regions and threads that merely must not crash; a stale or half-written version needs a reader stopped while ten updates pass.",
  [M + "memory_region_map.cpp", M + "memory_resource_registry.cpp", M + "memory_resource_proxy.cpp"], [("versions with reference counts", M + "memory_region_map.cpp"), ("registration under id and region", M + "memory_resource_registry.cpp")],
  "The real map and registry against a list of regions with arbitrary addresses; readers and a writer as threads. A genuine defect found this way is repaired (known_findings.txt). " + SC)
p("C23", "Memory handed out of a region is inside it, aligned and handed out once",
  "Every allocation lies inside the usable part of its region, is aligned as asked for and overlaps no other, also when several threads or processes allocate at once; it succeeds exactly if there is room, and the size asked for at creation is available. Damaged management data never makes it hand out memory outside of the region.",
  ["inputs", "schedules"], "every start, end, size and power-of-two alignment for the fit; every size of the region, sequences of allocations of every size; every content of the management data; two concurrent allocators",
  "tests use friendly sizes; off-by-padding errors, wrapped sums and lost updates need particular sizes or an interleaving.",
  [M + "shared_memory_resource.cpp", M + "shared_memory_resource.h"], [("fit", M + "shared_memory_resource.cpp"), ("compare-exchange on the allocated size", M + "shared_memory_resource.cpp")],
  "The real resource over an in-memory OS with all sizes and the management data as solver variables. A genuine defect found this way is repaired. " + SC)
p("C24", "Shared memory is created once with the rights asked for, opened only when ready",
  "Creating, sizing, mapping and initialising happen under the lock of the path, so nobody opens memory before it is initialised; the lock never stays behind. Access rights are exactly those asked for, memory of owners that are not allowed is refused, a path is mapped once per process, and memory is mapped, open and known exactly as long as it is used. What crashed processes left is removed on request.",
  ["inputs", "fault_sequences", "histories"], "every owner, own user, allowed user, umask and size; every permission kind; a fault in each OS call; histories of create, open, drop, remove and clean-up with foreign and stale objects",
  "tests mock every OS call in its expected order; leaked locks, descriptors or registrations only show after a failure followed by further operations.",
  [M + "shared_memory_factory_impl.cpp", M + "shared_memory_resource.cpp", M + "lock_file.cpp"], [("lock, create, size, map, initialise", M + "shared_memory_resource.cpp"), ("sharing within the process and owner check", M + "shared_memory_factory_impl.cpp"), ("lock file", M + "lock_file.cpp")],
  "The real factory, resource and lock file over an in-memory file system that checks the protocol in every call. Genuine defects found this way are repaired.")
W = "score/message_passing/"
p("C25", "Every accepted client request completes exactly once, with its own answer",
  "Each request a client connection accepts is completed exactly once, by the reply to it or an error, also when the connection stops. Messages arrive unchanged and in order, with at most one request outstanding. Sending is refused only for a stated reason (stopped, too long, wrong thread, queue full) and queue space always comes back. A blocking request leaves the caller's memory alone once it returned.",
  ["histories", "schedules", "fault_sequences"], "histories of sends, requests (also from callbacks), replies, notifications, peer loss, stops and restarts in all connection modes; a blocking request against replies, peer loss and failing sends on the engine thread",
  "tests walk through one mode and one order at a time; lost queue space, a reply handed to the wrong request or a late callback need a particular history or race.",
  [W + "client_connection.cpp", W + "timed_command_queue.cpp", W + "non_allocating_future/non_allocating_future.cpp"],
  [("request in flight and send queue", W + "client_connection.cpp")],
  "The real connection over an engine whose wire and faults the harness controls. Genuine defects found this way are repaired (known_findings.txt). " + SC)
p("C26", "A client connection follows its state diagram and retries with growing delays",
  "A connection becomes ready only after connecting, reports its stop reason, and a stopped one stays stopped until restarted, also if the stop comes while it is connecting. Failing attempts are repeated after delays that never shrink and stay between 1 ms and 5 s; permission errors stop it. Stopped, it holds no descriptor, and every state change is reported in order.",
  ["histories", "schedules", "fault_sequences"], "histories of failing and successful attempts, peer loss, stop, restart and stops from callbacks; a stop from another thread at any point of a connection attempt",
  "tests stop and retry at fixed points; becoming ready after a stop needs a race within one attempt.",
  [W + "client_connection.cpp"], [("connection attempts and state changes", W + "client_connection.cpp")],
  "As C25. Genuine defects found this way are repaired (known_findings.txt). " + SC)
UD = W + "unix_domain/"
p("C27", "Messages cross a socket whole, unchanged and in step, or not at all",
  "What one process sends over a connection the other receives: same kind, same length, same bytes, in the same order. A message too long for the header or for the receiver is refused with an error, one cut off because its sender died is never delivered, and nothing is written beyond the receive buffer.",
  ["inputs", "crash_points"], "sequences of messages with every kind and content; every length (64 bit) sent and every announced length against several receive buffers; a sender that dies at any byte",
  "tests send a few short messages between healthy processes; truncated lengths and half headers need unusual sizes or a crash in between.",
  [UD + "unix_domain_engine.cpp"], [("framing of sent messages", UD + "unix_domain_engine.cpp"), ("reading the header, then the announced bytes", UD + "unix_domain_engine.cpp")],
  "The real engine over in-memory sockets. Genuine defects found this way are repaired (known_findings.txt).")
p("C28", "A server serves exactly its connected clients, and no client can bring it down",
  "Every connection attempt reaches the connection callback once with the identity the OS reports. Each message of an accepted client is handed out once, to its handler or the server's callback; answers reach that client only and never exceed the agreed size. A client that leaves or breaks the protocol loses its own connection only, reported once; after StopListening() returned nothing is called, and no descriptor leaks or is closed twice.",
  ["histories", "schedules", "fault_sequences"], "histories of connections, rejections, failing OS calls, messages of all kinds, sizes and verdicts, partial frames, disconnections, stops and restarts; StopListening() on another thread at any point",
  "tests connect well-behaved clients; leaks, double closes and crashes show with misbehaving clients, failing accept() or unusual orders.",
  [UD + "unix_domain_server.cpp", UD + "unix_domain_engine.cpp"], [("accepting connections", UD + "unix_domain_server.cpp"), ("dispatch of messages", UD + "unix_domain_server.cpp"), ("end of connections", UD + "unix_domain_engine.cpp")],
  "The real server and engine, whose loop runs over in-memory sockets; the stop runs as a second thread. Genuine defects found this way are repaired (known_findings.txt). " + SC)
p("C29", "Engine commands run once, in order of time and when due; none after clean-up",
  "A queued command is executed exactly once, not before it is due, in order of time and for equal times in order of queueing; cleaning up an owner drops exactly its commands and endpoints. The engine thread never sleeps past the next due command, however long callbacks take. Input goes to registered, readable endpoints only, also when callbacks register and unregister endpoints.",
  ["histories", "schedules", "inputs"], "histories of queueing, processing and clean-up with all times, also from commands; registrations of other threads; any delay and duration of callbacks in the stated range; endpoints changed by input callbacks",
  "tests queue a few commands with friendly times; a lost wake-up needs a slow callback right before a timer.",
  [W + "timed_command_queue.cpp", UD + "unix_domain_engine.cpp"], [("ordered insertion and processing", W + "timed_command_queue.cpp"), ("poll loop and its timeout", UD + "unix_domain_engine.cpp")],
  "Real queue and engine loop. A genuine defect found this way is repaired (known_findings.txt). " + SC)
MS = L + "messaging/"
p("C30", "Event notifications reach every registered handler and interested process",
  "An event update calls exactly the handlers registered in the provider's process that still live and sends one message to each process that registered for it; an arriving message calls exactly the local handlers of its event. A provider is always told truly whether anybody has a handler registered. A process tells the provider's process once when interest begins, when it moves to a restarted provider, and when the last interest ends. A connection is reused while it works and replaced when not.",
  ["histories", "schedules", "inputs"], "histories of registering, unregistering, notifying, dying handlers, restarted and outdated processes over two events; registration on another thread at any point; up to 41 interested processes",
  "tests check one call each; interest that is lost or never given up needs orders of proxies and restarts or a race with the report.",
  [MS + "message_passing_service_instance.cpp", MS + "message_passing_client_cache.cpp"], [("local and remote notification", MS + "message_passing_service_instance.cpp"), ("registration counting", MS + "message_passing_service_instance.cpp"), ("connection cache", MS + "message_passing_client_cache.cpp")],
  "The real service instance and cache over connections held by the harness. Genuine defects found this way are repaired (known_findings.txt). " + SC)
p("C31", "Messages of other processes act only if well formed, allowed and in time",
  "A message or request from another process has an effect only if its type and size are right. Method subscription and call handlers run only while registered and alive and only for the user they were registered for; the reply, and the result a caller gets, say what really happened, and a peer breaking the protocol is disconnected. No message content, reply or late arrival terminates the process.",
  ["inputs", "histories"], "every message of up to 20 bytes and every reply of up to 8 bytes; histories of registering, unregistering, dying owners, and calls of allowed and foreign users; arrival during destruction",
  "tests send the messages the other side would send; what a faulty or hostile process may send is everything else.",
  [MS + "message_passing_service_instance.cpp"], [("dispatch and size check of messages", MS + "message_passing_service_instance.cpp"), ("method handlers and allowed users", MS + "message_passing_service_instance.cpp")],
  "The real service instance; message and reply bytes are solver variables. A genuine defect found this way is repaired (known_findings.txt).")
SDC = L + "service_discovery/"
p("C32", "Searches report exactly the offered instances; offers leave and go with flags",
  "A running search is told the set of matching instances other processes offer at its quality: its handler gets the full current set after each change that matters, no later than when the events were read, and never after StopFindService() returned. Offers and withdrawals, crashed and restarted providers, searches and events may come in any order, also from within handlers. An offer that fails leaves nothing behind; names of foreign files are never taken for offers.",
  ["histories", "schedules", "fault_sequences", "inputs"], "histories of offers, withdrawals, searches, stops and event batches over two instances, two searches and both qualities; calls from handlers; crashed providers; failing file operations; a stop on another thread at any point; names of up to 3 (5 with prefix) characters",
  "tests feed one event to one search; a set that goes stale needs overlapping searches, calls from handlers, or a provider that crashed.",
  [SDC + "client/service_discovery_client.cpp", SDC + "flag_file.cpp", SDC + "flag_file_crawler.cpp", SDC + "known_instances_container.cpp", I + "service_discovery.cpp"],
  [("event handling and callbacks", SDC + "client/service_discovery_client.cpp"), ("making and removing flag files", SDC + "flag_file.cpp"), ("crawling and recognising names", SDC + "flag_file_crawler.cpp")],
  "The real clients of two processes over one in-memory file system with change events. One defect is repaired, one recorded (known_findings.txt). " + SC)
p("C33", "Restarts and crashes never take a service's memory from those who use it",
  "At most one process provides an instance. Memory that consumers use stays, with its contents, when the provider withdraws, crashes or comes back, and the new provider works in it with no slot blocked; unused memory is never reused and is removed with its marker file when the service is withdrawn. A consumer connects exactly if the service's memory is there, reaches the control of its own quality, read-only data, and the provider that runs. Only configured users get access. Nobody who is gone leaves files open or searches running.",
  ["histories", "crash_points", "inputs"], "histories of 6 (7) steps of two providers and two consumers that start, offer, withdraw, end, connect, leave and crash, for both qualities; all combinations of allowed users",
  "tests restart a provider once with one consumer; which side still holds the memory after several crashes needs a history.",
  [L + "skeleton.cpp", L + "proxy.cpp", L + "skeleton_memory_manager.cpp"],
  [("markers and reuse of memory by a provider", L + "skeleton.cpp"), ("creation, opening and removal of memory", L + "skeleton_memory_manager.cpp"), ("usage marker of a consumer", L + "proxy.cpp")],
  "Real skeleton and proxy bindings of several processes over one in-memory world of lock files and shared-memory objects.")
p("C34", "The memory created for a service fits everything its configuration asks for",
  "For every configuration of events, generic events and fields (slots, tracing slots, getter and setter slots, subscribers, sample size and alignment, quality) and with either way of calculating sizes, offering the service succeeds: all its slots can be used at the same time, each sample is aligned, lies inside the shared memory and shares no byte with another, and a consumer finds the samples where the provider puts them.",
  ["inputs"], "every combination of 1-3 slots, 1-2 subscribers, tracing slots, nine sample shapes, field tags, quality and calculation mode",
  "tests offer a few fixed configurations; memory that is too small shows only for the right mix of tags and mode.",
  [L + "skeleton_memory_manager.cpp", L + "service_data_storage.cpp", L + "service_data_control.cpp"],
  [("calculation by simulation and by analysis", L + "skeleton_memory_manager.cpp"), ("layout of the data object", L + "service_data_storage.cpp"), ("layout of the control objects", L + "service_data_control.cpp")],
  "Real skeleton, events and generic events; allocation in a stand-in shared-memory object of exactly the calculated size. A genuine defect found this way is repaired (known_findings.txt).")
p("C35", "What a provider sends reaches each subscriber, in order, across restarts",
  "Whatever a provider and its consumers do - send, hold or discard a sample in the making, subscribe and unsubscribe, set and remove receive handlers, fetch and hold samples, withdraw and offer again, crash and restart - each subscriber fetches exactly the newest samples it has not had yet that it asked for and has room for, oldest first and with the bytes that were sent; a sample it holds never changes; the number of new samples and the state of the subscription it is told are right; and each update notifies the processes waiting for that quality once, and nobody if none waits.",
  ["inputs", "histories"], "every history of 5 (7) steps of a provider and a QM and an ASIL-B consumer of one event, with symbolic sample values",
  "tests exercise the provider's and the consumer's half apart, against mocks; that the halves agree after restarts and crashes is nowhere tested.",
  [L + "skeleton_event.h", L + "skeleton_event_common.h", L + "proxy_event.h", L + "proxy_event_common.cpp", L + "slot_collector.cpp", L + "skeleton.cpp", L + "proxy.cpp"],
  [("sending and notifying", L + "skeleton_event.h"), ("fetching", L + "proxy_event.h"), ("choice and order of samples", L + "slot_collector.cpp"), ("offering again over existing memory", L + "skeleton.cpp"), ("loss and return of the provider", L + "proxy.cpp")],
  "Real Skeleton, SkeletonEvent, Proxy and ProxyEvent over stand-in files and shared-memory objects, checked against a model of the slots after every step.")
p("C36", "Method calls work between consumers and provider, also after restarts",
  "A consumer whose methods were set up can call each enabled method and field getter: the provider's handler for exactly that method runs once, with the consumer's quality, on the arguments it placed, and its result reaches the consumer. While the service is withdrawn, the provider has crashed or refused the consumer, calls fail and nothing runs; when the service is back, calls work again. The memory of calls is open to the provider's user only and opened by the provider only if it is the caller's; neither side keeps memory or call handlers of consumers that left, crashed and came back or were refused.",
  ["histories", "inputs", "fault_sequences"], "every history of 4 (6) steps - calls, withdrawal, crash, return, consumers leaving, crashing and joining, refused handlers - of a provider and a QM and an ASIL-B consumer",
  "tests check each half against mocks; whether set-up, withdrawal and return of the two halves fit together shows only when both run.",
  [L + "proxy.cpp", L + "proxy_method.cpp", L + "skeleton.cpp", L + "skeleton_method.cpp", LM + "method_resource_map.cpp", LM + "offered_state_machine.cpp", LM + "method_data.cpp"],
  [("setting up, losing and regaining methods", L + "proxy.cpp"), ("accepting and dropping consumers", L + "skeleton.cpp"), ("memory regions per consumer", LM + "method_resource_map.cpp")],
  "Real Skeleton, SkeletonMethod, Proxy and ProxyMethod; messaging is a stand-in that finds the registered handler of the target process. A genuine defect found this way is repaired (known_findings.txt).")
p("C37", "Gateway messages arrive as sent, or not at all",
  "Every message one gateway sends to the other comes out of the stream as the same kind with the same sequence number, instance specifier, element names, types and sizes, however the stream cuts it into pieces; consecutive messages keep their borders; nothing of the sender's memory (addresses) is part of it. Bytes that are no valid message are refused without reading outside what was received, too large messages are never sent, and a message cut off by the end of the connection is not delivered.",
  ["inputs", "fault_sequences"], "all seven kinds, symbolic names (up to 3 characters), sizes, sequence numbers, element types and 1 (2) cuts of the stream; any header with up to 14 (20) arbitrary payload bytes; any element count with up to 2 elements present",
  "tests send a few fixed messages within one address space, where even an address is a valid name.",
  [G + "message_framer.cpp", G + "messages/gateway_messages.cpp"],
  [("framing", G + "message_framer.cpp"), ("serialisation", G + "messages/gateway_messages.cpp")],
  "Real framer and messages over a stand-in socket that cuts the stream anywhere. A genuine defect found this way is repaired (known_findings.txt).")
p("C38", "Gateway requests are acknowledged exactly, and shutdown always ends",
  "A request over the gateway transport succeeds if and only if the peer acknowledged its sequence number while the connection was up; it is repeated unchanged at most four times, under a number of its own, and fails at once without a connection. Every incoming request is acknowledged before it is handled, notifications are not, and all are handled once, in order. Shutting down - at any moment, during set-up, while receiving, handling or reconnecting - ends both threads and leaves no socket open.",
  ["histories", "interleavings", "fault_sequences"], "2 (3) requests with any answer in any of 5 attempts and failing sends, 3 (4) incoming messages of any kind, 2 requests at a time and a shutdown with 1 (2) preemptions of the connection, dispatch and caller threads",
  "tests drive one thread against a mock; lost wake-ups and late sockets need a particular interleaving.",
  [G + "bidirectional_transport.cpp", G + "pending_request_tracker.cpp", G + "unique_socket.cpp"],
  [("requests, receiving and shutdown", G + "bidirectional_transport.cpp"), ("acknowledgements", G + "pending_request_tracker.cpp")],
  "Real transport and tracker over stand-in sockets and threads placed at every atomic, lock and condition. Timeouts are chosen by the model. A genuine defect found this way is repaired (known_findings.txt).")
p("C39", "The gateways mirror a service with its events, and only while it exists",
  "A service configured as forwarded on one side and received on the other is offered to the other domain exactly while its provider offers it, with all its events, samples of their size and an alignment that fits; a service the other side did not ask for never is. An update of an event is passed on exactly once if a consumer on the other side waits for that event, and not if none does. A lost message, a failed binding or a refused offer harms nothing else and is made up for when the service is found again. No disappearance of a service ends a gateway, and a gateway that ends leaves no offer, subscription or handler behind.",
  ["histories", "fault_sequences", "inputs"], "histories of 5 (7) steps of provider and consumers, 2 events, 1 (2) lost requests, lost answers or failures of a binding, offer or subscription; any sample size up to 4096 bytes with any alignment up to 16",
  "tests expect single calls on mocks; what two gateways do together over a history with a failure in it cannot be sampled with mocks of either.",
  ["score/mw/com/gateway/gateway_application/gateway_application.cpp", I + "generic_proxy.cpp", I + "generic_skeleton.cpp", I + "skeleton_base.cpp"],
  [("mirroring", "score/mw/com/gateway/gateway_application/gateway_application.cpp"), ("announced types", I + "data_type_meta_info.cpp")],
  "Two real gateway applications with the real generic proxies and skeletons, over stand-in bindings, discovery and transport (the transport is C37 and C38). Each message is handled before the next one; handlers of the transport that overlap with handlers of the discovery are outside. Two genuine defects found this way are repaired (known_findings.txt).")
p("C40", "A consumer's event calls keep their promises, also inside receive handlers",
  "What a consumer's event reports is what happened: subscribing again works with the same number of samples only; free samples are those subscribed less those held; fetching hands out every new sample that is requested and free, and no more; each failure is reported as its documented error and leaves the event as it was; ending a subscription or an event while samples are held terminates. A receive handler is called for every notification while it is set, and only then: after removing or replacing it or unsubscribing - also from within another event's receive handler - it neither runs nor ever runs again. A handler may remove itself without blocking. Moving the event changes nothing.",
  ["histories", "interleavings", "fault_sequences"], "histories of 4 (6) calls of a typed and of a generic event, up to 2 subscribed and 3 requested samples, 1 (2) failures of the binding; a handler running while another thread removes or replaces it, from outside or from another event's handler, with 2 (3) preemptions",
  "tests call one operation on a mock; what holds after a history, or while a handler runs in another thread, needs all of them.",
  [I + "proxy_event_base.cpp", I + "proxy_event.h", I + "generic_proxy_event.h", I + "sample_reference_tracker.cpp"],
  [("subscription and handlers", I + "proxy_event_base.cpp"), ("fetching", I + "proxy_event.h"), ("free samples", I + "sample_reference_tracker.cpp")],
  "Real ProxyEvent and GenericProxyEvent over a stand-in binding that asserts how it is used. A genuine defect found this way is repaired (known_findings.txt).")
