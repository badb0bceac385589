import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=list(dict.fromkeys(files)),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every stream element reaches every connected input once, in order, unmodified",
 "For any running topology, the sequence of elements a block consumes from an input is exactly a prefix of the sequence of elements the connected output produced (or posted as buffers) while the connection existed: nothing lost, duplicated, reordered or altered. This holds for each subscriber of a fan-out independently, for any chunk sizes, element sizes, buffer reserve and read-before-write settings, output buffer sources (managed front buffer, explicitly allocated, externally pushed), and any thread pool arrangement. When sources stop and the topology becomes inactive, everything producible has been delivered.",
 ["schedules","inputs","programs","configurations"],
 "all topologies (chains, fan-outs, joins, in-place stages), production/consumption chunk patterns, element types, buffer managers, thread pool settings and interleavings",
 "Unit tests run a handful of fixed chains with one schedule each and mostly count elements; interleavings of produce, buffer recycle, in-place reuse and consumption are not explored.",
 ["lib/Framework/WorkerActor.cpp","lib/Framework/InputPort.cpp","lib/Framework/OutputPort.cpp","include/Pothos/Framework/InputPortImpl.hpp","include/Pothos/Framework/OutputPortImpl.hpp","lib/Framework/BufferAccumulator.cpp","lib/Framework/Block.cpp"],
 [("post-work push of posted buffers to all subscribers","WorkerActor::postWorkTasks"),("locked accumulator push","InputPort::bufferLabelPush"),("in-place reuse only if sole owner","WorkerActor::preWorkTasks")],
 [("posted buffers","buffers produced in this work call","OutputPort::_postedBuffers"),("accumulator","unconsumed input bytes","InputPort::_bufferAccumulator")],
 ["Block::work() in monitor blocks: every element produced and consumed carries (stream id, sequence)"])

p("C02","Labels stay attached to the element they marked",
 "Every label posted on an output arrives exactly once at every connected input, with its id, data and width intact, at the stream position of the element it was posted on (rescaled exactly when the two ports' element sizes differ), in non-decreasing position order, and no later than the element it marks becomes consumable. Labels on consumed elements are removed and (unless the block overrides propagation) forwarded to every output at the matching relative position; labels on unconsumed elements remain and move with them.",
 ["schedules","inputs","programs"],
 "all label positions/orders, chunkings, element size ratios, fan-outs, propagation chains and schedules",
 "Tests post a few labels in one chunk and one thread; positions across partial consumption, amalgamated buffers and racing producers are unsampled.",
 ["lib/Framework/WorkerActor.cpp","lib/Framework/InputPort.cpp","lib/Framework/Label.cpp","lib/Framework/Block.cpp","include/Pothos/Framework/InputPortImpl.hpp"],
 [("offset by enqueued bytes under one lock with the buffers","InputPort::bufferLabelPush"),("index adjust after consume","WorkerActor::postWorkTasks"),("unit scaling","Label::adjust")],
 [("inline messages","labels relative to the front of the input queue","InputPort::_inlineMessages/_inputInlineMessages")],
 ["Block::work(), Block::propagateLabels()"])

p("C03","Messages and slot calls arrive once, in order, with their values",
 "Each message posted on an output, signal emitted, slot call or externally pushed message is delivered exactly once to every connected input or slot, in the order its sender issued it, carrying the same value, as long as the documented queue bound of an unserviced input is not exceeded. Signals invoke the connected slot's registered call with the emitted arguments, probes reply through their signal, and an exception thrown by one handler never prevents later deliveries. A sender is not run again while undelivered messages hold all back-pressure tokens of one of its outputs, so its backlog stays bounded.",
 ["schedules","inputs","programs"],
 "all message sequences, fan-outs, senders (in-work, signal calls, external threads) and interleavings",
 "Tests send single messages through an idle topology; concurrent senders, bursts, queue growth and throwing handlers are not covered.",
 ["lib/Framework/InputPort.cpp","lib/Framework/OutputPort.cpp","lib/Framework/WorkerActor.cpp","lib/Framework/Block.cpp","include/Pothos/Util/RingDeque.hpp","include/Pothos/Framework/BlockImpl.hpp"],
 [("locked message ring with growth","InputPort::asyncMessagesPush/slotCallsPush"),("token back-pressure","OutputPort::_postMessage, WorkerActor::preWorkTasks"),("slot dispatch","WorkerActor::handleSlotCalls")],
 [("message queue","undelivered messages","InputPort::_asyncMessages"),("slot queue","undelivered slot calls","InputPort::_slotCalls")],
 ["Block::work() popMessage, registered slot calls"])

p("C04","A block's code never runs in two threads at once",
 "At any instant at most one thread executes inside a given block: its work, prepare, label propagation, slot handlers, activate, deactivate, buffer-manager queries and calls made on it through the topology or a proxy all exclude one another, and each sees every memory effect of the previous one. The framework's own state shared between threads is accessed without data races for every documented thread-safe operation.",
 ["schedules","programs","configurations"],
 "all interleavings of worker threads, external calls, stats queries, activation and pool reconfiguration",
 "Overlap needs a specific interleaving of worker and external caller; unit tests neither watch for overlap nor run under a race detector.",
 ["lib/Framework/ActorInterface.hpp","lib/Framework/WorkerActor.cpp","lib/Framework/WorkerActorPortAllocation.cpp","lib/Framework/Block.cpp","lib/Framework/ThreadEnvironment.cpp","include/Pothos/Util/SpinLock.hpp"],
 [("exclusive actor lock","ActorInterface::externalCallAcquire/workerThreadAcquire"),("per-task flag","ThreadEnvironment::poolProcessLoop")],
 [("call lock","held by the one thread in the block","ActorInterface::_extCallLock")],
 ["in/out counters inside every block callback; ThreadSanitizer reports"])

p("C05","Ready work always runs: no lost wakeups, stalls or deadlocks",
 "Whenever a block of an active topology has input it can process and output resources available, or has a pending message, slot call or external call, it is eventually run, under every thread pool configuration (dedicated threads, shared pools of any size, every yield mode) and while thread pools are replaced, shared or torn down. Committing, disconnecting, reconfiguring or destroying a topology always completes. Waiting for inactivity returns true only after a full idle period in which no block did any work, and false only when activity persisted past the timeout.",
 ["schedules","configurations","histories"],
 "all schedules, pool sizes/modes and reconfiguration sequences",
 "A lost wakeup needs an event to land in a small window; the tests run each topology once on the default pool.",
 ["lib/Framework/ActorInterface.hpp","lib/Framework/ThreadEnvironment.cpp","lib/Framework/ThreadPool.cpp","lib/Framework/Block.cpp","lib/Framework/Topology.cpp","lib/Framework/WorkerActor.cpp","lib/Framework/OutputPort.cpp"],
 [("change flag + condition variable","ActorInterface"),("configuration signature","ThreadEnvironment::registerTask/unregisterTask"),("activity polling","Topology::waitInactive")],
 [("change flag","state changed since last work","ActorInterface::_changeFlagged"),("task map","actors served by this pool","ThreadEnvironment::_handleToTask")],
 ["monitor blocks' progress counters; return value of waitInactive against recorded activity"])

p("C06","Stream buffers are never recycled while referenced, and always come back",
 "While any holder keeps a reference to a buffer (or any sub-range, copy or amalgamation of it), its memory stays valid and its contents are not overwritten by anyone the holder did not share it with; once the last reference is released the buffer becomes available to its manager again exactly once. The number of buffers a manager can hand out never exceeds or permanently drops below its configured amount, buffers are handed out in the manager's order, and a circular buffer's two mapped halves always show the same bytes.",
 ["schedules","histories","configurations"],
 "all acquire/hold/slice/release orders across threads, for generic, circular and pool allocation and every manager configuration",
 "Tests release buffers in one order from one thread; aliasing and leak bugs need out-of-order or concurrent release, holds across manager teardown and refills.",
 ["lib/Framework/ManagedBuffer.cpp","lib/Framework/BufferManager.cpp","lib/Framework/BufferPool.cpp","lib/Framework/BufferChunk.cpp","lib/Framework/SharedBuffer.cpp","lib/Framework/SharedBufferUnix.cpp","lib/Framework/Builtin/GenericBufferManager.cpp","lib/Framework/Builtin/CircularBufferManager.cpp","include/Pothos/Util/OrderedQueue.hpp"],
 [("reference counted return to manager","ManagedBuffer"),("ordered re-queue","OrderedQueue"),("dual mapping","SharedBuffer::makeCirc")],
 [("ref count","live references of a managed buffer","ManagedBuffer::Impl")],
 ["public BufferManager/ManagedBuffer/BufferChunk/SharedBuffer/BufferPool API; AddressSanitizer"])

p("C07","Input accumulation behaves as one contiguous byte queue",
 "Pushing buffers of any size and provenance, popping any amount up to the front buffer, and requiring any contiguous minimum leaves exactly the bytes pushed and not yet popped, in order: the reported total equals that amount, the front buffer is always a prefix of it, and after requiring n bytes the front covers at least min(n, total) contiguous bytes. A block with an input reserve is only offered a front of at least that many elements (or a message), one with an output reserve that a whole output buffer can meet is offered at least that much room, and no operation reads or writes outside the buffers it was given.",
 ["inputs","histories"],
 "all sequences of push/pop/require/front with contiguous, disjoint, circular, overlapping-sub-range and odd-sized buffers",
 "Tests run a few scripted sequences; the amalgamation and pool reuse logic has many size-relation branches.",
 ["lib/Framework/BufferAccumulator.cpp","lib/Framework/BufferPool.cpp","lib/Framework/BufferChunk.cpp","lib/Framework/InputPort.cpp","lib/Framework/WorkerActor.cpp"],
 [("amalgamate contiguous neighbours, copy into pool otherwise","BufferAccumulator::push/pop/require")],
 [("queue","buffer chunks awaiting consumption","BufferAccumulator::Impl")],
 ["public BufferAccumulator API and InputPort::buffer() against a byte queue model"])

p("C08","Activation and deactivation bracket all of a block's work",
 "A block's activate runs exactly once when a commit brings it into the active design and before any of its work; its deactivate runs exactly once when a later commit, a disconnect-all or the topology's destruction takes it out, and after deactivate begins none of its work or slot handlers run until it is activated again. A failing activate is reported to the committer, the failed block counts as inactive and does no work, and blocks that stay in the design across commits are neither re-activated nor interrupted. A block reports being active exactly between these calls.",
 ["schedules","histories","fault_sequences"],
 "all histories of connect/disconnect/commit/destroy with activation faults, under all schedules",
 "Tests activate once and tear down; ordering against concurrently running work and failing activations is not observed.",
 ["lib/Framework/WorkerActor.cpp","lib/Framework/TopologyCommit.cpp","lib/Framework/Topology.cpp","lib/Framework/Block.cpp"],
 [("set difference of active flat flows","Topology::commit"),("active flag checked in work","WorkerActor::workTask")],
 [("active state","between activate and deactivate","WorkerActor::activeState")],
 ["event log of activate/deactivate/work/slot callbacks"])

p("C09","The running design equals the declared graph after any edit history",
 "After any sequence of connects, disconnects and commits, including nested topologies whose boundary ports pass flows through, data, labels and messages flow along exactly the declared connections after flattening, and along no others; a removed connection delivers nothing further and a re-added one works. Invalid requests (unknown port, duplicate or missing connection, wrong endpoint) throw and leave the design unchanged, and the structure reported by the topology matches the declarations.",
 ["histories","programs"],
 "all edit histories over graphs of blocks and nested topologies",
 "Tests build a few fixed hierarchies once; re-commit difference logic, pass-through squashing and error atomicity depend on history.",
 ["lib/Framework/Topology.cpp","lib/Framework/TopologyCommit.cpp","lib/Framework/TopologySquashFlows.cpp","lib/Framework/TopologyDomainFlows.cpp","lib/Framework/TopologyNetworkFlows.cpp","lib/Framework/TopologyDumpJSON.cpp","lib/Framework/PortsAndFlows.hpp","lib/Framework/WorkerActorPortAllocation.cpp"],
 [("flow list edits with duplicate checks","Topology::_connect/_disconnect"),("flatten","Topology::Impl::squashFlows"),("subscribe/unsubscribe difference","Topology::commit")],
 [("flows","declared connections","Topology::Impl::flows"),("active flows","flattened connections in effect","Topology::Impl::activeFlatFlows")],
 ["which sinks observe which sources' tagged elements/messages after each commit"])

p("C10","Reported statistics and port state match what actually happened",
 "Work statistics and port counters report exactly the elements, buffers, labels and messages that were consumed and produced and what remains enqueued, never decrease, and time totals start from zero and nest (work, pre-work and post-work within the task total). Port names, indexes, types, domains and aliases, the registered calls, probes, signals and slots of a block are reported exactly as set up, and configuration set on ports or pools reads back as given.",
 ["histories","schedules","programs"],
 "all block set-ups and work histories, with statistics queried concurrently",
 "Tests only check that the JSON is non-empty or a single counter.",
 ["lib/Framework/WorkerActor.cpp","lib/Framework/WorkerActor.hpp","lib/Framework/WorkerActorPortAllocation.cpp","lib/Framework/TopologyStatsJSON.cpp","lib/Framework/TopologyDumpJSON.cpp","lib/Framework/ThreadPool.cpp","lib/Framework/Block.cpp","lib/Framework/Connectable.cpp"],
 [("counter updates in pre/post work","WorkerActor"),("port bookkeeping","WorkerActor::updatePorts/allocatePort")],
 [("stats","counters and durations","WorkerActor::numWorkCalls,totalTime*")],
 ["queryJSONStats, port getters, InputPort/OutputPort total* against the monitor blocks' own counts"])

p("C11","Serialized values deserialize to equal values",
 "For every value whose type is registered for serialization (integers of every width and sign, floating point including infinities and signed zeros, strings with any bytes, complex numbers, containers nested to any depth, labels, packets, data types, buffers, null), writing it to an archive and reading it back yields a value of the same type and equal contents, consuming exactly the bytes written. Values written one after another read back in order.",
 ["inputs"],
 "all values of all serializable types",
 "Round-trip tests use small positive sample values; width/sign boundaries, NaN payloads and deep nesting are unsampled.",
 ["include/Pothos/Archive/Numbers.hpp","include/Pothos/Archive/StreamArchiver.hpp","include/Pothos/Archive/String.hpp","include/Pothos/Archive/Vector.hpp","include/Pothos/Archive/Map.hpp","include/Pothos/Archive/Set.hpp","include/Pothos/Archive/Polymorphic.hpp","include/Pothos/Object/Serialize.hpp","lib/Archive/ArchiveEntry.cpp","lib/Archive/StreamArchiver.cpp","lib/Object/Serialize.cpp","lib/Framework/BufferChunk.cpp","lib/Framework/Packet.cpp","lib/Framework/DType.cpp"],
 [("variable length integer coding","Archive/Numbers.hpp"),("type hash registry","ArchiveEntry")],
 [],["Object::serialize/deserialize, OStreamArchiver/IStreamArchiver"])

p("C12","Corrupt or truncated serialized data is rejected, never misused",
 "Feeding any byte string, including every truncation and mutation of a valid encoding, to deserialization or to the remote-call message decoder terminates promptly with either a well-formed value or an exception (containers nested no deeper than the stack allows); a strict truncation of a valid encoding always raises. It never hangs, crashes, reads or writes out of bounds, executes undefined behaviour, leaks, or allocates far more than the input's size on the word of a corrupt length.",
 ["inputs","fault_sequences"],
 "all byte strings, in particular all truncations and mutations of valid encodings",
 "No test feeds malformed archives.",
 ["include/Pothos/Archive/StreamArchiver.hpp","include/Pothos/Archive/Numbers.hpp","include/Pothos/Archive/String.hpp","include/Pothos/Archive/Vector.hpp","lib/Archive/StreamArchiver.cpp","lib/Archive/ArchiveEntry.cpp","lib/Object/Serialize.cpp","lib/Remote/RemoteProxyDatagram.cpp","lib/Framework/BufferChunk.cpp","lib/Framework/DType.cpp","lib/Framework/Packet.cpp"],
 [("stream read checks","IStreamArchiver::readBytes"),("datagram header/footer check","recvDatagram")],
 [],["Object::deserialize on generated bytes under AddressSanitizer/UBSan"])

p("C13","Objects own their value: shared, immutable-safe, destroyed exactly once",
 "However objects are copied, moved, assigned (including to themselves), stored, extracted, passed between threads or dropped, the held value is constructed once, destroyed exactly once after the last reference goes away, and never accessed after that. Extraction succeeds exactly for the held type (throwing otherwise, without side effects), mutable access is granted only to a sole owner, and uniqueness and identity queries reflect the actual sharing.",
 ["histories","schedules","inputs"],
 "all histories of object operations over values of all kinds, single- and multi-threaded",
 "Tests exercise a few types in straight-line code; reference-count races, self-assignment and exception paths are not covered.",
 ["lib/Object/Object.cpp","include/Pothos/Object/ObjectImpl.hpp","include/Pothos/Object/Object.hpp","include/Pothos/Object/Containers.hpp"],
 [("atomic reference count","Object/ObjectContainer"),("type check in extract","Object::extract")],
 [("counter","references to the container","Detail::ObjectContainer::counter")],
 ["instance-counting payload types; AddressSanitizer; ThreadSanitizer"])

p("C14","Value conversion is exact within range or it throws",
 "Converting an object to another type either yields a value representing the same quantity (integers exactly; floating point to the target's precision, truncating toward zero only for float-to-integer; complex parts, strings and containers element by element, maps and sets entry by entry) or throws; it never silently wraps, saturates, drops or reorders. A conversion reported as possible does not then fail for lack of a converter, and conversion to the same type is the identity.",
 ["inputs"],
 "all source values x target types, including extremes, NaN/infinity, and nested containers",
 "Tests use mid-range values and a few bounds; the range check has boundary cases near 2^63/2^64 and non-finite values.",
 ["lib/Object/Builtin/ConvertIntegers.cpp","lib/Object/Builtin/ConvertFloats.cpp","lib/Proxy/Builtin/ConvertContainers.cpp","lib/Object/Builtin/ConvertIntermediate.cpp","lib/Object/Builtin/ConvertString.cpp","lib/Object/Builtin/ConvertString.cpp","lib/Object/Convert.cpp","lib/Object/Builtin/ConvertCommonImpl.hpp"],
 [("range check before cast","lib/Object number conversion"),("two-step conversion lookup","Object::convert")],
 [],["Object::convert/canConvert against a wide-integer/long double reference"])

p("C15","Comparison, equality, ordering and hashing of objects are coherent",
 "Object equality is reflexive, symmetric and agrees with exact numeric equality across number types (NaN aside); three-way comparison is antisymmetric, transitive and agrees with the exact numeric or lexicographic order of the values, and incomparable values throw a compare error, while the less-than operator orders even mixed types consistently. Equal values of the same type hash equally, and a hash or comparison never depends on how the object was built or shared. Object maps and sets keyed this way find exactly what was inserted.",
 ["inputs"],
 "all pairs and triples of values of comparable types",
 "Tests compare a few small pairs; mixed signedness, large integers beyond double precision and mixed containers are unsampled.",
 ["lib/Object/Builtin/Compare.cpp","lib/Object/Compare.cpp","lib/Object/Hash.cpp","lib/Object/Object.cpp","lib/Object/ToString.cpp","include/Pothos/Object/Containers.hpp"],
 [("registered compare/hash functions","lib/Object")],
 [],["Object::equals/compareTo/hashCode"])

p("C16","Callables invoke exactly the bound target with exactly the given arguments",
 "Calling a callable made from any function, method, function object, constructor or factory invokes the target exactly once with the arguments in order after any sequence of binding and unbinding, each converted to its parameter's type exactly as object conversion would, returns its result, and propagates its exceptions. Reported argument counts and types always equal those of the remaining unbound parameters, missing or unconvertible arguments throw before the target runs, and copies are independent of later re-binding. A call by name on a block reaches, on that instance, the first registered overload whose argument count fits and whose parameters the arguments can convert to, and throws when there is none.",
 ["inputs","histories"],
 "all signatures, bind/unbind sequences and argument values",
 "Tests bind one or two arguments of fixed functions.",
 ["lib/Callable/Callable.cpp","include/Pothos/Callable/CallableImpl.hpp","include/Pothos/Callable/CallRegistryImpl.hpp","lib/Callable/CallInterface.cpp","lib/Framework/Block.cpp"],
 [("bound argument table","Callable::bind/opaqueCall"),("name to overload map","CallRegistry")],
 [("bound args","argument slots fixed by bind","Callable::_boundArgs")],
 ["Callable::call/opaqueCall/bind/unbind/type against an argument-recording model"])

p("C17","Managed classes and local proxies behave like direct C++ use",
 "A registered class used through a proxy (construct by value, new or shared; static and instance methods, overloads, fields, inherited methods through registered bases, opaque and wildcard handlers) has the same observable effects and results as using it directly in C++; an overload is chosen among those whose argument count fits and whose parameters the arguments can convert to, the last registered when several fit. Unknown names and unconvertible arguments throw and have no effect, exceptions carry the callee's message, values moved into a proxy environment and back are unchanged for all supported types and nested containers, and instances live exactly as long as something refers to them.",
 ["inputs","histories","programs"],
 "all registered class shapes, call sequences and argument values",
 "Tests call each registered feature once with one argument set.",
 ["lib/Managed/Class.cpp","lib/Managed/Builtin/ManagedProxy.cpp","lib/Managed/Builtin/ManagedHandle.cpp","lib/Managed/Registry.cpp","lib/Proxy/Proxy.cpp","lib/Proxy/Environment.cpp","lib/Proxy/Builtin/ConvertContainers.cpp","include/Pothos/Managed/ClassImpl.hpp","include/Pothos/Proxy/ProxyImpl.hpp"],
 [("overload scan","ManagedProxyHandle::call"),("base conversion","ManagedClass registerBaseClass")],
 [],["Proxy API against a directly driven instance of the same class"])

p("C18","Remote proxies are indistinguishable from local ones",
 "A call made through a remote proxy connection returns the same result, raises the same error message, and has the same effect on the remote object as the same call made locally, for every argument and return type supported, and proxies passed across keep referring to the same object. Concurrent calls from many threads over one connection each execute exactly once and receive their own reply, never another's and never lost; a call whose argument or result cannot be sent fails alone and leaves the connection usable. Dropping the last client reference releases the remote object, and nothing else does.",
 ["schedules","inputs","histories"],
 "all call sequences and values, and interleavings of concurrent callers on one connection",
 "Tests make sequential calls from one thread.",
 ["lib/Remote/RemoteProxy.cpp","lib/Remote/RemoteProxy.hpp","lib/Remote/RemoteProxy.cpp","lib/Remote/ServerHandler.cpp","lib/Remote/RemoteProxyDatagram.cpp","lib/Remote/Client.cpp","lib/Remote/RemoteProxyHandle.cpp"],
 [("thread id reply demultiplexing","RemoteProxyEnvironment::transact"),("object id table","ServerHandler")],
 [("object table","server-side live references","ServerHandler objects")],
 ["recorded call/reply history over an in-process connection"])

p("C19","A broken remote connection fails every caller cleanly",
 "If the connection to a remote peer is cut or closed at any point of a conversation (possibly after trailing noise), or its writes fail, every call in progress or made later on it returns the complete correct reply or raises a library error in bounded time; no caller blocks forever, receives another call's or a partial reply, or crashes the process, and the serving side ends that session and keeps other sessions working.",
 ["fault_sequences","schedules","crash_points"],
 "all byte positions in either direction at which a conversation is cut, and all interleavings of concurrent callers",
 "Tests never break a connection mid-call.",
 ["lib/Remote/RemoteProxy.cpp","lib/Remote/ServerHandler.cpp","lib/Remote/RemoteProxyDatagram.cpp","lib/Remote/Client.cpp","include/Pothos/Archive/StreamArchiver.hpp","lib/Archive/StreamArchiver.cpp"],
 [("connection-active flag and waiter notification","RemoteProxyEnvironment::transact"),("framing check","recvDatagram")],
 [("connection active","link considered usable","RemoteProxyEnvironment::connectionActive")],
 ["a stream stand-in that cuts/garbles after k bytes"])

p("C20","The plugin registry is a consistent path tree under concurrency",
 "The registry maps each absolute path to at most one plugin: adding a used path throws, get and remove of a missing path throw, exists/empty/list report exactly the registered tree, removal drops just that node, and paths reject malformed components and compose and decompose consistently. These operations are atomic and race-free from any number of threads, and event subscribers registered for a path are told exactly once of each add and remove in their subtree that happens after they registered, and once of each plugin already present when they registered. Types added by a plugin become unusable, with a clean error, after it is removed. Plugins registered while a module loads carry that module, all others carry none, and releasing the last handle of a module removes exactly those of its plugins that are still registered.",
 ["schedules","histories","inputs"],
 "all operation histories from concurrent threads and all path strings",
 "Tests add and remove a few paths from one thread.",
 ["lib/Plugin/Registry.cpp","lib/Plugin/Path.cpp","lib/Plugin/Plugin.cpp","lib/Plugin/Module.cpp","lib/Object/Convert.cpp","lib/Managed/Class.cpp"],
 [("registry lock","PluginRegistry"),("missed subtree events","handleMissedSubTreeEvents")],
 [("tree","registered nodes","PluginRegistry nodes")],
 ["recorded operation history against a sequential map model; ThreadSanitizer"])

p("C21","Expression evaluation gives the mathematical value or a clean error",
 "Evaluating an expression yields the value that the documented grammar (numbers, strings, booleans, arithmetic, functions, nested lists and maps, registered constants) assigns to it, independent of how sub-expressions are nested or repeated and of earlier or concurrent evaluations. Malformed text raises an exception; no input text crashes, hangs or corrupts the environment, which keeps evaluating correctly afterwards.",
 ["inputs","histories","schedules"],
 "all expression strings (well- and ill-formed), nestings and evaluation histories",
 "Tests evaluate a short list of expressions, none unbalanced or with repeated nested containers.",
 ["lib/Util/EvalEnvironment.cpp","include/Pothos/Util/EvalEnvironment.hpp","lib/Util/Builtin/BlockEval.cpp"],
 [("container splitting and temporary constants","EvalEnvironment::splitExpr/eval")],
 [],["EvalEnvironment::eval against a reference evaluator of generated expression trees"])

p("C22","A topology built from JSON is the one the JSON describes",
 "Creating a topology from a JSON description instantiates exactly the described blocks with the described constructor arguments, makes the described calls in order, places blocks in the described thread pools and connects exactly the described connections, each expression evaluated in the described scope (globals, then the block's locals). Arguments given to a JSON topology registered as a block replace its globals in order. Invalid descriptions throw without leaving anything running.",
 ["inputs","programs"],
 "all well- and ill-formed descriptions",
 "Tests load one or two fixed descriptions.",
 ["lib/Framework/TopologyMakeJSON.cpp","lib/Framework/Topology.cpp","lib/Framework/BlockRegistry.cpp","lib/Util/EvalEnvironment.cpp","lib/ConfLoader/JSONTopologyLoader.cpp"],
 [("JSON interpreter","Topology::make")],
 [],["recording blocks: constructor args, calls, and which data arrives where"])

p("C23","Data types and typed buffers are sized, compared and converted truthfully",
 "Parsing a type name or markup gives the same type however it is spelled, its size equals the element size times the dimension, printing and re-parsing is the identity, equality means same element and dimension, and malformed names throw. A typed buffer's element count, sub-ranges, copies, appends, circular aliases and file mappings cover exactly the bytes they claim, and converting a buffer between element types converts each element (real to complex, complex to components, integer width preserving) without touching memory outside the buffers.",
 ["inputs"],
 "all type names/markups/dimensions and buffers",
 "Tests check a few names and small buffers.",
 ["lib/Framework/DType.cpp","lib/Framework/BufferChunk.cpp","lib/Framework/BufferConvert.cpp","include/Pothos/Framework/BufferChunk.hpp","include/Pothos/Framework/DType.hpp","lib/Framework/SharedBuffer.cpp","lib/Framework/MemoryMappedBufferContainer.cpp"],
 [("alias table","DType"),("converter table","BufferConvert")],
 [],["DType and BufferChunk public API against a reference"])

p("C24","Utility queues and locks keep their sequential and exclusion contracts",
 "The ring deque behaves as a bounded double-ended queue for every operation sequence (order, capacity, iteration, copy, move, growth), destroying each element exactly once; the ordered queue releases items strictly in index order; unique ids never repeat within or across processes. Spin locks admit one writer or many readers and never both, and file locks exclude other holders until released or their process dies.",
 ["histories","schedules"],
 "all operation sequences and interleavings",
 "Tests use short single-threaded scripts.",
 ["include/Pothos/Util/RingDeque.hpp","include/Pothos/Util/OrderedQueue.hpp","include/Pothos/Util/SpinLock.hpp","include/Pothos/Util/SpinLockRW.hpp","lib/Util/UID.cpp","lib/Util/FileLockUnix.cpp"],
 [("ring indices","RingDeque"),("reader count/writer bit","SpinLockRW")],
 [],["public API against std::deque etc.; ThreadSanitizer on lock-protected data"])

p("C25","Documentation and configuration text is parsed faithfully or rejected",
 "Parsing block source documentation, conf files and argument strings extracts exactly the declared names, keys, parameters, defaults, options and categories in order, ignores unrelated text, and rejects malformed markup with an exception naming the problem. A block evaluator applies exactly the given properties and calls. No input text crashes, hangs or reads outside it.",
 ["inputs"],
 "all source texts and configuration files",
 "Tests parse one fixed doc block.",
 ["lib/Util/BlockDescription.cpp","lib/Util/BlockDescription.cpp","lib/ConfLoader/ConfLoader.cpp","lib/ConfLoader/BlockDescLoader.cpp","lib/Util/Builtin/BlockEval.cpp"],
 [("comment extraction and directive parse","BlockDescriptionParser")],
 [],["parser output JSON against the generator's model"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
