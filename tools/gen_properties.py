#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the file stays consistent)."""
import json, os
A = "cocotbext/axi/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    anchors = {"files": [A + f for f in files],
               "mechanism": [{"name": n, "where": A + w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": A + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

prop("C01", "Ready/valid handshakes are stable on every driven channel",
 "On every ready/valid channel the models drive (all AXI and AXI-Lite channels, AXI-Stream and user-defined streams), once valid is high at a clock edge without ready, valid stays high and every payload signal keeps its value until an edge where ready is high, unless reset is asserted. Payload bits are never unknown while valid is high, and valid never depends on ready having been asserted first.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "every workload, every pattern of ready back-pressure and source pausing on each channel independently, every optional-signal configuration",
 "The tests connect the models to each other and only compare end data; no test samples the wires at each edge, so a payload that changes while stalled but recovers, or a valid dropped for a cycle under one pause pattern, passes.",
 ["stream.py", "axis.py"],
 [("StreamSource._run", "stream.py"), ("AxiStreamSource._run", "axis.py")],
 [("valid/ready/payload signals", "bus wires sampled at each rising clock edge", "stream.py")])

prop("C02", "APB requester and completer follow the two-phase APB protocol",
 "Every APB transfer driven by the requester has exactly one setup cycle with select high and enable low, followed by an access phase with enable high in which address, direction, write data, strobes and protection stay constant until the completer's ready, and select or enable never appear in any other combination; read transfers carry zero strobes. The completer asserts ready for exactly one cycle per transfer, in its access phase, with valid read data or error status in that cycle, and never outside a transfer.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "every sequence of reads and writes, every wait-state pattern of the completer and pause pattern of either side, every instant of reset",
 "The tests only check returned data with the two models facing each other, so both sides can drift from the protocol together without any test noticing.",
 ["apb.py"],
 [("ApbMaster._run", "apb.py"), ("ApbSlave._run", "apb.py")])

prop("C03", "Every AXI burst issued is legal and the bursts of a request tile it",
 "Each AXI burst the manager issues stays inside one 4 KB page, has at most the configured maximum number of beats (16 for fixed bursts), and uses the requested ID, size, burst type and sideband attributes. The bursts of one request cover its byte range exactly, in order, without gaps or overlap, and each write burst is accompanied by exactly as many data beats as announced, with last on the final beat only and strobes enabled for exactly the requested bytes.",
 ["inputs", "schedules", "configurations"],
 "every address, length, transfer size, ID, burst-length limit, bus width and any concurrent mix of requests, for incrementing bursts and size-aligned fixed bursts",
 "Tests compare memory contents through a subordinate from the same library and never inspect the bursts; only a few addresses and one burst limit are sampled.",
 ["axi_master.py"],
 [("AxiMasterWrite._process_write", "axi_master.py"), ("AxiMasterRead._process_read", "axi_master.py")],
 [("burst_list", "number of beats of each burst of a request", "axi_master.py")])

prop("C04", "AXI-Stream frames arrive exactly once, in order and bit-exact",
 "Every frame accepted for transmission by an AXI-Stream source is received by the sink and by any monitor on the bus exactly once, in the order accepted, with the same bytes, byte-enables and per-beat ID, destination and user sideband, as far as the connected signals can carry them. Bytes with a cleared enable never appear in compacted data, and frames are never merged, split or truncated except that a reset discards at most the frame in transfer. Two frames compare equal exactly when their data agree and so do those enables and sideband values that both specify, and a copy of a frame is independent of it.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "every frame content and length, every concurrent set of senders and readers, every pause and back-pressure pattern, every subset of optional signals, byte size and lane count, every reset instant",
 "The tests use a few widths with all sideband connected and cyclic pauses; missing optional signals, mixed readers, sparse enables, resets mid-frame and lane counts that are not a power of two are never run.",
 ["axis.py", "stream.py"],
 [("AxiStreamSource._run", "axis.py"), ("AxiStreamSink._run", "axis.py"), ("AxiStreamMonitor._run", "axis.py"), ("AxiStreamFrame.normalize/compact", "axis.py")],
 [("queue", "frames accepted and not yet moved", "axis.py")])

prop("C05", "Stream transmit completion and idle notifications are exact",
 "The completion notification of every non-empty AXI-Stream frame fires exactly once: in acceptance order and not before the frame's final beat has been put on the bus, or at the moment the frame is discarded by a clear or reset. A stream source reports idle exactly when it has nothing queued and nothing still waiting to be accepted on the bus. Waiting for idle returns only after everything accepted before the wait was transferred or discarded, and in the time step in which the source next becomes idle at the latest. The completion carries the frame that was sent with the times its transmission began and ended. A sink or monitor reports itself idle whenever no frame is partially received, at the latest one clock edge after a frame ended; waiting on it returns at once when something is queued, and otherwise when the next frame or transaction has arrived or the timeout has elapsed, whichever comes first.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of sends, waits, clears and resets with bus back-pressure",
 "Tests await one frame at a time on an unloaded bus; clears and resets while a beat is stalled, or several waiters, are never exercised.",
 ["axis.py", "stream.py"],
 [("AxiStreamFrame.handle_tx_complete", "axis.py"), ("AxiStreamSource.wait/idle", "axis.py"), ("AxiStreamBase.clear", "axis.py"), ("StreamSource.wait/idle", "stream.py"), ("AxiStreamMonitor.wait/idle", "axis.py"), ("StreamMonitor.wait", "stream.py")],
 [("idle_event", "source drained", "stream.py"), ("active", "beat outstanding on the bus", "stream.py")])

prop("C06", "AXI manager reads and writes move exactly the requested bytes",
 "A completed AXI write has stored exactly the given bytes at exactly the given addresses and changed no other byte; a completed AXI read returns exactly the requested number of bytes, each being the value of that address at some moment during the read. This holds for every byte-addressed access including word and byte accessor helpers, whatever the alignment, length, transfer size, burst limit and concurrent traffic. (On a bus without write strobes whole words are written, the unrequested bytes as zeros.)",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "every address, length, size, bus width, ID and burst limit; any set of concurrent reads and writes; any latency, reordering across IDs and back-pressure by the subordinate",
 "Tests issue one operation at a time against a well-behaved in-order subordinate at a grid of offsets; concurrency is only a randomised smoke test with disjoint regions.",
 ["axi_master.py", "axi_slave.py", "axi_ram.py", "address_space.py"],
 [("AxiMasterWrite._process_write", "axi_master.py"), ("AxiMasterRead._process_read_resp_id", "axi_master.py")])

prop("C07", "Each AXI operation completes once, with its own responses",
 "Every AXI operation issued completes exactly once, with the address and length it was issued with, and with data, response code and user values taken only from its own bursts, even when many operations share or mix IDs and the subordinate reorders responses of different IDs or interleaves read data. The reported response is OKAY if and only if all of its bursts or beats were OKAY, and otherwise is one of the non-OKAY codes that were returned; operations sharing an ID complete in issue order.",
 ["schedules", "inputs", "fault_sequences"],
 "every set of outstanding operations and explicit or automatic IDs, every legal ordering of responses, every placement of error responses",
 "The subordinate models in the library answer strictly in order and rarely return errors, so no existing test can produce out-of-order or interleaved responses at all.",
 ["axi_master.py"],
 [("TagContextManager", "axi_master.py"), ("AxiMasterWrite._process_write_resp_id", "axi_master.py"), ("AxiMasterRead._process_read_resp_id", "axi_master.py")],
 [("active_id", "bursts outstanding per ID", "axi_master.py")])

prop("C08", "AXI subordinate models execute every legal burst correctly",
 "For every legal burst (incrementing, fixed or wrapping, any size up to the bus width, any alignment, length and strobe pattern, write data arriving before or after its address) the AXI subordinate and memory models update exactly the strobed bytes at the addresses AXI defines and return exactly the addressed data. Each burst gets exactly one write response, or exactly the announced number of read beats with last on the final one, carrying its own ID and in order per ID.",
 ["inputs", "schedules", "configurations"],
 "every legal burst stream from an independent manager, any number outstanding, any channel skew and back-pressure",
 "The only manager in the tests is the library's own, which never sends wrapping bursts, sparse strobes, early write data or unaligned narrow bursts of the other types.",
 ["axi_slave.py", "axi_ram.py", "memory.py", "sparse_memory.py"],
 [("AxiSlaveWrite._process_write", "axi_slave.py"), ("AxiSlaveRead._process_read", "axi_slave.py"), ("AxiRam*", "axi_ram.py")])

prop("C09", "AXI-Lite reads and writes are exact and individually answered",
 "Every AXI-Lite operation is carried as word accesses covering exactly its byte range in ascending order, with strobes for exactly the requested bytes, and completes exactly once with its own data and with a non-OKAY code if and only if one of its word accesses returned one. (On a bus without write strobes whole words are written, the unrequested bytes as zeros.) The AXI-Lite subordinate and memory models apply exactly the strobed bytes of each access, return exactly the addressed word, and answer every access once, in order.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "every address, length, width and concurrent mix of operations; any channel skew, back-pressure and placement of error responses",
 "Tests pair the two library models and check memory contents for one operation at a time; neither side is checked against an independent peer nor with errors.",
 ["axil_master.py", "axil_slave.py", "axil_ram.py", "axil_channels.py"],
 [("AxiLiteMasterWrite._process_write", "axil_master.py"), ("AxiLiteMasterRead._process_read_resp", "axil_master.py"), ("AxiLiteSlaveWrite._process_write", "axil_slave.py"), ("AxiLiteSlaveRead._process_read", "axil_slave.py")])

prop("C10", "APB reads and writes are exact and individually answered",
 "Every APB operation is carried as word transfers covering exactly its byte range in ascending order, with strobes for exactly the requested bytes, and completes exactly once, in issue order, with its own data and with an error code if and only if one of its transfers was flagged as failed. The APB completer and memory models apply exactly the strobed bytes of each transfer and return exactly the addressed word.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "every address, length, width and queue of operations, any wait states, pauses and placement of transfer errors",
 "Tests pair the two library models without errors or an independent peer, so mutually compensating mistakes and error attribution are invisible.",
 ["apb.py"],
 [("ApbMaster._run", "apb.py"), ("ApbSlave._run", "apb.py"), ("ApbRam", "apb.py")])

prop("C11", "Reset aborts cleanly: nothing hangs, leaks or replays",
 "When the reset signal is asserted at any instant, or assert_reset() is called on the models, every outstanding memory-mapped operation terminates exactly once without a result, all valid, ready and select outputs are low by the next clock edge and stay low while reset is held, and the managers report idle. After reset is released the models work as if freshly built: no response, beat, burst or partial frame from before the reset is ever attributed to a later operation, and operations issued during reset run after its release.",
 ["crash_points", "schedules", "histories"],
 "every reset assertion instant relative to clock and traffic, every reset length including shorter than a clock period, repeated resets, either polarity",
 "No test asserts reset while traffic is outstanding; each test resets once before the first operation.",
 ["reset.py", "axi_master.py", "axil_master.py", "apb.py", "axis.py", "stream.py", "axi_slave.py", "axil_slave.py"],
 [("Reset._run_reset", "reset.py"), ("_handle_reset of every model", "axi_master.py"), ("flush of queued and current commands", "apb.py")])

prop("C12", "Accepted work always finishes once faults stop",
 "Once pausing, back-pressure and error injection stop and the peer answers, every accepted operation, frame or transaction and every blocked send, receive or wait completes within a number of clock cycles bounded by the amount of outstanding work. No interleaving of pause changes, queue-full blocking, clearing, clock gating, reset or idle periods leaves a channel asleep with work pending, and no model spins within one time step.",
 ["schedules", "fault_sequences", "histories"],
 "every history of stalls, pause toggles, clears, resets and clock gating followed by a fault-free period",
 "Lost wake-ups need a particular alignment between a pause toggle, a queue draining and the clock edge; the tests use a single cyclic pause pattern and no gating or clearing.",
 ["stream.py", "axis.py", "axi_master.py", "axil_master.py", "apb.py"],
 [("wake_event handling", "stream.py"), ("wake_event handling", "axis.py"), ("active_event handling", "stream.py"), ("command loop", "apb.py")],
 [("wake_event", "sleeping receiver must re-evaluate", "stream.py"), ("active_event", "source has work", "stream.py")])

prop("C13", "Manager idle and wait reflect outstanding operations exactly",
 "An AXI, AXI-Lite or APB manager reports idle exactly when no operation it accepted, blocking or non-blocking, is still outstanding. Waiting for idle, or for all reads or all writes, returns only after every such operation accepted before the wait has completed or was aborted by reset, in a state in which nothing it waits for is outstanding (operations that other tasks started meanwhile included), and returns without further traffic once that is so; the completion event of a non-blocking operation is set exactly once and carries its result.",
 ["schedules", "histories"],
 "every interleaving of operation starts, completions, waits and resets across concurrent tasks",
 "The tests wait on individual operations and never query idleness between issue and completion or from another task.",
 ["axi_master.py", "axil_master.py", "apb.py"],
 [("idle/wait/init_read/init_write", "axi_master.py"), ("idle/wait/init_read/init_write", "axil_master.py"), ("idle/wait/init_read/init_write", "apb.py")],
 [("in_flight_operations", "accepted and not completed operations", "axi_master.py")])

prop("C14", "Pause and queue limits apply back-pressure without losing data",
 "While a source is paused it starts no new beat, and a sink that is paused, or whose queue has reached its configured limit, withholds ready within two clock edges, so a limited sink never holds more than its limit (for AXI-Stream at most one frame above it), while a limited source refuses or blocks further sends. Pausing, un-pausing, limits and replacing pause generators at any moment only delay traffic: nothing is lost, duplicated or reordered, and traffic resumes when permission returns or space is made by reading or clearing. A pause generator takes effect at once and advances once per clock edge; a changed limit takes effect with the next transfer or read. The frame, byte and item counts and the full and empty indications of sources, sinks and monitors describe their queues exactly at all times.",
 ["schedules", "configurations", "fault_sequences"],
 "every sequence of pause toggles, pause generators and limits set at any moment on either end, against any consumption pattern",
 "Tests use cyclic pause generators and unlimited queues, and check only the final data, not the moments at which transfers happen or queue depth.",
 ["stream.py", "axis.py", "apb.py"],
 [("StreamPause/AxiStreamPause/ApbPause", "stream.py"), ("full/queue limits", "stream.py"), ("full/queue limits", "axis.py")],
 [("queue_occupancy_*", "items held and configured bound", "axis.py")])

prop("C15", "Address-space accesses reach exactly the mapped bytes",
 "An access through any nesting of address spaces, windows and regions reads or writes exactly the bytes that the registered mapping designates, split across adjacent regions in ascending order and with offsets and absolute translation applied, and touches no other region. An absolute address that is reported for an object leads to the same byte from the enclosing space, and a mapping that overlaps another is refused. Accesses that start or run outside the mapped or windowed range fail instead of returning or changing data beyond it, and every region type can be read and written with byte, word and bulk accessors, from the test or from a bus manager, in any mixture of concurrent clients.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "every mapping layout, nesting and window, every access range, concurrent clients with regions of arbitrary latency or failure",
 "No test in the suite uses address spaces, windows or region types at all.",
 ["address_space.py", "sparse_memory.py"],
 [("AddressSpace.read/write/find_regions", "address_space.py"), ("Window", "address_space.py"), ("MemoryInterface accessors", "address_space.py"), ("PeripheralRegion", "address_space.py")])

prop("C16", "Pool allocations never overlap and freed space is reusable",
 "Blocks handed out by a pool or allocator lie entirely inside it, are aligned to their size rounded up to a power of two, and never overlap a block that is still allocated, for every pool size and every sequence of allocations and frees by any number of concurrent clients. Once everything is freed the full capacity can be allocated again, a request fails only when no suitable block is free, and freeing something not allocated is refused without changing the state.",
 ["histories", "schedules", "inputs", "configurations"],
 "every pool size (also not a power of two), minimum block and alloc/free history of concurrent clients",
 "One test walks a 1024-byte allocator through a fixed script; other sizes, random histories and pools used through managers are not covered.",
 ["buddy_allocator.py", "address_space.py"],
 [("BuddyAllocator.alloc/free", "buddy_allocator.py"), ("Pool.alloc_region", "address_space.py"), ("WindowPool.alloc_window", "address_space.py")],
 [("free_lists", "free blocks per size", "buddy_allocator.py"), ("allocations", "outstanding blocks", "buddy_allocator.py")])

prop("C17", "Subordinates access their target exactly once and survive its errors",
 "For every beat accepted on the bus, the AXI, AXI-Lite and APB subordinate models perform exactly one read of the addressed word, or exactly one write per contiguous run of enabled bytes, on the attached target, in bus order and regardless of how long the target takes. If the target raises an error, exactly that burst (that beat, for AXI reads) is answered with an error response, all other traffic is unaffected and the model keeps serving; a target attached or replaced after construction is used from then on.",
 ["schedules", "inputs", "fault_sequences"],
 "every burst stream, target latency, and placement of target failures, with synchronous and asynchronous peripheral objects",
 "Tests only use memory targets that cannot fail, have no latency and for which a repeated access is invisible.",
 ["axi_slave.py", "axil_slave.py", "apb.py", "address_space.py"],
 [("AxiSlaveWrite._process_write/_write", "axi_slave.py"), ("AxiSlaveRead._process_read/_read", "axi_slave.py"), ("AxiLiteSlave*", "axil_slave.py"), ("ApbSlave._run", "apb.py"), ("PeripheralRegion", "address_space.py")])

prop("C18", "Memory models agree across all ports and direct access",
 "All views of one memory model (bus ports of any kind and number sharing it, and direct byte, word, slice and bulk accessors from the test) behave as a single array of bytes: a byte reads as the last value written through any view, and as zero or its initial value if never written. Accessors honour the requested byte order and word size, addresses beyond the size wrap only on the bus side, and out-of-range direct accesses fail without changing anything.",
 ["histories", "schedules", "inputs", "configurations"],
 "every interleaving of bus traffic on several ports with direct accesses, every memory size, address, length and word size",
 "Tests read back through a single port after the bus has gone quiet; multi-port sharing, block boundaries of sparse storage and most accessors are never exercised.",
 ["memory.py", "sparse_memory.py", "axi_ram.py", "axil_ram.py", "apb.py"],
 [("SparseMemory.read/write", "sparse_memory.py"), ("Memory accessors", "memory.py"), ("AxiRam/AxiLiteRam/ApbRam", "axi_ram.py")])

prop("C19", "Monitors see every transfer and disturb nothing",
 "A monitor attached to any stream or AXI channel records exactly the transfers that complete on the wires, each once, in order and with the values sampled at the handshake edge, whatever back-pressure is applied by others and however late they are read. Adding monitors never changes any signal or the timing of the traffic.",
 ["schedules", "inputs", "configurations"],
 "every traffic pattern, handshake alignment and number of attached monitors, compared against the same run without them",
 "Only the AXI-Stream monitor is used in a test, for one stream; channel monitors are never instantiated and passivity is not checked.",
 ["stream.py", "axis.py", "axi_channels.py", "axil_channels.py"],
 [("StreamMonitor._run", "stream.py"), ("AxiStreamMonitor._run", "axis.py")])

prop("C20", "Invalid requests are refused at once and without side effects",
 "A manager request with an out-of-range address, length or overrun, an ID or transfer size the bus cannot express, an integer instead of data, a wrong event object, a burst or lock type AXI does not define, or a sideband value whose signal is not connected is refused with an error when it is made. A refused request causes no bus activity, does not count as outstanding and leaves all other operations undisturbed, while every valid request, including ones ending exactly at the top of the address space, is accepted.",
 ["inputs", "schedules", "configurations"],
 "every invalid request mixed at any point into ongoing traffic, every bus configuration",
 "No test issues an invalid request.",
 ["axi_master.py", "axil_master.py", "apb.py"],
 [("argument checks in init_read/init_write/read/write", "axi_master.py"), ("argument checks", "axil_master.py"), ("argument checks", "apb.py")])

prop("C21", "User-defined streams deliver every transaction once, in order",
 "For any ready/valid stream defined through the library's stream factory, every transaction accepted by a source is delivered by the sink, and by any monitor, exactly once, in order and with every field intact, for blocking and non-blocking senders and receivers. A reset or clear discards only the transaction on the wires or the queue being cleared, and traffic continues normally afterwards.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "every signal set (with and without ready), field width, pause pattern, queue limit, clear and reset instant",
 "No test defines a custom stream; the generic engine is only exercised indirectly through AXI channels with a queue limit of two.",
 ["stream.py"],
 [("define_stream", "stream.py"), ("StreamSource._run", "stream.py"), ("StreamSink._run", "stream.py")])

prop("C22", "Hex dumps show the contents a memory has at that moment",
 "Dumping any address range of a memory, memory region or bus memory model, of any size and however it is stored, prints or returns exactly one line per sixteen bytes of the range (none for an empty range) with the prefix, the address of the line, the hexadecimal bytes and the printable characters of the contents at that moment. The same memory may be accessed through buses and other views at the same time, and the dump changes nothing.",
 ["inputs", "configurations", "histories"],
 "every memory content, size (up to the default 2**64 bytes), backing store, address range and history of writes through other views",
 "No test calls the dump helpers.",
 ["utils.py", "memory.py", "sparse_memory.py", "address_space.py"],
 [("hexdump/hexdump_lines/hexdump_str", "utils.py"), ("Memory.hexdump", "memory.py"), ("SparseMemory.hexdump", "sparse_memory.py"), ("MemoryRegion.hexdump", "address_space.py")])

prop("C23", "AXI models report the peer's protocol violations",
 "When the device on the other side of the bus breaks the protocol, the AXI models make the simulation fail instead of carrying on. Subordinate models fail on a burst whose beats are wider than the data bus, on an incrementing burst that crosses a 4 KB boundary and on WLAST that comes early or is missing; the manager fails on a write response or read data beat whose ID has no burst outstanding and on RLAST that comes early or is missing. This holds at any point of a test, during other traffic and after resets, and legal traffic is never reported.",
 ["inputs", "schedules", "configurations", "histories"],
 "every kind of violation at every point of ongoing traffic, every burst geometry and position relative to a page, every outstanding-ID history including resets",
 "No test contains a misbehaving peer: every assertion could be removed without a test failing.",
 ["axi_slave.py", "axi_master.py"],
 [("burst size, 4 KB and WLAST checks in _process_write/_process_read", "axi_slave.py"), ("active_id bookkeeping and RLAST checks", "axi_master.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
