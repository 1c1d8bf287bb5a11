"""Writes /verif/properties.jsonl (the single source for property text)."""
import json, os
C = "cocotbext/pcie/core/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---- link ---------------------------------------------------------------
p("P01", "A link delivers every TLP exactly once, in order and unmodified",
  "Every TLP a port accepts for transmission is handed to the receiver on the other end of the link exactly once, in transmission order, with every header field and payload byte as sent. "
  "This holds for any number of TLPs (sequence numbers wrap), any mix of TLP types and sizes, and when the link duplicates or delays packets or loses or repeats link-layer packets.",
  ["schedules", "histories", "fault_sequences"],
  "all TLP sequences in both directions at once, all link speeds, widths and delays, all task schedules, all replays of already received TLPs, and all losses and repeats of ACK and flow-control packets",
  "The tests send a few hundred TLPs over perfect links in one fixed schedule: no wrap of the 12-bit sequence number, no replayed TLP, no lost link-layer packet is ever exercised.",
  [C+"port.py", C+"tlp.py"],
  [("sequence numbering and duplicate detection on receive", C+"port.py: Port.ext_recv"), ("transmit loop", C+"port.py: Port._run_transmit"), ("copy of the TLP on receive", C+"tlp.py: Tlp.__init__")],
  ["the receive handler of each port", "packets on the link"],
  [("next_transmit_seq / next_recv_seq", "12-bit sequence counters", C+"port.py: Port")])
p("P02", "Flow control: a sender never exceeds, a receiver never over-grants, credit",
  "A port never puts a TLP on the link unless the header and data credit the other side has advertised for that class (posted, non-posted, completion) covers it, counting everything sent since initialisation. "
  "A receiver's advertised credit is always exactly its configured initial allocation plus the credit of received TLPs whose buffer space has been released, never more.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all initial credit allocations including infinite and minimal ones, all traffic mixes, all orders in which receivers release buffers, histories long enough for credit counters to wrap, and all losses, delays and repeats of flow-control packets",
  "Credit counters are internal and the tests use buffers large enough that traffic never blocks; nothing observes whether a credit limit was ever exceeded.",
  [C+"port.py", C+"tlp.py", C+"dllp.py"],
  [("credit gate", C+"port.py: FcChannelState.tx_tlp_fc_gate"), ("credit accounting", C+"port.py: FcStateData"), ("credits of a TLP", C+"tlp.py: Tlp.get_data_credits")],
  ["TLPs and flow-control packets on the link"],
  [("tx_credits_consumed / tx_credit_limit", "credit spent and granted", C+"port.py: FcStateData"), ("rx_credits_allocated", "credit granted to the peer", C+"port.py: FcStateData")])
p("P03", "Flow control initialises and blocked traffic resumes even if updates are lost",
  "From link-up both sides complete flow-control initialisation, learn exactly the peer's configured credits, and carry TLPs, although any finite number of initialisation packets is lost or repeated. "
  "Whenever the receiver has released enough buffer space, a TLP waiting for credit is transmitted within a bounded time after link-layer losses stop; no credit is lost for good.",
  ["schedules", "fault_sequences", "configurations"],
  "all losses, delays and repeats of initialisation and update packets followed by a loss-free period, all initial credits, all traffic mixes and release orders",
  "The tests never lose a link-layer packet and never exhaust credit, so neither the re-initialisation nor the periodic re-advertisement path runs.",
  [C+"port.py", C+"dllp.py"],
  [("initialisation handshake", C+"port.py: FcChannelState.handle_fc_dllp"), ("update timers", C+"port.py: Port._run_fc_update_timer, _run_fc_update_idle_timer"), ("credit gate wakeup", C+"port.py: FcChannelState.tx_tlp_fc_gate")],
  ["TLPs and flow-control packets on the link"])
p("P04", "Every received TLP is acknowledged in bounded time, and only received TLPs are",
  "A receiver acknowledges only TLPs it has received, its acknowledgements never go backwards, it never reports a gap when none occurred, and every TLP it received (including a replayed duplicate) is covered by an acknowledgement within the link's acknowledgement latency bound. "
  "A sender tolerates lost, delayed, repeated and stale acknowledgements, and once one covering its newest TLP arrives it holds nothing further for replay.",
  ["schedules", "histories", "fault_sequences"],
  "all traffic patterns, link speeds and widths, replayed TLPs, lost or repeated ACKs, and histories longer than the sequence-number space",
  "No test looks at acknowledgements at all, and an unacknowledged TLP has no effect on a loss-free test.",
  [C+"port.py"],
  [("ACK scheduling", C+"port.py: Port.start_ack_latency_timer, _run_ack_latency_timer"), ("ACK processing", C+"port.py: Port.handle_dllp")],
  ["ACK/NAK packets on the link", "the sender's replay buffer"])
# ---- data integrity -----------------------------------------------------
p("P05", "Host memory accesses to device memory read back exactly what was written",
  "Host reads of device memory through any memory BAR (32- or 64-bit, any alignment and length, also zero) return exactly the bytes most recently written there, and host writes change exactly the addressed bytes and no others. "
  "This holds for any number of concurrent accesses from independent tasks to any devices behind any tree of switches.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "all addresses, lengths and overlaps with dword, 128-byte, payload-size and 4 KiB boundaries, all concurrent interleavings, topologies, link timings and link-layer losses",
  "Tests access one function at a time with a short list of lengths and offsets, sequentially.",
  [C+"region.py", C+"endpoint.py", C+"rc.py", C+"tlp.py", C+"switch.py", C+"bridge.py"],
  [("request splitting and completion reassembly", C+"region.py: MemoryTlpRegion"), ("completer", C+"endpoint.py: MemoryEndpoint.handle_mem_read_tlp/handle_mem_write_tlp")],
  ["the bytes returned by host reads", "the device memory contents"])
p("P06", "Device DMA to host memory transfers exactly the addressed bytes",
  "Reads a device function issues to host memory return exactly the bytes stored there, and its writes change exactly the addressed bytes and no others, for any alignment and length including zero. "
  "This holds with many functions and many outstanding operations per function at once, for every maximum payload, read request and completion-boundary setting.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "all addresses, lengths, payload/read-request/read-completion-boundary settings, concurrent operations, topologies, host memory latencies and link-layer losses",
  "Tests issue one DMA at a time with default parameters and a handful of lengths.",
  [C+"region.py", C+"rc.py", C+"function.py"],
  [("request splitting and completion reassembly", C+"region.py: MemoryTlpRegion"), ("host completer", C+"rc.py: RootComplex.handle_mem_read_tlp/handle_mem_write_tlp")],
  ["the bytes returned by device reads", "host memory contents"])
p("P07", "Peer-to-peer accesses between devices transfer exactly the addressed bytes",
  "A device function's reads and writes to another device's memory BAR, routed by whatever switches or root ports lie between them, return and change exactly the addressed bytes, concurrently with host and DMA traffic.",
  ["inputs", "schedules", "configurations"],
  "all pairs of functions in all topologies, addresses, lengths and concurrent traffic",
  "Tests never run peer-to-peer traffic concurrently with anything and only through one topology.",
  [C+"switch.py", C+"bridge.py", C+"rc.py", C+"device.py"],
  [("routing between ports", C+"switch.py: Switch._run_routing"), ("bridge windows", C+"bridge.py: Bridge.match_tlp_secondary")],
  ["the bytes returned by reads", "the device memory contents"])
p("P08", "I/O space accesses transfer exactly the addressed bytes in both directions",
  "Host accesses to device I/O BARs and device accesses to host I/O regions, of any alignment and length including zero, read and write exactly the addressed bytes and no others, and an I/O write has taken effect when it returns. "
  "Every I/O request is a single-dword non-posted request and receives exactly one completion.",
  ["inputs", "schedules", "configurations"],
  "all addresses, lengths, byte-enable patterns, concurrent operations and topologies",
  "Tests use a few aligned lengths, one access at a time, and do not look at the requests on the wire.",
  [C+"region.py", C+"endpoint.py", C+"rc.py"],
  [("request splitting", C+"region.py: IoTlpRegion"), ("completers", C+"endpoint.py: MemoryEndpoint.handle_io_*; "+C+"rc.py: RootComplex.handle_io_*")],
  ["the bytes returned", "memory contents", "TLPs on the links"])
# ---- formation ------------------------------------------------------------
p("P09", "Memory requests on the wire obey 4K, payload, read-size and byte-enable rules",
  "No memory request on any link crosses a 4 KiB address boundary, carries more payload than the sender's configured maximum payload size or asks for more than its maximum read request size; addresses above 4 GiB use the 64-bit format and all others the 32-bit one. "
  "The byte enables of the requests of one operation are contiguous, cover exactly the bytes asked for once each, and every request carries the requester's own ID and the attributes and traffic class asked for.",
  ["inputs", "configurations", "schedules"],
  "all operations, alignments and lengths, and all payload and read-request settings, in hosts and devices",
  "The tests compare data end to end and do not inspect requests, and keep the default size settings.",
  [C+"region.py", C+"tlp.py"],
  [("splitting", C+"region.py: MemoryTlpRegion.read/write"), ("byte enables", C+"tlp.py: Tlp.set_addr_be")],
  ["TLPs on the links"])
p("P10", "Completions exactly cover the request, split only at completion boundaries",
  "The completions of a memory read cover exactly the requested bytes once, in address order, each with the remaining byte count and lower address that its position requires, none larger than the completer's maximum payload size, and every split except the final end falls on a read-completion-boundary address. "
  "Each carries the request's requester ID, tag, traffic class and attributes and the completer's ID.",
  ["inputs", "configurations", "schedules"],
  "all read requests (addresses, lengths, byte enables), payload and boundary settings, split policies, and host and device completers",
  "The end-to-end tests accept any split, as they only compare data and use few settings.",
  [C+"endpoint.py", C+"rc.py", C+"tlp.py"],
  [("device completer", C+"endpoint.py: MemoryEndpoint.handle_mem_read_tlp"), ("host completer", C+"rc.py: RootComplex.handle_mem_read_tlp")],
  ["TLPs on the links"])
p("P11", "No two outstanding requests of a requester share a tag; tags are recycled",
  "At any time the non-posted requests a requester has outstanding carry distinct tags within its permitted range (32 tags, or 256 when extended tags are enabled for it), and a tag is reused only after its request finished. "
  "However many requests are issued at once, each eventually gets a tag and all tags return to use.",
  ["schedules", "histories", "configurations"],
  "all numbers of concurrent requests above and below the tag count, completion orders and delays, tag-count limits and completion timeouts",
  "Tests rarely have more than a few requests outstanding, and duplicate tags only corrupt data when completions interleave.",
  [C+"rc.py", C+"function.py"],
  [("tag allocation", C+"function.py: Function.alloc_tag/release_tag; "+C+"rc.py: RootComplex.alloc_tag/release_tag")],
  ["TLPs on the links", "completion of every operation"],
  [("tag_active", "tags in use", C+"function.py: Function")])
# ---- errors ---------------------------------------------------------------
p("P12", "A request nobody can serve gets exactly one error completion and harms nothing",
  "A non-posted request to an address, device, function or bus that no one claims, or to host memory that fails when the root complex accesses it, is answered with exactly one completion with unsupported-request or completer-abort status carrying the request's ID, tag and attributes, and the requester's operation fails (configuration reads return all ones); a posted one is dropped silently. "
  "Concurrent valid operations are unaffected and all credit and tags are recovered.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "all unclaimed addresses and IDs at every level of the tree, failing memory regions at any moment, concurrent with valid traffic in any schedule",
  "Only a few error cases are tested, alone; leaks of credit or tags after errors need many errors to show.",
  [C+"bridge.py", C+"switch.py", C+"device.py", C+"rc.py"],
  [("unroutable requests", C+"bridge.py: Bridge.upstream_recv/downstream_recv; "+C+"switch.py: Switch._run_routing"), ("no BAR match", C+"device.py: Device.upstream_recv"), ("completer abort", C+"rc.py: RootComplex.handle_mem_read_tlp")],
  ["TLPs on the links", "operation outcomes"])
p("P13", "An operation never returns another request's data, even after timeouts",
  "An operation with a timeout either returns its own correct data or reports the timeout after its stated time and not before; a completion that arrives after its operation timed out and before its tag is in use again is discarded, its buffer credit returned, and it is never taken for the answer to a different, later operation (once the tag is in use again the protocol offers no way to tell). "
  "After any number of timeouts, later operations complete normally.",
  ["fault_sequences", "schedules", "histories"],
  "all delays of completers and links relative to timeouts, all numbers of timed-out operations, and all later operations that reuse the tag once the late completion has come",
  "No test lets a completion arrive after its timeout.",
  [C+"rc.py", C+"function.py", C+"region.py"],
  [("completion wait", C+"function.py: Function.recv_cpl/perform_nonposted_operation; "+C+"rc.py: RootComplex.recv_cpl"), ("completion dispatch", C+"function.py: Function.handle_tlp; "+C+"rc.py: RootComplex.handle_tlp")],
  ["operation outcomes and times", "flow-control credit on the links"])
# ---- enumeration ----------------------------------------------------------
p("P14", "Enumeration finds exactly the devices present and numbers buses consistently",
  "Enumeration finds every function of every device in the tree and nothing else, gives every bus a distinct number with each bridge's bus range covering exactly the buses beneath it, and afterwards every function answers at, and uses as its own ID, the bus/device/function number the host recorded for it.",
  ["configurations", "schedules", "fault_sequences"],
  "all trees of switches and single- and multi-function devices up to the bus number limit, all link timings, schedules and link-layer losses",
  "The tests enumerate a handful of fixed trees.",
  [C+"pci.py", C+"bridge.py", C+"device.py", C+"switch.py"],
  [("bus scan", C+"pci.py: PciBus.scan/scan_bridge"), ("ID capture", C+"function.py: Function.handle_config_0_read_tlp; "+C+"device.py: Device.upstream_recv")],
  ["the host's device tree", "configuration registers", "function IDs"])
p("P15", "Enumeration assigns aligned, non-overlapping resources inside bridge windows",
  "After enumeration every implemented BAR and expansion ROM has a range of exactly its size, naturally aligned, overlapping no other range, of the right kind (I/O, 32-bit memory, prefetchable), and lying inside the forwarding window of every bridge above it, while windows of sibling bridges do not overlap and the addresses in the devices equal those the host reports.",
  ["configurations"],
  "all trees and all combinations of BAR kinds and sizes and expansion ROMs, including bridges with nothing behind them",
  "The tests check a few fixed BAR combinations in fixed trees.",
  [C+"pci.py", C+"function.py", C+"bridge.py"],
  [("BAR sizing and assignment", C+"pci.py: PciDevice.read_bars/assign_bars"), ("windows", C+"pci.py: PciBus.assign_resources, PciDevice.setup_bridge")],
  ["configuration registers of devices and bridges", "the host's device tree"])
p("P16", "Configuration accesses reach exactly the addressed bytes of one function",
  "A configuration write changes only writable bits of the addressed bytes of the addressed function and a configuration read returns the current register bytes of that function, for any offset and length, with concurrent accesses to the same and different functions; write-one-to-clear and read-only bits behave as such, and absent functions and devices read as all ones without disturbing others. "
  "Configuration requests appear on the last link as type 0 with the target's ID and are answered exactly once.",
  ["inputs", "schedules", "configurations"],
  "all register offsets and lengths, byte enables, target functions, and interleavings of concurrent accesses",
  "The tests read and write a few registers sequentially.",
  [C+"rc.py", C+"function.py", C+"endpoint.py", C+"bridge.py", C+"caps/common.py", C+"caps/pcie.py", C+"caps/msi.py", C+"caps/pm.py"],
  [("request formation", C+"rc.py: RootComplex.config_read/config_write"), ("registers", C+"function.py, endpoint.py, bridge.py: read_config_register/write_config_register")],
  ["register values", "TLPs on the links"])
# ---- interrupts -----------------------------------------------------------
p("P17", "Each MSI raised reaches exactly its own vector's handlers, once",
  "Every MSI a function raises for message number n fires the event and every registered handler of that function's vector n at the host exactly once, and no other vector of that or any other function; messages not enabled are refused. "
  "This holds however many functions, with whatever mix of MSI and MSI-X vector counts, were set up and in whatever order.",
  ["configurations", "schedules", "histories"],
  "all numbers of functions, vector counts, allocation orders, 32/64-bit and masking capability variants, and concurrent interrupts",
  "The tests set up interrupts on one function with one vector count.",
  [C+"msi.py", C+"caps/msi.py", C+"pci.py"],
  [("vector allocation", C+"msi.py: MsiRegion.alloc_vectors"), ("delivery", C+"msi.py: MsiRegion.write"), ("message formation", C+"caps/msi.py: MsiCapability.issue_msi_interrupt"), ("set-up", C+"pci.py: PciDevice.msi_capability_init")],
  ["host vector events and handlers"])
p("P18", "MSI-X tables are programmed so that each entry reaches its own vector, once",
  "After interrupt set-up every MSI-X table entry of a function holds a distinct message that fires exactly that function's vector of the same index, and issuing it fires that vector exactly once and no other, for any table size, BAR and offset, and any mix of other MSI and MSI-X functions.",
  ["configurations", "schedules", "histories"],
  "all table sizes, locations, function counts and allocation orders, and concurrent interrupts",
  "The tests set up MSI-X on single functions of hardware models with one table size.",
  [C+"msi.py", C+"caps/msi.py", C+"pci.py"],
  [("table programming", C+"pci.py: PciDevice.msix_capability_init"), ("issue", C+"caps/msi.py: MsixCapability.issue_msix_interrupt"), ("delivery", C+"msi.py: MsiRegion.write")],
  ["host vector events and handlers", "MSI-X table contents"])
# ---- system ---------------------------------------------------------------
p("P19", "Ordering: data is visible before the interrupt or read that follows it",
  "When a device writes data to host memory and then raises an interrupt, the handler sees the data; when a host or device writes and then reads through the same path, the read returns with the write applied; and writes of one task are applied in the order issued. "
  "No posted write or completion is overtaken on its path by anything sent after it by the same requester.",
  ["schedules", "configurations", "fault_sequences"],
  "all interleavings with other traffic, link timings, credit stalls and topologies",
  "The tests poll or wait on idle systems, in which reordering cannot show.",
  [C+"switch.py", C+"port.py", C+"bridge.py", C+"rc.py"],
  [("in-order queues", C+"switch.py: Switch._run_routing/_run_arbitration"), ("credit gate", C+"port.py: Port.send"), ("serial receive", C+"port.py: Port._run_receive")],
  ["host memory at interrupt time", "read results", "order of writes at their target"])
p("P20", "Switches and root ports forward every TLP once, to the right port only",
  "Every TLP entering a switch or the root complex fabric leaves through exactly the one port its address or ID selects, once and with unchanged contents (apart from the type of a configuration request on its last hop), or is consumed or answered there; TLPs that match nothing are not forwarded anywhere.",
  ["inputs", "schedules", "configurations"],
  "all TLPs, topologies, windows and bus ranges, and concurrent traffic on all ports",
  "Misrouted or duplicated TLPs to a memory or port that nobody checks stay invisible to the tests.",
  [C+"switch.py", C+"bridge.py"],
  [("routing", C+"switch.py: Switch._run_routing"), ("bridge forwarding", C+"bridge.py: Bridge.upstream_recv/downstream_recv")],
  ["TLPs on all links"])
p("P21", "Heavy mixed traffic always makes progress and leaves nothing behind",
  "Under any mix of host, DMA, configuration and interrupt traffic in both directions, however heavy, with small or large credit pools and slow memories, every operation completes within a bounded time, and once traffic stops no TLP is left in transit, all credit has been returned and no tag is in use.",
  ["schedules", "configurations", "fault_sequences", "histories"],
  "all traffic mixes and intensities, topologies, link speeds, memory latencies, link stalls and link-layer losses",
  "The tests never load the system enough for a queue, credit pool or tag pool to fill.",
  [C+"port.py", C+"switch.py", C+"rc.py", C+"function.py"],
  [("credit return", C+"port.py: Port.send, Tlp.release_fc"), ("routing and arbitration", C+"switch.py"), ("tags", C+"function.py, rc.py")],
  ["completion of operations", "credit advertised on the links after quiescence"])
X = "cocotbext/pcie/xilinx/us/"
I = "cocotbext/pcie/intel/"
p("P22", "UltraScale stream interfaces transfer every packet once, intact, in order",
  "Every TLP handed to an UltraScale or UltraScale+ requester/completer stream source arrives at the matching sink exactly once, in order, with descriptor, byte enables, sideband (sequence number, parity, discontinue) and payload intact, and never violates the valid/ready handshake, for every bus width, alignment, straddle setting and any pattern of back-pressure and pauses from either side.",
  ["schedules", "inputs", "configurations"],
  "all packet sequences, sizes and alignments, bus widths, straddle settings, and cycle-by-cycle patterns of ready and pause",
  "The tests use a few fixed widths and regular pause patterns through whole-device tests.",
  [X+"interface.py", X+"tlp.py"],
  [("framing", X+"interface.py: RqSource/RqSink/RcSource/RcSink/CqSource/CqSink/CcSource/CcSink"), ("descriptors", X+"tlp.py: Tlp_us.pack_us_*/unpack_us_*")],
  ["bus signals", "received TLPs"])
p("P23", "Intel H-Tile and P-Tile stream interfaces transfer every frame once, intact",
  "Every TLP frame handed to an Intel stream source arrives at the matching sink exactly once, in order, with header, prefix, payload, BAR, function and error sideband intact, and data is only transferred in permitted ready-latency windows, for every bus width, segment count and ready latency and any pattern of back-pressure and pauses from either side.",
  ["schedules", "inputs", "configurations"],
  "all frame sequences, sizes, widths, segment counts, ready latencies, and cycle-by-cycle patterns of ready and pause",
  "The tests use a few fixed widths and regular pause patterns through whole-device tests.",
  [I+"s10/interface.py", I+"ptile/interface.py"],
  [("H-Tile framing", I+"s10/interface.py: S10PcieSource/S10PcieSink"), ("P-Tile framing", I+"ptile/interface.py: PTilePcieSource/PTilePcieSink")],
  ["bus signals", "received frames"])
p("P24", "UltraScale/UltraScale+ device models move host and DMA traffic intact",
  "With an UltraScale or UltraScale+ device model in the tree, host reads and writes of its BARs reach the user logic exactly once each with the right address, BAR, function, byte enables and data, its completions return the right data to the host, and user-logic DMA reads and writes reach host memory exactly; whatever the pauses and back-pressure on the four streams.",
  ["schedules", "inputs", "configurations"],
  "all accesses, function and BAR numbers, bus widths, pause patterns, concurrent directions and link timings",
  "The tests run one access at a time with regular pauses.",
  [X+"us_model.py", X+"usp_model.py", X+"interface.py"],
  [("completer request/completion", X+"us_model.py: _run_cq_logic/_run_cc_logic"), ("requester request/completion", X+"us_model.py: _run_rq_logic/_run_rc_logic")],
  ["user-side streams", "host memory", "host read results"])
p("P25", "UltraScale requester tags, sequence numbers and credits are accounted exactly",
  "For the UltraScale models each request's sequence number is returned exactly once when it is sent, automatically assigned tags of outstanding requests are distinct and in range and reported once per request in order, the number of non-posted completer requests presented never exceeds the credit the user granted, and completion errors, including completions for unknown tags, are reported with the right error code without disturbing other requests.",
  ["schedules", "histories", "configurations"],
  "all request mixes, tag modes, credit grant patterns, completion orders and lost completions",
  "The tests keep few requests outstanding and grant credit continuously.",
  [X+"us_model.py", X+"usp_model.py"],
  [("tag management", X+"us_model.py: alloc_tag/release_tag"), ("completer credit", X+"us_model.py: _run_cq_np_req_logic"), ("sequence numbers", X+"us_model.py: _run_rq_seq_num_logic")],
  ["user-side streams and sideband signals"])
p("P26", "Intel Stratix 10 and P-Tile device models move host and DMA traffic intact",
  "With a Stratix 10 H-Tile or P-Tile device model in the tree, host reads and writes of its BARs reach the user logic exactly once each with the right address, BAR, function, byte enables and data, its completions return the right data to the host, and user-logic DMA reads and writes reach host memory exactly; whatever the pauses and back-pressure on the streams.",
  ["schedules", "inputs", "configurations"],
  "all accesses, function and BAR numbers, bus widths, pause patterns, concurrent directions and link timings",
  "The tests run one access at a time with regular pauses.",
  [I+"s10/s10_model.py", I+"ptile/ptile_model.py", I+"s10/interface.py", I+"ptile/interface.py"],
  [("receive and transmit logic", I+"s10/s10_model.py: _run_rx_logic/_run_tx_logic; "+I+"ptile/ptile_model.py")],
  ["user-side streams", "host memory", "host read results"])
p("P27", "Interrupts requested on device-model signals reach the right host vector once",
  "An interrupt requested on a device model's MSI or MSI-X signals fires exactly the matching host vector once and is acknowledged to the user logic exactly once, in request order, or reported as failed and fires nothing when it is not enabled, concurrently with DMA traffic and on any function.",
  ["schedules", "histories", "configurations"],
  "all request patterns, vectors, functions, enable states and concurrent traffic",
  "The tests raise a few interrupts one at a time on idle systems.",
  [X+"us_model.py", X+"usp_model.py", I+"s10/s10_model.py", I+"ptile/ptile_model.py"],
  [("MSI/MSI-X logic", X+"us_model.py: _run_cfg_int_logic; "+I+"s10/s10_model.py: _run_int_logic")],
  ["interrupt signals", "host vector events"])
p("P28", "Device-model configuration ports mirror and modify configuration space exactly",
  "Values a device model presents on its configuration status and management ports equal the configuration space the host sees (bus number, enables, payload and read request sizes, interrupt settings, flow-control credit), and reads and writes through its management port return and change exactly the addressed bytes of the addressed function, while the host accesses the same registers.",
  ["schedules", "inputs", "histories"],
  "all interleavings of host and user-side configuration accesses, functions, registers and byte enables",
  "The tests sample these ports at fixed points or not at all.",
  [X+"us_model.py", X+"usp_model.py", I+"s10/s10_model.py", I+"ptile/ptile_model.py"],
  [("management port", X+"us_model.py: _run_cfg_mgmt_logic; "+I+"s10/s10_model.py: _run_cfg_mgmt"), ("status ports", X+"us_model.py: _run_cfg_status_logic; "+I+"s10/s10_model.py: _run_tl_cfg")],
  ["configuration status and management signals", "host configuration reads"])
p("P29", "Device models come out of reset clean and retry configuration until ready",
  "A device model asserts its user reset and link-down status while held in reset and releases them only after reset ends; a host configuration access while the device declines configuration gets a retry status and is served once the device accepts, and enumeration waits for such a device and then finds it.",
  ["schedules", "crash_points", "histories"],
  "all lengths and times of reset and of configuration refusal relative to host accesses and enumeration",
  "The tests always start with one full reset before any traffic and never refuse configuration.",
  [X+"us_model.py", X+"usp_model.py", I+"s10/s10_model.py", I+"ptile/ptile_model.py", C+"pci.py"],
  [("reset logic", X+"us_model.py: _run_reset; "+I+"s10/s10_model.py: _run_reset"), ("retry", C+"pci.py: PciBus.wait_crs; "+C+"rc.py: RootComplex.config_read")],
  ["reset and status signals", "host configuration read results"])
p("P30", "TLP, DLLP and descriptor encodings round-trip",
  "Encoding any valid TLP, link-layer packet or vendor descriptor to bytes or bus words and decoding it again yields an equal packet, with the standard's bit layout.",
  ["inputs"],
  "all valid packets",
  "The tests encode a few packets.",
  [C+"tlp.py", C+"dllp.py", X+"tlp.py"],
  [("pack/unpack", C+"tlp.py: Tlp.pack/unpack; "+C+"dllp.py: Dllp.pack/unpack")],
  ["encoded bytes"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
