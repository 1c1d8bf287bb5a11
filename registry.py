"""Which engines decide which property, and how many runs each tier makes."""
import json
import os

LINK_REAL = ["cocotbext.pcie.core: SimPort/Port, SimLink, Dllp, Tlp, FcChannelState and friends", "cocotb scheduler, triggers, queues"]
LINK_STUB = ["cocotb GPI layer (simulated kernel)", "TLP consumers (harness handlers that release buffers late, batched or out of order)",
    "physical link (tap: delay, loss, duplication, replay)"]

SYS_REAL = ["cocotbext.pcie.core: RootComplex, Switch, Bridge, Device, MemoryEndpoint, TLP regions, PciBus/PciDevice enumeration, MSI, all ports and links",
    "cocotbext.axi address spaces, cocotb scheduler, triggers, queues"]
SYS_STUB = ["cocotb GPI layer (simulated kernel)", "physical links (tap: delay, loss, duplication, replay)",
    "drivers and device logic (seeded actors)", "some host memory regions and BAR callbacks (slow or observing memories)"]

ENUM_REAL = ["cocotbext.pcie.core: RootComplex, Switch, Bridge, Device, MemoryEndpoint, capabilities, PciBus/PciDevice enumeration, all ports and links",
    "cocotbext.axi address spaces, cocotb scheduler, triggers, queues"]
ENUM_STUB = ["cocotb GPI layer (simulated kernel)", "physical links (tap: delay, loss, duplication, replay)", "BAR storage (both ends of each range)"]

STREAM_REAL = ["cocotbext.pcie.xilinx.us.interface and intel.s10/ptile.interface sources and sinks, Tlp and Tlp_us packing",
    "cocotb_bus, cocotb scheduler, triggers, queues"]
STREAM_STUB = ["cocotb GPI layer (simulated kernel)", "clock, reset and the producers and consumers of packets (seeded)"]

HW_REAL = ["cocotbext.pcie.xilinx.us UltraScale/UltraScale+ models, intel.s10 and intel.ptile models, their stream interfaces",
    "cocotbext.pcie.core below them: functions, ports, links, RootComplex, Switch, enumeration, MSI", "cocotbext.axi address spaces, cocotb scheduler, triggers, queues"]
HW_STUB = ["cocotb GPI layer (simulated kernel) and the wires of the device under test", "physical links (tap: delay, loss, duplication, replay)",
    "user logic behind the streaming, interrupt, configuration and reset ports (seeded)", "host drivers (seeded actors)"]

CHECKS = {
    "P01": {"quick": [("linkpair", 500)], "thorough": [("linkpair", 8000)], "real": LINK_REAL, "stub": LINK_STUB},
    "P02": {"quick": [("linkpair", 500)], "thorough": [("linkpair", 8000)], "real": LINK_REAL, "stub": LINK_STUB},
    "P03": {"quick": [("linkpair", 500)], "thorough": [("linkpair", 8000)], "real": LINK_REAL, "stub": LINK_STUB},
    **{p: {"quick": [("system", 120)], "thorough": [("system", 4000)], "real": SYS_REAL, "stub": SYS_STUB}
        for p in ("P05", "P06", "P07", "P08", "P09", "P10", "P19", "P20", "P21")},
    "P11": {"quick": [("system", 80), ("errors", 50)], "thorough": [("system", 3000), ("errors", 2000)], "real": SYS_REAL, "stub": SYS_STUB},
    "P12": {"quick": [("errors", 110)], "thorough": [("errors", 4000)], "real": SYS_REAL, "stub": SYS_STUB},
    "P13": {"quick": [("errors", 110)], "thorough": [("errors", 4000)], "real": SYS_REAL, "stub": SYS_STUB},
    "P14": {"quick": [("enumeration", 80)], "thorough": [("enumeration", 4000)], "real": ENUM_REAL, "stub": ENUM_STUB},
    "P15": {"quick": [("enumeration", 80)], "thorough": [("enumeration", 4000)], "real": ENUM_REAL, "stub": ENUM_STUB},
    "P16": {"quick": [("cfgspace", 100)], "thorough": [("cfgspace", 5000)], "real": SYS_REAL, "stub": SYS_STUB},
    "P17": {"quick": [("interrupts", 100)], "thorough": [("interrupts", 5000)], "real": SYS_REAL, "stub": SYS_STUB},
    "P18": {"quick": [("interrupts", 100)], "thorough": [("interrupts", 5000)], "real": SYS_REAL, "stub": SYS_STUB},
    "P22": {"quick": [("streams", 700)], "thorough": [("streams", 30000)], "real": STREAM_REAL, "stub": STREAM_STUB},
    "P23": {"quick": [("streams", 700)], "thorough": [("streams", 30000)], "real": STREAM_REAL, "stub": STREAM_STUB},
    **{p: {"quick": [("hwmodel", n)], "thorough": [("hwmodel", 3000)], "real": HW_REAL, "stub": HW_STUB}
        for p, n in (("P24", 80), ("P25", 90), ("P26", 110), ("P27", 100), ("P28", 90), ("P29", 70))},
    "P04": {"quick": [("linkpair", 500)], "thorough": [("linkpair", 8000)], "real": LINK_REAL, "stub": LINK_STUB},
}


def title(prop):
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)
            if p["id"] == prop:
                return p["title"]
    return prop
