From 2d0ee92f749d0e1436a00410dd852f8780fdfc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 01/38] fix: carry the TLP processing hints (TH) bit when
 copying and comparing TLPs

---
 cocotbext/pcie/core/tlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index f5cd6ff..c668006 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -219,6 +219,7 @@ class Tlp:
             self.type = tlp.type
             self.tc = tlp.tc
             self.ln = tlp.ln
+            self.th = tlp.th
             self.td = tlp.td
             self.ep = tlp.ep
             self.attr = tlp.attr
@@ -620,6 +621,7 @@ class Tlp:
                 self.type == other.type and
                 self.tc == other.tc and
                 self.ln == other.ln and
+                self.th == other.th and
                 self.td == other.td and
                 self.ep == other.ep and
                 self.attr == other.attr and
-- 
2.43.0


From f441f076e8a0d17e617ee24b2ef180bc02ab517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 02/38] fix: copy request_completed when copying an UltraScale
 TLP

---
 cocotbext/pcie/xilinx/us/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/xilinx/us/tlp.py b/cocotbext/pcie/xilinx/us/tlp.py
index fd7391d..ea610bf 100644
--- a/cocotbext/pcie/xilinx/us/tlp.py
+++ b/cocotbext/pcie/xilinx/us/tlp.py
@@ -120,7 +120,7 @@ class Tlp_us(Tlp):
             self.discontinue = tlp.discontinue
             self.seq_num = tlp.seq_num
             self.error_code = tlp.error_code
-            self.request_completed == tlp.request_completed
+            self.request_completed = tlp.request_completed
 
     def pack_us_cq(self):
         pkt = UsPcieFrame()
-- 
2.43.0


From 5ae807ed240dbc1337cd32bdd7afe7df1f324d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 03/38] fix: lower address of completions for zero-length
 requests

A request with no byte enables set starts at byte 0 of the dword (first
byte enable 0000b gives lower address bits 00b) and has a byte count of 1.
---
 cocotbext/pcie/core/tlp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index c668006..8563314 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -384,7 +384,10 @@ class Tlp:
 
     def get_first_be_offset(self):
         """Offset to first transferred byte from first byte enable"""
-        if self.first_be & 0x7 == 0:
+        if self.first_be & 0xf == 0:
+            # zero-length request, starting byte is byte 0
+            return 0
+        elif self.first_be & 0x7 == 0:
             return 3
         elif self.first_be & 0x3 == 0:
             return 2
@@ -399,7 +402,8 @@ class Tlp:
             be = self.first_be
         else:
             be = self.last_be
-        if be & 0xf == 0x1:
+        if be & 0xf == 0x0 or be & 0xf == 0x1:
+            # zero-length request has a byte count of 1
             return 3
         elif be & 0xe == 0x2:
             return 2
-- 
2.43.0


From 66e11dd632b8c92820e32030f07255f0e835df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 04/38] fix: discard late and spurious completions instead of
 queueing them

A completion arriving after its request timed out stayed in the queue of its
tag, held its flow control credit and was taken for the completion of the
next request using the tag.
---
 cocotbext/pcie/core/function.py | 8 ++++++++
 cocotbext/pcie/core/rc.py       | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index aa0e251..4b04c33 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -448,6 +448,11 @@ class Function:
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
             # completion
+            if not self.tag_active[tlp.tag]:
+                # late or spurious completion, no request is waiting for it
+                self.log.warning("Unexpected completion: no outstanding request for tag: %r", tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
@@ -501,6 +506,9 @@ class Function:
 
     def release_tag(self, tag):
         assert self.tag_active[tag]
+        # discard any leftover completions so they are not matched with a later request
+        while not self.rx_cpl_queues[tag].empty():
+            self.rx_cpl_queues[tag].get_nowait().release_fc()
         self.tag_active[tag] = False
         self.tag_release.set()
 
diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index 8c905ca..c4bd48d 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -207,6 +207,11 @@ class RootComplex(Switch):
 
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
+            if not self.tag_active[tlp.tag]:
+                # late or spurious completion, no request is waiting for it
+                self.log.warning("Unexpected completion: no outstanding request for tag: %r", tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
@@ -258,6 +263,9 @@ class RootComplex(Switch):
 
     def release_tag(self, tag):
         assert self.tag_active[tag]
+        # discard any leftover completions so they are not matched with a later request
+        while not self.rx_cpl_queues[tag].empty():
+            self.rx_cpl_queues[tag].get_nowait().release_fc()
         self.tag_active[tag] = False
         self.tag_release.set()
 
-- 
2.43.0


From c66b8335a5cf739d3095bfc919b2ea0aa3061c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 05/38] fix: answer unclaimed requests from downstream instead
 of sending them back downstream

The root complex looks up requests that arrive from downstream in its own
address spaces, where its downstream windows are registered too.  A request
that no port claimed was therefore issued again, downstream, by the root
complex itself; with all tags in use on both sides this could not finish.
Such requests are now treated as unsupported.
---
 cocotbext/pcie/core/rc.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index c4bd48d..155c388 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -309,11 +309,23 @@ class RootComplex(Switch):
 
         return completions
 
+    def find_mem_regions(self, addr, length):
+        """Find memory regions that can serve a request from downstream"""
+        # requests that no port claimed must not be sent back downstream
+        return [r for r in self.mem_address_space.find_regions(addr, length)
+            if not (r[3] is self.mem_region and r[2] is None)]
+
+    def find_io_regions(self, addr, length):
+        """Find IO regions that can serve a request from downstream"""
+        # requests that no port claimed must not be sent back downstream
+        return [r for r in self.io_address_space.find_regions(addr, length)
+            if not (r[3] is self.io_region and r[2] is None)]
+
     async def handle_io_read_tlp(self, tlp):
         self.log.info("IO read, address 0x%08x, BE 0x%x, tag %d",
                 tlp.address, tlp.first_be, tlp.tag)
 
-        if not self.io_address_space.find_regions(tlp.address, tlp.length*4):
+        if not self.find_io_regions(tlp.address, tlp.length*4):
             self.log.warning("IO request did not match any regions: %r", tlp)
 
             # Unsupported request
@@ -375,7 +387,7 @@ class RootComplex(Switch):
         self.log.info("IO write, address 0x%08x, BE 0x%x, tag %d, data 0x%08x",
                 tlp.address, tlp.first_be, tlp.tag, int.from_bytes(tlp.get_data(), 'little'))
 
-        if not self.io_address_space.find_regions(tlp.address, tlp.length*4):
+        if not self.find_io_regions(tlp.address, tlp.length*4):
             self.log.warning("IO request did not match any regions: %r", tlp)
 
             # Unsupported request
@@ -435,7 +447,7 @@ class RootComplex(Switch):
         self.log.info("Memory read, address 0x%08x, length %d, BE 0x%x/0x%x, tag %d",
                 tlp.address, tlp.length, tlp.first_be, tlp.last_be, tlp.tag)
 
-        if not self.mem_address_space.find_regions(tlp.address, tlp.length*4):
+        if not self.find_mem_regions(tlp.address, tlp.length*4):
             self.log.warning("Memory request did not match any regions: %r", tlp)
 
             # Unsupported request
@@ -504,7 +516,7 @@ class RootComplex(Switch):
         self.log.info("Memory write, address 0x%08x, length %d, BE 0x%x/0x%x",
                 tlp.address, tlp.length, tlp.first_be, tlp.last_be)
 
-        if not self.mem_address_space.find_regions(tlp.address, tlp.length*4):
+        if not self.find_mem_regions(tlp.address, tlp.length*4):
             self.log.warning("Memory request did not match any regions: %r", tlp)
             return
 
-- 
2.43.0


From 67c4815c8a3ea01524df38f452d5226f8e6a1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 06/38] fix: align bridge window bases to what the bridge
 registers can hold

A bridge with its own BARs or expansion ROM, or one that follows a device
on the same bus, got a window whose base was not a multiple of 4 KiB (I/O)
or 1 MiB (memory).  The bridge registers truncate it, so that the bridge
claimed addresses assigned outside its secondary bus.
---
 cocotbext/pcie/core/pci.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index dd9ccc0..57a7a2e 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -234,11 +234,12 @@ class PciBus:
             await dev.assign_resources()
 
             if dev.subordinate:
-                dev.io_base = self.bridge.io_limit
+                # align bases against bridge registers
+                dev.io_base = align(self.bridge.io_limit, 0xfff)
                 dev.io_limit = dev.io_base
-                dev.mem_base = self.bridge.mem_limit
+                dev.mem_base = align(self.bridge.mem_limit, 0xfffff)
                 dev.mem_limit = dev.mem_base
-                dev.prefetchable_mem_base = self.bridge.prefetchable_mem_limit
+                dev.prefetchable_mem_base = align(self.bridge.prefetchable_mem_limit, 0xfffff)
                 dev.prefetchable_mem_limit = dev.prefetchable_mem_base
 
                 await dev.subordinate.assign_resources()
-- 
2.43.0


From 21b4eb4e5c7b77e5d58676440826de16de220484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 07/38] fix: match 64 bit BARs of 4 GB and more

The low half of such a BAR has no writable address bits and was taken for
an unimplemented BAR, so that no request ever matched.
---
 cocotbext/pcie/core/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 4b04c33..4c35ec3 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -362,8 +362,8 @@ class Function:
             orig_bar = bar
             bar += 1
 
-            if bar_mask == 0:
-                # unimplemented BAR
+            if bar_mask == 0 and not bar_val & 4:
+                # unimplemented BAR (the low half of a large 64 bit BAR has no writable bits, either)
                 continue
 
             if bar_val & 1:
-- 
2.43.0


From 10e801feac05569c1e4a29f79e07fc65f29e6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 08/38] fix: field positions in the link capabilities register

---
 cocotbext/pcie/core/caps/pcie.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 1fb910d..dd9acf3 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -295,10 +295,10 @@ class PcieCapability(PciCap):
         elif reg == 3:
             # Link capabilities
             val = self.max_link_speed & 0xf
-            val |= (self.max_link_width & 0x3f) >> 4
-            val |= (self.aspm_support & 0x3) >> 10
-            val |= (self.l0s_exit_latency & 0x7) >> 12
-            val |= (self.l1_exit_latency & 0x7) >> 15
+            val |= (self.max_link_width & 0x3f) << 4
+            val |= (self.aspm_support & 0x3) << 10
+            val |= (self.l0s_exit_latency & 0x7) << 12
+            val |= (self.l1_exit_latency & 0x7) << 15
             val |= bool(self.clock_power_management) << 18
             val |= bool(self.surprise_down_error_reporting_capability) << 19
             val |= bool(self.data_link_layer_link_active_reporting_capable) << 20
-- 
2.43.0


From 614e912f455a717e826da4c0bca03bdf7a463e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 09/38] fix: write-one-to-clear bits of the slot status and
 link status 2 registers

---
 cocotbext/pcie/core/caps/pcie.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index dd9acf3..c110f89 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -449,7 +449,7 @@ class PcieCapability(PciCap):
             val |= bool(self.retimer_presence_detected) << 22
             val |= bool(self.two_retimers_presence_detected) << 23
             val |= (self.crosslink_resolution & 0x3) << 24
-            val |= (self.downstream_component_presence & 0x7) << 27
+            val |= (self.downstream_component_presence & 0x7) << 28
             val |= bool(self.drs_message_received) << 31
             return val
         else:
@@ -535,6 +535,7 @@ class PcieCapability(PciCap):
                     self.presence_detect_changed = False
                 if data & 1 << 20:
                     self.command_completed = False
+            if mask & 0x8:
                 if data & 1 << 24:
                     self.data_link_layer_state_changed = False
         elif reg == 7:
@@ -578,10 +579,12 @@ class PcieCapability(PciCap):
                 self.transmit_margin = self.transmit_margin & 0x1 | (data >> 7) & 0x6
                 self.enter_modified_compliance = bool(data & 1 << 10)
                 self.compliance_sos = bool(data & 1 << 11)
-                self.compliance_preset_deemphasis = (data >> 12) & 0xff
+                self.compliance_preset_deemphasis = (data >> 12) & 0xf
             # Link status 2
             if mask & 0x4:
-                self.link_equalization_8gt_request = bool(data & 1 << 21)
+                if data & 1 << 21:
+                    self.link_equalization_8gt_request = False
+            if mask & 0x8:
                 if data & 1 << 31:
                     self.drs_message_received = False
 
-- 
2.43.0


From e8f6045d33f071ae93084256f38fe19d6fe76d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 10/38] fix: lane index of the lane equalization control
 registers

---
 cocotbext/pcie/core/caps/pcie.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index c110f89..ba9b0f7 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -639,16 +639,16 @@ class PcieExtendedCapability(PciExtCap):
         elif reg == 2:
             # Lane Error Status
             return self.lane_error_status & 0xffffffff
-        elif reg < 18:
+        elif 3 <= reg < 19:
             # Lane equalization control
-            val = self.downstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 4
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf) << 8
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 12
-            val |= (self.downstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 16
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 20
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 24
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 28
+            val = self.downstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 4
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf) << 8
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 12
+            val |= (self.downstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 16
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 20
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 24
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 28
             return val
         else:
             return 0
-- 
2.43.0


From 8637ff9880bcf85886c86bf9cdf7ead421bf48cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 11/38] fix: overlapping capabilities and stale next pointers
 in capability lists

---
 cocotbext/pcie/core/caps/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index 91f08b5..c6e34c2 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -196,7 +196,7 @@ class PciCapList:
         else:
             cap.offset = self.start
             for c in self.list:
-                if c.offset < cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
+                if c.offset <= cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
                     cap.offset = c.offset+c.length
 
         self.list.append(cap)
@@ -219,9 +219,10 @@ class PciCapList:
         self.list.sort(key=lambda x: x.offset)
 
         # update list next cap pointers
-        for k in range(1, len(self.list)):
-            self.list[k-1].next_cap = self.list[k].offset*4
+        for k in range(len(self.list)):
             self.list[k].next_cap = 0
+            if k > 0:
+                self.list[k-1].next_cap = self.list[k].offset*4
 
 
 class PciExtCapList(PciCapList):
-- 
2.43.0


From 771ac29c2065c931cd5d06a7f0d26256bf5fc389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 12/38] fix: update the capabilities pointer when a capability
 is removed

---
 cocotbext/pcie/core/function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 4c35ec3..672c674 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -308,14 +308,18 @@ class Function:
     def register_capability(self, cap, offset=None):
         cap.parent = self
         self.capabilities.register(cap, offset)
+        self._update_capabilities_ptr()
+
+    def deregister_capability(self, cap):
+        self.capabilities.deregister(cap)
+        self._update_capabilities_ptr()
+
+    def _update_capabilities_ptr(self):
         if self.capabilities.list:
             self.capabilities_ptr = self.capabilities.list[0].offset*4
         else:
             self.capabilities_ptr = 0
 
-    def deregister_capability(self, cap):
-        self.capabilities.deregister(cap)
-
     async def read_extended_capability_register(self, reg):
         return await self.ext_capabilities.read_register(reg)
 
-- 
2.43.0


From 2825fac8f30e968611d519ceb52003867dd8b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 13/38] fix: read unimplemented registers of the MSI and MSI-X
 capabilities as zero

---
 cocotbext/pcie/core/caps/msi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index ec91226..dea431e 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -135,6 +135,8 @@ class MsiCapability(PciCap):
         elif reg == (5 if self.msi_64bit_address_capable else 4) and self.msi_per_vector_mask_capable:
             # Pending bits
             return self.msi_pending_bits & 0xffffffff
+        else:
+            return 0
 
     async def _write_register(self, reg, data, mask):
         if reg == 0:
@@ -220,6 +222,8 @@ class MsixCapability(PciCap):
             val = self.msix_pba_bar_indicator_register & 0x7
             val |= self.msix_pba_offset & 0xfffffff8
             return val
+        else:
+            return 0
 
     async def _write_register(self, reg, data, mask):
         if reg == 0:
-- 
2.43.0


From e1455c60e98cae8c6f8945f2c12aff422a5bea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 14/38] fix: MSI extended message data enable follows its own
 bit

---
 cocotbext/pcie/core/caps/msi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index dea431e..572105a 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -144,8 +144,9 @@ class MsiCapability(PciCap):
             if mask & 0x4:
                 self.msi_enable = bool(data & 1 << 16)
                 self.msi_multiple_message_enable = (data >> 20) & 0x7
+            if mask & 0x8:
                 if self.msi_extended_message_data_capable:
-                    self.msi_extended_message_data_enable = bool(data & 1 << 16)
+                    self.msi_extended_message_data_enable = bool(data & 1 << 26)
         elif reg == 1:
             # Message address
             self.msi_message_address = byte_mask_update(self.msi_message_address, mask, data & 0xfffffffc)
-- 
2.43.0


From 4aba167a130c39d5324292cb6fe08c7315537bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 15/38] fix: start BIST only when the BIST byte is written

---
 cocotbext/pcie/core/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 672c674..9850316 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -285,7 +285,7 @@ class Function:
             if mask & 1:
                 # Cache line size
                 self.cache_line_size = data & 0xff
-            if mask & 4:
+            if mask & 8:
                 # BIST
                 self.start_bist = bool(data & 1 << 30)
         elif reg == 15:
-- 
2.43.0


From aa342b7cbf6053e2424a097f8dfad599ce3dfc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 16/38] fix: the power management data scale field is read-only

---
 cocotbext/pcie/core/caps/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/pm.py b/cocotbext/pcie/core/caps/pm.py
index 1885be9..01fb887 100644
--- a/cocotbext/pcie/core/caps/pm.py
+++ b/cocotbext/pcie/core/caps/pm.py
@@ -96,6 +96,5 @@ class PmCapability(PciCap):
             if mask & 0x2:
                 self.pme_enable = bool(data & 1 << 8)
                 self.data_select = (data >> 9) & 0xf
-                self.data_scale = (data >> 13) & 0x3
                 if data & 1 << 15:
                     self.pme_status = False
-- 
2.43.0


From 19ab6401b0dd662f903ee830799710182de27d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 17/38] fix: width of the AER first error pointer

---
 cocotbext/pcie/core/caps/aer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index 45c99d8..b8082bb 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -258,7 +258,7 @@ class AerExtendedCapability(PciExtCap):
             return val
         elif reg == 6:
             # Advanced error capabilities and control
-            val = self.first_error_pointer & 0xf
+            val = self.first_error_pointer & 0x1f
             val |= bool(self.ecrc_generation_capable) << 5
             val |= bool(self.ecrc_generation_enable) << 6
             val |= bool(self.ecrc_check_capable) << 7
-- 
2.43.0


From 6540726fb52e21d91b8e0e3a5984a49fcbc894a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 18/38] fix: bit order of the AER root error command register

---
 cocotbext/pcie/core/caps/aer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index b8082bb..8831147 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -273,9 +273,9 @@ class AerExtendedCapability(PciExtCap):
             return self.header_log[reg-7] & 0xffffffff
         elif reg == 11:
             # Root error command
-            val = bool(self.fatal_error_reporting_enable)
+            val = bool(self.correctable_error_reporting_enable)
             val |= bool(self.nonfatal_error_reporting_enable) << 1
-            val |= bool(self.correctable_error_reporting_enable) << 2
+            val |= bool(self.fatal_error_reporting_enable) << 2
             return val
         elif reg == 12:
             # Root error status
@@ -428,10 +428,9 @@ class AerExtendedCapability(PciExtCap):
         elif reg == 11:
             # Root error command
             if mask & 0x1:
-                self.fatal_error_reporting_enable = bool(data & 1 << 0)
+                self.correctable_error_reporting_enable = bool(data & 1 << 0)
                 self.nonfatal_error_reporting_enable = bool(data & 1 << 1)
-                self.correctable_error_reporting_enable = bool(data & 1 << 2)
-            pass
+                self.fatal_error_reporting_enable = bool(data & 1 << 2)
         elif reg == 12:
             # Root error status
             if mask & 0x1:
-- 
2.43.0


From c4f0394b87b40e339abc07fa578fae57d8547f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 19/38] fix: keep the base message number of every MSI
 allocation aligned to 32

---
 cocotbext/pcie/core/msi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/msi.py b/cocotbext/pcie/core/msi.py
index 6d97bb7..2d69f7d 100644
--- a/cocotbext/pcie/core/msi.py
+++ b/cocotbext/pcie/core/msi.py
@@ -57,7 +57,7 @@ class MsiRegion(Region):
             self.msi_vectors[vec.data] = vec
             self.msi_msg_limit += 1
 
-        self.msi_msg_limit += self.msi_msg_limit % 32
+        self.msi_msg_limit += -self.msi_msg_limit % 32
 
         return vecs
 
-- 
2.43.0


From de6eea23b3017abbde2c4827c6369bfdf4055f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 20/38] fix: allocate more MSI vectors when the existing ones
 are too few

---
 cocotbext/pcie/core/pci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 57a7a2e..8f6a395 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -842,7 +842,7 @@ class PciDevice:
         await self.msi_set_enable(False)
         self.msi_enabled = True
 
-        if not self.msi_vectors:
+        if len(self.msi_vectors) < 32:
             self.msi_vectors = self.rc.msi_alloc_vectors(32)
 
         msg_ctrl = await self.capability_read_dword(PciCapId.MSI, 0)
@@ -966,7 +966,7 @@ class PciDevice:
         self.rc.log.info("pci %s: MSI-X PBA BIR: %d", self.pcie_id, pba_bir)
         self.rc.log.info("pci %s: MSI-X PBA offset: 0x%08x", self.pcie_id, pba_offset)
 
-        if not self.msi_vectors:
+        if len(self.msi_vectors) < table_size:
             self.msi_vectors = self.rc.msi_alloc_vectors(table_size)
 
         # configure vectors
-- 
2.43.0


From 097d3623306750b43a190e01fd2197d5260f1d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 21/38] fix: S10 RX func_num is two bits per segment

---
 cocotbext/pcie/intel/s10/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/interface.py b/cocotbext/pcie/intel/s10/interface.py
index fab4a5e..13d5aa4 100644
--- a/cocotbext/pcie/intel/s10/interface.py
+++ b/cocotbext/pcie/intel/s10/interface.py
@@ -447,7 +447,7 @@ class S10PcieSource(S10PcieBase):
                         transaction.sop |= 1 << seg
 
                     transaction.bar_range |= frame.bar_range << seg*3
-                    transaction.func_num |= frame.func_num << seg*3
+                    transaction.func_num |= frame.func_num << seg*2
                     if frame.vf_num is not None:
                         transaction.vf_active |= 1 << seg
                         transaction.vf_num |= frame.vf_num << seg*11
@@ -612,7 +612,7 @@ class S10PcieSink(S10PcieBase):
                         dword_count += count
 
                     frame.bar_range = (int(sample.bar_range) >> seg*3) & 0x7
-                    frame.func_num = (int(sample.func_num) >> seg*3) & 0x7
+                    frame.func_num = (int(sample.func_num) >> seg*2) & 0x3
                     if int(sample.vf_active) & (1 << seg):
                         frame.vf_num = (int(sample.vf_num) >> seg*11) & 0x7ff
                     frame.err = (int(sample.err) >> seg) & 0x1
-- 
2.43.0


From 02da85f35953ac83274c2ca7b47dbafa7aed9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 22/38] fix: drive and sample tlp_abort on the P-Tile RX
 interface

---
 cocotbext/pcie/intel/ptile/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/intel/ptile/interface.py b/cocotbext/pcie/intel/ptile/interface.py
index cdf0c85..04af50c 100644
--- a/cocotbext/pcie/intel/ptile/interface.py
+++ b/cocotbext/pcie/intel/ptile/interface.py
@@ -489,6 +489,7 @@ class PTilePcieSource(PTilePcieBase):
                     if frame.vf_num is not None:
                         transaction.vf_active |= 1 << seg
                         transaction.vf_num |= frame.vf_num << seg*11
+                    transaction.tlp_abort |= frame.tlp_abort << seg
                     transaction.err |= frame.err << seg
 
                     empty = 0
@@ -651,6 +652,7 @@ class PTilePcieSink(PTilePcieBase):
                     frame.func_num = (int(sample.func_num) >> seg*3) & 0x7
                     if int(sample.vf_active) & (1 << seg):
                         frame.vf_num = (int(sample.vf_num) >> seg*11) & 0x7ff
+                    frame.tlp_abort = (int(sample.tlp_abort) >> seg) & 0x1
                     frame.err = (int(sample.err) >> seg) & 0x1
 
                 assert frame is not None, "framing error: data transferred outside of frame"
-- 
2.43.0


From c21daad204ba0559b910536a45dc67ee95016c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 23/38] fix: clear the ready delay line of the Intel streaming
 interfaces in reset

---
 cocotbext/pcie/intel/ptile/interface.py | 2 ++
 cocotbext/pcie/intel/s10/interface.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cocotbext/pcie/intel/ptile/interface.py b/cocotbext/pcie/intel/ptile/interface.py
index 04af50c..1b30fc6 100644
--- a/cocotbext/pcie/intel/ptile/interface.py
+++ b/cocotbext/pcie/intel/ptile/interface.py
@@ -433,6 +433,7 @@ class PTilePcieSource(PTilePcieBase):
             if self.reset is not None and self.reset.value:
                 self.active = False
                 self.bus.valid.value = 0
+                ready_delay = []
                 continue
 
             # ready delay
@@ -597,6 +598,7 @@ class PTilePcieSink(PTilePcieBase):
 
             if self.reset is not None and self.reset.value:
                 self.bus.ready.value = 0
+                ready_delay = []
                 continue
 
             # ready delay
diff --git a/cocotbext/pcie/intel/s10/interface.py b/cocotbext/pcie/intel/s10/interface.py
index 13d5aa4..a7d0e13 100644
--- a/cocotbext/pcie/intel/s10/interface.py
+++ b/cocotbext/pcie/intel/s10/interface.py
@@ -399,6 +399,7 @@ class S10PcieSource(S10PcieBase):
             if self.reset is not None and self.reset.value:
                 self.active = False
                 self.bus.valid.value = 0
+                ready_delay = []
                 continue
 
             # ready delay
@@ -558,6 +559,7 @@ class S10PcieSink(S10PcieBase):
 
             if self.reset is not None and self.reset.value:
                 self.bus.ready.value = 0
+                ready_delay = []
                 continue
 
             # ready delay
-- 
2.43.0


From 3523eab2a528d1eedabe7cd5a393503f674774fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 24/38] fix: send UltraScale requests that wait for a tag when
 a tag is released

---
 cocotbext/pcie/xilinx/us/us_model.py  | 1 +
 cocotbext/pcie/xilinx/us/usp_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index fc72913..addd99f 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -878,6 +878,7 @@ class UltraScalePcieDevice(Device):
                         self.local_error = True
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 924d5e5..0d36bd0 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1022,6 +1022,7 @@ class UltraScalePlusPcieDevice(Device):
                         self.local_error.put_nowait(LocalError.RX_CPL_BUF_OVF_ERR)
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
-- 
2.43.0


From cbfaffff67681ce3efe70f6374da7ffe66126f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 25/38] fix: keep UltraScale non-posted requests in order while
 the oldest one waits for a tag

---
 cocotbext/pcie/xilinx/us/us_model.py  | 5 ++++-
 cocotbext/pcie/xilinx/us/usp_model.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index addd99f..1b216ea 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -335,6 +335,7 @@ class UltraScalePcieDevice(Device):
 
         self.rq_np_queue = Queue()
         self.rq_np_queue_dequeue = Event()
+        self.rq_np_queue_active = False
         self.rq_np_limit = 16
 
         # PG156 lists 64 CPLH and "15872B CPLD"
@@ -1037,7 +1038,7 @@ class UltraScalePcieDevice(Device):
             if tlp.is_nonposted():
                 # non-posted request
 
-                if self.rq_np_queue.empty() and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
+                if self.rq_np_queue.empty() and not self.rq_np_queue_active and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
                     # queue empty and have data credits; skip queue and send immediately to preserve ordering
 
                     if not self.functions[tlp.requester_id.function].bus_master_enable:
@@ -1085,7 +1086,9 @@ class UltraScalePcieDevice(Device):
 
     async def _run_rq_np_queue_logic(self):
         while True:
+            self.rq_np_queue_active = False
             tlp = await self.rq_np_queue.get()
+            self.rq_np_queue_active = True
             self.rq_np_queue_dequeue.set()
 
             while True:
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 0d36bd0..8addf37 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -388,6 +388,7 @@ class UltraScalePlusPcieDevice(Device):
 
         self.rq_np_queue = Queue()
         self.rq_np_queue_dequeue = Event()
+        self.rq_np_queue_active = False
         self.rq_np_limit = 16
 
         # PG213 lists 128 CPLH and "32768B CPLD"
@@ -1177,7 +1178,7 @@ class UltraScalePlusPcieDevice(Device):
             if tlp.is_nonposted():
                 # non-posted request
 
-                if self.rq_np_queue.empty() and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
+                if self.rq_np_queue.empty() and not self.rq_np_queue_active and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
                     # queue empty and have data credits; skip queue and send immediately to preserve ordering
 
                     if not self.functions[tlp.requester_id.function].bus_master_enable:
@@ -1225,7 +1226,9 @@ class UltraScalePlusPcieDevice(Device):
 
     async def _run_rq_np_queue_logic(self):
         while True:
+            self.rq_np_queue_active = False
             tlp = await self.rq_np_queue.get()
+            self.rq_np_queue_active = True
             self.rq_np_queue_dequeue.set()
 
             while True:
-- 
2.43.0


From 8eb2ac6fb45a2a8166c0a1e4cc913af349fc02c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 26/38] fix: count only usable tags as available in the
 UltraScale models

---
 cocotbext/pcie/xilinx/us/us_model.py  | 7 +++----
 cocotbext/pcie/xilinx/us/usp_model.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 1b216ea..5022f30 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -761,10 +761,9 @@ class UltraScalePcieDevice(Device):
         return None
 
     def get_available_tag_count(self):
-        if self.functions[0].pcie_cap.extended_tag_field_enable:
-            return self.active_request.count(None)
-        else:
-            return self.active_request[0:32].count(None)
+        tag_count = min(256 if self.functions[0].pcie_cap.extended_tag_field_enable else 32, self.tag_count)
+
+        return self.active_request[0:tag_count].count(None)
 
     async def upstream_recv(self, tlp):
         self.log.debug("Got downstream TLP: %r", tlp)
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 8addf37..fb3d35a 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -905,10 +905,9 @@ class UltraScalePlusPcieDevice(Device):
         return None
 
     def get_available_tag_count(self):
-        if self.functions[0].pcie_cap.extended_tag_field_enable:
-            return self.active_request.count(None)
-        else:
-            return self.active_request[0:32].count(None)
+        tag_count = min(256 if self.functions[0].pcie_cap.extended_tag_field_enable else 32, self.tag_count)
+
+        return self.active_request[0:tag_count].count(None)
 
     async def upstream_recv(self, tlp):
         self.log.debug("Got downstream TLP: %r", tlp)
-- 
2.43.0


From 52247412de543b3ad981523f3be1386f524992c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 27/38] fix: ignore the tag of UltraScale requests when the
 core assigns tags

---
 cocotbext/pcie/xilinx/us/us_model.py  | 5 ++++-
 cocotbext/pcie/xilinx/us/usp_model.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 5022f30..20bda51 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -1045,7 +1045,10 @@ class UltraScalePcieDevice(Device):
                         # TODO: internal response
                         continue
 
-                    if self.functions[0].pcie_cap.extended_tag_field_enable:
+                    if not self.enable_client_tag:
+                        # tag will be assigned by the core
+                        pass
+                    elif self.functions[0].pcie_cap.extended_tag_field_enable:
                         assert tlp.tag < 64, "tag out of range (extended tags enabled)"
                     else:
                         assert tlp.tag < 32, "tag out of range (extended tags disabled)"
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index fb3d35a..2b78a8f 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1185,7 +1185,10 @@ class UltraScalePlusPcieDevice(Device):
                         # TODO: internal response
                         continue
 
-                    if self.functions[0].pcie_cap.extended_tag_field_enable:
+                    if not self.enable_client_tag:
+                        # tag will be assigned by the core
+                        pass
+                    elif self.functions[0].pcie_cap.extended_tag_field_enable:
                         assert tlp.tag < 256, "tag out of range (extended tags enabled)"
                     else:
                         assert tlp.tag < 32, "tag out of range (extended tags disabled)"
-- 
2.43.0


From bdda725d3ba5cce60727ed96986e54bdc1eb4029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 28/38] fix: do not lose UltraScale non-posted request credit
 while the CQ stream is stalled

---
 cocotbext/pcie/xilinx/us/us_model.py  | 17 ++++++++++++-----
 cocotbext/pcie/xilinx/us/usp_model.py | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 20bda51..6ffd153 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -735,6 +735,7 @@ class UltraScalePcieDevice(Device):
         if self.rc_source:
             cocotb.start_soon(self._run_rc_logic())
         if self.cq_source:
+            cocotb.start_soon(self._run_cq_np_req_logic())
             cocotb.start_soon(self._run_cq_logic())
         if self.cc_sink:
             cocotb.start_soon(self._run_cc_logic())
@@ -975,7 +976,7 @@ class UltraScalePcieDevice(Device):
             # pcie_perstn0_out
             # pcie_perstn1_out
 
-    async def _run_cq_logic(self):
+    async def _run_cq_np_req_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
 
         while True:
@@ -985,6 +986,16 @@ class UltraScalePcieDevice(Device):
             if self.pcie_cq_np_req is None or self.pcie_cq_np_req.value:
                 self.cq_np_req_count = min(self.cq_np_req_count+1, 32)
 
+            # output new cq_np_req_count
+            if self.pcie_cq_np_req_count is not None:
+                self.pcie_cq_np_req_count.value = self.cq_np_req_count
+
+    async def _run_cq_logic(self):
+        clock_edge_event = RisingEdge(self.user_clk)
+
+        while True:
+            await clock_edge_event
+
             # handle completer requests
             # send any queued non-posted requests first
             while not self.cq_np_queue.empty() and self.cq_np_req_count > 0:
@@ -1009,10 +1020,6 @@ class UltraScalePcieDevice(Device):
                     # posted request
                     await self.cq_source.send(tlp.pack_us_cq())
 
-            # output new cq_np_req_count
-            if self.pcie_cq_np_req_count is not None:
-                self.pcie_cq_np_req_count.value = self.cq_np_req_count
-
     async def _run_cc_logic(self):
         while True:
             tlp = Tlp_us.unpack_us_cc(await self.cc_sink.recv(), self.enable_parity)
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 2b78a8f..f703755 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -879,6 +879,7 @@ class UltraScalePlusPcieDevice(Device):
         if self.rc_source:
             cocotb.start_soon(self._run_rc_logic())
         if self.cq_source:
+            cocotb.start_soon(self._run_cq_np_req_logic())
             cocotb.start_soon(self._run_cq_logic())
         if self.cc_sink:
             cocotb.start_soon(self._run_cc_logic())
@@ -1115,7 +1116,7 @@ class UltraScalePlusPcieDevice(Device):
             else:
                 return
 
-    async def _run_cq_logic(self):
+    async def _run_cq_np_req_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
 
         while True:
@@ -1125,6 +1126,16 @@ class UltraScalePlusPcieDevice(Device):
             if self.pcie_cq_np_req is None or self.pcie_cq_np_req.value:
                 self.cq_np_req_count = min(self.cq_np_req_count+1, 32)
 
+            # output new cq_np_req_count
+            if self.pcie_cq_np_req_count is not None:
+                self.pcie_cq_np_req_count.value = self.cq_np_req_count
+
+    async def _run_cq_logic(self):
+        clock_edge_event = RisingEdge(self.user_clk)
+
+        while True:
+            await clock_edge_event
+
             # handle completer requests
             # send any queued non-posted requests first
             while not self.cq_np_queue.empty() and self.cq_np_req_count > 0:
@@ -1149,10 +1160,6 @@ class UltraScalePlusPcieDevice(Device):
                     # posted request
                     await self.cq_source.send(tlp.pack_us_cq())
 
-            # output new cq_np_req_count
-            if self.pcie_cq_np_req_count is not None:
-                self.pcie_cq_np_req_count.value = self.cq_np_req_count
-
     async def _run_cc_logic(self):
         while True:
             tlp = Tlp_us.unpack_us_cc(await self.cc_sink.recv(), self.enable_parity)
-- 
2.43.0


From 8b99ac94905e218331f8e4046794e8e05ff9f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 29/38] fix: present UltraScale requests on the function they
 address

---
 cocotbext/pcie/xilinx/us/us_model.py  | 2 +-
 cocotbext/pcie/xilinx/us/usp_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 6ffd153..3dd0a24 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -923,7 +923,7 @@ class UltraScalePcieDevice(Device):
                             (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
                         tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index f703755..6bc98bf 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1043,7 +1043,7 @@ class UltraScalePlusPcieDevice(Device):
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
                     tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
-- 
2.43.0


From bbf591142e96c98cd8714de118ffcd6b266224d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 30/38] fix: BAR aperture of UltraScale requests to functions
 other than 0

---
 cocotbext/pcie/xilinx/us/us_model.py  | 10 +++++-----
 cocotbext/pcie/xilinx/us/usp_model.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 3dd0a24..ef9faa5 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -898,7 +898,7 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
@@ -918,11 +918,11 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 6bc98bf..1a147b5 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1042,7 +1042,7 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
@@ -1062,11 +1062,11 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
-- 
2.43.0


From f4dfbb4222b63ddb611ac0c2e82770a1694aab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 31/38] fix: number of MSI vectors of functions 2 and 3

---
 cocotbext/pcie/intel/s10/s10_model.py | 4 ++--
 cocotbext/pcie/xilinx/us/usp_model.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 824d4a8..8234467 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -553,7 +553,7 @@ class S10PcieDevice(Device):
             self.make_function()
 
             if self.pf2_msi_enable:
-                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-2).bit_length()
+                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-1).bit_length()
             else:
                 self.functions[2].deregister_capability(self.functions[2].msi_cap)
 
@@ -570,7 +570,7 @@ class S10PcieDevice(Device):
             self.make_function()
 
             if self.pf3_msi_enable:
-                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-3).bit_length()
+                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-1).bit_length()
             else:
                 self.functions[3].deregister_capability(self.functions[3].msi_cap)
 
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 1a147b5..cdc4142 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -828,7 +828,7 @@ class UltraScalePlusPcieDevice(Device):
             self.make_function()
 
             if self.pf2_msi_enable:
-                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-2).bit_length()
+                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-1).bit_length()
             else:
                 self.functions[2].deregister_capability(self.functions[2].msi_cap)
 
@@ -845,7 +845,7 @@ class UltraScalePlusPcieDevice(Device):
             self.make_function()
 
             if self.pf3_msi_enable:
-                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-3).bit_length()
+                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-1).bit_length()
             else:
                 self.functions[3].deregister_capability(self.functions[3].msi_cap)
 
-- 
2.43.0


From 20895f14cf0473b8fd92f173805678ffbdec2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 32/38] fix: receive credits consumed on the UltraScale+ flow
 control interface

---
 cocotbext/pcie/xilinx/us/usp_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index cdc4142..f9895ce 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1476,12 +1476,12 @@ class UltraScalePlusPcieDevice(Device):
 
             if (sel == 0b010):
                 # Receive credits consumed
-                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_consumed
-                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_consumed
-                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_consumed
-                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_consumed
-                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_consumed
-                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_consumed
+                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_received
+                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_received
+                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_received
+                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_received
+                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_received
+                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_received
             elif (sel == 0b100):
                 # Transmit credits available
                 cfg_fc_ph = self.upstream_port.fc_state[0].ph.tx_credits_available
-- 
2.43.0


From 3a6021d5ecd75ae5512d195d2c0465998b18f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 33/38] fix: MSI enables of functions 2 and 3 on UltraScale+

---
 cocotbext/pcie/xilinx/us/usp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index f9895ce..030d85c 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1611,7 +1611,7 @@ class UltraScalePlusPcieDevice(Device):
             # MSI
             if self.cfg_interrupt_msi_enable is not None:
                 val = 0
-                for k in range(min(len(self.functions), 2)):
+                for k in range(min(len(self.functions), 4)):
                     if self.functions[k].msi_cap.msi_enable:
                         val |= 1 << k
                 self.cfg_interrupt_msi_enable.value = val
@@ -1630,7 +1630,7 @@ class UltraScalePlusPcieDevice(Device):
 
             if self.cfg_interrupt_msi_mmenable is not None:
                 val = 0
-                for k in range(min(len(self.functions), 2)):
+                for k in range(min(len(self.functions), 4)):
                     val |= (self.functions[k].msi_cap.msi_multiple_message_enable & 0x7) << k*3
                 self.cfg_interrupt_msi_mmenable.value = val
 
-- 
2.43.0


From 3e882da70aa74d9637147a6eff8229be84480fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 34/38] fix: IO and memory space enable bits of the UltraScale
 function status

---
 cocotbext/pcie/xilinx/us/us_model.py  | 6 +++++-
 cocotbext/pcie/xilinx/us/usp_model.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index ef9faa5..ccbc756 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -1251,8 +1251,12 @@ class UltraScalePcieDevice(Device):
             if self.cfg_function_status is not None:
                 status = 0
                 for k in range(len(self.functions)):
+                    if self.functions[k].io_space_enable:
+                        status |= 0x01 << k*4
+                    if self.functions[k].memory_space_enable:
+                        status |= 0x02 << k*4
                     if self.functions[k].bus_master_enable:
-                        status |= 0x07 << k*4
+                        status |= 0x04 << k*4
                     if self.functions[k].interrupt_disable:
                         status |= 0x08 << k*4
                 self.cfg_function_status.value = status
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 030d85c..d93a60b 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1402,8 +1402,12 @@ class UltraScalePlusPcieDevice(Device):
             if self.cfg_function_status is not None:
                 status = 0
                 for k in range(len(self.functions)):
+                    if self.functions[k].io_space_enable:
+                        status |= 0x01 << k*4
+                    if self.functions[k].memory_space_enable:
+                        status |= 0x02 << k*4
                     if self.functions[k].bus_master_enable:
-                        status |= 0x07 << k*4
+                        status |= 0x04 << k*4
                     if self.functions[k].interrupt_disable:
                         status |= 0x08 << k*4
                 self.cfg_function_status.value = status
-- 
2.43.0


From 2d2d8f48b38e6d20f59a32b81ddf032d496bbb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 35/38] fix: report UltraScale interrupts that are not enabled
 as failed

---
 cocotbext/pcie/xilinx/us/us_model.py  | 28 +++++++++++++++++++--------
 cocotbext/pcie/xilinx/us/usp_model.py | 28 +++++++++++++++++++--------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index ccbc756..7ed292c 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -1501,10 +1501,16 @@ class UltraScalePcieDevice(Device):
             if msi_int:
                 bits = [i for i in range(32) if msi_int >> i & 1]
                 if len(bits) == 1 and msi_function_number < len(self.functions):
-                    self.log.info("Issue MSI interrupt (index %d)", bits[0])
-                    await self.functions[msi_function_number].msi_cap.issue_msi_interrupt(bits[0], attr=msi_attr)
-                    if self.cfg_interrupt_msi_sent is not None:
-                        self.cfg_interrupt_msi_sent.value = 1
+                    msi_cap = self.functions[msi_function_number].msi_cap
+                    if msi_cap.msi_enable and bits[0] < 2**min(msi_cap.msi_multiple_message_enable, msi_cap.msi_multiple_message_capable):
+                        self.log.info("Issue MSI interrupt (index %d)", bits[0])
+                        await msi_cap.issue_msi_interrupt(bits[0], attr=msi_attr)
+                        if self.cfg_interrupt_msi_sent is not None:
+                            self.cfg_interrupt_msi_sent.value = 1
+                    else:
+                        self.log.warning("Failed to issue MSI interrupt (index %d): not enabled", bits[0])
+                        if self.cfg_interrupt_msi_fail is not None:
+                            self.cfg_interrupt_msi_fail.value = 1
 
             if self.cfg_interrupt_msi_mmenable is not None:
                 val = 0
@@ -1548,10 +1554,16 @@ class UltraScalePcieDevice(Device):
                 self.cfg_interrupt_msix_fail.value = 0
             if msix_int:
                 if msi_function_number < len(self.functions):
-                    self.log.info("Issue MSI-X interrupt (addr 0x%08x, data 0x%08x)", msix_address, msix_data)
-                    await self.functions[msi_function_number].msix_cap.issue_msix_interrupt(msix_address, msix_data, attr=msi_attr)
-                    if self.cfg_interrupt_msix_sent is not None:
-                        self.cfg_interrupt_msix_sent.value = 1
+                    msix_cap = self.functions[msi_function_number].msix_cap
+                    if msix_cap.msix_enable:
+                        self.log.info("Issue MSI-X interrupt (addr 0x%08x, data 0x%08x)", msix_address, msix_data)
+                        await msix_cap.issue_msix_interrupt(msix_address, msix_data, attr=msi_attr)
+                        if self.cfg_interrupt_msix_sent is not None:
+                            self.cfg_interrupt_msix_sent.value = 1
+                    else:
+                        self.log.warning("Failed to issue MSI-X interrupt (addr 0x%08x, data 0x%08x): not enabled", msix_address, msix_data)
+                        if self.cfg_interrupt_msix_fail is not None:
+                            self.cfg_interrupt_msix_fail.value = 1
 
             # MSI/MSI-X
             # cfg_interrupt_msi_tph_present
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index d93a60b..b126076 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1627,10 +1627,16 @@ class UltraScalePlusPcieDevice(Device):
             if msi_int:
                 bits = [i for i in range(32) if msi_int >> i & 1]
                 if len(bits) == 1 and msi_function_number < len(self.functions):
-                    self.log.info("Issue MSI interrupt (index %d)", bits[0])
-                    await self.functions[msi_function_number].msi_cap.issue_msi_interrupt(bits[0], attr=msi_attr)
-                    if self.cfg_interrupt_msi_sent is not None:
-                        self.cfg_interrupt_msi_sent.value = 1
+                    msi_cap = self.functions[msi_function_number].msi_cap
+                    if msi_cap.msi_enable and bits[0] < 2**min(msi_cap.msi_multiple_message_enable, msi_cap.msi_multiple_message_capable):
+                        self.log.info("Issue MSI interrupt (index %d)", bits[0])
+                        await msi_cap.issue_msi_interrupt(bits[0], attr=msi_attr)
+                        if self.cfg_interrupt_msi_sent is not None:
+                            self.cfg_interrupt_msi_sent.value = 1
+                    else:
+                        self.log.warning("Failed to issue MSI interrupt (index %d): not enabled", bits[0])
+                        if self.cfg_interrupt_msi_fail is not None:
+                            self.cfg_interrupt_msi_fail.value = 1
 
             if self.cfg_interrupt_msi_mmenable is not None:
                 val = 0
@@ -1674,10 +1680,16 @@ class UltraScalePlusPcieDevice(Device):
                 self.cfg_interrupt_msix_fail.value = 0
             if msix_int:
                 if msi_function_number < len(self.functions):
-                    self.log.info("Issue MSI-X interrupt (addr 0x%08x, data 0x%08x)", msix_address, msix_data)
-                    await self.functions[msi_function_number].msix_cap.issue_msix_interrupt(msix_address, msix_data, attr=msi_attr)
-                    if self.cfg_interrupt_msix_sent is not None:
-                        self.cfg_interrupt_msix_sent.value = 1
+                    msix_cap = self.functions[msi_function_number].msix_cap
+                    if msix_cap.msix_enable:
+                        self.log.info("Issue MSI-X interrupt (addr 0x%08x, data 0x%08x)", msix_address, msix_data)
+                        await msix_cap.issue_msix_interrupt(msix_address, msix_data, attr=msi_attr)
+                        if self.cfg_interrupt_msix_sent is not None:
+                            self.cfg_interrupt_msix_sent.value = 1
+                    else:
+                        self.log.warning("Failed to issue MSI-X interrupt (addr 0x%08x, data 0x%08x): not enabled", msix_address, msix_data)
+                        if self.cfg_interrupt_msix_fail is not None:
+                            self.cfg_interrupt_msix_fail.value = 1
 
             # MSI/MSI-X
             # cfg_interrupt_msi_tph_present
-- 
2.43.0


From 355e5e2360585a13778ae5f9ea90652a0d0f0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 36/38] fix: present requests on the function they address in
 the Intel models

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 cocotbext/pcie/intel/s10/s10_model.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index d994702..ac1424f 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -817,7 +817,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -838,7 +838,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 8234467..0b1b147 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -671,7 +671,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -692,7 +692,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
-- 
2.43.0


From 98eeb22d40c46de080ee3fdc3f606caaecc5bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 37/38] fix: AER interrupt message number position in the
 Stratix 10 L-tile configuration output

---
 cocotbext/pcie/intel/s10/s10_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 0b1b147..b788ce3 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -969,7 +969,7 @@ class S10PcieDevice(Device):
                 val = bool(func.pcie_cap.system_error_on_fatal_error_enable) << 31
                 val |= bool(func.pcie_cap.system_error_on_non_fatal_error_enable) << 30
                 val |= bool(func.pcie_cap.system_error_on_correctable_error_enable) << 29
-                val |= (func.aer_ext_cap.advanced_error_interrupt_message_number & 0x1f) << 28
+                val |= (func.aer_ext_cap.advanced_error_interrupt_message_number & 0x1f) << 24
                 val |= (func.pcie_cap.negotiated_link_width & 0x3f) << 18
                 val |= bool(func.pm_cap.no_soft_reset) << 17
                 val |= bool(func.pcie_cap.read_completion_boundary) << 16
-- 
2.43.0


From 9c424cc23f2e22113a84c18770a66ca7aaa62381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 38/38] fix: register the extended capabilities of the hard IP
 models as extended capabilities

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 cocotbext/pcie/intel/s10/s10_model.py     | 4 ++--
 cocotbext/pcie/xilinx/us/us_model.py      | 4 ++--
 cocotbext/pcie/xilinx/us/usp_model.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index ac1424f..73ad495 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -88,13 +88,13 @@ class PTilePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x52
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # PHY16 0x6e
         # LM 0x7a
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index b788ce3..13d17ac 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -75,13 +75,13 @@ class S10PcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x4e
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # SRIOV 0x6e
         # TPH 0x7e
diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 7ed292c..685bd28 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -86,7 +86,7 @@ class UltraScalePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # ARI 0x50
         # DSN 0x54
@@ -97,7 +97,7 @@ class UltraScalePcieFunction(Endpoint):
         # TPH 0x9d
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0xC0)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0xC0)
 
         # VSEC 0xd0 (MCAP)
         # VC 0xf0
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index b126076..d5800ad 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -125,14 +125,14 @@ class UltraScalePlusPcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # SRIOV 0x50
         # ARI 0x60
         # DSN 0x68
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x70)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x70)
 
         # VC 0x80
         # TPH 0x88
-- 
2.43.0

