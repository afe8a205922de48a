From d236eccfc12d634a6126e38c438d58c5805c3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 01/20] fix: wake stream sinks blocked by a queue limit when
 the queue is cleared

---
 cocotbext/axi/axis.py   | 1 +
 cocotbext/axi/stream.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 6a4429e..8583779 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -362,6 +362,7 @@ class AxiStreamBase(Reset):
         self.dequeue_event.set()
         self.idle_event.set()
         self.active_event.clear()
+        self.wake_event.set()
         self.queue_occupancy_bytes = 0
         self.queue_occupancy_frames = 0
 
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 0aa6625..36a9183 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -148,6 +148,7 @@ class StreamBase(Reset):
         self.dequeue_event.set()
         self.idle_event.set()
         self.active_event.clear()
+        self.wake_event.set()
 
     def _handle_reset(self, state):
         if state:
-- 
2.43.0


From 50da04fdc0f2c16b6e9ffdd1d529c9f9573f8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 02/20] fix: do not report streams idle on clear while a
 transfer is still in progress

---
 cocotbext/axi/axis.py   | 3 ++-
 cocotbext/axi/stream.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 8583779..b0800a7 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -360,7 +360,8 @@ class AxiStreamBase(Reset):
             frame.sim_time_end = None
             frame.handle_tx_complete()
         self.dequeue_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
         self.wake_event.set()
         self.queue_occupancy_bytes = 0
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 36a9183..4a9309f 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -146,7 +146,8 @@ class StreamBase(Reset):
         while not self.queue.empty():
             self.queue.get_nowait()
         self.dequeue_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
         self.wake_event.set()
 
-- 
2.43.0


From 7037aaedbb9fa6dfe8d87a9c1d2744ff8653a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 03/20] fix: do not lose an APB operation when reset hits
 before its first clock edge

---
 cocotbext/axi/apb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 50360d6..da3df5c 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -339,10 +339,11 @@ class ApbMaster(ApbPause, Region, Reset):
         while True:
             if self.command_queue.empty():
                 cmd = await self.command_queue.get()
+                self.current_command = cmd
                 await clock_edge_event
             else:
                 cmd = self.command_queue.get_nowait()
-            self.current_command = cmd
+                self.current_command = cmd
 
             length = 0
             pwrite = False
-- 
2.43.0


From 559925e3ff7ad38301be552f747107d5c2365515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 04/20] fix: clear the current APB command once it has
 completed

---
 cocotbext/axi/apb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index da3df5c..c39b488 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -455,7 +455,7 @@ class ApbMaster(ApbPause, Region, Reset):
                 read_resp = ApbReadResp(cmd.address, bytes(read_data), resp)
                 cmd.event.set(read_resp)
 
-            self.current_write_command = None
+            self.current_command = None
 
             self.in_flight_operations -= 1
 
-- 
2.43.0


From 5b53fbe19469e9c3e42b521485ee6c53f56c4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 05/20] fix: do not interpret APB read data on write transfers

---
 cocotbext/axi/apb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index c39b488..99c2143 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -426,7 +426,7 @@ class ApbMaster(ApbPause, Region, Reset):
 
                 self.bus.penable.value = False
 
-                cycle_data = int(self.bus.prdata.value)
+                cycle_data = 0 if pwrite else int(self.bus.prdata.value)
                 if self.pslverr_present and int(self.bus.pslverr.value):
                     resp = AxiResp.SLVERR
 
-- 
2.43.0


From d2e000563846118776a9a206b198d6c4422a70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 06/20] fix: reject AXI IDs that do not fit the ID signal

---
 cocotbext/axi/axi_master.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index d041211..f1d3a89 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -299,7 +299,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -368,7 +368,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -734,7 +734,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -791,7 +791,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
-- 
2.43.0


From f279db34da858da18bc7fd3f3cfbe8257c2c5d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 07/20] fix: count operations as in flight as soon as
 init_read/init_write accept them

---
 cocotbext/axi/apb.py         | 16 ++++++++--------
 cocotbext/axi/axi_master.py  | 25 +++++++++++--------------
 cocotbext/axi/axil_master.py | 28 ++++++++++++----------------
 3 files changed, 31 insertions(+), 38 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 99c2143..0dc2e91 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -213,7 +213,10 @@ class ApbMaster(ApbPause, Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbWriteCmd(address, data, prot, event))
 
         return event
 
@@ -236,7 +239,10 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbReadCmd(address, length, prot, event))
 
         return event
 
@@ -270,9 +276,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     async def read(self, address, length, prot=AxiProt.NONSECURE):
         if address < 0 or address >= 2**self.address_width:
             raise ValueError("Address out of range")
@@ -296,9 +299,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index f1d3a89..54fcc95 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -342,8 +342,12 @@ class AxiMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiWriteCmd(address, data, awid, burst, size, lock,
+            cache, prot, qos, region, user, wuser, event)
+        self.write_command_queue.put_nowait(cmd)
 
         return event
 
@@ -422,11 +426,6 @@ class AxiMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, awid, burst, size,
-            lock, cache, prot, qos, region, user, wuser, event):
-        event.set(await self.write(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -765,8 +764,11 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)
+        self.read_command_queue.put_nowait(cmd)
 
         return event
 
@@ -833,11 +835,6 @@ class AxiMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, arid, burst, size,
-            lock, cache, prot, qos, region, user, event):
-        event.set(await self.read(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index d40a1ef..3478253 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -170,7 +170,10 @@ class AxiLiteMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.write_command_queue.put_nowait(AxiLiteWriteCmd(address, data, prot, event))
 
         return event
 
@@ -204,9 +207,6 @@ class AxiLiteMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -230,10 +230,8 @@ class AxiLiteMasterWrite(Region, Reset):
                 cmd = self.write_command_queue.get_nowait()
                 flush_cmd(cmd)
 
-            if self.current_write_command:
-                cmd = self.current_write_command
-                self.current_write_command = None
-                flush_cmd(cmd)
+            # flushed via its response command
+            self.current_write_command = None
 
             while not self.int_write_resp_command_queue.empty():
                 cmd = self.int_write_resp_command_queue.get_nowait()
@@ -422,7 +420,10 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.read_command_queue.put_nowait(AxiLiteReadCmd(address, length, prot, event))
 
         return event
 
@@ -456,9 +457,6 @@ class AxiLiteMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -481,10 +479,8 @@ class AxiLiteMasterRead(Region, Reset):
                 cmd = self.read_command_queue.get_nowait()
                 flush_cmd(cmd)
 
-            if self.current_read_command:
-                cmd = self.current_read_command
-                self.current_read_command = None
-                flush_cmd(cmd)
+            # flushed via its response command
+            self.current_read_command = None
 
             while not self.int_read_resp_command_queue.empty():
                 cmd = self.int_read_resp_command_queue.get_nowait()
-- 
2.43.0


From dae6b6ada387a54611bba7d2e8430a35a297ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 08/20] fix: keep the byte lanes of AXI fixed bursts and limit
 them to 16 beats

---
 cocotbext/axi/axi_master.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 54fcc95..ff8b33d 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -90,6 +90,7 @@ class AxiReadCmd(NamedTuple):
 class AxiReadRespCmd(NamedTuple):
     address: int
     length: int
+    burst: AxiBurstType
     size: int
     cycles: int
     prot: AxiProt
@@ -480,7 +481,7 @@ class AxiMasterWrite(Region, Reset):
             word_addr = (cmd.address // self.byte_lanes) * self.byte_lanes
 
             start_offset = cmd.address % self.byte_lanes
-            end_offset = ((cmd.address + len(cmd.data) - 1) % self.byte_lanes) + 1
+            end_offset = ((cmd.address + len(cmd.data) - 1) % num_bytes) + 1
 
             cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes
 
@@ -512,7 +513,7 @@ class AxiMasterWrite(Region, Reset):
                 if k == 0:
                     start = start_offset
                 if k == cycles-1:
-                    stop = end_offset
+                    stop = cycle_offset+end_offset
 
                 strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))
 
@@ -527,6 +528,8 @@ class AxiMasterWrite(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+                    if cmd.burst == AxiBurstType.FIXED:
+                        burst_length = min(burst_length, 16)
                     # split on 4k address boundary
                     burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
@@ -577,7 +580,8 @@ class AxiMasterWrite(Region, Reset):
                     cur_addr = aligned_addr + num_bytes
                 else:
                     cur_addr += num_bytes
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
 
             resp_cmd = AxiWriteRespCmd(cmd.address, len(cmd.data), cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(awid, resp_cmd)
@@ -911,6 +915,8 @@ class AxiMasterRead(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+                    if cmd.burst == AxiBurstType.FIXED:
+                        burst_length = min(burst_length, 16)
                     # split on 4k address boundary
                     burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
@@ -942,7 +948,7 @@ class AxiMasterRead(Region, Reset):
                 else:
                     cur_addr += num_bytes
 
-            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
+            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.burst, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(arid, resp_cmd)
 
             self.current_read_command = None
@@ -1005,7 +1011,8 @@ class AxiMasterRead(Region, Reset):
                 for j in range(start, stop):
                     data.append((cycle_data >> j*8) & 0xff)
 
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
 
                 first = False
 
-- 
2.43.0


From c573550e1ecebc07d83777ef4641b64210f2c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 09/20] fix: make read_byte and write_byte work on memories and
 regions

MemoryInterface.read_byte accessed a .data attribute that bytes do not have,
and write_byte passed a list, which mmap and bytearray backed memories and
byte-oriented peripherals do not accept.
---
 cocotbext/axi/address_space.py | 4 ++--
 cocotbext/axi/memory.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index 4851940..cd517d8 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -85,7 +85,7 @@ class MemoryInterface:
         return await self.read_words(address, count, byteorder, 8, **kwargs)
 
     async def read_byte(self, address, **kwargs):
-        return (await self.read(address, 1, **kwargs)).data[0]
+        return bytes(await self.read(address, 1, **kwargs))[0]
 
     async def read_word(self, address, byteorder='little', ws=2, **kwargs):
         return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]
@@ -117,7 +117,7 @@ class MemoryInterface:
         await self.write_words(address, data, byteorder, 8, **kwargs)
 
     async def write_byte(self, address, data, **kwargs):
-        await self.write(address, [data], **kwargs)
+        await self.write(address, bytes([data]), **kwargs)
 
     async def write_word(self, address, data, byteorder='little', ws=2, **kwargs):
         await self.write_words(address, [data], byteorder, ws, **kwargs)
diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a4199a8..a7fe1b9 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -55,7 +55,7 @@ class Memory:
         self.write_words(address, data, byteorder, 8)
 
     def write_byte(self, address, data):
-        self.write(address, [data])
+        self.write(address, bytes([data]))
 
     def write_word(self, address, data, byteorder='little', ws=2):
         self.write_words(address, [data], byteorder, ws)
-- 
2.43.0


From a6a70741d53cf7b27eef5979eeb0462a153614ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 10/20] fix: do not allocate past the end of pools that are not
 a power of two in size

BuddyAllocator rounds the pool up to a power of two and handed out blocks
beyond the actual size, so alloc_window and alloc_region failed with a range
error (leaking the block) or returned regions outside of the pool.
---
 cocotbext/axi/buddy_allocator.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/cocotbext/axi/buddy_allocator.py b/cocotbext/axi/buddy_allocator.py
index fba90bc..ec2ea13 100644
--- a/cocotbext/axi/buddy_allocator.py
+++ b/cocotbext/axi/buddy_allocator.py
@@ -36,31 +36,28 @@ class BuddyAllocator:
         if size < 1 or size > self.size:
             raise ValueError("size out of range")
 
-        size = max(size, self.min_alloc)
-
-        bucket = (size-1).bit_length()
+        bucket = (max(size, self.min_alloc)-1).bit_length()
         orig_bucket = bucket
 
         while bucket < len(self.free_lists):
-            if not self.free_lists[bucket]:
-                # find free block
+            # find free block; when the pool size is not a power of two, blocks
+            # can extend past the end of the pool
+            block = next((x for x in self.free_lists[bucket] if x+size <= self.size), None)
+
+            if block is None:
                 bucket += 1
                 continue
 
+            self.free_lists[bucket].remove(block)
+
             while bucket > orig_bucket:
-                # split block
-                block = self.free_lists[bucket].pop(0)
+                # split block, keep the first half
                 bucket -= 1
-                self.free_lists[bucket].append(block)
                 self.free_lists[bucket].append(block+2**bucket)
 
-            if self.free_lists[bucket]:
-                # allocate
-                block = self.free_lists[bucket].pop(0)
-                self.allocations[block] = bucket
-                return block
-
-            break
+            # allocate
+            self.allocations[block] = bucket
+            return block
 
         raise Exception("out of memory")
 
-- 
2.43.0


From ccc248402fdc7c74fc7b48426723020246d2e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 11/20] fix: call wrapped peripheral objects exactly once per
 access

PeripheralRegion awaited the result of read/write and called the method again
on TypeError, so objects with plain (non-async) methods saw each access twice,
as did async objects that raise TypeError themselves.
---
 cocotbext/axi/address_space.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index cd517d8..b324725 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -22,6 +22,7 @@ THE SOFTWARE.
 
 """
 
+import inspect
 import mmap
 
 from .buddy_allocator import BuddyAllocator
@@ -252,16 +253,15 @@ class PeripheralRegion(Region):
         self.obj = obj
 
     async def _read(self, address, length, **kwargs):
-        try:
-            return await self.obj.read(address, length, **kwargs)
-        except TypeError:
-            return self.obj.read(address, length, **kwargs)
+        data = self.obj.read(address, length, **kwargs)
+        if inspect.isawaitable(data):
+            data = await data
+        return data
 
     async def _write(self, address, data, **kwargs):
-        try:
-            await self.obj.write(address, data, **kwargs)
-        except TypeError:
-            self.obj.write(address, data, **kwargs)
+        res = self.obj.write(address, data, **kwargs)
+        if inspect.isawaitable(res):
+            await res
 
 
 class AddressSpace(Region):
-- 
2.43.0


From 100ef49bd33d4f9ad83a3cfacac52f60e59f2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 12/20] fix: forward the target attribute of AxiSlave and
 AxiLiteSlave

The README documents setting axi_slave.target after construction, but the
attribute was not connected to the read and write interfaces.
---
 cocotbext/axi/axi_slave.py  | 9 +++++++++
 cocotbext/axi/axil_slave.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/cocotbext/axi/axi_slave.py b/cocotbext/axi/axi_slave.py
index 5f10107..9cd6147 100644
--- a/cocotbext/axi/axi_slave.py
+++ b/cocotbext/axi/axi_slave.py
@@ -345,3 +345,12 @@ class AxiSlave:
 
         self.write_if = AxiSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.write_if.target
+
+    @target.setter
+    def target(self, target):
+        self.write_if.target = target
+        self.read_if.target = target
diff --git a/cocotbext/axi/axil_slave.py b/cocotbext/axi/axil_slave.py
index 3214d31..e7569ac 100644
--- a/cocotbext/axi/axil_slave.py
+++ b/cocotbext/axi/axil_slave.py
@@ -257,3 +257,12 @@ class AxiLiteSlave:
 
         self.write_if = AxiLiteSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiLiteSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.write_if.target
+
+    @target.setter
+    def target(self, target):
+        self.write_if.target = target
+        self.read_if.target = target
-- 
2.43.0


From 8f980d979b382e5b9ed364f38cdeb234139d4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 13/20] fix: add named valid and ready signals to the signal
 list as names

define_stream extended the list with the characters of the name and modified
the lists and dict passed by the caller.
---
 cocotbext/axi/stream.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 4a9309f..6687032 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -438,19 +438,16 @@ class StreamSink(StreamMonitor, StreamPause):
 
 
 def define_stream(name, signals, optional_signals=None, valid_signal=None, ready_signal=None, signal_widths=None):
-    all_signals = signals.copy()
-
-    if optional_signals is None:
-        optional_signals = []
-    else:
-        all_signals += optional_signals
+    signals = list(signals)
+    optional_signals = list(optional_signals or [])
+    all_signals = signals + optional_signals
 
     if valid_signal is None:
         for s in all_signals:
             if s.lower().endswith('valid'):
                 valid_signal = s
-    if valid_signal not in all_signals:
-        signals += valid_signal
+    if valid_signal is not None and valid_signal not in all_signals:
+        signals.append(valid_signal)
 
     if ready_signal is None:
         for s in all_signals:
@@ -458,10 +455,9 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
                 ready_signal = s
     else:
         if ready_signal not in all_signals:
-            signals += ready_signal
+            signals.append(ready_signal)
 
-    if signal_widths is None:
-        signal_widths = {}
+    signal_widths = dict(signal_widths or {})
 
     if valid_signal not in signal_widths:
         signal_widths[valid_signal] = 1
-- 
2.43.0


From ac4b56bc2a62074e4ef5cf79c3b85ea395fa62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:49 +0000
Subject: [PATCH 14/20] fix: make idle and wait work on managers with 64 bit
 addresses

The truth value of an interface is its length, which Python cannot
represent when the address space is 2**63 bytes or larger.
---
 cocotbext/axi/axi_master.py  | 2 +-
 cocotbext/axi/axil_master.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index ff8b33d..bff366c 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -1058,7 +1058,7 @@ class AxiMaster(Region):
         return self.write_if.init_write(address, data, awid, burst, size, lock, cache, prot, qos, region, user, wuser, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index 3478253..76d2abb 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -592,7 +592,7 @@ class AxiLiteMaster(Region):
         return self.write_if.init_write(address, data, prot, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
-- 
2.43.0


From e4e62ef16dddd2a64de17da4e167d7b843413a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:49 +0000
Subject: [PATCH 15/20] fix: allow memories of the default size

len() cannot return the default size of 2**64 bytes, so creating a memory
without specifying a smaller size raised an OverflowError.
---
 cocotbext/axi/memory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a7fe1b9..ad9b73a 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -32,7 +32,10 @@ class Memory:
             self.mem = mem
         else:
             self.mem = SparseMemory(size)
-        self.size = len(self.mem)
+        if isinstance(self.mem, SparseMemory):
+            self.size = self.mem.size
+        else:
+            self.size = len(self.mem)
         super().__init__(**kwargs)
 
     def read(self, address, length):
-- 
2.43.0


From 08564e47ca9749c40ed47c88ea98f8c852d9a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:55 +0000
Subject: [PATCH 16/20] fix: hold APB pready until it was seen at a clock edge

When the target completes an access in the time step of a clock edge, but
before the edge, pready was asserted and deasserted within that time step,
the requester never saw it and the transfer was performed again.
---
 cocotbext/axi/apb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 0dc2e91..9161909 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -616,6 +616,9 @@ class ApbSlave(ApbPause, Reset):
                 self.bus.pslverr.value = pslverr
             self.bus.pready.value = True
             await clock_edge_event
+            while not int(self.bus.pready.value):
+                # asserted too late to be seen at this clock edge
+                await clock_edge_event
 
             if not int(self.bus.psel.value):
                 self.log.warning("psel deasserted early")
-- 
2.43.0


From 0cabadec7c30965b7df0e1a34e039ef8108d6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 17/20] fix: refuse out-of-range direct accesses to memory
 models

Memory.read() silently returned less data than requested when the range ran
past the end of the memory (or wrapped around for negative addresses), and
Memory.write() extended a bytearray given as mem.
---
 cocotbext/axi/apb.py      | 3 ++-
 cocotbext/axi/axi_ram.py  | 3 ++-
 cocotbext/axi/axil_ram.py | 3 ++-
 cocotbext/axi/memory.py   | 8 ++++++++
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 9161909..3cca286 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -635,4 +635,5 @@ class ApbRam(ApbSlave, Memory):
         self.write(address % self.size, data)
 
     async def _read(self, address, length):
-        return self.read(address % self.size, length)
+        address %= self.size
+        return self.read(address, min(length, self.size-address))
diff --git a/cocotbext/axi/axi_ram.py b/cocotbext/axi/axi_ram.py
index f371596..4a4602a 100644
--- a/cocotbext/axi/axi_ram.py
+++ b/cocotbext/axi/axi_ram.py
@@ -39,7 +39,8 @@ class AxiRamRead(AxiSlaveRead, Memory):
         super().__init__(bus, clock, reset, reset_active_level=reset_active_level, size=size, mem=mem, **kwargs)
 
     async def _read(self, address, length):
-        return self.read(address % self.size, length)
+        address %= self.size
+        return self.read(address, min(length, self.size-address))
 
 
 class AxiRam(Memory):
diff --git a/cocotbext/axi/axil_ram.py b/cocotbext/axi/axil_ram.py
index d21f4b3..27920aa 100644
--- a/cocotbext/axi/axil_ram.py
+++ b/cocotbext/axi/axil_ram.py
@@ -39,7 +39,8 @@ class AxiLiteRamRead(AxiLiteSlaveRead, Memory):
         super().__init__(bus, clock, reset, reset_active_level=reset_active_level, size=size, mem=mem, **kwargs)
 
     async def _read(self, address, length):
-        return self.read(address % self.size, length)
+        address %= self.size
+        return self.read(address, min(length, self.size-address))
 
 
 class AxiLiteRam(Memory):
diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index ad9b73a..3926ef1 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -38,10 +38,18 @@ class Memory:
             self.size = len(self.mem)
         super().__init__(**kwargs)
 
+    def _check_range(self, address, length):
+        if length < 0:
+            raise ValueError("invalid length")
+        if address < 0 or address+length > self.size:
+            raise ValueError("operation out of range")
+
     def read(self, address, length):
+        self._check_range(address, length)
         return self.mem[address:address+length]
 
     def write(self, address, data):
+        self._check_range(address, len(data))
         self.mem[address:address+len(data)] = data
 
     def write_words(self, address, data, byteorder='little', ws=2):
-- 
2.43.0


From ba1208137c12bf264d41dec58382d9664f0c6e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:23 +0000
Subject: [PATCH 18/20] fix: hex dumps of memories larger than len() allows

Memory.hexdump and friends passed the whole backing store to the dump
functions, which use len(): OverflowError for AxiRam, AxiLiteRam and
ApbRam of the default size. An empty range dumped the whole memory.
---
 cocotbext/axi/memory.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index 3926ef1..a0f6b3d 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -102,11 +102,20 @@ class Memory:
     def read_qword(self, address, byteorder='little'):
         return self.read_qwords(address, 1, byteorder)[0]
 
+    def _dump_range(self, address, length):
+        # limit to the memory, which may be too large for len()
+        start = min(max(address, 0), self.size)
+        stop = max(min(address+length, self.size), start)
+        return (self.mem[start:stop] if start < stop else b''), start
+
     def hexdump(self, address, length, prefix=""):
-        hexdump(self.mem, address, length, prefix=prefix)
+        data, offset = self._dump_range(address, length)
+        hexdump(data, prefix=prefix, offset=offset)
 
     def hexdump_lines(self, address, length, prefix=""):
-        return hexdump_lines(self.mem, address, length, prefix=prefix)
+        data, offset = self._dump_range(address, length)
+        return hexdump_lines(data, prefix=prefix, offset=offset)
 
     def hexdump_str(self, address, length, prefix=""):
-        return hexdump_str(self.mem, address, length, prefix=prefix)
+        data, offset = self._dump_range(address, length)
+        return hexdump_str(data, prefix=prefix, offset=offset)
-- 
2.43.0


From e75774f13bd93beea9c59feb7f137521ca4215ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:50 +0000
Subject: [PATCH 19/20] fix: idle AXI stream sink reported as busy while paused
 or full

A sink that put itself to sleep right after the last beat of a frame, because it was
paused or its queue had reached the limit, kept reporting a transfer in progress
(idle() returned False) until it was woken up again.
---
 cocotbext/axi/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index b0800a7..a2b861e 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -843,6 +843,8 @@ class AxiStreamSink(AxiStreamMonitor, AxiStreamPause):
                 self.bus.tready.value = not paused
 
                 if (not tvalid_sample or paused) and (pause_sample == bool(self.pause)):
+                    self.active = bool(frame)
+
                     self.wake_event.clear()
                     await wake_event
             else:
-- 
2.43.0


From 7daa43e0e883bce42d834190d583250e97fb5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:12 +0000
Subject: [PATCH 20/20] fix: stream source cleared while paused stayed busy
 until the next clock edge

---
 cocotbext/axi/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 6687032..916339d 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -282,7 +282,7 @@ class StreamSource(StreamBase, StreamPause):
                 else:
                     if has_valid:
                         self.valid.value = 0
-                    self.active = not self.queue.empty()
+                    self.active = False
                     if self.queue.empty():
                         self.idle_event.set()
                         self.active_event.clear()
-- 
2.43.0

