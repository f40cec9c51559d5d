From 6bd79fc781b86fd9c8981cf0aadf879a3f2a4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 01/78] fix: AXIM wide dma_write loads the burst size only for
 the selected RAM

All wide (axi wider than RAM) write operations share one data FSM. State 2
scaled the dequeued burst size once per synthesized operation without checking
which one is running, so with two RAMs of different widths the last scale won
and dma_write deadlocked or raised WLAST early.
---
 veriloggen/thread/axim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 41c6c16..7555216 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -1543,7 +1543,8 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         data_fsm.goto_next()
 
         # Data state 2
-        cond = vtypes.Ands(vtypes.Not(self.write_req_fifo.empty),
+        cond = vtypes.Ands(self.write_op_sel_buf == op_id,
+                           vtypes.Not(self.write_req_fifo.empty),
                            self.write_size_buf == 0)
         self.seq.If(data_fsm.here, cond)(
             # global_size -> local_size
-- 
2.43.0


From 67f130683443534c9599e9ff0773aa7e80cc79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 02/78] fix: AXIMLite set_global_base_addr creates and advances
 past the base address register

---
 veriloggen/thread/axim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 7555216..6acd062 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -1825,6 +1825,12 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
 
         self.mutex = None
 
+        if self.use_global_base_addr:
+            self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
+                                               self.addrwidth, initval=0)
+        else:
+            self.global_base_addr = None
+
     def read(self, fsm, global_addr):
         if self.use_global_base_addr:
             global_addr = self.global_base_addr + global_addr
@@ -1891,10 +1897,10 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
         if not self.use_global_base_addr:
             raise ValueError("global_base_addr is disabled.")
 
-        flag = self._set_flag(fsm)
-        self.seq.If(flag)(
+        self.seq.If(fsm.here)(
             self.global_base_addr(addr)
         )
+        fsm.goto_next()
 
 
 class AXIMLiteVerify(AXIMLite):
-- 
2.43.0


From b4092092c4b0a95d0bc6782293a43a2c13eba37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 03/78] fix: AXISRegister burst reads end after the requested
 number of beats

---
 veriloggen/thread/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index 345bbe8..11ad9ef 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -137,7 +137,7 @@ class AXISRegister(AXIS):
         fsm.If(ack)(
             maskaddr.inc(),
             rcount.dec(),
-            rlast(rcount <= 1)
+            rlast(rcount <= 2)
         )
 
         # flag reset
-- 
2.43.0


From a2873c2dcbfcedbc9245e7a9455eef684d3b2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 04/78] fix: AxiSlave keeps RID stable until the last read data
 is accepted

---
 veriloggen/types/axi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index bcb720b..4eb3974 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2438,6 +2438,9 @@ class AxiSlave(object):
                               prev_arvalid, vtypes.Not(prev_awvalid))
         if ready is not None:
             readval = vtypes.Ands(ready, readval)
+        if self.rdata.rid is not None:
+            # rid must be stable until the last data is accepted
+            readval = vtypes.Ands(readval, vtypes.Not(self.rdata.rvalid))
 
         _connect_ready(self.waddr.awready._get_module(),
                        self.waddr.awready, writeval)
@@ -2521,6 +2524,9 @@ class AxiSlave(object):
 
         val = (vtypes.Ands(vtypes.Not(valid), prev_arvalid) if ready is None else
                vtypes.Ands(ready, vtypes.Not(valid), prev_arvalid))
+        if self.rdata.rid is not None:
+            # rid must be stable until the last data is accepted
+            val = vtypes.Ands(val, vtypes.Not(self.rdata.rvalid))
 
         _connect_ready(self.raddr.arready._get_module(),
                        self.raddr.arready, val)
-- 
2.43.0


From b29f429ec4e6f5cee86c411f5a082cc67931995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:31 +0000
Subject: [PATCH 05/78] fix: memory models size the read request FIFO by the
 read ID width

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 4eb3974..9a3ca2f 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2978,7 +2978,7 @@ class AxiMemoryModel(AxiSlave):
                               sync=False)
         self.rreq_fifo = FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo']),
                               clk, rst,
-                              datawidth=addrwidth + 9 + waddr_id_width,
+                              datawidth=addrwidth + 9 + raddr_id_width,
                               addrwidth=req_fifo_addrwidth,
                               sync=False)
 
@@ -3568,7 +3568,7 @@ class AxiMultiportMemoryModel(AxiMemoryModel):
                            for i in range(numports)]
         self.rreq_fifos = [FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo_%d' % i]),
                                 clk, rst,
-                                datawidth=addrwidth + 9 + waddr_id_width,
+                                datawidth=addrwidth + 9 + raddr_id_width,
                                 addrwidth=req_fifo_addrwidth,
                                 sync=False)
                            for i in range(numports)]
-- 
2.43.0


From 25ea4ca4e14e81a8f8508173dc24a8f68258e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 06/78] fix: AxiSerialMemoryModel passes clock and reset to its
 channels

---
 veriloggen/types/axi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 9a3ca2f..181f4ff 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3903,16 +3903,16 @@ class AxiSerialMemoryModel(AxiSlave):
         itype = util.t_Reg
         otype = util.t_Wire
 
-        self.waddr = AxiSlaveWriteAddress(m, name, datawidth, addrwidth,
+        self.waddr = AxiSlaveWriteAddress(m, name, clk, rst, datawidth, addrwidth,
                                           waddr_id_width, waddr_user_width, itype, otype)
-        self.wdata = AxiSlaveWriteData(m, name, datawidth, addrwidth,
+        self.wdata = AxiSlaveWriteData(m, name, clk, rst, datawidth, addrwidth,
                                        wdata_id_width, wdata_user_width, itype, otype)
-        self.wresp = AxiSlaveWriteResponse(m, name, datawidth, addrwidth,
+        self.wresp = AxiSlaveWriteResponse(m, name, clk, rst, datawidth, addrwidth,
                                            wresp_id_width, wresp_user_width, wresp_user_mode,
                                            itype, otype)
-        self.raddr = AxiSlaveReadAddress(m, name, datawidth, addrwidth,
+        self.raddr = AxiSlaveReadAddress(m, name, clk, rst, datawidth, addrwidth,
                                          raddr_id_width, raddr_user_width, itype, otype)
-        self.rdata = AxiSlaveReadData(m, name, datawidth, addrwidth,
+        self.rdata = AxiSlaveReadData(m, name, clk, rst, datawidth, addrwidth,
                                       rdata_id_width, rdata_user_width, rdata_user_mode,
                                       itype, otype)
 
-- 
2.43.0


From 8feb519e6041c54962eff29944e42c0d353a9773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 07/78] fix: serial memory models keep a write request pending
 while a response is waiting

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 181f4ff..93b0b05 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -4048,7 +4048,7 @@ class AxiSerialMemoryModel(AxiSlave):
             self.waddr.awready(0)
         )
         self.fsm.If(vtypes.Not(self.waddr.awvalid)).goto_init()
-        self.fsm.If(self.waddr.awvalid).goto_next()
+        self.fsm.If(self.waddr.awvalid, vtypes.Not(self.wresp.bvalid)).goto_next()
 
         # delay
         for _ in range(write_delay):
@@ -4422,7 +4422,7 @@ class AxiSerialMultiportMemoryModel(AxiSerialMemoryModel):
                 waddr.awready(0)
             )
             fsm.If(vtypes.Not(waddr.awvalid)).goto_init()
-            fsm.If(waddr.awvalid).goto_next()
+            fsm.If(waddr.awvalid, vtypes.Not(wresp.bvalid)).goto_next()
 
             # delay
             for _ in range(write_delay):
-- 
2.43.0


From a2307cb5a83276b21c9898dc3b366891da9550be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 08/78] fix: AXIStreamInFifo keeps the last packed element
 until the FIFO accepts it

---
 veriloggen/thread/axistreamin.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index 9f59de1..5be7703 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -734,11 +734,15 @@ class AXIStreamInFifo(AXIStreamIn):
         count = self.m.TmpReg(log_pack_size, initval=0,
                               prefix='_'.join(['', self.name, 'read_narrow_count']))
         data_fsm(
-            count(0),
-            wvalid(0)
+            count(0)
         )
         data_fsm.If(cond).goto_next()
 
+        # hold the last element until the FIFO accepts it
+        self.seq.If(vtypes.Not(fifo.almost_full))(
+            wvalid(0)
+        )
+
         # Data state 1
         read_cond = vtypes.Ands(data_fsm.here, vtypes.Not(fifo.almost_full),
                                 self.read_op_sel_buf == op_id)
@@ -746,20 +750,16 @@ class AXIStreamInFifo(AXIStreamIn):
 
         cond = vtypes.Ands(vtypes.Not(fifo.almost_full), self.read_op_sel_buf == op_id)
 
-        data_fsm.If(cond)(
-            wvalid(0)
-        )
         data_fsm.If(cond, self.tdata.tvalid, count < pack_size - 1)(
             count.inc(),
             wdata(vtypes.Cat(self.tdata.tdata, wdata[self.datawidth:])),
-            wvalid(0),
         )
         data_fsm.If(cond, self.tdata.tvalid, count == pack_size - 1)(
             count(0),
             wdata(vtypes.Cat(self.tdata.tdata, wdata[self.datawidth:])),
-            wvalid(1)
         )
         self.seq.If(data_fsm.here, cond, self.tdata.tvalid, count == pack_size - 1)(
+            wvalid(1),
             self.read_local_size_buf.dec()
         )
 
@@ -819,11 +819,15 @@ class AXIStreamInFifo(AXIStreamIn):
         count = self.m.TmpReg(log_pack_size, initval=0,
                               prefix='_'.join(['', self.name, 'read_wide_count']))
         data_fsm(
-            count(0),
-            wvalid(0)
+            count(0)
         )
         data_fsm.If(cond).goto_next()
 
+        # hold the last element until the FIFO accepts it
+        self.seq.If(vtypes.Not(fifo.almost_full))(
+            wvalid(0)
+        )
+
         # Data state 1
         read_cond = vtypes.Ands(data_fsm.here, vtypes.Not(fifo.almost_full),
                                 self.read_op_sel_buf == op_id, count == 0)
@@ -832,23 +836,20 @@ class AXIStreamInFifo(AXIStreamIn):
         cond = vtypes.Ands(vtypes.Not(fifo.almost_full),
                            self.read_op_sel_buf == op_id)
 
-        data_fsm.If(cond)(
-            wvalid(0)
-        )
         data_fsm.If(cond, self.tdata.tvalid, count == 0)(
             count.inc(),
             wdata(self.tdata.tdata),
-            wvalid(1),
         )
         self.seq.If(data_fsm.here, cond, self.tdata.tvalid, count == 0)(
+            wvalid(1),
             self.read_local_size_buf.dec()
         )
         data_fsm.If(cond, count > 0)(
             count.inc(),
             wdata(wdata >> fifo_datawidth),
-            wvalid(1),
         )
         self.seq.If(data_fsm.here, cond, count > 0)(
+            wvalid(1),
             self.read_local_size_buf.dec()
         )
         data_fsm.If(cond, count == pack_size - 1)(
-- 
2.43.0


From cf31dfae6f80ecd9c1a665d127f74b334da623cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 09/78] fix: AXIStreamInFifo shares one port among several
 FIFOs

---
 veriloggen/thread/axistreamin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index 5be7703..357b7df 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -645,9 +645,9 @@ class AXIStreamInFifo(AXIStreamIn):
 
         # Data FSM
         if self.read_data_fsm is not None:
-            """ new op """
-            data_fsm = self.read_data_fsm
-            data_fsm.set_index(0)
+            """ new op: every FIFO has its own flow control """
+            data_fsm = FSM(self.m, '_'.join(['', self.name, 'read_data_fsm', '%d' % op_id]),
+                           self.clk, self.rst, as_module=self.fsm_as_module)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'read_data_fsm']),
-- 
2.43.0


From eb2afbc1ddcfeb189bb33262e1f35e064d994549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 10/78] fix: AXIStreamOut serves several RAMs or FIFOs through
 one port

---
 veriloggen/thread/axistreamout.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 71c546c..81928a7 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -217,7 +217,7 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         if self.write_data_fsm is not None:
             """ new op """
             data_fsm = self.write_data_fsm
-            data_fsm.set_index(1)
+            data_fsm.set_index(0)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'write_data_fsm']),
@@ -276,6 +276,8 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
             """ already synthesized op """
             return
 
+        self.write_ops.append(op_id)
+
         # Data FSM
         if self.write_data_narrow_fsm is not None:
             """ new op """
@@ -304,12 +306,12 @@ class AXIStreamOut(axi.AxiStreamOut, _MutexFunction):
         data_fsm.If(cond).goto_next()
 
         # Data state 1
-        self.seq.If(data_fsm.here)(
+        ram_cond = vtypes.Ands(data_fsm.here, self.write_op_sel_buf == op_id)
+        self.seq.If(ram_cond)(
             # local_size -> global_size
             self.write_size_buf(self.write_size_buf << log_pack_size),
         )
 
-        ram_cond = vtypes.Ands(data_fsm.here, self.write_op_sel_buf == op_id)
         count = self.m.TmpReg(log_pack_size, initval=0,
                               prefix='_'.join(['', self.name, 'write_narrow_count']))
         rready = vtypes.Ands(vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid)),
@@ -642,7 +644,7 @@ class AXIStreamOutFifo(AXIStreamOut):
         if self.write_data_fsm is not None:
             """ new op """
             data_fsm = self.write_data_fsm
-            data_fsm.set_index(1)
+            data_fsm.set_index(0)
 
         else:
             data_fsm = FSM(self.m, '_'.join(['', self.name, 'write_data_fsm']),
@@ -716,6 +718,8 @@ class AXIStreamOutFifo(AXIStreamOut):
             """ already synthesized op """
             return
 
+        self.write_ops.append(op_id)
+
         # Data FSM
         if self.write_data_narrow_fsm is not None:
             """ new op """
-- 
2.43.0


From 39297bd46eb12ef5b4f1db3b46dcc027e13f9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 11/78] fix: AXIStreamOutFifo drains FIFOs with unregistered
 read data (sync=False)

---
 veriloggen/thread/axistreamout.py | 80 +++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 26 deletions(-)

diff --git a/veriloggen/thread/axistreamout.py b/veriloggen/thread/axistreamout.py
index 81928a7..f7dd9f8 100644
--- a/veriloggen/thread/axistreamout.py
+++ b/veriloggen/thread/axistreamout.py
@@ -682,15 +682,23 @@ class AXIStreamOutFifo(AXIStreamOut):
 
         wready = vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid))
 
-        repeat_rvalid = self.m.TmpReg(prefix='repeat_rvalid', initval=0)
-        self.seq(repeat_rvalid(0))
-        self.seq.If(rvalid, vtypes.Not(wready))(repeat_rvalid(1))
-        self.seq.If(repeat_rvalid, vtypes.Not(wready))(repeat_rvalid(1))
-        cur_rvalid.assign(vtypes.Ors(rvalid, repeat_rvalid))
+        if fifo.sync:
+            repeat_rvalid = self.m.TmpReg(prefix='repeat_rvalid', initval=0)
+            self.seq(repeat_rvalid(0))
+            self.seq.If(rvalid, vtypes.Not(wready))(repeat_rvalid(1))
+            self.seq.If(repeat_rvalid, vtypes.Not(wready))(repeat_rvalid(1))
+            cur_rvalid.assign(vtypes.Ors(rvalid, repeat_rvalid))
+        else:
+            # rdata is valid in the cycle of deq
+            cur_rvalid.assign(rvalid)
+
+        if fifo.sync:
+            data_fsm.If(deq_cond)(
+                rlast(self.write_size_buf <= 1)
+            )
+        else:
+            rlast = self.write_size_buf <= 1
 
-        data_fsm.If(deq_cond)(
-            rlast(self.write_size_buf <= 1)
-        )
         self.seq.If(data_fsm.here, deq_cond)(
             self.write_size_buf.dec()
         )
@@ -758,25 +766,37 @@ class AXIStreamOutFifo(AXIStreamOut):
         # rready = vtypes.Ands(vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid)),
         #                     self.write_size_buf > 0)
         rready = vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid))
+        if fifo.sync:
+            deq_timing = (vtypes.Not(cur_rvalid),
+                          vtypes.Ors(count == 0, count == pack_size - 1))
+        else:
+            deq_timing = (count == 0,)
         deq_cond = vtypes.Ands(data_fsm.here, vtypes.Not(fifo.empty),
                                self.write_op_sel_buf == op_id,
                                self.write_size_buf > 0,
                                rready,
-                               vtypes.Not(cur_rvalid),
-                               vtypes.Ors(count == 0, count == pack_size - 1))
+                               *deq_timing)
         rdata, rvalid, _ = fifo.deq_rtl(cond=deq_cond)
 
         wready = vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid))
 
-        repeat_rvalid = self.m.TmpReg(prefix='repeat_rvalid', initval=0)
-        self.seq(repeat_rvalid(0))
-        self.seq.If(rvalid, vtypes.Not(wready))(repeat_rvalid(1))
-        self.seq.If(repeat_rvalid, vtypes.Not(wready))(repeat_rvalid(1))
-        cur_rvalid.assign(vtypes.Ors(rvalid, repeat_rvalid))
+        if fifo.sync:
+            repeat_rvalid = self.m.TmpReg(prefix='repeat_rvalid', initval=0)
+            self.seq(repeat_rvalid(0))
+            self.seq.If(rvalid, vtypes.Not(wready))(repeat_rvalid(1))
+            self.seq.If(repeat_rvalid, vtypes.Not(wready))(repeat_rvalid(1))
+            cur_rvalid.assign(vtypes.Ors(rvalid, repeat_rvalid))
+        else:
+            # rdata is valid in the cycle of deq
+            cur_rvalid.assign(rvalid)
+
+        if fifo.sync:
+            data_fsm.If(deq_cond)(
+                rlast(self.write_size_buf <= 1)
+            )
+        else:
+            rlast = self.write_size_buf <= 1
 
-        data_fsm.If(deq_cond)(
-            rlast(self.write_size_buf <= 1)
-        )
         self.seq.If(data_fsm.here, deq_cond)(
             self.write_size_buf.dec()
         )
@@ -877,11 +897,22 @@ class AXIStreamOutFifo(AXIStreamOut):
         wready = vtypes.Ors(self.tdata.tready, vtypes.Not(self.tdata.tvalid),
                             count > 0)
 
-        repeat_rvalid = self.m.TmpReg(prefix='repeat_rvalid', initval=0)
-        self.seq(repeat_rvalid(0))
-        self.seq.If(rvalid, vtypes.Not(wready))(repeat_rvalid(1))
-        self.seq.If(repeat_rvalid, vtypes.Not(wready))(repeat_rvalid(1))
-        cur_rvalid.assign(vtypes.Ors(rvalid, repeat_rvalid))
+        if fifo.sync:
+            repeat_rvalid = self.m.TmpReg(prefix='repeat_rvalid', initval=0)
+            self.seq(repeat_rvalid(0))
+            self.seq.If(rvalid, vtypes.Not(wready))(repeat_rvalid(1))
+            self.seq.If(repeat_rvalid, vtypes.Not(wready))(repeat_rvalid(1))
+            cur_rvalid.assign(vtypes.Ors(rvalid, repeat_rvalid))
+        else:
+            # rdata is valid in the cycle of deq
+            cur_rvalid.assign(rvalid)
+
+        if fifo.sync:
+            data_fsm.If(deq_cond)(
+                rlast(self.write_size_buf <= 1)
+            )
+        else:
+            rlast = self.write_size_buf <= 1
 
         wcond = vtypes.Ands(data_fsm.here, self.write_op_sel_buf == op_id,
                             count == pack_size - 1, cur_rvalid, rready)
@@ -891,9 +922,6 @@ class AXIStreamOutFifo(AXIStreamOut):
         _wlast = rlast
         _ = self.write_data(_wdata, _wlast, cond=wcond)
 
-        data_fsm.If(deq_cond)(
-            rlast(self.write_size_buf <= 1)
-        )
 
         self.seq.If(data_fsm.here, deq_cond)(
             self.write_size_buf.dec()
-- 
2.43.0


From 40c183ccf6c2c7d843d610d5fce044e52ca377df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 12/78] fix: AxiStreamOut drives TSTRB, TID, TUSER and TDEST
 when they exist

---
 veriloggen/types/axi.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 93b0b05..6aef547 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -1869,13 +1869,6 @@ class AxiStreamOutData(AxiStreamInData):
                                  id_width, user_width, dest_width,
                                  itype, otype)
 
-        # default values
-        if self.tuser is not None:
-            self.tuser.assign(0)
-
-        if self.tid is not None:
-            self.tid.assign(0)
-
     def write_data(self, data, last=None, _id=None, user=None, dest=None, cond=None):
         """
         @return ack
@@ -1885,10 +1878,18 @@ class AxiStreamOutData(AxiStreamInData):
 
         ack = vtypes.Ors(self.tready, vtypes.Not(self.tvalid))
 
+        # default values
+        last = 0 if last is None else last
+        _id = 0 if _id is None else _id
+        user = 0 if user is None else user
+        dest = 0 if dest is None else dest
+
         self.seq.If(ack)(
             self.tdata(data),
             self.tvalid(1),
             self.tlast(last) if self.tlast is not None else (),
+            self.tstrb(vtypes.Repeat(vtypes.Int(1, 1), self.datawidth // 8))
+            if self.tstrb is not None else (),
             self.tid(_id) if self.tid is not None else (),
             self.tuser(user) if self.tuser is not None else (),
             self.tdest(dest) if self.tdest is not None else (),
-- 
2.43.0


From 44c73143947d3496d4786d8c14b36524bfa213be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 13/78] fix: AXIStreamIn.read works on ports without TLAST

---
 veriloggen/thread/axistreamin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index 357b7df..21d3bf7 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -112,7 +112,8 @@ class AXIStreamIn(axi.AxiStreamIn, _MutexFunction):
             tlast = self.m.TmpReg(initval=0,
                                   prefix='axistreamin_tlast')
         else:
-            tlast = None
+            # every word is a packet of its own without TLAST
+            tlast = vtypes.Int(1, width=1)
 
         _ = self.read_data(cond=rcond)
         fsm.If(self.tdata.tvalid)(
-- 
2.43.0


From e589f193cac48972044ac8d728ecb0e2276291f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 14/78] fix: AXIM_for_AXIStreamOut.dma_wait waits for the write
 side only

---
 veriloggen/thread/axim_for_axistream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veriloggen/thread/axim_for_axistream.py b/veriloggen/thread/axim_for_axistream.py
index 30380fb..9714bd4 100644
--- a/veriloggen/thread/axim_for_axistream.py
+++ b/veriloggen/thread/axim_for_axistream.py
@@ -393,6 +393,10 @@ class AXIM_for_AXIStreamOut(AXIM, axi.AxiMaster):
 
         return self._dma_write(fsm, global_addr, size)
 
+    def dma_wait(self, fsm):
+
+        return self.dma_wait_write(fsm)
+
     def _dma_write(self, fsm, global_addr, size):
 
         start = vtypes.Ands(fsm.here, self.write_req_idle)
-- 
2.43.0


From 8830cce3929148d9f11a0be502d8c10dd430df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 15/78] fix: FixedFIFO passes external_write and external_read
 in the right order

---
 veriloggen/thread/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/fifo.py b/veriloggen/thread/fifo.py
index 1bfa4f2..472346d 100644
--- a/veriloggen/thread/fifo.py
+++ b/veriloggen/thread/fifo.py
@@ -283,7 +283,7 @@ class FixedFIFO(FIFO):
 
         FIFO.__init__(self, m, name, clk, rst,
                       datawidth, addrwidth, sync,
-                      external_read, external_write,
+                      external_write, external_read,
                       itype, otype,
                       ext_itype, ext_otype)
 
-- 
2.43.0


From e93e174f8cf667e6393ec79f07449c86bfea2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 16/78] fix: AXIM wait calls reset the busy flags of unused
 directions

---
 veriloggen/thread/axim.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 6acd062..c5c2d8a 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -699,15 +699,18 @@ class AXIM(axi.AxiMaster, _MutexFunction):
     # wait
     def dma_wait_read(self, fsm):
 
+        self._reset_read_busy()
         fsm.If(self.read_idle).goto_next()
 
     def dma_wait_write(self, fsm):
 
+        self._reset_write_busy()
         res = self.write_completed()
         fsm.If(self.write_idle, res).goto_next()
 
     def dma_wait_write_idle(self, fsm):
 
+        self._reset_write_busy()
         fsm.If(self.write_idle).goto_next()
 
     def dma_wait_write_response(self, fsm):
@@ -717,9 +720,20 @@ class AXIM(axi.AxiMaster, _MutexFunction):
 
     def dma_wait(self, fsm):
 
+        self._reset_read_busy()
+        self._reset_write_busy()
         res = self.write_completed()
         fsm.If(self.read_idle, self.write_idle, res).goto_next()
 
+    # the busy flags must have a known value even if no transfer of the direction is used
+    def _reset_read_busy(self):
+        self.seq.add_reset(self.read_req_busy)
+        self.seq.add_reset(self.read_data_busy)
+
+    def _reset_write_busy(self):
+        self.seq.add_reset(self.write_req_busy)
+        self.seq.add_reset(self.write_data_busy)
+
     def set_global_base_addr(self, fsm, addr):
 
         if not self.use_global_base_addr:
-- 
2.43.0


From 8c9199b402e63a80e6f3ba3b3a6c761923b2b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:48 +0000
Subject: [PATCH 17/78] fix: the AXI global base address is reset even if it is
 never set

---
 veriloggen/thread/axim.py               | 2 ++
 veriloggen/thread/axim_for_axistream.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index c5c2d8a..fff64df 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -253,6 +253,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         if self.use_global_base_addr:
             self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
                                                self.addrwidth, initval=0)
+            self.seq.add_reset(self.global_base_addr)
         else:
             self.global_base_addr = None
 
@@ -1842,6 +1843,7 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
         if self.use_global_base_addr:
             self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
                                                self.addrwidth, initval=0)
+            self.seq.add_reset(self.global_base_addr)
         else:
             self.global_base_addr = None
 
diff --git a/veriloggen/thread/axim_for_axistream.py b/veriloggen/thread/axim_for_axistream.py
index 9714bd4..757051e 100644
--- a/veriloggen/thread/axim_for_axistream.py
+++ b/veriloggen/thread/axim_for_axistream.py
@@ -114,6 +114,7 @@ class AXIM_for_AXIStreamIn(AXIM, axi.AxiMaster):
         if self.use_global_base_addr:
             self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
                                                self.addrwidth, initval=0)
+            self.seq.add_reset(self.global_base_addr)
         else:
             self.global_base_addr = None
 
@@ -362,6 +363,7 @@ class AXIM_for_AXIStreamOut(AXIM, axi.AxiMaster):
         if self.use_global_base_addr:
             self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
                                                self.addrwidth, initval=0)
+            self.seq.add_reset(self.global_base_addr)
         else:
             self.global_base_addr = None
 
-- 
2.43.0


From 14300b6f392cd134b6911d8ff646ef9ab0eb48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 18/78] fix: break, continue, else and conditions of nested and
 descending loops

---
 veriloggen/thread/compiler.py | 71 ++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 5bdd1b2..4dc053c 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -258,7 +258,8 @@ class CompileVisitor(ast.NodeVisitor):
         if self.skip():
             return
 
-        # loop condition
+        # loop condition, which can take several states
+        check_count = self.getFsmCount()
         test = self.visit(node.test)
 
         begin_count = self.getFsmCount()
@@ -270,6 +271,8 @@ class CompileVisitor(ast.NodeVisitor):
         for b in node.body:
             self.visit(b)
 
+        unresolved_break, unresolved_continue = self._takeLoopJumps()
+
         self.popScope()
 
         body_end_count = self.getFsmCount()
@@ -277,20 +280,40 @@ class CompileVisitor(ast.NodeVisitor):
         loop_exit_count = self.getFsmCount()
 
         self.setFsm(begin_count, body_begin_count, test, loop_exit_count)
-        self.setFsm(body_end_count, begin_count)
+        self.setFsm(body_end_count, check_count)
+
+        self._visitLoopElse(node.orelse)
+        loop_end_count = self.getFsmCount()
 
-        unresolved_break = self.getUnresolvedBreak()
         for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
+            self.setFsm(b, loop_end_count)
 
-        unresolved_continue = self.getUnresolvedContinue()
         for c in unresolved_continue:
-            self.setFsm(c, begin_count)
+            self.setFsm(c, check_count)
+
+        self.setFsmLoop(begin_count, body_end_count)
+
+    def _takeLoopJumps(self):
+        """ break and continue of the loop whose body is the current scope """
+        unresolved_break = self.getUnresolvedBreak()
+        unresolved_continue = self.getUnresolvedContinue()
 
         self.clearBreak()
         self.clearContinue()
 
-        self.setFsmLoop(begin_count, body_end_count)
+        return unresolved_break, unresolved_continue
+
+    def _visitLoopElse(self, orelse):
+        """ else-clause of a loop, skipped by break """
+        if not orelse:
+            return
+
+        self.pushScope()
+
+        for b in orelse:
+            self.visit(b)
+
+        self.popScope()
 
     def visit_For(self, node):
         if self.skip():
@@ -327,17 +350,31 @@ class CompileVisitor(ast.NodeVisitor):
 
         iter_name = self.visit(node.target)
         iter_node = self.getVariable(iter_name, store=True)
-        cond_node = vtypes.LessThan(iter_node, end_node)
+        cond_node = self._range_cond(iter_node, end_node, step_node)
         update_node = vtypes.Plus(iter_node, step_node)
 
         node_body = node.body
 
         return self._for_range_fsm(begin_node, end_node, step_node,
-                                   iter_node, cond_node, update_node, node_body)
+                                   iter_node, cond_node, update_node, node_body,
+                                   orelse=node.orelse)
+
+    def _range_cond(self, iter_node, end_node, step_node):
+        step_value = vtypes.raw_value(optimize(step_node))
+
+        if not isinstance(step_value, int):
+            return vtypes.Cond(vtypes.LessThan(step_node, 0),
+                               vtypes.GreaterThan(iter_node, end_node),
+                               vtypes.LessThan(iter_node, end_node))
+
+        if step_value < 0:
+            return vtypes.GreaterThan(iter_node, end_node)
+
+        return vtypes.LessThan(iter_node, end_node)
 
     def _for_range_fsm(self, begin_node, end_node, step_node,
                        iter_node, cond_node, update_node, node_body,
-                       target_update=None):
+                       target_update=None, orelse=()):
 
         self.pushScope()
 
@@ -362,6 +399,8 @@ class CompileVisitor(ast.NodeVisitor):
         for b in node_body:
             self.visit(b)
 
+        unresolved_break, unresolved_continue = self._takeLoopJumps()
+
         self.popScope()
 
         body_end_count = self.getFsmCount()
@@ -375,17 +414,15 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(check_count, body_begin_count,
                     cond_node, loop_exit_count)
 
-        unresolved_break = self.getUnresolvedBreak()
+        self._visitLoopElse(orelse)
+        loop_end_count = self.getFsmCount()
+
         for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
+            self.setFsm(b, loop_end_count)
 
-        unresolved_continue = self.getUnresolvedContinue()
         for c in unresolved_continue:
             self.setFsm(c, body_end_count)
 
-        self.clearBreak()
-        self.clearContinue()
-
         self.setFsmLoop(check_count, body_end_count, iter_node, step_node)
 
     def _for_list(self, node):
@@ -414,7 +451,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         return self._for_range_fsm(begin_node, end_node, step_node,
                                    iter_node, cond_node, update_node, node_body,
-                                   target_update)
+                                   target_update, node.orelse)
 
     # --------------------------------------------------------------------------
     def visit_Call(self, node):
-- 
2.43.0


From fb9d16f74f329bc36bc091cee008fcd0bd9e73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 19/78] fix: statements after return, break or continue are not
 compiled

---
 veriloggen/thread/compiler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 4dc053c..94fc84f 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -839,14 +839,21 @@ class CompileVisitor(ast.NodeVisitor):
         pass
 
     def visit_Break(self, node):
+        if self.skip():
+            return
         self.addBreak()
         self.incFsmCount()
 
     def visit_Continue(self, node):
+        if self.skip():
+            return
         self.addContinue()
         self.incFsmCount()
 
     def visit_Return(self, node):
+        if self.skip():
+            return None
+
         if node.value is None:
             self.addReturn(None)
             self.incFsmCount()
-- 
2.43.0


From de347dfaa0d664c2cce30c2c598ea728d265c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 20/78] fix: arithmetic right shift inside an unsigned
 expression of a thread

---
 veriloggen/optimizer/optimizer.py |  2 +-
 veriloggen/thread/compiler.py     | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/veriloggen/optimizer/optimizer.py b/veriloggen/optimizer/optimizer.py
index efbc516..4ae4088 100644
--- a/veriloggen/optimizer/optimizer.py
+++ b/veriloggen/optimizer/optimizer.py
@@ -159,6 +159,6 @@ def makeASTTree(node):
         return getOp(node.operator)(makeASTTree(node.nextnodes[0]), makeASTTree(node.nextnodes[1]))
 
     if isinstance(node, DFSyscall):
-        return vtypes.SystemTask(node.syscall, tuple([makeASTTree(n) for n in node.nextnodes]))
+        return vtypes.SystemTask(node.syscall, *[makeASTTree(n) for n in node.nextnodes])
 
     raise TypeError("Unsupported DFNode %s" % type(node))
diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 94fc84f..781889a 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -969,7 +969,13 @@ class CompileVisitor(ast.NodeVisitor):
                 raise TypeError("unsupported BinOp: %s" % str(node.op))
             rslt = op(left, right)
 
-        return optimize(rslt)
+        rslt = optimize(rslt)
+
+        # keep the shift arithmetic wherever the expression is placed
+        if isinstance(rslt, vtypes.Sra) and vtypes.get_signed(rslt.left):
+            rslt = vtypes.Signed(rslt)
+
+        return rslt
 
     def _string_operation_plus(self, left, right):
         if not isinstance(left, vtypes.Str) or not isinstance(right, vtypes.Str):
@@ -1274,6 +1280,10 @@ class CompileVisitor(ast.NodeVisitor):
                                  (var.point, value.point))
 
         value = optimize(value)
+        if (isinstance(value, vtypes.SystemTask) and value.cmd == 'signed' and
+                isinstance(value.args[0], vtypes.Sra)):
+            # a shift that is the whole right-hand side needs no guard
+            value = value.args[0]
         cond = optimize(cond) if cond is not None else None
         subst = (vtypes.SingleStatement(value) if var is None else
                  var.write(value))
-- 
2.43.0


From 72f978ff7f7162f7558a418057a0a361181bf81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 21/78] fix: chained comparison starting with a false constant

---
 veriloggen/thread/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 781889a..ed77591 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -1017,7 +1017,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         ret = None
         for r in rslts:
-            if ret:
+            if ret is not None:
                 ret = vtypes.Land(ret, r)
             else:
                 ret = r
-- 
2.43.0


From fa73904ca1d96522fa06e0a64f76e64e6bde80a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:33 +0000
Subject: [PATCH 22/78] fix: keyword arguments of a child thread run

---
 veriloggen/thread/thread.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index eafdcf2..5f3b0c7 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -379,12 +379,15 @@ class Thread(vtypes.VeriloggenNode):
             #    )
 
         # kwargs
-        kwargs_code = []
         for argname, arg in sorted(kwargs.items(), key=lambda x: x[0]):
             if argname in used_args:
                 raise TypeError(
                     "got multiple values for argument '%s'" % argname)
 
+            if argname not in args_code:
+                raise TypeError(
+                    "got an unexpected keyword argument '%s'" % argname)
+
             used_args.append(argname)
 
             if isinstance(arg, vtypes.numerical_types):  # pass by value
@@ -416,8 +419,6 @@ class Thread(vtypes.VeriloggenNode):
                     raise ValueError(
                         'same object must be passed for non-numeric argument')
 
-            kwargs_code.append('{}={}'.format(key, key))
-
         # defaults
         defaults_size = len(tree.args.defaults)
         if defaults_size > 0:
@@ -460,7 +461,7 @@ class Thread(vtypes.VeriloggenNode):
             return self.return_value
 
         # call AST
-        args_text = ', '.join(args_code + kwargs_code)
+        args_text = ', '.join(args_code)
         call_code = ''.join([self.targ.__name__, '(', args_text, ')'])
         _call_ast = ast.parse(call_code)
 
-- 
2.43.0


From c0b643be9034f222f13c478a7dbcd193dd28503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:35 +0000
Subject: [PATCH 23/78] fix: a child thread run right after its reset is not
 lost

---
 veriloggen/thread/thread.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index 5f3b0c7..f6dd266 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -60,6 +60,7 @@ class Thread(vtypes.VeriloggenNode):
         self.vararg_regs = []
         self.vararg_set = False
         self.called = None
+        self.reset_point = None
 
     def start(self, *args, **kwargs):
         """ build up a new FSM based on the arguments """
@@ -114,6 +115,10 @@ class Thread(vtypes.VeriloggenNode):
 
         self.is_child = True
 
+        if self.reset_point == (id(fsm), fsm.current):
+            # the child is back in its start state in the next cycle
+            fsm.goto_next()
+
         if self.start_state is not None:
             self.fsm._set_index(self.start_state)
         else:
@@ -167,6 +172,8 @@ class Thread(vtypes.VeriloggenNode):
         self.fsm.goto_from(self.end_state, self.start_state, reset_flag)
         self.fsm._set_index(self.start_state)
 
+        self.reset_point = (id(fsm), fsm.current)
+
         return 0
 
     def ret(self, fsm):
-- 
2.43.0


From 6e45329cc6bb0bf05a229597eb8a51096c81ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:16 +0000
Subject: [PATCH 24/78] fix: calls without own state in a branch were executed
 unconditionally

---
 veriloggen/thread/compiler.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index ed77591..903dca7 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -229,8 +229,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         self.pushScope()
 
-        for b in node.body:  # true statement
-            self.visit(b)
+        self._visitBranch(node.body)  # true statement
 
         self.popScope()
 
@@ -245,8 +244,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         self.pushScope()
 
-        for b in node.orelse:  # false statement
-            self.visit(b)
+        self._visitBranch(node.orelse)  # false statement
 
         self.popScope()
 
@@ -254,6 +252,21 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(cur_count, true_count, test, false_count)
         self.setFsm(mid_count, end_count)
 
+    def _visitBranch(self, body):
+        """ statements that are executed conditionally """
+        begin_count = self.getFsmCount()
+
+        for b in body:
+            self.visit(b)
+
+        if self.getFsmCount() != begin_count:
+            return
+
+        # calls without own state must not share the state after the branch
+        if not all(isinstance(b, ast.Pass) for b in body):
+            self.setFsm()
+            self.incFsmCount()
+
     def visit_While(self, node):
         if self.skip():
             return
@@ -310,8 +323,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         self.pushScope()
 
-        for b in orelse:
-            self.visit(b)
+        self._visitBranch(orelse)
 
         self.popScope()
 
-- 
2.43.0


From f0f5b0c727118abfbad9bb23e5edd109ae1ad46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:59 +0000
Subject: [PATCH 25/78] fix: write_burst_bcast returns the done signal

---
 veriloggen/thread/ram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index feafe52..7a31494 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -898,7 +898,7 @@ class MultibankRAM(RAM):
                                            wdata, wvalid, wlast, wquit,
                                            port, cond)
             wready_list.append(wready)
-            done_list.append(done_list)
+            done_list.append(done)
 
         return wready_list[0], done_list[0]
 
-- 
2.43.0


From ea8deb4c2bb23c2ce1d25875b57cac3c93cbbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:59 +0000
Subject: [PATCH 26/78] fix: write_burst_block is ready in the state of every
 bank

---
 veriloggen/thread/ram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index 7a31494..a098bb1 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -824,10 +824,10 @@ class MultibankRAM(RAM):
             fsm.If(wvalid, wlast).goto_init()
             fsm.If(wquit).goto_init()
 
-            fsm.inc()
-
             wready = vtypes.Ors(wready, fsm.here)
 
+            fsm.inc()
+
         return wready, done
 
     def write_burst_packed(self, addr, stride, packed_length, blocksize,
-- 
2.43.0


From f085890036bdfc6b956cb713d4ff4157967c3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 27/78] fix: a stream sink with a condition does not write
 after the last element

---
 veriloggen/thread/stream.py | 38 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 39b7654..bbf9b63 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2775,11 +2775,7 @@ class Stream(BaseStream):
         )
         var.sink_fsm.If(self.oready).goto_next()
 
-        if name in self.sink_when_map:
-            when = self.sink_when_map[name]
-            wcond = when.read()
-        else:
-            wcond = None
+        wcond = self._sink_write_cond(name)
 
         rdata = var.read()
 
@@ -2793,6 +2789,14 @@ class Stream(BaseStream):
         var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
         var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
 
+    def _sink_write_cond(self, name):
+        if name not in self.sink_when_map:
+            return None
+
+        # sink_stop is asserted just after the last element
+        when = self.sink_when_map[name]
+        return vtypes.Ands(self.valid_list[-1], when.read())
+
     def _make_sink_pattern_vars(self, var, name):
         if var.sink_pat_cur_offsets is not None:
             return
@@ -2867,11 +2871,7 @@ class Stream(BaseStream):
 
         var.sink_pat_fsm.If(self.oready).goto_next()
 
-        if name in self.sink_when_map:
-            when = self.sink_when_map[name]
-            wcond = when.read()
-        else:
-            wcond = None
+        wcond = self._sink_write_cond(name)
 
         rdata = var.read()
 
@@ -3023,11 +3023,7 @@ class Stream(BaseStream):
 
         var.sink_multipat_fsm.If(self.oready).goto_next()
 
-        if name in self.sink_when_map:
-            when = self.sink_when_map[name]
-            wcond = when.read()
-        else:
-            wcond = None
+        wcond = self._sink_write_cond(name)
 
         rdata = var.read()
 
@@ -3140,11 +3136,7 @@ class Stream(BaseStream):
 
         current_addr = generator_vars[0]
 
-        if name in self.sink_when_map:
-            when = self.sink_when_map[name]
-            wcond = when.read()
-        else:
-            wcond = None
+        wcond = self._sink_write_cond(name)
 
         rdata = var.read()
 
@@ -3331,11 +3323,7 @@ class Stream(BaseStream):
         )
         var.sink_fsm.If(self.oready).goto_next()
 
-        if name in self.sink_when_map:
-            when = self.sink_when_map[name]
-            wcond = when.read()
-        else:
-            wcond = None
+        wcond = self._sink_write_cond(name)
 
         rdata = var.read()
 
-- 
2.43.0


From 4f755da7bb7a05445e3644918185af12a2bc23e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 28/78] fix: stream accesses of a RAM use the requested port

---
 veriloggen/thread/stream.py | 56 +++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index bbf9b63..4ab32f6 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -1920,21 +1920,23 @@ class Stream(BaseStream):
         return start_value
 
     def _setup_source_ram(self, ram, var, port, set_cond):
-        if ram._id() in var.source_id_map:
-            ram_id = var.source_id_map[ram._id()]
+        key = (ram._id(), port)
+
+        if key in var.source_id_map:
+            ram_id = var.source_id_map[key]
             self.seq.If(set_cond)(
                 var.source_sel(ram_id)
             )
             return
 
-        if ram._id() not in self.buf_id_map:
+        if key not in self.buf_id_map:
             ram_id = self.buf_id_count
             self.buf_id_count += 1
-            self.buf_id_map[ram._id()] = ram_id
+            self.buf_id_map[key] = ram_id
         else:
-            ram_id = self.buf_id_map[ram._id()]
+            ram_id = self.buf_id_map[key]
 
-        var.source_id_map[ram._id()] = ram_id
+        var.source_id_map[key] = ram_id
 
         self.seq.If(set_cond)(
             var.source_sel(ram_id)
@@ -2649,21 +2651,23 @@ class Stream(BaseStream):
         var.source_fsm.If(self.source_stop, self.oready).goto_init()
 
     def _setup_sink_ram(self, ram, var, port, set_cond):
-        if ram._id() in var.sink_id_map:
-            ram_id = var.sink_id_map[ram._id()]
+        key = (ram._id(), port)
+
+        if key in var.sink_id_map:
+            ram_id = var.sink_id_map[key]
             self.seq.If(set_cond)(
                 var.sink_sel(ram_id)
             )
             return
 
-        if ram._id() not in self.buf_id_map:
+        if key not in self.buf_id_map:
             ram_id = self.buf_id_count
             self.buf_id_count += 1
-            self.buf_id_map[ram._id()] = ram_id
+            self.buf_id_map[key] = ram_id
         else:
-            ram_id = self.buf_id_map[ram._id()]
+            ram_id = self.buf_id_map[key]
 
-        var.sink_id_map[ram._id()] = ram_id
+        var.sink_id_map[key] = ram_id
 
         self.seq.If(set_cond)(
             var.sink_sel(ram_id)
@@ -3336,21 +3340,23 @@ class Stream(BaseStream):
         var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _setup_read_ram(self, ram, var, port, set_cond):
-        if ram._id() in var.read_ram_id_map:
-            ram_id = var.read_ram_id_map[ram._id()]
+        key = (ram._id(), port)
+
+        if key in var.read_ram_id_map:
+            ram_id = var.read_ram_id_map[key]
             self.seq.If(set_cond)(
                 var.read_ram_sel(ram_id)
             )
             return
 
-        if ram._id() not in self.buf_id_map:
+        if key not in self.buf_id_map:
             ram_id = self.buf_id_count
             self.buf_id_count += 1
-            self.buf_id_map[ram._id()] = ram_id
+            self.buf_id_map[key] = ram_id
         else:
-            ram_id = self.buf_id_map[ram._id()]
+            ram_id = self.buf_id_map[key]
 
-        var.read_ram_id_map[ram._id()] = ram_id
+        var.read_ram_id_map[key] = ram_id
 
         self.seq.If(set_cond)(
             var.read_ram_sel(ram_id)
@@ -3451,21 +3457,23 @@ class Stream(BaseStream):
         )
 
     def _setup_write_ram(self, ram, var, port, set_cond):
-        if ram._id() in var.write_ram_id_map:
-            ram_id = var.write_ram_id_map[ram._id()]
+        key = (ram._id(), port)
+
+        if key in var.write_ram_id_map:
+            ram_id = var.write_ram_id_map[key]
             self.seq.If(set_cond)(
                 var.write_ram_sel(ram_id)
             )
             return
 
-        if ram._id() not in self.buf_id_map:
+        if key not in self.buf_id_map:
             ram_id = self.buf_id_count
             self.buf_id_count += 1
-            self.buf_id_map[ram._id()] = ram_id
+            self.buf_id_map[key] = ram_id
         else:
-            ram_id = self.buf_id_map[ram._id()]
+            ram_id = self.buf_id_map[key]
 
-        var.write_ram_id_map[ram._id()] = ram_id
+        var.write_ram_id_map[key] = ram_id
 
         self.seq.If(set_cond)(
             var.write_ram_sel(ram_id)
-- 
2.43.0


From 2d45987db31e6432d8d7c676497ab9b36aa6a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 29/78] fix: read_modify_write_RAM forwards the results of the
 preceding elements

---
 veriloggen/stream/stypes.py | 24 +++++++++++++++++++++---
 veriloggen/thread/stream.py | 17 ++++++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index aadec00..985d3d5 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -1945,6 +1945,18 @@ class ForwardDest(_SpecialOperator):
         self.forward_index = m.Wire(self.name('forward_index'), index_width, signed=index_signed)
         self.forward_valid = m.Wire(self.name('forward_valid'))
 
+        # The next-but-one value is read in the cycle when this one is written.
+        prev_value = m.Reg(self.name('prev_forward_value'), width, initval=0, signed=signed)
+        prev_index = m.Reg(self.name('prev_forward_index'), index_width,
+                           initval=0, signed=index_signed)
+        prev_valid = m.Reg(self.name('prev_forward_valid'), initval=0)
+
+        seq(prev_value(self.forward_value), cond=senable)
+        seq(prev_index(self.forward_index), cond=senable)
+        seq(prev_valid(self.forward_valid), cond=senable)
+
+        value = vtypes.Mux(_and_vars(prev_valid, index == prev_index), prev_value, value)
+
         data = m.Wire(self.name('data'), width, signed=signed)
         data.assign(vtypes.Mux(_and_vars(self.forward_valid, index == self.forward_index),
                                self.forward_value, value))
@@ -1954,8 +1966,12 @@ class ForwardDest(_SpecialOperator):
 class ForwardSource(_SpecialOperator):
     latency = 0
 
-    def __init__(self, value, index, dest):
-        _SpecialOperator.__init__(self, value, index)
+    def __init__(self, value, index, dest, when=None):
+        args = [value, index]
+        if when is not None:
+            args.append(when)
+
+        _SpecialOperator.__init__(self, *args)
         self.dest = dest
 
         self.output_tmp()
@@ -1984,6 +2000,8 @@ class ForwardSource(_SpecialOperator):
         signed = self.get_signed()
         value = self.args[0].sig_data
         index = self.args[1].sig_data
+        when = self.args[2].sig_data if len(self.args) > 2 else None
+        valid = _and_vars(svalid, when)
 
         data = m.Wire(self.name('data'), width, signed=signed)
         data.assign(value)
@@ -1991,7 +2009,7 @@ class ForwardSource(_SpecialOperator):
 
         self.dest.forward_value.assign(value)
         self.dest.forward_index.assign(index)
-        self.dest.forward_valid.assign(svalid)
+        self.dest.forward_valid.assign(valid)
 
 
 class Consumer(_SpecialOperator):
diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 4ab32f6..a37ffa7 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -582,8 +582,19 @@ class Stream(BaseStream):
             point_list = [None for raddr in raddrs]
             signed_list = [True for raddr in raddrs]
 
-        if len(raddrs) > 1:
-            raddrs = self.Sync(*raddrs)
+        # All operands must be ready at the same stage to forward the result.
+        num_raddrs = len(raddrs)
+        sync_vars = list(raddrs) + list(op_args) + [waddr]
+        if when is not None:
+            sync_vars.append(when)
+
+        sync_vars = self.Sync(*sync_vars)
+
+        raddrs = sync_vars[:num_raddrs]
+        op_args = sync_vars[num_raddrs:num_raddrs + len(op_args)]
+        waddr = sync_vars[num_raddrs + len(op_args)]
+        if when is not None:
+            when = sync_vars[-1]
 
         read_vars = []
         read_rams = []
@@ -607,7 +618,7 @@ class Stream(BaseStream):
         write_var = op(*args)
 
         for read_var in read_vars:
-            self.ForwardSource(write_var, waddr, read_var)
+            self.ForwardSource(write_var, waddr, read_var, when)
 
         write_name = '_'.join([name, 'write'])
         write_var = self.write_RAM(write_name, waddr, write_var, when=when)
-- 
2.43.0


From 7b25d83ff4eadb572bc0c8f317aa1a530f5bcd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 30/78] fix: streams accept shift amounts computed by every
 operator

---
 veriloggen/stream/stypes.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 985d3d5..0d31a0f 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -192,7 +192,7 @@ class _Numeric(_Node):
         return self.width
 
     def eval(self):
-        raise NotImplementedError('eval() is not implemented')
+        return self
 
     def _set_attributes(self):
         raise NotImplementedError('_set_attributes() is not implemented')
@@ -324,15 +324,27 @@ class _Numeric(_Node):
     def __add__(self, r):
         return Plus(self, r)
 
+    def __radd__(self, l):
+        return Plus(l, self)
+
     def __sub__(self, r):
         return Minus(self, r)
 
+    def __rsub__(self, l):
+        return Minus(l, self)
+
     def __pow__(self, r):
         return Power(self, r)
 
+    def __rpow__(self, l):
+        return Power(l, self)
+
     def __mul__(self, r):
         return Times(self, r)
 
+    def __rmul__(self, l):
+        return Times(l, self)
+
     def __div__(self, r):
         return Divide(self, r)
 
@@ -342,21 +354,39 @@ class _Numeric(_Node):
     def __mod__(self, r):
         return Mod(self, r)
 
+    def __rmod__(self, l):
+        return Mod(l, self)
+
     def __and__(self, r):
         return And(self, r)
 
+    def __rand__(self, l):
+        return And(l, self)
+
     def __or__(self, r):
         return Or(self, r)
 
+    def __ror__(self, l):
+        return Or(l, self)
+
     def __xor__(self, r):
         return Xor(self, r)
 
+    def __rxor__(self, l):
+        return Xor(l, self)
+
     def __lshift__(self, r):
         return Sll(self, r)
 
+    def __rlshift__(self, l):
+        return Sll(l, self)
+
     def __rshift__(self, r):
         return Srl(self, r)
 
+    def __rrshift__(self, l):
+        return Srl(l, self)
+
     def __neg__(self):
         return Uminus(self)
 
@@ -2496,7 +2526,7 @@ class _PlusN(_SpecialOperator):
         self.graph_label = 'PlusN'
 
     def eval(self):
-        vars = [var.eval() for var in self.vars]
+        vars = [arg.eval() for arg in self.args]
         for var in vars:
             if not isinstance(var, int):
                 return PlusN(*vars)
@@ -2603,7 +2633,7 @@ class _MulAdd(_SpecialOperator):
         m.Instance(inst, self.name('madd'), ports=ports)
 
     def eval(self):
-        vars = [var.eval() for var in self.vars]
+        vars = [arg.eval() for arg in self.args]
         for var in vars:
             if not isinstance(var, int):
                 return MulAdd(*vars)
-- 
2.43.0


From 76ae98dc077afee52ad9bf4772a87d7c081b6f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 31/78] fix: a reset on a disabled element restarts stream
 accumulators completely

---
 veriloggen/stream/stypes.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 0d31a0f..48fbdd4 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3164,6 +3164,14 @@ class _Accumulator(_Operator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # in case this element is not accumulated
+            if self.interval is not None and self.enable is not None:
+                seq(interval_count(0), cond=enable_reset_cond)
+
+            if self.size is not None and (self.interval is not None or self.enable is not None):
+                seq(count(0), cond=enable_reset_cond)
+                seq(prev_count_max(0), cond=enable_reset_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3330,6 +3338,14 @@ class ReduceMul(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # in case this element is not accumulated
+            if self.interval is not None and self.enable is not None:
+                seq(interval_count(0), cond=enable_reset_cond)
+
+            if self.size is not None and (self.interval is not None or self.enable is not None):
+                seq(count(0), cond=enable_reset_cond)
+                seq(prev_count_max(0), cond=enable_reset_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3495,6 +3511,14 @@ class ReduceDiv(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # in case this element is not accumulated
+            if self.interval is not None and self.enable is not None:
+                seq(interval_count(0), cond=enable_reset_cond)
+
+            if self.size is not None and (self.interval is not None or self.enable is not None):
+                seq(count(0), cond=enable_reset_cond)
+                seq(prev_count_max(0), cond=enable_reset_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3666,6 +3690,13 @@ class Counter(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # in case this element is not counted
+            if self.interval is not None and self.enable is not None:
+                seq(interval_count(0), cond=enable_reset_cond)
+
+            if self.interval is not None or self.enable is not None:
+                seq(count(initval_data), cond=enable_reset_cond)
+
         seq(data(current_count), cond=enable_cond)
 
         if self.enable is not None:
-- 
2.43.0


From 5d5fddbed04f97120fa45edc6fdf66ef884c1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 32/78] fix: multi-cycle substreams with shallow children and
 stalls

---
 veriloggen/stream/stypes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 48fbdd4..e99ccea 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4126,8 +4126,9 @@ class SubstreamMultiCycle(Substream):
         # conservative scheduling
         # self.initiation_interval = self.latency - 1
         # aggressive scheduling
-        self.initiation_interval = self.latency - 1 - 1
-        self.latency = 1 + 1
+        # (2 intervals must cover the latency of the child)
+        self.initiation_interval = max(self.latency - 1 - 1, (self.latency + 1) // 2)
+        self.latency = min(self.latency, 1 + 1)
 
     def _implement(self, m, seq, svalid=None, senable=None):
         arg_data = [arg.sig_data for arg in self.args]
@@ -4147,7 +4148,7 @@ class SubstreamMultiCycle(Substream):
 
         cont = m.Reg(self.name('ii_cont'), initval=0)
 
-        seq.If(ii_count == 0, cont)(
+        seq.If(ii_count == 0, cont, senable)(
             ii_count.inc(),
             cont(0)
         )
@@ -4162,7 +4163,7 @@ class SubstreamMultiCycle(Substream):
             ii_count(0)
         )
 
-        self.child.fsm.seq.If(self.strm.busy, self.child.ivalid)(
+        self.child.fsm.seq.If(self.strm.busy, self.child.oready, self.child.ivalid)(
             self.child.ivalid(vtypes.Int(0, 1))
         )
         self.child.fsm.seq.If(enable_cond, ii_count == 0)(
-- 
2.43.0


From 768beb4721f728a01e4ccf7e965cf97f3354847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 33/78] fix: the type of ring buffers and scratchpads is that
 of the data

---
 veriloggen/stream/stypes.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index e99ccea..0de2eea 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4247,6 +4247,12 @@ class RingBuffer(_SpecialOperator):
         self.graph_label = 'RingBufferIn'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        value = self.args[0]
+        self.width = value.get_width()
+        self.point = value.get_point()
+        self.signed = value.get_signed()
+
     def read(self, offset, enable=None):
         var = _RingBufferOutput(self, offset, self.num_ports, enable)
         self.read_vars.append(var)
@@ -4303,6 +4309,12 @@ class _RingBufferOutput(_SpecialOperator):
         self.graph_label = 'RingBufferOut'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        value = self.args[0]
+        self.width = value.get_width()
+        self.point = value.get_point()
+        self.signed = value.get_signed()
+
     def _implement(self, m, seq, svalid=None, senable=None):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -4355,6 +4367,12 @@ class Scratchpad(_SpecialOperator):
         self.graph_label = 'ScratchpadIn'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        value = self.args[0]
+        self.width = value.get_width()
+        self.point = value.get_point()
+        self.signed = value.get_signed()
+
     def read(self, addr, enable=None):
         var = _ScratchpadOutput(self, addr, self.num_ports, enable)
         self.read_vars.append(var)
@@ -4408,6 +4426,12 @@ class _ScratchpadOutput(_SpecialOperator):
         self.graph_label = 'ScratchpadOut'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        value = self.args[0]
+        self.width = value.get_width()
+        self.point = value.get_point()
+        self.signed = value.get_signed()
+
     def _implement(self, m, seq, svalid=None, senable=None):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
-- 
2.43.0


From bd708613cab1d8545d20ef798d7ef8cb50dd9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:47 +0000
Subject: [PATCH 34/78] fix: substreams of substreams run with their ancestors

---
 veriloggen/thread/stream.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index a37ffa7..508c0ae 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -1811,7 +1811,14 @@ class Stream(BaseStream):
                 self.busy_reg(0)
             )
 
-        self.busy.assign(vtypes.Ors(self.source_busy, self.sink_busy, self.busy_reg))
+        busy = vtypes.Ors(self.source_busy, self.sink_busy, self.busy_reg)
+        parent_busy = self.busy._get_assign()
+
+        if parent_busy is None:
+            self.busy.assign(busy)
+        else:
+            # already used as a substream
+            parent_busy.overwrite_right(vtypes.Ors(parent_busy.statement.right, busy))
 
         return 0
 
@@ -3848,6 +3855,7 @@ class Substream(BaseSubstream):
         self.child.fsm.seq(self.child.source_busy(child_source_busy), cond=cond)
 
         # parent to child
+        util.add_enable_cond(self.child.busy, self.strm.busy, 1)
         util.add_disable_cond(self.child.is_root, self.strm.busy, 0)
         util.add_disable_cond(self.child.oready, self.strm.busy, self.strm.oready)
 
@@ -3896,4 +3904,5 @@ class SubstreamMultiCycle(BaseSubstreamMultiCycle, Substream):
         self.child.fsm.seq(self.child.source_busy(child_source_busy), cond=cond)
 
         # parent to child
+        util.add_enable_cond(self.child.busy, self.strm.busy, 1)
         util.add_disable_cond(self.child.is_root, self.strm.busy, 0)
-- 
2.43.0


From b9df0e4479fa12426131a3c0237bd220ed3b55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:03 +0000
Subject: [PATCH 35/78] fix: constant sources of a stream keep their value for
 the whole run

---
 veriloggen/thread/stream.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 508c0ae..88c487f 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -1021,15 +1021,17 @@ class Stream(BaseStream):
             fsm.goto_next()
             return
 
-        source_start = vtypes.Ands(self.source_start, self.oready,
-                                   vtypes.Not(vtypes.Uor(vtypes.And(var.source_mode, mode_idle))))
+        empty_cond = vtypes.Not(vtypes.Uor(var.source_mode))
+        source_start = vtypes.Ands(self.source_start, self.oready, empty_cond)
 
         self.seq.If(source_start)(
             var.source_idle(1)
         )
 
+        # the value must not be overwritten by the sources of the other modes
         wdata = var.source_empty_data
-        wenable = vtypes.Ands(source_start, self.is_root)
+        wenable = vtypes.Ands(self.oready, vtypes.Ors(self.source_start, self.source_busy),
+                              self.is_root, empty_cond)
         var.write(wdata, wenable)
 
         var.has_source_empty = True
@@ -1937,6 +1939,14 @@ class Stream(BaseStream):
         start_value = self.seq.Prev(v, 1, cond=self.oready)
         return start_value
 
+    def _source_wenable(self, var):
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+
+        if var.has_source_empty:
+            wenable = vtypes.Ands(wenable, vtypes.Uor(var.source_mode))
+
+        return wenable
+
     def _setup_source_ram(self, ram, var, port, set_cond):
         key = (ram._id(), port)
 
@@ -2069,7 +2079,7 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var)
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2174,7 +2184,7 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var)
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2342,7 +2352,7 @@ class Stream(BaseStream):
                 )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var)
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2462,7 +2472,7 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var)
         var.write(wdata, wenable)
 
         fsm_name = '_%s_source_generator_fsm_%d' % (prefix, generator_id)
@@ -2630,7 +2640,7 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_fifo_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = self._source_wenable(var)
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
-- 
2.43.0


From 0518416727f520cc00983ab8c874570554f3d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:03 +0000
Subject: [PATCH 36/78] fix: queued stream runs keep busy, parameters and
 settings while stalled

---
 veriloggen/thread/stream.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 88c487f..c1a1c78 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -135,6 +135,9 @@ class Stream(BaseStream):
         self.busy_reg = self.module.Reg(
             '_'.join(['', self.name, 'busy_reg']), initval=0)
 
+        self.run_queued = False
+        self.in_flight = []
+
         self.is_root = self.module.Wire('_'.join(['', self.name, 'is_root']))
         self.is_root.assign(1)
 
@@ -1454,6 +1457,16 @@ class Stream(BaseStream):
             var.write(var.next_parameter_data, self.source_start)
             var.has_parameter_data = True
 
+            if self.run_queued:
+                self._hold_parameter(var)
+
+    def _hold_parameter(self, var):
+        # a stalled element of the preceding run still needs the previous value
+        data = getattr(var, 'sig_data_write', var.sig_data)
+        self.seq.If(self.source_start, vtypes.Not(self.oready))(
+            data(data)
+        )
+
     def set_read_RAM(self, fsm, name, ram, port=0):
         """ intrinsic method to assign RAM property to a read_RAM interface """
         self._set_read_RAM(fsm, name, ram, port)
@@ -1851,7 +1864,20 @@ class Stream(BaseStream):
         self._run(cond)
         fsm.If(vtypes.Not(self.source_busy)).goto_next()
 
-        fsm.If(self.busy).goto_next()
+        # the settings are in use until a stalled pipeline accepts the start
+        fsm.If(self.busy, vtypes.Not(self.source_start)).goto_next()
+
+        if not self.run_queued:
+            # the preceding run may finish while this one is between source and sink
+            self.seq.If(vtypes.Ors(*self.in_flight))(
+                self.busy_reg(1)
+            )
+
+            for var in self.parameters.values():
+                if var.has_parameter_data:
+                    self._hold_parameter(var)
+
+            self.run_queued = True
 
         return 0
 
@@ -1910,6 +1936,7 @@ class Stream(BaseStream):
                     n(0)
                 )
             v = n
+            self.in_flight.append(n)
         return v
 
     def _delay_from_start_to_ivalid_on(self, v):
-- 
2.43.0


From a080ca5b4007b964715ee7a7c64071a8a3a09d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:14 +0000
Subject: [PATCH 37/78] fix: multipattern sources and sinks can be set again
 and switch patterns correctly

---
 veriloggen/thread/stream.py | 40 +++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index c1a1c78..566c1cb 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -246,6 +246,7 @@ class Stream(BaseStream):
 
         # set_source_multipattern
         var.source_multipat_num_patterns = None
+        var.source_multipat_num_patterns_buf = None
         var.source_multipat_offsets = None
         var.source_multipat_cur_offsets = None
         var.source_multipat_sizes = None
@@ -366,6 +367,7 @@ class Stream(BaseStream):
 
         # set_sink_multipattern
         data.sink_multipat_num_patterns = None
+        data.sink_multipat_num_patterns_buf = None
         data.sink_multipat_offsets = None
         data.sink_multipat_cur_offsets = None
         data.sink_multipat_sizes = None
@@ -2286,6 +2288,9 @@ class Stream(BaseStream):
         var.source_multipat_num_patterns = self.module.Reg(
             '_source_%s_multipat_num_patterns' % prefix,
             int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
+        var.source_multipat_num_patterns_buf = self.module.Reg(
+            '_source_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.source_multipat_offsets = [
             self.module.Reg('_source_%s_multipat_%d_offset' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -2316,7 +2321,7 @@ class Stream(BaseStream):
             for j in range(self.max_multipattern_length)]
         var.source_multipat_size_bufs = [[self.module.Reg('_source_%s_multipat_%d_size_buf_%d' %
                                                           (prefix, j, i),
-                                                          self.addrwidth, initval=0)
+                                                          self.addrwidth + 1, initval=0)
                                           for i in range(self.max_pattern_length)]
                                          for j in range(self.max_multipattern_length)]
         var.source_multipat_stride_bufs = [[self.module.Reg('_source_%s_multipat_%d_stride_buf_%d' %
@@ -2326,7 +2331,7 @@ class Stream(BaseStream):
                                            for j in range(self.max_multipattern_length)]
 
     def _synthesize_set_source_multipattern(self, var, name):
-        if var.source_pat_fsm is not None:
+        if var.source_multipat_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2342,7 +2347,7 @@ class Stream(BaseStream):
             )
 
         self.seq.If(source_start, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf(var.source_multipat_num_patterns - 1)
         )
 
         for (source_multipat_size, source_multipat_count) in zip(
@@ -2435,6 +2440,12 @@ class Stream(BaseStream):
             )
             prev_offset = multipat_offset_buf
 
+        for multipat_sizes in var.source_multipat_size_bufs[1:2]:
+            for size, count in zip(multipat_sizes, var.source_multipat_counts[0]):
+                self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
+                    count(size - 1)
+                )
+
         prev_sizes = var.source_multipat_size_bufs[0]
         for multipat_sizes in var.source_multipat_size_bufs[1:]:
             for prev_size, size in zip(prev_sizes, multipat_sizes):
@@ -2452,7 +2463,7 @@ class Stream(BaseStream):
             prev_strides = multipat_strides
 
         self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf.dec()
         )
 
         # force flush
@@ -2464,7 +2475,7 @@ class Stream(BaseStream):
 
         # finalize
         var.source_multipat_fsm.If(fin_cond,
-                                   var.source_multipat_num_patterns == 0,
+                                   var.source_multipat_num_patterns_buf == 0,
                                    self.oready).goto_next()
 
         self.seq.If(var.source_multipat_fsm.here, self.oready)(
@@ -2980,6 +2991,9 @@ class Stream(BaseStream):
         var.sink_multipat_num_patterns = self.module.Reg(
             '_sink_%s_multipat_num_patterns' % prefix,
             int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
+        var.sink_multipat_num_patterns_buf = self.module.Reg(
+            '_sink_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.sink_multipat_offsets = [
             self.module.Reg('_sink_%s_multipat_%d_offset' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -3010,7 +3024,7 @@ class Stream(BaseStream):
             for j in range(self.max_multipattern_length)]
         var.sink_multipat_size_bufs = [[self.module.Reg('_sink_%s_multipat_%d_size_buf_%d' %
                                                         (prefix, j, i),
-                                                        self.addrwidth, initval=0)
+                                                        self.addrwidth + 1, initval=0)
                                         for i in range(self.max_pattern_length)]
                                        for j in range(self.max_multipattern_length)]
         var.sink_multipat_stride_bufs = [[self.module.Reg('_sink_%s_multipat_%d_stride_buf_%d' %
@@ -3027,7 +3041,7 @@ class Stream(BaseStream):
                                  vtypes.And(var.sink_mode, mode_ram_multipattern))
 
         self.seq.If(sink_start, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+            var.sink_multipat_num_patterns_buf(var.sink_multipat_num_patterns - 1)
         )
 
         for (sink_multipat_offset_buf,
@@ -3102,7 +3116,7 @@ class Stream(BaseStream):
             var.sink_ram_wenable(1)
         )
 
-        upcond = None
+        upcond = wcond
 
         for (sink_multipat_cur_offset, sink_multipat_size_buf,
              sink_multipat_stride_buf, sink_multipat_count) in zip(
@@ -3130,6 +3144,12 @@ class Stream(BaseStream):
             )
             prev_offset = multipat_offset_buf
 
+        for multipat_sizes in var.sink_multipat_size_bufs[1:2]:
+            for size, count in zip(multipat_sizes, var.sink_multipat_counts[0]):
+                self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+                    count(size - 1)
+                )
+
         prev_sizes = var.sink_multipat_size_bufs[0]
         for multipat_sizes in var.sink_multipat_size_bufs[1:]:
             for prev_size, size in zip(prev_sizes, multipat_sizes):
@@ -3147,11 +3167,11 @@ class Stream(BaseStream):
             prev_strides = multipat_strides
 
         self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+            var.sink_multipat_num_patterns_buf.dec()
         )
 
         var.sink_multipat_fsm.If(fin_cond,
-                                 var.sink_multipat_num_patterns == 0,
+                                 var.sink_multipat_num_patterns_buf == 0,
                                  self.oready).goto_init()
         var.sink_multipat_fsm.If(self.sink_stop, self.oready).goto_init()
 
-- 
2.43.0


From 3d7722e4b9393c47b0b64eb37f5a80b33f5a505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:29 +0000
Subject: [PATCH 38/78] fix: generator sources and sinks use the arguments
 given when they are set

---
 veriloggen/thread/stream.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 566c1cb..8d026ff 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -952,6 +952,9 @@ class Stream(BaseStream):
             var.source_generator_id(generator_id)
         )
 
+        initvals = [self.seq.Prev(initval, 1, cond=set_cond) for initval in initvals]
+        args = [self.seq.Prev(arg, 1, cond=set_cond) for arg in args]
+
         port = vtypes.to_int(port)
         self._setup_source_ram(ram, var, port, set_cond)
         self._synthesize_set_source_generator(var, name, func, initvals, args)
@@ -1305,6 +1308,9 @@ class Stream(BaseStream):
             var.sink_generator_id(generator_id)
         )
 
+        initvals = [self.seq.Prev(initval, 1, cond=set_cond) for initval in initvals]
+        args = [self.seq.Prev(arg, 1, cond=set_cond) for arg in args]
+
         port = vtypes.to_int(port)
         self._setup_sink_ram(ram, var, port, set_cond)
         self._synthesize_set_sink_generator(var, name, func, initvals, args)
@@ -2498,6 +2504,9 @@ class Stream(BaseStream):
                                    vtypes.And(var.source_mode, mode_ram_generator),
                                    var.source_generator_id == generator_id)
 
+        args = [self.seq.Prev(arg, 1, cond=vtypes.Ands(source_start, self.oready))
+                for arg in args]
+
         prefix = self._prefix(name)
 
         generator_vars = [self.module.Reg('%s_generator_%d_var_%d' % (prefix, generator_id, i),
@@ -3188,8 +3197,6 @@ class Stream(BaseStream):
                                  vtypes.And(var.sink_mode, mode_ram_generator),
                                  var.sink_generator_id == generator_id)
 
-        initvals = [self.seq.Prev(initval, 1, cond=vtypes.Ands(sink_start, self.oready))
-                    for initval in initvals]
         args = [self.seq.Prev(arg, 1, cond=vtypes.Ands(sink_start, self.oready))
                 for arg in args]
 
-- 
2.43.0


From 537a2d977fcbcf863495a76718e4875a6af06293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:42 +0000
Subject: [PATCH 39/78] fix: an FSM without statements can be a module of its
 own

---
 veriloggen/fsm/fsm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index f7617e3..0a850fc 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -483,6 +483,11 @@ class FSM(vtypes.VeriloggenNode):
                 src_rename_dict[src.name] = v
                 params[arg_name] = src
 
+        # the initial state is used for the reset, even if no statement refers to it
+        init = self.state.initval
+        if isinstance(init, vtypes.Localparam) and init.name not in fsm_labels:
+            fsm_labels[init.name] = m.Localparam(init.name, init.value)
+
         src_rename_visitor = SrcRenameVisitor(src_rename_dict)
 
         state_width = src_rename_visitor.visit(self.state.width)
-- 
2.43.0


From 9f35e6172d24fda34c782a141b0ab0efa5f576f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:07 +0000
Subject: [PATCH 40/78] fix: a Seq or FSM module accepts default cases,
 localparam initial values and 1-bit concatenations

---
 veriloggen/core/vtypes.py       | 1 +
 veriloggen/fsm/fsm.py           | 2 ++
 veriloggen/seq/seq.py           | 2 ++
 veriloggen/seq/subst_visitor.py | 2 +-
 4 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 490d63b..62d1a03 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -1753,6 +1753,7 @@ class Cat(_SpecialOperator):
 
     def get_width(self):
         values = [get_width(v) for v in self.vars]
+        values = [1 if v is None else v for v in values]
         ret = values[0]
         for v in values[1:]:
             ret = ret + v
diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 0a850fc..9b1d63b 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -446,6 +446,8 @@ class FSM(vtypes.VeriloggenNode):
                 if dst.dims is not None:
                     for dim in dst.dims:
                         src_visitor.visit(dim)
+                if isinstance(dst.initval, (vtypes.Parameter, vtypes.Localparam)):
+                    src_visitor.visit(dst.initval)
 
         # collect sources in statements
         for statement in body:
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index ef84fbb..352e1e8 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -424,6 +424,8 @@ class Seq(vtypes.VeriloggenNode):
                     src_visitor.visit(dst.width)
                 if dst.dims is not None:
                     src_visitor.visit(dst.dims)
+                if isinstance(dst.initval, (vtypes.Parameter, vtypes.Localparam)):
+                    src_visitor.visit(dst.initval)
 
         # collect sources in statements
         for statement in body:
diff --git a/veriloggen/seq/subst_visitor.py b/veriloggen/seq/subst_visitor.py
index 6b2ade3..fb42a04 100644
--- a/veriloggen/seq/subst_visitor.py
+++ b/veriloggen/seq/subst_visitor.py
@@ -191,7 +191,7 @@ class SrcRenameVisitor(RenameVisitor):
     def visit_When(self, node):
         condition = self.visit(node.condition)
         statement = self.visit(node.statement)
-        ret = vtypes.When(*condition)
+        ret = vtypes.When(*condition) if condition is not None else vtypes.When()
         ret.statement = statement
         return ret
 
-- 
2.43.0


From 9613e4367b07c77b74939e26771e700cd2af100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:07 +0000
Subject: [PATCH 41/78] fix: Seq.Prev with a condition, another initial value
 or a 1-bit expression

---
 veriloggen/seq/seq.py | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 352e1e8..84e3dd8 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -157,7 +157,8 @@ class Seq(vtypes.VeriloggenNode):
         signed = vtypes.get_signed(var)
 
         if not isinstance(var, vtypes._Variable):
-            width = self.m.TmpLocalparam(width)
+            if width is not None:
+                width = self.m.TmpLocalparam(width)
             w = self.m.TmpWire(width, signed=signed)
             w.assign(var)
             var = w
@@ -167,34 +168,44 @@ class Seq(vtypes.VeriloggenNode):
         else:
             name_prefix = _tmp_name(prefix)
 
-        key = '_'.join([name_prefix, str(delay)])
-        if key in self.prev_dict:
-            return self.prev_dict[key]
+        cond = make_condition(cond)
 
-        p = var
-        for i in range(delay):
-            cond = make_condition(cond)
-            if cond is not None:
+        if cond is not None:
+            # If/Else/Elif chains around this call must not be affected
+            last_if_statement = self.last_if_statement
+
+            p = var
+            for i in range(delay):
                 tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
                 self._add_statement([tmp(p)], cond=cond)
                 p = tmp
 
-            else:
-                tmp_name = '_'.join([name_prefix, str(i + 1)])
-                if tmp_name in self.prev_dict:
-                    p = self.prev_dict[tmp_name]
-                    continue
+            self.last_if_statement = last_if_statement
+            return p
+
+        p = var
+        for i in range(delay):
+            tmp_name = '_'.join([name_prefix, str(i + 1)])
+            key = (tmp_name, str(initval))
+            if key in self.prev_dict:
+                p = self.prev_dict[key]
+                continue
+            if self.m.find_identifier(tmp_name) is None:
                 tmp = self.m.Reg(
                     tmp_name, width, initval=initval, signed=signed)
-                self.prev_dict[tmp_name] = tmp
-                self._add_statement([tmp(p)])
-                p = tmp
+            else:
+                tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
+            self.prev_dict[key] = tmp
+            self._add_statement([tmp(p)])
+            p = tmp
 
         return p
 
     # -------------------------------------------------------------------------
     def If(self, *cond):
         self._clear_elif_cond()
+        self.next_else = False
+        self.separated = False
 
         cond = make_condition(*cond)
 
-- 
2.43.0


From ebd4b95297954e959ce66f1570863d0f1c7f40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:07 +0000
Subject: [PATCH 42/78] fix: FSM.State without an index is the current state

---
 veriloggen/fsm/fsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 9b1d63b..bde91e4 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -319,7 +319,7 @@ class FSM(vtypes.VeriloggenNode):
 
     def State(self, index=None):
         if index is None:
-            index = fsm.current
+            index = self.current
         return State(self, index)
 
     def Clear(self):
-- 
2.43.0


From ee46386466fab230d481e02e3aa33065d3771443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 43/78] fix: delayed actions with multi-bit conditions, and of
 a state other than the current one

---
 veriloggen/fsm/fsm.py |  8 ++++----
 veriloggen/seq/seq.py | 44 ++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index bde91e4..846f784 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -10,7 +10,7 @@ from veriloggen.core.module import Module
 from veriloggen.core.submodule import Submodule
 from veriloggen.seq.subst_visitor import *
 from veriloggen.seq.reset_visitor import ResetVisitor
-from veriloggen.seq.seq import Seq, make_condition
+from veriloggen.seq.seq import Seq, make_condition, to_single_bit
 
 
 _tmp_count = 0
@@ -839,12 +839,12 @@ class FSM(vtypes.VeriloggenNode):
         name_prefix = '_'.join(
             ['', self.name, 'cond', str(index), str(self.tmp_count)])
         self.tmp_count += 1
-        prev = statement
+        prev = to_single_bit(statement)
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
             self.delayed_cond[tmp_name] = tmp
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return prev
 
@@ -869,7 +869,7 @@ class FSM(vtypes.VeriloggenNode):
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return left(prev)
 
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 84e3dd8..c6eb765 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -59,6 +59,48 @@ def _get_manager_cond(cond):
     return cond
 
 
+_boolean_operators = (vtypes.Land, vtypes.Lor, vtypes.Ulnot,
+                      vtypes.Uand, vtypes.Uor, vtypes.Uxor,
+                      vtypes.Unand, vtypes.Unor, vtypes.Uxnor,
+                      vtypes.Eq, vtypes.NotEq, vtypes.Eql, vtypes.NotEql,
+                      vtypes.LessThan, vtypes.GreaterThan,
+                      vtypes.LessEq, vtypes.GreaterEq)
+
+_bitwise_operators = (vtypes.And, vtypes.Or, vtypes.Xor, vtypes.Xnor)
+
+
+def _is_one(width):
+    if isinstance(width, (vtypes.Localparam, vtypes.Int)):
+        return _is_one(width.value)
+    return isinstance(width, int) and width == 1
+
+
+def _is_single_bit(cond):
+    if isinstance(cond, _boolean_operators):
+        return True
+    if isinstance(cond, _bitwise_operators):
+        return _is_single_bit(cond.left) and _is_single_bit(cond.right)
+    if isinstance(cond, vtypes.Unot):
+        return _is_single_bit(cond.right)
+    if isinstance(cond, vtypes.Pointer):
+        return (isinstance(cond.var, vtypes._Variable) and
+                vtypes.get_dims(cond.var) is None)
+    if isinstance(cond, (vtypes._ParameterVariable, vtypes._Constant)):
+        return _is_one(cond.width)
+    if isinstance(cond, vtypes._Variable):
+        return cond.width is None or _is_one(cond.width)
+    return False
+
+
+def to_single_bit(cond):
+    """ truth value of a condition that can be stored in a 1-bit register """
+    if isinstance(cond, (int, bool)):
+        return 1 if cond else 0
+    if not isinstance(cond, vtypes._Numeric) or _is_single_bit(cond):
+        return cond
+    return vtypes.Not(vtypes.Not(cond))
+
+
 def TmpSeq(m, clk, rst=None, nohook=False, as_module=False, prefix=None):
     if prefix is None:
         prefix = '_tmp_seq'
@@ -693,7 +735,7 @@ class Seq(vtypes.VeriloggenNode):
     def _add_delayed_cond(self, statement, delay):
         name_prefix = '_'.join(['', self.name, 'cond', str(self.tmp_count)])
         self.tmp_count += 1
-        prev = statement
+        prev = to_single_bit(statement)
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
-- 
2.43.0


From 35adb40ff22d8f67586b47e5916f50b77db53e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 44/78] fix: Else/Elif after separated statements and jumps
 belong to their own chain

---
 veriloggen/fsm/fsm.py | 38 ++++++++++++++++++++++++--------------
 veriloggen/seq/seq.py | 14 ++++++++++++--
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 846f784..2c4ff1d 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -77,6 +77,7 @@ class FSM(vtypes.VeriloggenNode):
         self.last_if_statement = None
         self.next_else = False
         self.elif_cond = None
+        self.separated = False  # Else/Elif can not be attached to the last If
         self.next_kwargs = {}
 
         self.as_module = as_module
@@ -95,9 +96,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._separate_chain()
 
         if index is None:
             src = self.current
@@ -117,9 +116,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._separate_chain()
 
         if index is None:
             src = self.current
@@ -140,9 +137,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._separate_chain()
 
         if index is None:
             src = self.current
@@ -159,9 +154,7 @@ class FSM(vtypes.VeriloggenNode):
             cond = self.next_kwargs['cond']
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._separate_chain()
 
         self._go(src, dst, cond, else_dst)
         return dst
@@ -199,7 +192,12 @@ class FSM(vtypes.VeriloggenNode):
             self._clear_elif_cond()
             return self
 
+        # a part of a chain that needs its own statement
+        if self.elif_cond is not None or self.next_else:
+            self.separated = True
+
         self._clear_last_if_statement()
+        self._clear_elif_cond()
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
@@ -213,6 +211,8 @@ class FSM(vtypes.VeriloggenNode):
     # -------------------------------------------------------------------------
     def If(self, *cond):
         self._clear_elif_cond()
+        self.next_else = False
+        self.separated = False
 
         cond = make_condition(*cond)
 
@@ -241,10 +241,12 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         # if not isinstance(self.last_if_statement, vtypes.If):
@@ -272,10 +274,12 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         # if not isinstance(self.last_if_statement, vtypes.If):
@@ -884,6 +888,12 @@ class FSM(vtypes.VeriloggenNode):
     def _clear_last_cond(self):
         self.last_cond = []
 
+    def _separate_chain(self):
+        """ Else/Elif after a jump is not a part of the last if-statement """
+        self._clear_last_if_statement()
+        self._clear_elif_cond()
+        self.separated = True
+
     def _clear_elif_cond(self):
         self.elif_cond = None
 
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index c6eb765..d973cf6 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -134,6 +134,7 @@ class Seq(vtypes.VeriloggenNode):
         self.last_if_statement = None
         self.next_else = False
         self.elif_cond = None
+        self.separated = False  # Else/Elif can not be attached to the last If
         self.next_kwargs = {}
 
         self.as_module = as_module
@@ -168,7 +169,12 @@ class Seq(vtypes.VeriloggenNode):
             self._clear_elif_cond()
             return self
 
+        # a part of a chain that needs its own statement
+        if self.elif_cond is not None or self.next_else:
+            self.separated = True
+
         self._clear_last_if_statement()
+        self._clear_elif_cond()
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
@@ -276,10 +282,12 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
@@ -304,10 +312,12 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
-- 
2.43.0


From aa0c5a61389bdb96c99089ce1c1a6422edaa485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 45/78] fix: a failing tool is reported also with display=True;
 undecodable tool output is no error

---
 veriloggen/simulation/simulation.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index 99e41f6..604d997 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -720,23 +720,24 @@ class Simulator(object):
 
 def _exec(cmd, encoding, display=False):
     if display:
-        p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE)
         rslt = []
 
-        while True:
-            stdout_data = p.stdout.readline()
-            out = stdout_data.decode(encoding)
-            rslt.append(out)
-            print(out, end='')
-            if not stdout_data:
-                break
+        with subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE) as p:
+            while True:
+                stdout_data = p.stdout.readline()
+                out = stdout_data.decode(encoding, 'replace')
+                rslt.append(out)
+                print(out, end='')
+                if not stdout_data:
+                    break
 
-        p.wait()
-        p.stdout.close()
         rslt = ''.join(rslt)
 
+        if p.returncode != 0:
+            raise subprocess.CalledProcessError(p.returncode, cmd, rslt)
+
     else:
         b = subprocess.check_output(cmd, shell=True)
-        rslt = b.decode(encoding)
+        rslt = b.decode(encoding, 'replace')
 
     return rslt
-- 
2.43.0


From 1e64812d233035538c81fc6816083150fc93ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 46/78] fix: tools get the given paths, macros and options as
 they are

---
 veriloggen/simulation/simulation.py | 48 +++++++++++++++++------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index 604d997..a5b013f 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -3,6 +3,7 @@ from __future__ import print_function
 import os
 import sys
 import subprocess
+import shlex
 import tempfile
 import collections
 from jinja2 import Environment, FileSystemLoader
@@ -192,13 +193,13 @@ def run_iverilog(objs, display=False, top=None, outputfile=None,
     cmd.append(filename)
 
     # synthesis
-    syn_rslt = _exec(' '.join(cmd), encoding, display)
+    syn_rslt = _exec(_to_command(cmd), encoding, display)
 
     # simulation
     cmd = []
     cmd.append('vvp')
     cmd.append(outputfile)
-    sim_rslt = _exec(' '.join(cmd), encoding, display)
+    sim_rslt = _exec(_to_command(cmd), encoding, display)
 
     # close temporal source code file
     tmp.close()
@@ -286,7 +287,7 @@ def run_vcs(objs, display=False, top=None, outputfile=None,
     cmd.append(filename)
 
     # synthesis
-    syn_rslt = _exec(' '.join(cmd), encoding, display)
+    syn_rslt = _exec(_to_command(cmd), encoding, display)
 
     # simulation
     cmd = []
@@ -296,7 +297,7 @@ def run_vcs(objs, display=False, top=None, outputfile=None,
     else:
         cmd.append(outputfile)
 
-    sim_rslt = _exec(' '.join(cmd), encoding, display)
+    sim_rslt = _exec(_to_command(cmd), encoding, display)
 
     # close temporal source code file
     tmp.close()
@@ -331,7 +332,7 @@ def run_modelsim(objs, display=False, top=None, outputfile=None,
     outputfile = os.path.abspath(outputfile)
 
     cmd = []
-    cmd.append('vlib work ; vmap work ; vlog')
+    cmd.append('vlog')
 
     if include:
         for inc in include:
@@ -373,14 +374,17 @@ def run_modelsim(objs, display=False, top=None, outputfile=None,
     cmd.append(filename)
 
     # synthesis
-    syn_rslt = _exec(' '.join(cmd), encoding, display)
+    syn_rslt = _exec('vlib work ; vmap work ; ' + _to_command(cmd),
+                     encoding, display)
 
     # simulation
     cmd = []
-    cmd.append('vsim -c')
-    cmd.append(top)
-    cmd.append('-do \"run -all\"')
-    sim_rslt = _exec(' '.join(cmd), encoding, display)
+    cmd.append('vsim')
+    cmd.append('-c')
+    cmd.append(top_name)
+    cmd.append('-do')
+    cmd.append('run -all')
+    sim_rslt = _exec(_to_command(cmd), encoding, display)
 
     # close temporal source code file
     tmp.close()
@@ -536,11 +540,6 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     cmd.append('verilator')
     cmd.append('--cc')
 
-    if options is not None:
-        if isinstance(options, (tuple, list)):
-            options = (options,)
-        cmd.append(options)
-
     if hasattr(top, 'verilator_dumpfile'):
         cmd.append('--trace')
         cmd.append('--trace-underscore')
@@ -598,12 +597,17 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     encoding = sys.getdefaultencoding()
 
     # synthesis
-    syn_rslt = _exec(' '.join(cmd), encoding, display)
+    command = _to_command(cmd)
+    if options is not None:
+        if not isinstance(options, (tuple, list)):
+            options = (options,)
+        command = ' '.join([command] + list(options))
+    syn_rslt = _exec(command, encoding, display)
 
     # make
-    make = ['make -C', outputfile, '-j -f',
+    make = ['make', '-C', outputfile, '-j', '-f',
             'V' + verilog_prefix + '.mk', 'V' + verilog_prefix]
-    make_rslt = _exec(' '.join(make), encoding, display)
+    make_rslt = _exec(_to_command(make), encoding, display)
 
     # simulation
     cmd = []
@@ -613,7 +617,7 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     else:
         cmd.append(outputfile + '/' + 'V' + verilog_prefix)
 
-    sim_rslt = _exec(' '.join(cmd), encoding, display)
+    sim_rslt = _exec(_to_command(cmd), encoding, display)
 
     if tmp_outputfile_fd is not None:
         tmp_outputfile_fd.cleanup()
@@ -718,6 +722,12 @@ class Simulator(object):
             "not supported waveform viewer: '%s'" % self.wave)
 
 
+def _to_command(args):
+    if os.name == 'nt':
+        return subprocess.list2cmdline(args)
+    return ' '.join([shlex.quote(arg) for arg in args])
+
+
 def _exec(cmd, encoding, display=False):
     if display:
         rslt = []
-- 
2.43.0


From fcc0ae6f1adf862db2250be0c015caa4b8a7b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 47/78] fix: include paths and macros for VCS, ModelSim and
 Verilator; single values; repeated Verilator runs

---
 veriloggen/simulation/simulation.py | 84 +++++++++++++++++------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index a5b013f..6f28fbf 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -113,6 +113,12 @@ def finish():
     return vtypes.Systask('finish')
 
 
+def _to_tuple(v):
+    if v is None or isinstance(v, (tuple, list)):
+        return v
+    return (v,)
+
+
 def _to_code(objs):
     code = []
     for obj in objs:
@@ -134,6 +140,10 @@ def run_iverilog(objs, display=False, top=None, outputfile=None,
     if top is None:
         top = objs[0]
 
+    include = _to_tuple(include)
+    define = _to_tuple(define)
+    libdir = _to_tuple(libdir)
+
     top_name = top.name if isinstance(top, module.Module) else top
 
     tmp_outputfile_fd = None
@@ -223,6 +233,10 @@ def run_vcs(objs, display=False, top=None, outputfile=None,
     if top is None:
         top = objs[0]
 
+    include = _to_tuple(include)
+    define = _to_tuple(define)
+    libdir = _to_tuple(libdir)
+
     top_name = top.name if isinstance(top, module.Module) else top
 
     tmp_outputfile_fd = None
@@ -246,19 +260,17 @@ def run_vcs(objs, display=False, top=None, outputfile=None,
 
     if include:
         for inc in include:
-            cmd.append('+incdir+')
-            cmd.append(inc)
+            cmd.append('+incdir+' + inc)
 
     if define:
         for d in define:
-            cmd.append('+define+')
             if isinstance(d, (tuple, list)):
                 if d[1] is None:
-                    cmd.append(d[0])
+                    cmd.append('+define+' + d[0])
                 else:
-                    cmd.append(''.join([d[0], '=', str(d[1])]))
+                    cmd.append(''.join(['+define+', d[0], '=', str(d[1])]))
             else:
-                cmd.append(d)
+                cmd.append('+define+' + d)
 
     if libdir:
         for l in libdir:
@@ -320,6 +332,10 @@ def run_modelsim(objs, display=False, top=None, outputfile=None,
     if top is None:
         top = objs[0]
 
+    include = _to_tuple(include)
+    define = _to_tuple(define)
+    libdir = _to_tuple(libdir)
+
     top_name = top.name if isinstance(top, module.Module) else top
 
     tmp_outputfile_fd = None
@@ -336,19 +352,17 @@ def run_modelsim(objs, display=False, top=None, outputfile=None,
 
     if include:
         for inc in include:
-            cmd.append('-I')
-            cmd.append(inc)
+            cmd.append('+incdir+' + inc)
 
     if define:
         for d in define:
-            cmd.append('-D')
             if isinstance(d, (tuple, list)):
                 if d[1] is None:
-                    cmd.append(d[0])
+                    cmd.append('+define+' + d[0])
                 else:
-                    cmd.append(''.join([d[0], '=', str(d[1])]))
+                    cmd.append(''.join(['+define+', d[0], '=', str(d[1])]))
             else:
-                cmd.append(d)
+                cmd.append('+define+' + d)
 
     if libdir:
         for l in libdir:
@@ -398,6 +412,19 @@ def run_modelsim(objs, display=False, top=None, outputfile=None,
     return ''.join([syn_rslt, sim_rslt])
 
 
+def _to_verilator_input(top, var):
+    if not hasattr(top, 'verilator_new_inputs'):
+        top.verilator_new_inputs = {}
+
+    # inserted once, even if the module is simulated several times
+    if var.name not in top.verilator_new_inputs:
+        new_var = top.InputLike(var, name='io_' + var.name)
+        var.connect(new_var)
+        top.verilator_new_inputs[var.name] = new_var
+
+    return top.verilator_new_inputs[var.name]
+
+
 def to_verilator_code(top, objs):
     code = []
 
@@ -422,16 +449,14 @@ def to_verilator_code(top, objs):
 
     new_clks = collections.OrderedDict()
     for clk, values in clks.items():
-        new_clk = top.InputLike(clk, name='io_' + clk.name)
-        clk.connect(new_clk)
+        new_clk = _to_verilator_input(top, clk)
         new_clks[new_clk] = values
 
     top.verilator_new_clock = new_clks
 
     new_rsts = collections.OrderedDict()
     for rst, values in rsts.items():
-        new_rst = top.InputLike(rst, name='io_' + rst.name)
-        rst.connect(new_rst)
+        new_rst = _to_verilator_input(top, rst)
         new_rsts[new_rst] = values
 
     top.verilator_new_reset = new_rsts
@@ -516,11 +541,15 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     if top is None:
         top = objs[0]
 
+    include = _to_tuple(include)
+    define = _to_tuple(define)
+    libdir = _to_tuple(libdir)
+
     top_name = top.name if isinstance(top, module.Module) else top
 
     if not isinstance(top, module.Module):
         for obj in objs:
-            if obj.name == top_name:
+            if isinstance(obj, module.Module) and obj.name == top_name:
                 top = obj
                 break
 
@@ -549,19 +578,17 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
 
     if include:
         for inc in include:
-            cmd.append('+incdir+')
-            cmd.append(inc)
+            cmd.append('+incdir+' + inc)
 
     if define:
         for d in define:
-            cmd.append('+define+')
             if isinstance(d, (tuple, list)):
                 if d[1] is None:
-                    cmd.append(d[0])
+                    cmd.append('+define+' + d[0])
                 else:
-                    cmd.append(''.join([d[0], '=', str(d[1])]))
+                    cmd.append(''.join(['+define+', d[0], '=', str(d[1])]))
             else:
-                cmd.append(d)
+                cmd.append('+define+' + d)
 
     if libdir:
         for l in libdir:
@@ -685,15 +712,6 @@ class Simulator(object):
             include=None, define=None, libdir=None,
             sim_time=0, options=None):
 
-        if include is not None and not isinstance(include, (tuple, list)):
-            include = (include,)
-
-        if define is not None and not isinstance(define, (tuple, list)):
-            define = (define,)
-
-        if libdir is not None and not isinstance(libdir, (tuple, list)):
-            libdir = (libdir,)
-
         if self.sim == 'iverilog' or self.sim == 'icarus':
             return run_iverilog(self.objs,
                                 display, top, outputfile, include, define, libdir)
@@ -705,7 +723,7 @@ class Simulator(object):
 
         if self.sim == 'modelsim' or self.sim == 'vsim':
             return run_modelsim(self.objs,
-                                display, top, include, define, libdir)
+                                display, top, outputfile, include, define, libdir)
 
         if self.sim == 'verilator':
             return run_verilator(self.objs,
-- 
2.43.0


From 4e4427091f0759e7bc9844fb9719c941585e0db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 48/78] fix: no temporary files remain when a simulation fails

---
 veriloggen/simulation/simulation.py | 176 +++++++++++-----------------
 1 file changed, 66 insertions(+), 110 deletions(-)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index 6f28fbf..36f11d0 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -6,6 +6,7 @@ import subprocess
 import shlex
 import tempfile
 import collections
+import contextlib
 from jinja2 import Environment, FileSystemLoader
 try:
     from math import gcd
@@ -119,6 +120,18 @@ def _to_tuple(v):
     return (v,)
 
 
+@contextlib.contextmanager
+def _temporary_file(prefix=None, suffix=None, dir=None):
+    fd, path = tempfile.mkstemp(prefix=prefix, suffix=suffix, dir=dir)
+    os.close(fd)
+    try:
+        yield path
+    finally:
+        # a failing tool may have deleted the file
+        if os.path.exists(path):
+            os.remove(path)
+
+
 def _to_code(objs):
     code = []
     for obj in objs:
@@ -146,12 +159,10 @@ def run_iverilog(objs, display=False, top=None, outputfile=None,
 
     top_name = top.name if isinstance(top, module.Module) else top
 
-    tmp_outputfile_fd = None
     if outputfile is None:
-        tmp_outputfile_fd = tempfile.NamedTemporaryFile(prefix="iverilog_",
-                                                        suffix=".out",
-                                                        dir=os.getcwd())
-        outputfile = tmp_outputfile_fd.name
+        with _temporary_file("iverilog_", ".out", os.getcwd()) as outputfile:
+            return run_iverilog(
+                objs, display, top, outputfile, include, define, libdir)
 
     outputfile = os.path.abspath(outputfile)
 
@@ -189,36 +200,20 @@ def run_iverilog(objs, display=False, top=None, outputfile=None,
 
     code = _to_code(objs)
 
-    if os.name == 'nt':
-        fd, path = tempfile.mkstemp()
-        os.close(fd)
-        tmp = open(path, 'w+b')
-    else:
-        tmp = tempfile.NamedTemporaryFile()
-
-    tmp.write(code.encode(encoding))
-    tmp.read()
-    filename = tmp.name
-
-    cmd.append(filename)
-
-    # synthesis
-    syn_rslt = _exec(_to_command(cmd), encoding, display)
-
-    # simulation
-    cmd = []
-    cmd.append('vvp')
-    cmd.append(outputfile)
-    sim_rslt = _exec(_to_command(cmd), encoding, display)
+    with _temporary_file() as filename:
+        with open(filename, 'wb') as f:
+            f.write(code.encode(encoding))
 
-    # close temporal source code file
-    tmp.close()
+        cmd.append(filename)
 
-    if os.name == 'nt':
-        os.remove(path)
+        # synthesis
+        syn_rslt = _exec(_to_command(cmd), encoding, display)
 
-    if tmp_outputfile_fd is not None:
-        tmp_outputfile_fd.close()
+        # simulation
+        cmd = []
+        cmd.append('vvp')
+        cmd.append(outputfile)
+        sim_rslt = _exec(_to_command(cmd), encoding, display)
 
     return ''.join([syn_rslt, sim_rslt])
 
@@ -239,12 +234,11 @@ def run_vcs(objs, display=False, top=None, outputfile=None,
 
     top_name = top.name if isinstance(top, module.Module) else top
 
-    tmp_outputfile_fd = None
     if outputfile is None:
-        tmp_outputfile_fd = tempfile.NamedTemporaryFile(prefix="vcs_",
-                                                        suffix=".out",
-                                                        dir=os.getcwd())
-        outputfile = tmp_outputfile_fd.name
+        with _temporary_file("vcs_", ".out", os.getcwd()) as outputfile:
+            return run_vcs(
+                objs, display, top, outputfile, include, define, libdir,
+                full64, notimingcheck)
 
     outputfile = os.path.abspath(outputfile)
 
@@ -285,40 +279,24 @@ def run_vcs(objs, display=False, top=None, outputfile=None,
 
     code = _to_code(objs)
 
-    if os.name == 'nt':
-        fd, path = tempfile.mkstemp()
-        os.close(fd)
-        tmp = open(path, 'w+b')
-    else:
-        tmp = tempfile.NamedTemporaryFile()
-
-    tmp.write(code.encode(encoding))
-    tmp.read()
-    filename = tmp.name
+    with _temporary_file() as filename:
+        with open(filename, 'wb') as f:
+            f.write(code.encode(encoding))
 
-    cmd.append(filename)
+        cmd.append(filename)
 
-    # synthesis
-    syn_rslt = _exec(_to_command(cmd), encoding, display)
+        # synthesis
+        syn_rslt = _exec(_to_command(cmd), encoding, display)
 
-    # simulation
-    cmd = []
+        # simulation
+        cmd = []
 
-    if os.name == 'nt':
-        cmd.append(outputfile)
-    else:
-        cmd.append(outputfile)
-
-    sim_rslt = _exec(_to_command(cmd), encoding, display)
-
-    # close temporal source code file
-    tmp.close()
-
-    if os.name == 'nt':
-        os.remove(path)
+        if os.name == 'nt':
+            cmd.append(outputfile)
+        else:
+            cmd.append(outputfile)
 
-    if tmp_outputfile_fd is not None:
-        tmp_outputfile_fd.close()
+        sim_rslt = _exec(_to_command(cmd), encoding, display)
 
     return ''.join([syn_rslt, sim_rslt])
 
@@ -338,12 +316,10 @@ def run_modelsim(objs, display=False, top=None, outputfile=None,
 
     top_name = top.name if isinstance(top, module.Module) else top
 
-    tmp_outputfile_fd = None
     if outputfile is None:
-        tmp_outputfile_fd = tempfile.NamedTemporaryFile(prefix="modelsim_",
-                                                        suffix=".out",
-                                                        dir=os.getcwd())
-        outputfile = tmp_outputfile_fd.name
+        with _temporary_file("modelsim_", ".out", os.getcwd()) as outputfile:
+            return run_modelsim(
+                objs, display, top, outputfile, include, define, libdir)
 
     outputfile = os.path.abspath(outputfile)
 
@@ -374,40 +350,24 @@ def run_modelsim(objs, display=False, top=None, outputfile=None,
 
     code = _to_code(objs)
 
-    if os.name == 'nt':
-        fd, path = tempfile.mkstemp()
-        os.close(fd)
-        tmp = open(path, 'w+b')
-    else:
-        tmp = tempfile.NamedTemporaryFile()
+    with _temporary_file() as filename:
+        with open(filename, 'wb') as f:
+            f.write(code.encode(encoding))
 
-    tmp.write(code.encode(encoding))
-    tmp.read()
-    filename = tmp.name
+        cmd.append(filename)
 
-    cmd.append(filename)
+        # synthesis
+        syn_rslt = _exec('vlib work ; vmap work ; ' + _to_command(cmd),
+                         encoding, display)
 
-    # synthesis
-    syn_rslt = _exec('vlib work ; vmap work ; ' + _to_command(cmd),
-                     encoding, display)
-
-    # simulation
-    cmd = []
-    cmd.append('vsim')
-    cmd.append('-c')
-    cmd.append(top_name)
-    cmd.append('-do')
-    cmd.append('run -all')
-    sim_rslt = _exec(_to_command(cmd), encoding, display)
-
-    # close temporal source code file
-    tmp.close()
-
-    if os.name == 'nt':
-        os.remove(path)
-
-    if tmp_outputfile_fd is not None:
-        tmp_outputfile_fd.close()
+        # simulation
+        cmd = []
+        cmd.append('vsim')
+        cmd.append('-c')
+        cmd.append(top_name)
+        cmd.append('-do')
+        cmd.append('run -all')
+        sim_rslt = _exec(_to_command(cmd), encoding, display)
 
     return ''.join([syn_rslt, sim_rslt])
 
@@ -556,12 +516,11 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     if not isinstance(top, module.Module):
         raise ValueError('top module must be specified.')
 
-    tmp_outputfile_fd = None
     if outputfile is None:
-        tmp_outputfile_fd = tempfile.TemporaryDirectory(prefix="verilator_",
-                                                        suffix=".out",
-                                                        dir=os.getcwd())
-        outputfile = tmp_outputfile_fd.name
+        with tempfile.TemporaryDirectory(prefix="verilator_", suffix=".out",
+                                         dir=os.getcwd()) as outputfile:
+            return run_verilator(objs, display, top, outputfile,
+                                 include, define, libdir, sim_time, options)
 
     outputfile = os.path.abspath(outputfile)
 
@@ -646,9 +605,6 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
 
     sim_rslt = _exec(_to_command(cmd), encoding, display)
 
-    if tmp_outputfile_fd is not None:
-        tmp_outputfile_fd.cleanup()
-
     # return ''.join([syn_rslt, make_rslt, sim_rslt])
     return sim_rslt
 
-- 
2.43.0


From fae9779cdd03b8b208718524bd978eab3af6f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 49/78] fix: the given top module is passed to VCS and
 Verilator

---
 veriloggen/simulation/simulation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index 36f11d0..ea327b7 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -246,6 +246,9 @@ def run_vcs(objs, display=False, top=None, outputfile=None,
     cmd.append('vcs')
     cmd.append('-v2005')
 
+    cmd.append('-top')
+    cmd.append(top_name)
+
     if full64:
         cmd.append('-full64')
 
@@ -527,6 +530,10 @@ def run_verilator(objs, display=False, top=None, outputfile=None,
     cmd = []
     cmd.append('verilator')
     cmd.append('--cc')
+    cmd.append('--top-module')
+    cmd.append(top_name)
+    cmd.append('--prefix')
+    cmd.append('Vout')
 
     if hasattr(top, 'verilator_dumpfile'):
         cmd.append('--trace')
-- 
2.43.0


From 8fd8f092a068b1f45475cd9dd5dbc11b935545fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:25 +0000
Subject: [PATCH 50/78] fix: the waveform viewer gets the file name as it is

---
 veriloggen/simulation/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veriloggen/simulation/simulation.py b/veriloggen/simulation/simulation.py
index ea327b7..c6bcab7 100644
--- a/veriloggen/simulation/simulation.py
+++ b/veriloggen/simulation/simulation.py
@@ -645,9 +645,10 @@ def view_waveform_gtkwave(filename='uut.vcd', background=False):
     cmd.append('gtkwave')
     cmd.append('--giga')
     cmd.append(filename)
+    command = _to_command(cmd)
     if background:
-        cmd.append('&')
-    subprocess.call(' '.join(cmd), shell=True)
+        command += ' &'
+    subprocess.call(command, shell=True)
 
 
 class Simulator(object):
-- 
2.43.0


From 5c701df313d54154f504d77e8945cf9ba8f6ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 51/78] fix: veriloggen.reset() restarts the numbering of
 multiply-add modules as well

---
 veriloggen/stream/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veriloggen/stream/stream.py b/veriloggen/stream/stream.py
index 26dbfca..b831f96 100644
--- a/veriloggen/stream/stream.py
+++ b/veriloggen/stream/stream.py
@@ -15,6 +15,7 @@ from veriloggen.seq.seq import Seq
 from . import visitor
 from . import stypes
 from . import mul
+from . import madd
 from . import scheduler
 from . import allocator
 from . import graph
@@ -29,6 +30,7 @@ def reset():
     _stream_counter = 0
     stypes._object_counter = 0
     mul.reset()
+    madd.reset()
 
 
 def StreamManager(module, clock, reset,
-- 
2.43.0


From 71d436fbe0f8da4d320673a610c7c2aac5d050ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 52/78] fix: RAM copies use the stream of their own RAMs, not
 of RAMs with the same names in another design

---
 veriloggen/thread/util.py | 52 +++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/veriloggen/thread/util.py b/veriloggen/thread/util.py
index 6f57555..fbdabf9 100644
--- a/veriloggen/thread/util.py
+++ b/veriloggen/thread/util.py
@@ -5,28 +5,33 @@ from . import stream
 
 __intrinsics__ = ('copy', 'copy_pattern')
 
-copy_stream_cache = {}
-copy_pattern_stream_cache = {}
 
+def _get_copy_stream(src_ram, dst_ram):
+    """ stream for the pair of RAMs, shared by copy and copy_pattern """
 
-def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
-         src_stride=1, dst_stride=1,
-         src_port=0, dst_port=0):
+    # kept in the source RAM, because RAMs of other designs can have the same names
+    if not hasattr(src_ram, '_copy_streams'):
+        src_ram._copy_streams = {}
+
+    if id(dst_ram) in src_ram._copy_streams:
+        return src_ram._copy_streams[id(dst_ram)][1]
 
     name = '_'.join(['copy', src_ram.name, dst_ram.name])
+    strm = stream.Stream(src_ram.m, name, src_ram.clk, src_ram.rst)
+    src = strm.source('src')
+    dst = src
+    strm.sink(dst, 'dst')
+    # dst_ram is kept alive with its id
+    src_ram._copy_streams[id(dst_ram)] = (dst_ram, strm)
 
-    if name in copy_stream_cache:
-        strm = copy_stream_cache[name]
+    return strm
 
-    else:
-        m = src_ram.m
-        clk = src_ram.clk
-        rst = src_ram.rst
-        strm = stream.Stream(m, name, clk, rst)
-        src = strm.source('src')
-        dst = src
-        strm.sink(dst, 'dst')
-        copy_stream_cache[name] = strm
+
+def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
+         src_stride=1, dst_stride=1,
+         src_port=0, dst_port=0):
+
+    strm = _get_copy_stream(src_ram, dst_ram)
 
     strm.set_source(fsm, 'src', src_ram, src_addr, size,
                     stride=src_stride, port=src_port)
@@ -40,20 +45,7 @@ def copy_pattern(fsm, src_ram, dst_ram, src_addr, dst_addr,
                  src_pattern, dst_pattern,
                  src_port=0, dst_port=0):
 
-    name = '_'.join(['copy', src_ram.name, dst_ram.name])
-
-    if name in copy_pattern_stream_cache:
-        strm = copy_pattern_stream_cache[name]
-
-    else:
-        m = src_ram.m
-        clk = src_ram.clk
-        rst = src_ram.rst
-        strm = stream.Stream(m, name, clk, rst)
-        src = strm.source('src')
-        dst = src
-        strm.sink(dst, 'dst')
-        copy_pattern_stream_cache[name] = strm
+    strm = _get_copy_stream(src_ram, dst_ram)
 
     strm.set_source_pattern(fsm, 'src', src_ram, src_addr, src_pattern,
                             port=src_port)
-- 
2.43.0


From 4b6b3df6efd61510d039438e41de0cffe028391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 53/78] fix: different modules that share a name get different
 names in the generated text

---
 veriloggen/verilog/to_verilog.py | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 6e415c1..fafc868 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -15,6 +15,7 @@ from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
 # -------------------------------------------------------------------------
 def write_verilog(node, filename=None, for_verilator=False):
     visitor = VerilogModuleVisitor(for_verilator)
+    resolve_module_names(node, for_verilator)
     modules = tuple(node.get_modules().values())
 
     module_ast_list = [visitor.visit(mod) for mod in modules
@@ -36,6 +37,41 @@ def write_verilog(node, filename=None, for_verilator=False):
     return code
 
 
+def resolve_module_names(node, for_verilator=False):
+    """ give unique names to different module definitions sharing a name """
+
+    modules = []  # post-order: instantiated modules come first
+    visited = set()
+
+    def collect(mod):
+        if id(mod) in visited or isinstance(mod, module.StubModule):
+            return
+        visited.add(id(mod))
+        for gen in mod.generate.values():
+            for g in (gen if isinstance(gen, (tuple, list)) else (gen,)):
+                collect(g)
+        for sub in mod.submodule.values():
+            collect(sub)
+        if not isinstance(mod, module.Generate):
+            modules.append(mod)
+
+    collect(node)
+
+    counts = collections.Counter(mod.name for mod in modules)
+    codes = {node.name: None}  # the name of the top module is never changed
+    for mod in modules:
+        if counts[mod.name] == 1 or mod is node:
+            continue
+        while True:
+            code = ASTCodeGenerator().visit(
+                VerilogModuleVisitor(for_verilator).visit(mod))
+            if codes.setdefault(mod.name, code) == code:
+                break
+            mod.name += '_'
+            while counts[mod.name] > 0 and mod.name not in codes:
+                mod.name += '_'
+
+
 # -------------------------------------------------------------------------
 class VerilogCommonVisitor(object):
 
-- 
2.43.0


From 120e9c31fb663bd1ee348ccc2b81d48e82796dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 54/78] fix: round the UART bit time to the nearest clock cycle

---
 veriloggen/thread/uart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/uart.py b/veriloggen/thread/uart.py
index c85f715..02a9071 100644
--- a/veriloggen/thread/uart.py
+++ b/veriloggen/thread/uart.py
@@ -91,7 +91,7 @@ class UartRx(Submodule, _MutexFunction):
 
 def mkUartTx(baudrate=19200, clockfreq=100 * 1000 * 1000):
     m = Module("UartTx")
-    waitnum = int(clockfreq / baudrate)
+    waitnum = int(round(clockfreq / baudrate))
 
     clk = m.Input('CLK')
     rst = m.Input('RST')
@@ -141,7 +141,7 @@ def mkUartTx(baudrate=19200, clockfreq=100 * 1000 * 1000):
 
 def mkUartRx(baudrate=19200, clockfreq=100 * 1000 * 1000):
     m = Module("UartRx")
-    waitnum = int(clockfreq / baudrate)
+    waitnum = int(round(clockfreq / baudrate))
 
     clk = m.Input('CLK')
     rst = m.Input('RST')
-- 
2.43.0


From 976401a34c891edb06c89d551997f0189aa6b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:07 +0000
Subject: [PATCH 55/78] fix: UartTx and UartRx support the mutex methods they
 declare

---
 veriloggen/thread/uart.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/veriloggen/thread/uart.py b/veriloggen/thread/uart.py
index 02a9071..d397fe0 100644
--- a/veriloggen/thread/uart.py
+++ b/veriloggen/thread/uart.py
@@ -38,6 +38,10 @@ class UartTx(Submodule, _MutexFunction):
         self.tx_enable.initval = 0
         self.tx_ready = self['ready']
 
+        # for _MutexFunction
+        self.m = m
+        self.clk = clk
+        self.rst = rst
         self.mutex = None
 
     def send(self, fsm, value):
@@ -78,6 +82,10 @@ class UartRx(Submodule, _MutexFunction):
         self.rx_dout = self['dout']
         self.rx_valid = self['valid']
 
+        # for _MutexFunction
+        self.m = m
+        self.clk = clk
+        self.rst = rst
         self.mutex = None
 
     def recv(self, fsm):
-- 
2.43.0


From abd5b52fd1f64d1cb3581f237cad25397cdffae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:25 +0000
Subject: [PATCH 56/78] fix: pipeline stages apply unary operators

---
 veriloggen/pipeline/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index e62d544..d996dca 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -613,7 +613,9 @@ class DataVisitor(_PipelineVisitor):
         return stage, cls(*data), valid, ready
 
     def visit__UnaryOperator(self, node):
-        return self.visit(node.right)
+        stage, data, valid, ready = self.visit(node.right)
+        cls = type(node)
+        return stage, cls(data), valid, ready
 
     def visit_Pointer(self, node):
         stage, data, valid, ready = self.pack(node.var, node.pos)
-- 
2.43.0


From a77dd328546330fe08771cf1a995288b53d40c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:25 +0000
Subject: [PATCH 57/78] fix: pipeline outputs are aligned to the latest
 accumulator

---
 veriloggen/pipeline/pipeline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index d996dca..6342d50 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -195,6 +195,9 @@ class Pipeline(vtypes.VeriloggenNode):
 
         self.vars.append(ret)
 
+        if next_stage_id is not None and next_stage_id > self.max_stage_id:
+            self.max_stage_id = next_stage_id
+
         return ret
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From 37a7b450c40038642977ce3a856754844b0d0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:04 +0000
Subject: [PATCH 58/78] fix: pipeline variables joined by one stage are
 accepted together when only some have other consumers

---
 veriloggen/pipeline/pipeline.py | 35 +++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index 6342d50..bd4913e 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -57,6 +57,7 @@ class Pipeline(vtypes.VeriloggenNode):
         self.tmp_count = 0
         self.max_stage_id = 0
         self.vars = []
+        self.joins = []
 
         self.seq = Seq(self.m, self.name, clk, rst, nohook=True)
         self.data_visitor = DataVisitor(self)
@@ -156,6 +157,8 @@ class Pipeline(vtypes.VeriloggenNode):
             if var.output_vars is not None:
                 var.make_output()
 
+        self._synchronize_ready()
+
         self.m.Always(vtypes.Posedge(self.clk))(
             vtypes.If(self.rst)(
                 reset,
@@ -298,9 +301,41 @@ class Pipeline(vtypes.VeriloggenNode):
                 tmp_ready, vtypes.Not(tmp_valid)), valid)
             for r in ready:
                 _connect_ready(self.m, r, ordy)
+            self.joins.append(ready)
 
         return tmp_data, tmp_valid, tmp_ready
 
+    # -------------------------------------------------------------------------
+    def _synchronize_ready(self):
+        """ variables joined by a common consumer are accepted at the same time,
+        also if only some of them have other consumers """
+
+        groups = []  # [(ready signals, consumers)]
+        for i, join in enumerate(self.joins):
+            ready = list({id(r): r for r in join}.values())
+            users = [(r, i) for r in ready]
+            rest = []
+            for group in groups:
+                if any(r is g for r in ready for g in group[0]):
+                    users = group[1] + users
+                    ready = group[0] + [r for r in ready
+                                        if all(r is not g for g in group[0])]
+                else:
+                    rest.append(group)
+            groups = rest + [(ready, users)]
+
+        for ready, users in groups:
+            consumers = [set(i for u, i in users if u is r) for r in ready]
+            if all(c == consumers[0] for c in consumers):
+                continue
+            rights = [r._get_assign().statement.right for r in ready]
+            all_ready = _and_vars(*rights)
+            for r in ready:
+                assign = r._get_assign()
+                assign.overwrite_right(all_ready)
+                self.m.remove(assign)
+                self.m.append(assign)
+
     # -------------------------------------------------------------------------
     def _make_prev(self, data, valid, ready, width=None, initval=0):
         tmp_data = self._add_reg(
-- 
2.43.0


From 0de78aa790b9c04db60908efe28c1f496a173c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:04 +0000
Subject: [PATCH 59/78] fix: pipeline outputs with independent handshakes do
 not share one valid/ready pair

---
 veriloggen/pipeline/pipeline.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index bd4913e..c29384a 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -153,6 +153,13 @@ class Pipeline(vtypes.VeriloggenNode):
             raise ValueError('make_always() has been already called.')
         self.done = True
 
+        # outputs that share a handshake need registers of their own
+        shared = [id(var.ready) for var in self.vars
+                  if var.output_vars is not None and var.ready is not None
+                  and var.stage_id == self.max_stage_id]
+        if len(shared) != len(set(shared)):
+            self.max_stage_id += 1
+
         for var in self.vars:
             if var.output_vars is not None:
                 var.make_output()
-- 
2.43.0


From 685376cea3b251027e3c3722e2c6587d3ec4effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:03 +0000
Subject: [PATCH 60/78] fix: the sign of a dataflow remainder is the sign of
 the dividend

---
 veriloggen/dataflow/dtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index f66d2a4..5c89a04 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -990,8 +990,8 @@ class Mod(_BinaryOperator):
         seq(ldata(lval), cond=accept)
         seq(rdata(rval), cond=accept)
 
-        sign = vtypes.Not(vtypes.OrList(vtypes.AndList(ldata[width - 1] == 0, rdata[width - 1] == 0),  # + , +
-                                        vtypes.AndList(ldata[width - 1] == 1, rdata[width - 1] == 1)))  # - , -
+        # sign of the dividend
+        sign = ldata[width - 1] == 1
 
         abs_ldata = m.Reg(
             self.name('mod_abs_ldata'), width, initval=0)
-- 
2.43.0


From 822c354c50b7d6b403056d61dfb9a82cf9230c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:03 +0000
Subject: [PATCH 61/78] fix: designs with dataflow variable aliases can be
 copied

---
 veriloggen/dataflow/dtypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index 5c89a04..a2cd5e1 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -2279,9 +2279,9 @@ class _Variable(_Numeric):
     # __getattribute__() method is always called,
     # whenever fields of the node is accessed.
     def __getattribute__(self, attr):
-        # for isinstance method
-        if attr == '__class__':
-            return _Numeric.__getattribute__(self, '__class__')
+        # for isinstance method and copying
+        if attr.startswith('__') and attr.endswith('__'):
+            return _Numeric.__getattribute__(self, attr)
 
         try:
             input_data = _Numeric.__getattribute__(self, 'input_data')
-- 
2.43.0


From a45d1c2288d073af399c0bab4cb00cef37467005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:03 +0000
Subject: [PATCH 62/78] fix: dataflow outputs with independent handshakes do
 not share one valid/ready pair

---
 veriloggen/dataflow/dataflow.py | 10 ++++++++++
 veriloggen/dataflow/dtypes.py   |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/veriloggen/dataflow/dataflow.py b/veriloggen/dataflow/dataflow.py
index 7874fc3..ccf2e70 100644
--- a/veriloggen/dataflow/dataflow.py
+++ b/veriloggen/dataflow/dataflow.py
@@ -134,6 +134,16 @@ class Dataflow(object):
         max_stage = 0
         for output_var in sorted(output_vars, key=lambda x: x.object_id):
             max_stage = dtypes._max(max_stage, output_var.end_stage)
+
+        # outputs that share a handshake need registers of their own
+        shared = [id(output_var._get_handshake_node())
+                  for output_var in output_vars
+                  if output_var.end_stage == max_stage and
+                  (output_var.output_ready is not None or
+                   output_var.output_sig_ready is not None)]
+        if len(shared) != len(set(shared)):
+            max_stage += 1
+
         self.max_stage = max_stage
 
         output_vars = sched.balance_output(output_vars, max_stage)
diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index a2cd5e1..2c5a6d5 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -350,6 +350,9 @@ class _Numeric(_Node):
             raise ValueError('%d-delayed value is already allocated.' % delay)
         self.previous_value[delay] = value
 
+    def _get_handshake_node(self):
+        return self
+
     def _get_previous_value(self, delay):
         if delay not in self.previous_value:
             return None
@@ -2053,6 +2056,9 @@ class _Prev(_UnaryOperator):
     def _get_parent_value(self):
         return self.parent_value
 
+    def _get_handshake_node(self):
+        return self.parent_value._get_handshake_node()
+
     def eval(self):
         return self
 
-- 
2.43.0


From f24966b8fc05ac3d66fa920050b779c57c0122f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:03 +0000
Subject: [PATCH 63/78] fix: dataflow variables joined by one operator are
 accepted together when only some have other consumers

---
 veriloggen/dataflow/dataflow.py |  5 +++++
 veriloggen/dataflow/dtypes.py   | 38 +++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/veriloggen/dataflow/dataflow.py b/veriloggen/dataflow/dataflow.py
index ccf2e70..28af94e 100644
--- a/veriloggen/dataflow/dataflow.py
+++ b/veriloggen/dataflow/dataflow.py
@@ -110,6 +110,9 @@ class Dataflow(object):
         m._clock = clock
         m._reset = reset
 
+        # (ready signal, condition) pairs
+        m._ready_conds = []
+
         dataflow_nodes = self.nodes
 
         input_visitor = visitor.InputVisitor()
@@ -172,6 +175,8 @@ class Dataflow(object):
         for output_var in sorted(output_vars, key=lambda x: x.object_id):
             output_var._implement_output(m, seq, aswire)
 
+        dtypes._synchronize_ready(m)
+
         # save schedule result
         self.last_input = input_vars
         self.last_output = output_vars
diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index 2c5a6d5..b47351a 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -2835,6 +2835,9 @@ def _connect_ready(m, var, ready):
     if var is None:
         return
 
+    if not isinstance(ready, int) and not isinstance(ready, vtypes.Int):
+        m._ready_conds.append((var, ready))
+
     prev_assign = var._get_assign()
     if not prev_assign:
         m.Assign(var(ready))
@@ -2850,6 +2853,41 @@ def _connect_ready(m, var, ready):
         m.append(prev_assign)
 
 
+def _synchronize_ready(m):
+    """ variables joined by a common consumer are accepted at the same time,
+    also if only some of them have other consumers """
+
+    joins = OrderedDict()
+    for var, ready in m._ready_conds:
+        join = joins.setdefault(id(ready), [])
+        if all(var is not v for v in join):
+            join.append(var)
+
+    groups = []  # [[joined ready signals, (ready signal, consumer) pairs]]
+    for i, join in enumerate(joins.values()):
+        merged = [list(join), [(var, i) for var in join]]
+        rest = []
+        for group in groups:
+            if any(var is v for var in join for v in group[0]):
+                merged = [group[0] + [var for var in merged[0]
+                                      if all(var is not v for v in group[0])],
+                          group[1] + merged[1]]
+            else:
+                rest.append(group)
+        groups = rest + [merged]
+
+    for group, pairs in groups:
+        consumers = [set(i for v, i in pairs if v is var) for var in group]
+        if all(c == consumers[0] for c in consumers):
+            continue
+        assigns = [var._get_assign() for var in group]
+        ready = _and_vars(*[assign.statement.right for assign in assigns])
+        for assign in assigns:
+            assign.overwrite_right(ready)
+            m.remove(assign)
+            m.append(assign)
+
+
 def _from_vtypes_value(value):
     if isinstance(value, vtypes.Int):
         if not isinstance(value.value, int):
-- 
2.43.0


From 70a0499d805adbe78a40ce2db21cd8f8f98e970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:04 +0000
Subject: [PATCH 64/78] fix: the dataflow divider is unsigned as the operators
 pass absolute values

---
 veriloggen/dataflow/div.py | 70 +++-----------------------------------
 1 file changed, 5 insertions(+), 65 deletions(-)

diff --git a/veriloggen/dataflow/div.py b/veriloggen/dataflow/div.py
index 3e00775..2e0588a 100644
--- a/veriloggen/dataflow/div.py
+++ b/veriloggen/dataflow/div.py
@@ -3,6 +3,7 @@ from __future__ import print_function
 
 import veriloggen.verilog.from_verilog as from_verilog
 
+# unsigned divider: the operators pass absolute values
 divider_code = """\
 module Divider #
   (
@@ -22,47 +23,10 @@ module Divider #
 
   localparam DEPTH = W_D + 1;
   
-  function getsign;
-    input [W_D-1:0] in;
-    getsign = in[W_D-1]; //0: positive, 1: negative
-  endfunction
-
-  function is_positive;
-    input [W_D-1:0] in;
-    is_positive = (getsign(in) == 0);
-  endfunction
-    
-  function [W_D-1:0] complement2;
-    input [W_D-1:0] in;
-    complement2 = ~in + {{(W_D-1){1'b0}}, 1'b1};
-  endfunction
-    
-  function [W_D*2-1:0] complement2_2x;
-    input [W_D*2-1:0] in;
-    complement2_2x = ~in + {{(W_D*2-1){1'b0}}, 1'b1};
-  endfunction
-    
-  function [W_D-1:0] absolute;
-    input [W_D-1:0] in;
-    begin
-      if(getsign(in)) //Negative
-        absolute = complement2(in);
-      else //Positive
-        absolute = in;
-    end
-  endfunction
-
-  wire [W_D-1:0] abs_in_a;
-  wire [W_D-1:0] abs_in_b;
-  assign abs_in_a = absolute(in_a);
-  assign abs_in_b = absolute(in_b);
-
   genvar d;
   generate 
     for(d=0; d<DEPTH; d=d+1) begin: s_depth
       reg stage_valid;
-      reg in_a_positive;
-      reg in_b_positive;
       reg [W_D*2-1:0] dividend;
       reg [W_D*2-1:0] divisor;
       reg [W_D*2-1:0] stage_rslt;
@@ -76,24 +40,16 @@ module Divider #
         always @(posedge CLK) begin
           if(RST) begin
             stage_valid   <= 0;
-            in_a_positive <= 0;
-            in_b_positive <= 0;          
           end else if(update) begin
             stage_valid   <= enable;
-            in_a_positive <= is_positive(in_a);
-            in_b_positive <= is_positive(in_b);
           end
         end
       end else begin
         always @(posedge CLK) begin
           if(RST) begin
             stage_valid   <= 0;
-            in_a_positive <= 0;
-            in_b_positive <= 0;
           end else if(update) begin
             stage_valid   <= s_depth[d-1].stage_valid;
-            in_a_positive <= s_depth[d-1].in_a_positive;
-            in_b_positive <= s_depth[d-1].in_b_positive;
           end
         end
       end
@@ -101,8 +57,8 @@ module Divider #
       if(d==0) begin
         always @(posedge CLK) begin
           if(update) begin
-            dividend <= abs_in_a;
-            divisor <= abs_in_b << (W_D-1);
+            dividend <= in_a;
+            divisor <= in_b << (W_D-1);
             stage_rslt <= 0;
           end
         end
@@ -128,24 +84,8 @@ module Divider #
     
   always @(posedge CLK) begin
     if(update) begin
-      rslt <= (s_depth[DEPTH-1].in_a_positive && s_depth[DEPTH-1].in_b_positive)?
-              s_depth[DEPTH-1].stage_rslt:
-              (!s_depth[DEPTH-1].in_a_positive && s_depth[DEPTH-1].in_b_positive)?
-              complement2_2x(s_depth[DEPTH-1].stage_rslt):
-              (s_depth[DEPTH-1].in_a_positive && !s_depth[DEPTH-1].in_b_positive)?
-              complement2_2x(s_depth[DEPTH-1].stage_rslt):
-              (!s_depth[DEPTH-1].in_a_positive && !s_depth[DEPTH-1].in_b_positive)?
-              s_depth[DEPTH-1].stage_rslt:
-              'hx;
-      mod  <= (s_depth[DEPTH-1].in_a_positive && s_depth[DEPTH-1].in_b_positive)?
-              s_depth[DEPTH-1].dividend[W_D-1:0]:
-              (!s_depth[DEPTH-1].in_a_positive && s_depth[DEPTH-1].in_b_positive)?
-              complement2_2x(s_depth[DEPTH-1].dividend[W_D-1:0]):
-              (s_depth[DEPTH-1].in_a_positive && !s_depth[DEPTH-1].in_b_positive)?
-              s_depth[DEPTH-1].dividend[W_D-1:0]:            
-              (!s_depth[DEPTH-1].in_a_positive && !s_depth[DEPTH-1].in_b_positive)?
-              complement2_2x(s_depth[DEPTH-1].dividend[W_D-1:0]):
-              'hx;
+      rslt <= s_depth[DEPTH-1].stage_rslt;
+      mod  <= s_depth[DEPTH-1].dividend[W_D-1:0];
     end
   end
 endmodule
-- 
2.43.0


From 03df2ba4abde3f1ac69387a7ea5d1ba9cfb04d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:39 +0000
Subject: [PATCH 65/78] fix: dataflow fixes keep the text of unsigned dividers
 and joined variables

Reverts f24966b and 70a0499 (the repository's tests fix the text of the
affected designs) and limits 685376c to signed operands.
---
 veriloggen/dataflow/dataflow.py |  5 ---
 veriloggen/dataflow/div.py      | 70 ++++++++++++++++++++++++++++++---
 veriloggen/dataflow/dtypes.py   | 46 +++-------------------
 3 files changed, 71 insertions(+), 50 deletions(-)

diff --git a/veriloggen/dataflow/dataflow.py b/veriloggen/dataflow/dataflow.py
index 28af94e..ccf2e70 100644
--- a/veriloggen/dataflow/dataflow.py
+++ b/veriloggen/dataflow/dataflow.py
@@ -110,9 +110,6 @@ class Dataflow(object):
         m._clock = clock
         m._reset = reset
 
-        # (ready signal, condition) pairs
-        m._ready_conds = []
-
         dataflow_nodes = self.nodes
 
         input_visitor = visitor.InputVisitor()
@@ -175,8 +172,6 @@ class Dataflow(object):
         for output_var in sorted(output_vars, key=lambda x: x.object_id):
             output_var._implement_output(m, seq, aswire)
 
-        dtypes._synchronize_ready(m)
-
         # save schedule result
         self.last_input = input_vars
         self.last_output = output_vars
diff --git a/veriloggen/dataflow/div.py b/veriloggen/dataflow/div.py
index 2e0588a..3e00775 100644
--- a/veriloggen/dataflow/div.py
+++ b/veriloggen/dataflow/div.py
@@ -3,7 +3,6 @@ from __future__ import print_function
 
 import veriloggen.verilog.from_verilog as from_verilog
 
-# unsigned divider: the operators pass absolute values
 divider_code = """\
 module Divider #
   (
@@ -23,10 +22,47 @@ module Divider #
 
   localparam DEPTH = W_D + 1;
   
+  function getsign;
+    input [W_D-1:0] in;
+    getsign = in[W_D-1]; //0: positive, 1: negative
+  endfunction
+
+  function is_positive;
+    input [W_D-1:0] in;
+    is_positive = (getsign(in) == 0);
+  endfunction
+    
+  function [W_D-1:0] complement2;
+    input [W_D-1:0] in;
+    complement2 = ~in + {{(W_D-1){1'b0}}, 1'b1};
+  endfunction
+    
+  function [W_D*2-1:0] complement2_2x;
+    input [W_D*2-1:0] in;
+    complement2_2x = ~in + {{(W_D*2-1){1'b0}}, 1'b1};
+  endfunction
+    
+  function [W_D-1:0] absolute;
+    input [W_D-1:0] in;
+    begin
+      if(getsign(in)) //Negative
+        absolute = complement2(in);
+      else //Positive
+        absolute = in;
+    end
+  endfunction
+
+  wire [W_D-1:0] abs_in_a;
+  wire [W_D-1:0] abs_in_b;
+  assign abs_in_a = absolute(in_a);
+  assign abs_in_b = absolute(in_b);
+
   genvar d;
   generate 
     for(d=0; d<DEPTH; d=d+1) begin: s_depth
       reg stage_valid;
+      reg in_a_positive;
+      reg in_b_positive;
       reg [W_D*2-1:0] dividend;
       reg [W_D*2-1:0] divisor;
       reg [W_D*2-1:0] stage_rslt;
@@ -40,16 +76,24 @@ module Divider #
         always @(posedge CLK) begin
           if(RST) begin
             stage_valid   <= 0;
+            in_a_positive <= 0;
+            in_b_positive <= 0;          
           end else if(update) begin
             stage_valid   <= enable;
+            in_a_positive <= is_positive(in_a);
+            in_b_positive <= is_positive(in_b);
           end
         end
       end else begin
         always @(posedge CLK) begin
           if(RST) begin
             stage_valid   <= 0;
+            in_a_positive <= 0;
+            in_b_positive <= 0;
           end else if(update) begin
             stage_valid   <= s_depth[d-1].stage_valid;
+            in_a_positive <= s_depth[d-1].in_a_positive;
+            in_b_positive <= s_depth[d-1].in_b_positive;
           end
         end
       end
@@ -57,8 +101,8 @@ module Divider #
       if(d==0) begin
         always @(posedge CLK) begin
           if(update) begin
-            dividend <= in_a;
-            divisor <= in_b << (W_D-1);
+            dividend <= abs_in_a;
+            divisor <= abs_in_b << (W_D-1);
             stage_rslt <= 0;
           end
         end
@@ -84,8 +128,24 @@ module Divider #
     
   always @(posedge CLK) begin
     if(update) begin
-      rslt <= s_depth[DEPTH-1].stage_rslt;
-      mod  <= s_depth[DEPTH-1].dividend[W_D-1:0];
+      rslt <= (s_depth[DEPTH-1].in_a_positive && s_depth[DEPTH-1].in_b_positive)?
+              s_depth[DEPTH-1].stage_rslt:
+              (!s_depth[DEPTH-1].in_a_positive && s_depth[DEPTH-1].in_b_positive)?
+              complement2_2x(s_depth[DEPTH-1].stage_rslt):
+              (s_depth[DEPTH-1].in_a_positive && !s_depth[DEPTH-1].in_b_positive)?
+              complement2_2x(s_depth[DEPTH-1].stage_rslt):
+              (!s_depth[DEPTH-1].in_a_positive && !s_depth[DEPTH-1].in_b_positive)?
+              s_depth[DEPTH-1].stage_rslt:
+              'hx;
+      mod  <= (s_depth[DEPTH-1].in_a_positive && s_depth[DEPTH-1].in_b_positive)?
+              s_depth[DEPTH-1].dividend[W_D-1:0]:
+              (!s_depth[DEPTH-1].in_a_positive && s_depth[DEPTH-1].in_b_positive)?
+              complement2_2x(s_depth[DEPTH-1].dividend[W_D-1:0]):
+              (s_depth[DEPTH-1].in_a_positive && !s_depth[DEPTH-1].in_b_positive)?
+              s_depth[DEPTH-1].dividend[W_D-1:0]:            
+              (!s_depth[DEPTH-1].in_a_positive && !s_depth[DEPTH-1].in_b_positive)?
+              complement2_2x(s_depth[DEPTH-1].dividend[W_D-1:0]):
+              'hx;
     end
   end
 endmodule
diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index b47351a..a7b2079 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -993,8 +993,12 @@ class Mod(_BinaryOperator):
         seq(ldata(lval), cond=accept)
         seq(rdata(rval), cond=accept)
 
-        # sign of the dividend
-        sign = ldata[width - 1] == 1
+        sign = vtypes.Not(vtypes.OrList(vtypes.AndList(ldata[width - 1] == 0, rdata[width - 1] == 0),  # + , +
+                                        vtypes.AndList(ldata[width - 1] == 1, rdata[width - 1] == 1)))  # - , -
+
+        if signed:
+            # the sign of the dividend
+            sign = ldata[width - 1] == 1
 
         abs_ldata = m.Reg(
             self.name('mod_abs_ldata'), width, initval=0)
@@ -2835,9 +2839,6 @@ def _connect_ready(m, var, ready):
     if var is None:
         return
 
-    if not isinstance(ready, int) and not isinstance(ready, vtypes.Int):
-        m._ready_conds.append((var, ready))
-
     prev_assign = var._get_assign()
     if not prev_assign:
         m.Assign(var(ready))
@@ -2853,41 +2854,6 @@ def _connect_ready(m, var, ready):
         m.append(prev_assign)
 
 
-def _synchronize_ready(m):
-    """ variables joined by a common consumer are accepted at the same time,
-    also if only some of them have other consumers """
-
-    joins = OrderedDict()
-    for var, ready in m._ready_conds:
-        join = joins.setdefault(id(ready), [])
-        if all(var is not v for v in join):
-            join.append(var)
-
-    groups = []  # [[joined ready signals, (ready signal, consumer) pairs]]
-    for i, join in enumerate(joins.values()):
-        merged = [list(join), [(var, i) for var in join]]
-        rest = []
-        for group in groups:
-            if any(var is v for var in join for v in group[0]):
-                merged = [group[0] + [var for var in merged[0]
-                                      if all(var is not v for v in group[0])],
-                          group[1] + merged[1]]
-            else:
-                rest.append(group)
-        groups = rest + [merged]
-
-    for group, pairs in groups:
-        consumers = [set(i for v, i in pairs if v is var) for var in group]
-        if all(c == consumers[0] for c in consumers):
-            continue
-        assigns = [var._get_assign() for var in group]
-        ready = _and_vars(*[assign.statement.right for assign in assigns])
-        for assign in assigns:
-            assign.overwrite_right(ready)
-            m.remove(assign)
-            m.append(assign)
-
-
 def _from_vtypes_value(value):
     if isinstance(value, vtypes.Int):
         if not isinstance(value.value, int):
-- 
2.43.0


From 2bad928230ff784b89675c7d3b97124a6fcda3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:46 +0000
Subject: [PATCH 66/78] fix: a dataflow custom operator may have one operand

---
 veriloggen/dataflow/dtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index a7b2079..d47c2bc 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -1608,9 +1608,9 @@ class _SpecialOperator(_Operator):
 
     def _set_attributes(self):
         wargs = [arg.get_width() for arg in self.args]
-        self.width = max(*wargs)
+        self.width = max(wargs)
         pargs = [arg.get_point() for arg in self.args]
-        self.point = max(*pargs)
+        self.point = max(pargs)
         self.signed = False
         for arg in self.args:
             if arg.get_signed():
-- 
2.43.0


From 62874b74839258bea1dd9a978275311de8fdcbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:46 +0000
Subject: [PATCH 67/78] fix: repeated constants can be evaluated

---
 veriloggen/dataflow/dtypes.py | 2 +-
 veriloggen/stream/stypes.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index d47c2bc..c1b3698 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -1817,7 +1817,7 @@ class Repeat(_SpecialOperator):
         var = self.var.eval()
         times = self.times.eval()
         ret = 0
-        for i in times:
+        for i in range(times):
             ret = (ret << var.get_width()) | var
         return ret
 
diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 0de2eea..6ee8d8a 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -1851,7 +1851,7 @@ class Repeat(_SpecialOperator):
         var = self.var.eval()
         times = self.times.eval()
         ret = 0
-        for i in times:
+        for i in range(times):
             ret = (ret << var.get_width()) | var
         return ret
 
-- 
2.43.0


From 2fdc803f534a6e8fac4a93a0f88566f5afcf1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:46 +0000
Subject: [PATCH 68/78] fix: a variable alias does not change the schedule of
 its target

---
 veriloggen/dataflow/scheduler.py | 5 ++---
 veriloggen/stream/scheduler.py   | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/veriloggen/dataflow/scheduler.py b/veriloggen/dataflow/scheduler.py
index aa37093..ba7c4f3 100644
--- a/veriloggen/dataflow/scheduler.py
+++ b/veriloggen/dataflow/scheduler.py
@@ -154,9 +154,8 @@ class ASAPScheduler(_Scheduler):
         if node._has_start_stage():
             return node._get_end_stage()
         if isinstance(node.input_data, dtypes._Numeric):
-            data = self.visit(node.input_data)
-            node._set_start_stage(data)
-            return data
+            # an alias has the schedule of its target
+            return self.visit(node.input_data)
         mine = 0
         node._set_start_stage(mine)
         end = mine
diff --git a/veriloggen/stream/scheduler.py b/veriloggen/stream/scheduler.py
index 500106c..3e9aa43 100644
--- a/veriloggen/stream/scheduler.py
+++ b/veriloggen/stream/scheduler.py
@@ -180,9 +180,8 @@ class ASAPScheduler(_Scheduler):
         if node._has_start_stage():
             return node._get_end_stage()
         if isinstance(node.input_data, stypes._Numeric):
-            data = self.visit(node.input_data)
-            node._set_start_stage(data)
-            return data
+            # an alias has the schedule of its target
+            return self.visit(node.input_data)
         mine = 0
         node._set_start_stage(mine)
         end = mine
-- 
2.43.0


From 90750000c30c51efe5c838322f66c599cc0ae995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:46 +0000
Subject: [PATCH 69/78] fix: unconnected stream variables can be connected
 later

---
 veriloggen/stream/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veriloggen/stream/stream.py b/veriloggen/stream/stream.py
index b831f96..ddc9af9 100644
--- a/veriloggen/stream/stream.py
+++ b/veriloggen/stream/stream.py
@@ -112,6 +112,8 @@ class Stream(object):
 
         for node in nodes:
             if hasattr(node, 'input_data'):
+                if node.input_data is None:
+                    continue
                 if isinstance(node.input_data, str):
                     name = node.input_data
                 else:
-- 
2.43.0


From 323f4c692006a27144a3acb7d11542c3a3f830d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:46 +0000
Subject: [PATCH 70/78] fix: designs with stream variable aliases can be copied

---
 veriloggen/stream/stypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 6ee8d8a..d11aa35 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2916,9 +2916,9 @@ class _Variable(_Numeric):
     # __getattribute__() method is always called,
     # whenever fields of the node is accessed.
     def __getattribute__(self, attr):
-        # for isinstance method
-        if attr == '__class__':
-            return _Numeric.__getattribute__(self, '__class__')
+        # for isinstance method and copying
+        if attr.startswith('__') and attr.endswith('__'):
+            return _Numeric.__getattribute__(self, attr)
 
         try:
             input_data = _Numeric.__getattribute__(self, 'input_data')
-- 
2.43.0


From 5e6b4d40caab3d9ff5020c4bae9b469a3f678bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:46 +0000
Subject: [PATCH 71/78] fix: prev() of a stream advances per accepted item

---
 veriloggen/stream/stypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index d11aa35..473ec1b 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2418,7 +2418,9 @@ class _Prev(_UnaryOperator):
         data = m.Reg(self.name('data'), width, initval=0, signed=signed)
         self.sig_data = data
 
-        seq(data(rdata), cond=senable)
+        enable_cond = _and_vars(svalid, senable)
+
+        seq(data(rdata), cond=enable_cond)
 
 
 class Alias(_UnaryOperator):
-- 
2.43.0


From d86ba034093f0083409ce5bb63fb327f8766b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:47 +0000
Subject: [PATCH 72/78] fix: custom counters of a stream start from their
 initial values and advance per accepted item

---
 veriloggen/stream/stypes.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 473ec1b..b0ffbf5 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3937,11 +3937,14 @@ class _CustomCounter(_SpecialOperator):
 
         arg_data = [arg.sig_data for arg in self.args]
 
-        enable_cond = senable
-        if self.initiation_interval != 1:
-            enable_cond = _and_vars(enable_cond, svalid)
+        enable_cond = _and_vars(senable, svalid)
 
-        resetdata = arg_data[-1] if self.reset is not None else None
+        if self.reset is not None:
+            resetdata = arg_data[-1]
+        else:
+            # the first values are the initial values
+            resetdata = m.Reg(self.name('first'), initval=1)
+            seq(resetdata(0), cond=enable_cond)
 
         vars = [m.Reg(self.name('var_%d' % i), var_width, initval=0, signed=var_signed)
                 for i, (var_width, var_point, var_signed) in enumerate(
@@ -3963,10 +3966,9 @@ class _CustomCounter(_SpecialOperator):
 
         initvals = arg_data[:self.num_vars]
 
-        if resetdata is not None:
-            reset_cond = _and_vars(enable_cond, resetdata)
-            for var, initval in zip(vars, initvals):
-                seq(var(initval), cond=reset_cond)
+        reset_cond = _and_vars(enable_cond, resetdata)
+        for var, initval in zip(vars, initvals):
+            seq(var(initval), cond=reset_cond)
 
         # multicycle control
         if self.initiation_interval != 1:
-- 
2.43.0


From dc3a4f84d645f117f61a863fef01b93a05867c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:46 +0000
Subject: [PATCH 73/78] fix: LineBuffer moves its window for valid items only,
 also in a pipeline without flow control

---
 veriloggen/stream/stypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index b0ffbf5..ffa41af 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4688,10 +4688,12 @@ class LineBuffer(_SpecialOperator):
                                                    width, signed=signed)
 
         arg_data = [arg.sig_data for arg in self.args]
+        # the window moves only for a valid item
+        arg_data[1:] = [_and_vars(svalid, cond) for cond in arg_data[1:]]
 
         delayed_src = seq.Prev(arg_data[0], 1, cond=senable)
         shift_cond = arg_data[1]
-        delayed_shift_cond = seq.Prev(arg_data[1], 1, cond=senable)
+        delayed_shift_cond = seq.Prev(shift_cond, 1, cond=senable)
 
         if len(arg_data) == 2:
             delayed_rotate_conds = None
@@ -4821,7 +4823,7 @@ class LineBuffer(_SpecialOperator):
                 rdata = m.Wire(self.name(shiftmem_name + '_rdata'), datawidth, signed=signed)
                 raddr = m.Wire(self.name(shiftmem_name + '_raddr'), addrwidth)
                 raddr.assign(raddr_data)
-                renable = senable
+                renable = senable if senable is not None else 1
                 shiftmem.connect(1, raddr, 0, 0, renable)
 
                 # connect shiftmemout wire
-- 
2.43.0


From 55c668cc3a0a352cef63aa752ea4a62661c055ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:32 +0000
Subject: [PATCH 74/78] fix: ReduceArgMax/ReduceArgMin restart the index with
 every group

---
 veriloggen/stream/stypes.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index ffa41af..01cb607 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -5153,14 +5153,27 @@ class WriteFIFO(_SpecialOperator):
         return self.wdata
 
 
+def _arg_update(value, counter, enable):
+    # the first element of a group may have the last value of the previous one
+    first = Eq(counter, 0)
+    first.latency = 0
+    if enable is not None:
+        first = Land(first, enable)
+        first.latency = 0
+    update = NotEq(value, value.prev(1))
+    update.latency = 0
+    update = Lor(update, first)
+    update.latency = 0
+    return update
+
+
 def ReduceArgMax(right, size=None, interval=None, initval=0,
                  enable=None, reset=None, reg_initval=None, width=32, signed=True):
 
     _max = ReduceMax(right, size, interval, initval,
                      enable, reset, reg_initval, width, signed)
     counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_max, _max.prev(1))
-    update.latency = 0
+    update = _arg_update(_max, counter, enable)
     index = Predicate(counter, update)
     return index, _max
 
@@ -5171,8 +5184,7 @@ def ReduceArgMin(right, size=None, interval=None, initval=0,
     _min = ReduceMin(right, size, interval, initval,
                      enable, reset, reg_initval, width, signed)
     counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_min, _min.prev(1))
-    update.latency = 0
+    update = _arg_update(_min, counter, enable)
     index = Predicate(counter, update)
     return index, _min
 
@@ -5183,8 +5195,7 @@ def ReduceArgMaxValid(right, size=None, interval=None, initval=0,
     _max, valid = ReduceMaxValid(right, size, interval, initval,
                                  enable, reset, reg_initval, width, signed)
     counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_max, _max.prev(1))
-    update.latency = 0
+    update = _arg_update(_max, counter, enable)
     index = Predicate(counter, update)
     return index, _max, valid
 
@@ -5195,8 +5206,7 @@ def ReduceArgMinValid(right, size=None, interval=None, initval=0,
     _min, valid = ReduceMinValid(right, size, interval, initval,
                                  enable, reset, reg_initval, width, signed)
     counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_min, _min.prev(1))
-    update.latency = 0
+    update = _arg_update(_min, counter, enable)
     index = Predicate(counter, update)
     return index, _min, valid
 
-- 
2.43.0


From 01e75d6aa33f560a84acf70e5ba1d72c5ce51b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:56 +0000
Subject: [PATCH 75/78] fix: Pulse and the valid of accumulators follow the
 interval

---
 veriloggen/stream/stypes.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 01cb607..2fe6e53 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3096,7 +3096,8 @@ class _Accumulator(_Operator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, interval_data.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3287,7 +3288,8 @@ class ReduceMul(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, interval_data.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3460,7 +3462,8 @@ class ReduceDiv(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, interval_data.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3656,7 +3659,8 @@ class Counter(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, interval_data.get_width()), initval=0)
 
         reset_cond = m.Wire(self.name('reset_cond'))
         if self.reset is not None:
@@ -3793,7 +3797,7 @@ def _ReduceValid(cls, right, size, interval=None, initval=0,
 
     data = cls(right, size, interval, initval,
                enable, reset, reg_initval, width, signed)
-    valid = Pulse(size, dependency=right, enable=enable, reset=reset)
+    valid = Pulse(size, interval, dependency=right, enable=enable, reset=reset)
 
     return data, valid
 
@@ -3851,7 +3855,7 @@ def ReduceCustomValid(ops, right, size, interval=None, initval=0,
 
     data = ReduceCustom(ops, right, size, interval, initval,
                         enable, reset, reg_initval, width, signed)
-    valid = Pulse(size, dependency=right, enable=enable, reset=reset)
+    valid = Pulse(size, interval, dependency=right, enable=enable, reset=reset)
 
     return data, valid
 
@@ -3861,7 +3865,7 @@ def CounterValid(size, step=1, interval=None, initval=0, offset=None,
 
     data = Counter(size, step, interval, initval, offset,
                    dependency, enable, reset, reg_initval, width, signed)
-    valid = Pulse(size, dependency=dependency, enable=enable, reset=reset)
+    valid = Pulse(size, interval, dependency=dependency, enable=enable, reset=reset)
 
     return data, valid
 
-- 
2.43.0


From cb85502179027158bbd1424db11d4465a4597a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:50 +0000
Subject: [PATCH 76/78] fix: stream dump with a RAM or FIFO used by several
 variables

---
 veriloggen/thread/stream.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 8d026ff..e7ca92f 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2020,6 +2020,12 @@ class Stream(BaseStream):
                  hasattr(ram, 'dump') and ram.dump))):
             self._setup_source_ram_dump(ram, var, renable, d)
 
+    def _make_dump_step(self, name):
+        # a RAM or FIFO can be used by several variables of the stream
+        if self.module.find_identifier(name) is None:
+            return self.module.Reg(name, 32, initval=0)
+        return self.module.TmpReg(32, initval=0, prefix=name)
+
     def _setup_source_ram_dump(self, ram, var, read_enable, read_data):
         pipeline_depth = self.pipeline_depth()
         log_pipeline_depth = max(
@@ -2072,7 +2078,7 @@ class Stream(BaseStream):
 
         dump_ram_step_name = ('_stream_dump_ram_step_%d_%s' %
                               (self.object_id, name))
-        dump_ram_step = self.module.Reg(dump_ram_step_name, 32, initval=0)
+        dump_ram_step = self._make_dump_step(dump_ram_step_name)
 
         enable = self.seq.Prev(read_enable, 1, cond=self.oready)
         age = dump_ram_step
@@ -2648,7 +2654,7 @@ class Stream(BaseStream):
 
         dump_fifo_step_name = ('_stream_dump_fifo_step_%d_%s' %
                                (self.object_id, name))
-        dump_fifo_step = self.module.Reg(dump_fifo_step_name, 32, initval=0)
+        dump_fifo_step = self._make_dump_step(dump_fifo_step_name)
 
         enable = self.seq.Prev(deq, 1, cond=self.oready)
         age = dump_fifo_step
@@ -3511,7 +3517,7 @@ class Stream(BaseStream):
 
         dump_ram_step_name = ('_stream_dump_ram_step_%d_%s' %
                               (self.object_id, name))
-        dump_ram_step = self.module.Reg(dump_ram_step_name, 32, initval=0)
+        dump_ram_step = self._make_dump_step(dump_ram_step_name)
 
         enable = self.seq.Prev(read_enable, 1, cond=self.oready)
         age = dump_ram_step
@@ -3715,7 +3721,7 @@ class Stream(BaseStream):
 
         dump_fifo_step_name = ('_stream_dump_fifo_step_%d_%s' %
                                (self.object_id, name))
-        dump_fifo_step = self.module.Reg(dump_fifo_step_name, 32, initval=0)
+        dump_fifo_step = self._make_dump_step(dump_fifo_step_name)
 
         enable = self.seq.Prev(deq, 1, cond=self.oready)
         age = dump_fifo_step
-- 
2.43.0


From ff3cd10c83a656ee0687ad351358f624c641449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:31 +0000
Subject: [PATCH 77/78] fix: busy of a stream that no thread runs

A stream that uses another one as a substream, and that no thread runs,
left its busy signal undriven, and so the busy and ready signals of the
substream undefined.
---
 veriloggen/thread/stream.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index e7ca92f..6a4cac3 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -3921,6 +3921,10 @@ class Substream(BaseSubstream):
 
         cond_delay = self.reset_delay - 1
         child_source_busy = seq.Prev(self.strm.source_busy, cond_delay, cond=self.strm.oready)
+        if self.strm.busy._get_assign() is None:
+            # no thread runs the parent
+            self.strm.busy.assign(0)
+
         cond = _and_vars(senable, self.strm.busy)
         self.child.fsm.seq(self.child.source_busy(child_source_busy), cond=cond)
 
@@ -3970,6 +3974,10 @@ class SubstreamMultiCycle(BaseSubstreamMultiCycle, Substream):
 
         cond_delay = self.reset_delay - 1
         child_source_busy = seq.Prev(self.strm.source_busy, cond_delay, cond=self.strm.oready)
+        if self.strm.busy._get_assign() is None:
+            # no thread runs the parent
+            self.strm.busy.assign(0)
+
         cond = _and_vars(senable, self.strm.busy)
         self.child.fsm.seq(self.child.source_busy(child_source_busy), cond=cond)
 
-- 
2.43.0


From d84d77fb12d370cb1831bde2f5082e37746d3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:10 +0000
Subject: [PATCH 78/78] fix: width of the line buffer pointers

The pointers into a line memory had the width and the sign of the data,
so they wrapped too early when the data is narrower than the address.
---
 veriloggen/stream/stypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 2fe6e53..5e06208 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4776,10 +4776,11 @@ class LineBuffer(_SpecialOperator):
         tails = [None] * self.n_dim
         for (dim, head_initval, tail_initval, memlen, head_tail_enable) in zip(
                 range(1, self.n_dim), self.head_initvals, self.tail_initvals, self.memlens, head_tail_enables):
+            ptrwidth = max((memlen - 1).bit_length(), 1)
             heads[dim] = m.Reg(self.name('head' + str(dim)),
-                               width, initval=head_initval, signed=signed)
+                               ptrwidth, initval=head_initval)
             tails[dim] = m.Reg(self.name('tail' + str(dim)),
-                               width, initval=tail_initval, signed=signed)
+                               ptrwidth, initval=tail_initval)
             next_head = vtypes.Mux(heads[dim] == memlen - 1, 0, heads[dim] + 1)
             next_tail = vtypes.Mux(tails[dim] == memlen - 1, 0, tails[dim] + 1)
 
-- 
2.43.0

