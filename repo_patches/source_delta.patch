From 2e4cf44acf6b9097f315418882d799d640eace5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 01/69] fix: release BIGNUM transfer buffers with delete[]

SendBN and RecvBN freed arrays allocated with new[] with scalar delete,
which is undefined behaviour.
---
 crypto/BN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 46493b2..7b1bba8 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -111,7 +111,7 @@ int SendBN(int connf, const BIGNUM *bignum) {
   BN_bn2bin(bignum, bn_arr);
   CHECK(SendData(connf, &size, sizeof(int)));
   CHECK(SendData(connf, bn_arr, size));
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 int RecvBN(int connf, BIGNUM *bignum) {
@@ -130,7 +130,7 @@ int RecvBN(int connf, BIGNUM *bignum) {
   unsigned char* bn_arr = new unsigned char[size];
   CHECK(RecvData(connf, bn_arr, size));
   BN_bin2bn(bn_arr, size, bignum);
-  delete bn_arr;
+  delete[] bn_arr;
   return SUCCESS;
 }
 
-- 
2.43.0


From c4b31e0d29743ebb64de384ab78a38e57319f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 02/69] fix: free posix_memalign memory of a circuit with
 free()

ReadSCD allocates garbledGates and outputs with posix_memalign;
RemoveGarbledCircuit released them with delete[].
---
 garbled_circuit/garbled_circuit_util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 0435640..10f03dc 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -35,6 +35,7 @@
 
 #include "garbled_circuit/garbled_circuit_util.h"
 
+#include <cstdlib>
 #include "tcpip/tcpip.h"
 #include "util/common.h"
 #include "util/log.h"
@@ -55,9 +56,10 @@ uint64_t NumOfNonXor(const GarbledCircuit& garbled_circui) {
 }
 
 void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
-  delete[] garbled_circuit->garbledGates;
+  // allocated with posix_memalign in ReadSCD
+  free(garbled_circuit->garbledGates);
   if (garbled_circuit->outputs != nullptr) {
-    delete[] garbled_circuit->outputs;
+    free(garbled_circuit->outputs);
   }
   if (garbled_circuit->I != nullptr) {
     delete[] garbled_circuit->I;
-- 
2.43.0


From 9e1a92bad0f3f999ee091592ff460505eea4ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 03/69] fix: mark the evaluator's table slots as empty before
 the first cycle

EvalGate decides by gid whether the next slot holds the table of a gate.
Slots that no table was received into kept whatever the heap contained, so
a skipped gate could take an uninitialised slot for its table.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 3 +++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index a4bbce9..5380c9d 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -479,6 +479,9 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t)(-1);  // no table received yet
+  }
 
   uint64_t comm_time = 0;
   uint64_t eval_time = 0;
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 0d83d78..fd16411 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -241,6 +241,9 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   GarbledTable* garbled_tables = nullptr;
   CHECK_ALLOC(garbled_tables = new GarbledTable[num_of_non_xor]);
+  for (uint64_t i = 0; i < num_of_non_xor; i++) {
+    garbled_tables[i].gid = (uint32_t)(-1);  // no table received yet
+  }
 
   CHECK(
       EvaluateAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From c9272d579916c6850e7b0cce319c9ce97a430887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 04/69] fix: report a failure of the garbling and evaluation
 loops

GarbleBNHighMem and EvaluateBNHighMem ignored the return values of
GarbleHighMem and EvaluateHighMem and reported success with results that
were never computed.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 5380c9d..056fa71 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -81,9 +81,10 @@ int GarbleBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                global_key, R, clock_cycles, terminate_period, connfd,
-                output_labels, output_vals);
+  CHECK(
+      GarbleHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
+                    global_key, R, clock_cycles, terminate_period, connfd,
+                    output_labels, output_vals));
   CHECK(
       GarbleTransferOutput(garbled_circuit, output_labels, output_vals,
                            *clock_cycles, output_mask, output_mode, output_bn,
@@ -126,9 +127,10 @@ int EvaluateBNHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
 	cout << ot_time << "\t";
 #endif
 
-  EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels, input_labels,
-                  global_key, clock_cycles, terminate_period, connfd,
-                  output_labels, output_vals);
+  CHECK(
+      EvaluateHighMem(garbled_circuit, p_init, p_input, init_labels,
+                      input_labels, global_key, clock_cycles, terminate_period,
+                      connfd, output_labels, output_vals));
 
   CHECK(
       EvaluateTransferOutput(garbled_circuit, output_labels, output_vals,
-- 
2.43.0


From bced1739a1e4d1a3347f8976f18cd5a807dd09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 05/69] fix: bound the number of garbled tables the garbler
 announces

The evaluator received as many tables as the garbler said into a buffer
sized for the circuit's non-XOR gates.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 ++
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 056fa71..d61feaa 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -498,6 +498,8 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "Alice announced more garbled tables than the circuit has.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index fd16411..fb7a637 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -274,6 +274,8 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     uint64_t comm_start_time = RDTSC;
     {
       CHECK(RecvData(connfd, &garbled_table_ind_rcv, sizeof(uint64_t)));
+      CHECK_EXPR_MSG(garbled_table_ind_rcv <= num_of_non_xor,
+                     "Alice announced more garbled tables than the circuit has.");
       CHECK(
           RecvData(connfd, garbled_tables,
                    garbled_table_ind_rcv * sizeof(GarbledTable)));
-- 
2.43.0


From e2afc4b0e96fc7b2a4881eebb3a3e94f2f09f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 06/69] fix: give the evaluator its public output bits below
 the mask's top bit

An output bit whose value is publicly known to be 1 was only reported to
the evaluator when it lay beyond the mask, not when its mask bit is 0.
---
 garbled_circuit/garbled_circuit_high_mem.cpp | 2 +-
 garbled_circuit/garbled_circuit_low_mem.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index d61feaa..b47b198 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1085,7 +1085,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
         BN_clear_bit(output_bn, cid * garbled_circuit.output_size + i);
       } else if (output_vals[cid * garbled_circuit.output_size + i] == 1) {
         if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-            && BN_is_bit_set(output_mask_bn, i) == 0) {
+            || BN_is_bit_set(output_mask_bn, i) == 0) {
           BN_set_bit(output_bn, cid * garbled_circuit.output_size + i);
         }
       } else {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index fb7a637..f449c2f 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1165,7 +1165,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
       BN_clear_bit(output_bn, output_bit_offset + i);
     } else if (output_vals[i] == 1) {
       if (i >= (uint64_t) BN_num_bits(output_mask_bn)
-          && BN_is_bit_set(output_mask_bn, i) == 0) {
+          || BN_is_bit_set(output_mask_bn, i) == 0) {
         BN_set_bit(output_bn, output_bit_offset + i);
       }
     } else {
-- 
2.43.0


From dfbbec0bde4dd8d120663180d2f1a8e29447c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 07/69] fix: exchange a secret terminate bit instead of
 deadlocking

With a secret terminate wire both parties waited to receive; the evaluator
has to send its permute bit. The wire is 1 when the permute bits differ.
---
 garbled_circuit/garbled_circuit_util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index 10f03dc..eea1561 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -603,7 +603,7 @@ int GarbleTransferTerminate(const GarbledCircuit& garbled_circuit,
     CHECK(SendData(connfd, &terminate_type, sizeof(short)));
     short eval_terminate_type;
     CHECK(RecvData(connfd, &eval_terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == eval_terminate_type);
+    (*is_terminate) = (terminate_type != eval_terminate_type);
   }
 
   return SUCCESS;
@@ -620,8 +620,8 @@ int EvaluateTransferTerminate(const GarbledCircuit& garbled_circuit,
     short garble_terminate_type;
     CHECK(RecvData(connfd, &garble_terminate_type, sizeof(short)));
     short terminate_type = get_LSB(terminate_label);
-    CHECK(RecvData(connfd, &terminate_type, sizeof(short)));
-    (*is_terminate) = (terminate_type == garble_terminate_type);
+    CHECK(SendData(connfd, &terminate_type, sizeof(short)));
+    (*is_terminate) = (terminate_type != garble_terminate_type);
   }
 
   return SUCCESS;
-- 
2.43.0


From 1446edad711227d006491ac95bf0974eadc8180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 08/69] fix: refuse a negative BIGNUM size announced by the
 peer

---
 crypto/BN.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crypto/BN.cpp b/crypto/BN.cpp
index 7b1bba8..ff77c8a 100644
--- a/crypto/BN.cpp
+++ b/crypto/BN.cpp
@@ -127,8 +127,14 @@ int RecvBN(int connf, BIGNUM *bignum) {
   CHECK(RecvData(connf, bignum->d, bignum->dmax * sizeof(BN_ULONG)));*/
   int size;
   CHECK(RecvData(connf, &size, sizeof(int)));
-  unsigned char* bn_arr = new unsigned char[size];
-  CHECK(RecvData(connf, bn_arr, size));
+  CHECK_EXPR_MSG(size >= 0, "negative BIGNUM size received");
+  unsigned char* bn_arr = nullptr;
+  CHECK_ALLOC(bn_arr = new unsigned char[size]);
+  if (RecvData(connf, bn_arr, size) == FAILURE) {
+    LOG(ERROR) << "RecvData(connf, bn_arr, size) failed" << endl;
+    delete[] bn_arr;
+    return FAILURE;
+  }
   BN_bin2bn(bn_arr, size, bignum);
   delete[] bn_arr;
   return SUCCESS;
-- 
2.43.0


From 669db7b555527066f0c00967c9311834d6b77bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 09/69] fix: report a closed connection as failure instead of
 dying of SIGPIPE, and retry interrupted transfers

---
 tcpip/tcpip.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tcpip/tcpip.cpp b/tcpip/tcpip.cpp
index bc975de..12298fa 100644
--- a/tcpip/tcpip.cpp
+++ b/tcpip/tcpip.cpp
@@ -142,9 +142,12 @@ int SendData(int sock, const void *var, int len) {
 
   int remain_len = 0;
   do {
-    int len_ret = write(sock, (const char *) var + remain_len,
-                        len - remain_len);
+    // no SIGPIPE: a closed connection is reported as FAILURE
+    int len_ret = send(sock, (const char *) var + remain_len,
+                       len - remain_len, MSG_NOSIGNAL);
     if (len_ret == FAILURE) {
+      if (errno == EINTR)
+        continue;
       LOG(ERROR) << strerror(errno) << endl;
       return FAILURE;
     } else if (len_ret == 0) {
@@ -166,6 +169,8 @@ int RecvData(int sock, void* var, int len) {
   do {
     int len_ret = read(sock, (char *) var + remain_len, len - remain_len);
     if (len_ret == FAILURE) {
+      if (errno == EINTR)
+        continue;
       LOG(ERROR) << strerror(errno) << endl;
       return FAILURE;
     } else if (len_ret == 0) {
-- 
2.43.0


From 7292fcf2566c4785406b8969deaf962fb49e6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:05 +0000
Subject: [PATCH 10/69] fix: refuse truncated and inconsistent SCD files

---
 scd/scd.cpp | 88 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 2bcf3ad..7dd7f05 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -43,6 +43,68 @@
 #include <new>
 #include "util/log.h"
 
+/**
+ * @brief The wire is a constant or one of the wires before `hi`, the initial
+ * values excluded: they are only used by I of DFFs.
+ */
+static bool IsValidWire(const GarbledCircuit& garbled_circuit, int64_t wire,
+                        uint64_t hi) {
+  return wire == CONST_ZERO || wire == CONST_ONE
+      || (wire >= (int64_t) garbled_circuit.get_input_lo_index()
+          && wire < (int64_t) hi);
+}
+
+static bool IsValidSCD(const GarbledCircuit& garbled_circuit) {
+  const uint64_t max_size = (uint64_t) 1 << 32;
+  const uint64_t sizes[] = { garbled_circuit.p_init_size,
+      garbled_circuit.g_init_size, garbled_circuit.e_init_size,
+      garbled_circuit.p_input_size, garbled_circuit.g_input_size,
+      garbled_circuit.e_input_size, garbled_circuit.dff_size,
+      garbled_circuit.gate_size };
+  for (uint64_t size : sizes) {
+    if (size > max_size)
+      return false;
+  }
+  for (uint64_t i = 0; i < garbled_circuit.gate_size; i++) {
+    const GarbledGate& gate = garbled_circuit.garbledGates[i];
+    // topologically sorted gates of a known type
+    if (!IsValidWire(garbled_circuit, gate.input0, gate.output))
+      return false;
+    switch (gate.type) {
+      case NOTGATE:
+        if (gate.input1 >= gate.output)
+          return false;
+        break;
+      case ANDGATE: case ANDNGATE: case NANDGATE: case NANDNGATE:
+      case ORGATE: case ORNGATE: case NORGATE: case NORNGATE:
+      case XORGATE: case XNORGATE:
+        if (!IsValidWire(garbled_circuit, gate.input1, gate.output))
+          return false;
+        break;
+      default:
+        return false;
+    }
+  }
+  for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+    if (!IsValidWire(garbled_circuit, garbled_circuit.outputs[i],
+                     garbled_circuit.get_wire_hi_index()))
+      return false;
+  }
+  for (uint64_t i = 0; i < garbled_circuit.dff_size; i++) {
+    if (!IsValidWire(garbled_circuit, garbled_circuit.D[i],
+                     garbled_circuit.get_wire_hi_index()))
+      return false;
+    if (garbled_circuit.I[i] != CONST_ZERO && garbled_circuit.I[i] != CONST_ONE
+        && (garbled_circuit.I[i] < 0
+            || garbled_circuit.I[i]
+                >= (int64_t) garbled_circuit.get_init_hi_index()))
+      return false;
+  }
+  return garbled_circuit.terminate_id == 0
+      || (garbled_circuit.terminate_id >= garbled_circuit.get_input_lo_index()
+          && garbled_circuit.terminate_id < garbled_circuit.get_wire_hi_index());
+}
+
 int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
   std::ifstream f(file_name, std::ios::out);
   if (!f.is_open()) {
@@ -56,6 +118,24 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
       >> garbled_circuit->dff_size >> garbled_circuit->output_size
       >> garbled_circuit->terminate_id >> garbled_circuit->gate_size;
 
+  // Every number in the file takes at least two characters, so that no size
+  // can be larger than the file.
+  if (f.good()) {
+    std::streampos header_end = f.tellg();
+    f.seekg(0, std::ios::end);
+    uint64_t file_size = (uint64_t) f.tellg();
+    f.seekg(header_end);
+    if (garbled_circuit->gate_size > file_size
+        || garbled_circuit->dff_size > file_size
+        || garbled_circuit->output_size > file_size) {
+      f.setstate(std::ios::failbit);
+    }
+  }
+  if (f.fail()) {
+    LOG(ERROR) << file_name << " has no valid SCD header." << endl;
+    return FAILURE;
+  }
+
   if (posix_memalign((void **) (&garbled_circuit->garbledGates), 128,
                      sizeof(GarbledGate) * garbled_circuit->gate_size)) {
     LOG(ERROR) << "Linux is a cheap miser that refuses to give us memory"
@@ -114,6 +194,14 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
     f >> garbled_circuit->I[i];
   }
 
+  if (f.fail() || !IsValidSCD(*garbled_circuit)) {
+    LOG(ERROR) << file_name << " is truncated or inconsistent." << endl;
+    free(garbled_circuit->garbledGates);
+    free(garbled_circuit->outputs);
+    delete[] garbled_circuit->D;
+    delete[] garbled_circuit->I;
+    return FAILURE;
+  }
   f.close();
 
   return SUCCESS;
-- 
2.43.0


From 894e7ef49646054bc156bfbdcf750108d0ce8dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 11/69] fix: support outputs tied to a constant

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 10 ++++++++++
 garbled_circuit/garbled_circuit_low_mem.cpp  |  8 ++++++++
 scd/scd_evaluator.cpp                        |  8 +++++++-
 scd/scheduling.cpp                           |  9 +++++++--
 scd/v_2_scd.h                                |  2 +-
 5 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index b47b198..c58d7de 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -378,6 +378,11 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     }
 
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+      if (garbled_circuit.outputs[i] < 0) {  // constant output
+        output_vals[cid * garbled_circuit.output_size + i] =
+            (garbled_circuit.outputs[i] == CONST_ONE) ? 1 : 0;
+        continue;
+      }
       output_labels[(cid * garbled_circuit.output_size + i) * 2 + 0] =
           wires[garbled_circuit.outputs[i]].label0;
       output_labels[(cid * garbled_circuit.output_size + i) * 2 + 1] =
@@ -676,6 +681,11 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     }
 
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+      if (garbled_circuit.outputs[i] < 0) {  // constant output
+        output_vals[cid * garbled_circuit.output_size + i] =
+            (garbled_circuit.outputs[i] == CONST_ONE) ? 1 : 0;
+        continue;
+      }
       output_labels[cid * garbled_circuit.output_size + i] =
           wires[garbled_circuit.outputs[i]];
       output_vals[cid * garbled_circuit.output_size + i] =
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index f449c2f..70dae22 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -546,6 +546,10 @@ uint64_t GarbleLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   }
 
   for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+    if (garbled_circuit.outputs[i] < 0) {  // constant output
+      output_vals[i] = (garbled_circuit.outputs[i] == CONST_ONE) ? 1 : 0;
+      continue;
+    }
     output_labels[(i) * 2 + 0] = wires[garbled_circuit.outputs[i]].label0;
     output_labels[(i) * 2 + 1] = wires[garbled_circuit.outputs[i]].label1;
     output_vals[i] = wires_val[garbled_circuit.outputs[i]];
@@ -741,6 +745,10 @@ uint64_t EvaluateLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   }
 
   for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
+    if (garbled_circuit.outputs[i] < 0) {  // constant output
+      output_vals[i] = (garbled_circuit.outputs[i] == CONST_ONE) ? 1 : 0;
+      continue;
+    }
     output_labels[i] = wires[garbled_circuit.outputs[i]];
     output_vals[i] = wires_val[garbled_circuit.outputs[i]];
     DUMP("output") << wires[garbled_circuit.outputs[i]] << endl;
diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index ee5d9e8..abf5a14 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -188,7 +188,13 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
     }
 
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
-      if (wires[garbled_circuit.outputs[i]])
+      bool b;
+      if (garbled_circuit.outputs[i] < 0) {  // constant output
+        b = (garbled_circuit.outputs[i] == CONST_ONE);
+      } else {
+        b = wires[garbled_circuit.outputs[i]];
+      }
+      if (b)
         BN_set_bit(*outputs, cid * garbled_circuit.output_size + i);
       else
         BN_clear_bit(*outputs, cid * garbled_circuit.output_size + i);
diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index bd1d77d..1fd9662 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -295,7 +295,9 @@ int TopologicalSortMultiCore(ReadCircuit &read_circuit) {
         + read_circuit.dff_size];
   }
   for (int64_t i = 0; i < (int64_t) read_circuit.output_size; i++) {
-    read_circuit.output_list[i] = ts_1[read_circuit.output_list[i]];
+    if (read_circuit.output_list[i] >= 0) {  // Constant values are negative
+      read_circuit.output_list[i] = ts_1[read_circuit.output_list[i]];
+    }
   }
 
   LOG(INFO) << endl << "Topological Sort" << endl;
@@ -488,7 +490,10 @@ int SortNetlist(ReadCircuit *read_circuit,
     }
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->output_size; i++) {
-    read_circuit->output_list[i] = sorted_list_1[read_circuit->output_list[i]];
+    if (read_circuit->output_list[i] >= 0) {  // Constant values are negative
+      read_circuit->output_list[i] =
+          sorted_list_1[read_circuit->output_list[i]];
+    }
   }
 
   if (read_circuit->terminate_id != 0) {
diff --git a/scd/v_2_scd.h b/scd/v_2_scd.h
index 2d4c946..4dd1504 100644
--- a/scd/v_2_scd.h
+++ b/scd/v_2_scd.h
@@ -72,7 +72,7 @@ class ReadGate {
 class ReadCircuit {
 
  public:
-  vector<uint64_t> output_list;
+  vector<int64_t> output_list;
   vector<ReadGate> gate_list;
   vector<ReadGate> dff_list;
   vector<uint64_t> task_schedule;
-- 
2.43.0


From c07f85f9c3a4dad00f4a91b1e77470e3c404eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 12/69] fix: refuse a netlist whose terminate signal is a
 constant

---
 scd/parse_netlist.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 85c3489..39a839f 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -629,7 +629,8 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   }
 
   if (read_circuit_string.has_terminate) {
-    CHECK_EXPR(wire_name_table["terminate"] != 0);
+    // index 0 and constants can not be represented as terminate signal
+    CHECK_EXPR(wire_name_table["terminate"] > 0);
     read_circuit->terminate_id = wire_name_table["terminate"];
   }
 
-- 
2.43.0


From ff22ddc9cdea986cb9d2a2c3ceb5aad71c0dae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 13/69] fix: resolve netlist assignments in any order

---
 scd/parse_netlist.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 39a839f..9f8aa5b 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -543,18 +543,31 @@ int IdAssignment(const ReadCircuitString& read_circuit_string,
   wire_name_table.insert(pair<string, int64_t>("1'b0", CONST_ZERO));
   wire_name_table.insert(pair<string, int64_t>("1'b1", CONST_ONE));
 
-  for (uint64_t i = 0; i < read_circuit_string.assignment_list_string.size();
-      i++) {
-    const auto assign_pair = read_circuit_string.assignment_list_string[i];
-    if (wire_name_table.count(assign_pair.first)) {
-      wire_name_table[assign_pair.second] = wire_name_table[assign_pair.first];
-    } else if (wire_name_table.count(assign_pair.second)) {
-      wire_name_table[assign_pair.first] = wire_name_table[assign_pair.second];
-    } else {
-      LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
-          << assign_pair.second
-          << " which were mentioned in an assignment statement" << endl;
+  // Assignments may be listed in any order: repeat until nothing changes.
+  vector<pair<string, string>> assignments =
+      read_circuit_string.assignment_list_string;
+  while (!assignments.empty()) {
+    vector<pair<string, string>> unresolved;
+    for (const auto& assign_pair : assignments) {
+      if (wire_name_table.count(assign_pair.first)) {
+        wire_name_table[assign_pair.second] =
+            wire_name_table[assign_pair.first];
+      } else if (wire_name_table.count(assign_pair.second)) {
+        wire_name_table[assign_pair.first] =
+            wire_name_table[assign_pair.second];
+      } else {
+        unresolved.push_back(assign_pair);
+      }
+    }
+    if (unresolved.size() == assignments.size()) {
+      for (const auto& assign_pair : unresolved) {
+        LOG(ERROR) << "Can not find wire " << assign_pair.first << " or "
+            << assign_pair.second
+            << " which were mentioned in an assignment statement" << endl;
+      }
+      break;
     }
+    assignments.swap(unresolved);
   }
 
   read_circuit->gate_list.resize(read_circuit->gate_size);
-- 
2.43.0


From 6bb65a3d952d028d5e45065b792c2ab347a4926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 14/69] fix: check the range of a netlist port

---
 scd/parse_netlist.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 9f8aa5b..88b5266 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -64,6 +64,23 @@ string Type2StrGate(short itype) {
   return type;
 }
 
+// size of the largest port
+#define MAX_PORT_SIZE ((uint64_t)1 << 24)
+
+// [7:0] -> 8
+int ParsePortSize(const string& str, uint64_t* no_of_bits) {
+  tokenizer<> bits(str);
+  tokenizer<>::iterator beg = bits.begin();
+  CHECK_EXPR_MSG(beg != bits.end(), "Invalid port range: " + str);
+  string bits_str(*beg);
+  char* end = nullptr;
+  uint64_t msb = strtoull(bits_str.c_str(), &end, 10);
+  CHECK_EXPR_MSG(*end == '\0' && msb < MAX_PORT_SIZE,
+                 "Invalid port range: " + str);
+  *no_of_bits = msb + 1;
+  return SUCCESS;
+}
+
 int ParseNetlist(const string &filename,
                  ReadCircuitString* read_circuit_string) {
 
@@ -279,10 +296,7 @@ int ParseNetlist(const string &filename,
       is_inport = 1;
     } else if(is_inport) {
       if (str.at(0) =='[') {
-        tokenizer<> bits(str);
-        tokenizer<>::iterator beg = bits.begin();
-        string bits_str(*beg);
-        no_of_bits = atoi(bits_str.c_str())+1;
+        CHECK(ParsePortSize(str, &no_of_bits));
       } else if(str.compare("clk") && str.compare("rst")) {
         if(!str.compare("p_init")) {
           read_circuit_string->p_init_size = (no_of_bits>0)?no_of_bits:1;
@@ -307,10 +321,7 @@ int ParseNetlist(const string &filename,
       is_outport = 1;
     } else if(is_outport) {
       if (str.at(0) =='[') {
-        tokenizer<> bits(str);
-        tokenizer<>::iterator beg = bits.begin();
-        string bits_str(*beg);
-        no_of_bits = atoi(bits_str.c_str())+1;
+        CHECK(ParsePortSize(str, &no_of_bits));
       } else if(!str.compare("terminate")) {
         if(no_of_bits != 0) {
           LOG(ERROR) << "Terminate signal should be 1-bit output." << endl;
-- 
2.43.0


From 96869566af3c706efea7c85957bcf68ff9dec3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 15/69] fix: refuse incomplete assignments and unknown cell
 pins instead of misreading them

---
 scd/parse_netlist.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 88b5266..00344f3 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -282,11 +282,15 @@ int ParseNetlist(const string &filename,
         port.clear();
         gate_type = INVALGATE;
       } else {
+        CHECK_EXPR_MSG(!is_left_assignmnet && !is_right_assignmnet
+            && (read_circuit_string->assignment_list_string.empty()
+                || read_circuit_string->assignment_list_string.back().second
+                    != ""),
+            "Incomplete assignment: " + line);
         is_inport = 0;
         is_outport = 0;
         no_of_bits = 0;
-        is_left_assignmnet = false;
-        is_right_assignmnet = false;
+        port.clear();
       }
       port_key = "";
     } else if(!str.compare("endmodule")) {
@@ -344,6 +348,8 @@ int ParseNetlist(const string &filename,
     } else if(!str.compare("=")) {
       is_right_assignmnet = true;
     } else if(is_right_assignmnet) {
+      CHECK_EXPR_MSG(!read_circuit_string->assignment_list_string.empty(),
+          "Assignment without left side: " + line);
       const auto assign_pair = read_circuit_string->assignment_list_string.back();
       read_circuit_string->assignment_list_string.pop_back();
       read_circuit_string->assignment_list_string.push_back(
@@ -409,6 +415,9 @@ int ParseNetlist(const string &filename,
       port_key = "";
     } else if (!str.compare(".RST")) {
       port_key = "";
+    } else if(str.at(0) == '.' && gate_type != INVALGATE) {
+      LOG(ERROR) << "Unknown pin " << str << ": " << line << endl;
+      return FAILURE;
     } else if(port_key != "") {
       // fix Synopsys 2015 bug:
       // space after '['
-- 
2.43.0


From c61e64ffce9a666914ae1fb4e9c2e0b4b0d65b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 16/69] fix: check the header and gates of a Bristol circuit

---
 scd/parse_netlist.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 00344f3..8eec04a 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -472,7 +472,7 @@ int ParseBrisNetlist(const string &filename,
     return -1;
   }
 
-  uint64_t gate_size, wire_size;
+  uint64_t gate_size = 0, wire_size = 0;
   fin >> gate_size >> wire_size;
 
   CHECK_EXPR_MSG(gate_size != 0 && wire_size != 0,
@@ -481,9 +481,18 @@ int ParseBrisNetlist(const string &filename,
   fin >> read_circuit_string->g_input_size >> read_circuit_string->e_input_size
       >> read_circuit_string->output_size;
 
+  CHECK_EXPR_MSG(fin.good(), "Header is broken.");
+  CHECK_EXPR_MSG(read_circuit_string->g_input_size <= MAX_PORT_SIZE
+                 && read_circuit_string->e_input_size <= MAX_PORT_SIZE
+                 && read_circuit_string->output_size <= MAX_PORT_SIZE
+                 && read_circuit_string->g_input_size
+                     + read_circuit_string->e_input_size <= wire_size
+                 && read_circuit_string->output_size <= wire_size,
+                 "Invalid number of inputs or outputs.");
+
   for (uint64_t gid = 0; gid < gate_size; gid++) {
     string g_type;
-    uint64_t inpu_num, output_num, i0, i1, o;
+    uint64_t inpu_num = 0, output_num = 0, i0 = 0, i1 = 0, o = 0;
     //2 1 0 32 406 XOR
     fin >> inpu_num >> output_num >> i0;
     if (inpu_num == 1) {
@@ -492,6 +501,10 @@ int ParseBrisNetlist(const string &filename,
     } else if (inpu_num == 2) {
       fin >> i1 >> o >> g_type;
     }
+    CHECK_EXPR_MSG(!fin.fail() && output_num == 1
+                   && inpu_num == ((g_type == "INV") ? 1u : 2u)
+                   && i0 < wire_size && i1 < wire_size && o < wire_size,
+                   "Invalid gate: " + std::to_string(gid));
 
     ReadGateString g;
     g.input[0] = GetBristWire(i0, wire_size, *read_circuit_string);
-- 
2.43.0


From 5a34c9e41e71771d265f585301f43f40833a7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 17/69] fix: visit deep circuits without recursion

---
 garbled_circuit/garbled_circuit_util.cpp | 22 ++++++----
 scd/scheduling.cpp                       | 54 +++++++++++++-----------
 2 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index eea1561..f21a2d5 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -36,6 +36,7 @@
 #include "garbled_circuit/garbled_circuit_util.h"
 
 #include <cstdlib>
+#include <vector>
 #include "tcpip/tcpip.h"
 #include "util/common.h"
 #include "util/log.h"
@@ -506,15 +507,18 @@ int FillFanout(GarbledCircuit* garbled_circuit) {
 void ReduceFanout(const GarbledCircuit& garbled_circuit, int *fanout,
                   int64_t wid, int64_t gate_bias) {
 
-  int64_t gid = wid - gate_bias;
-  if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
-      && fanout[gid] > 0) {
-    fanout[gid]--;
-    if (fanout[gid] == 0) {
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input0, gate_bias);
-      ReduceFanout(garbled_circuit, fanout,
-                   garbled_circuit.garbledGates[gid].input1, gate_bias);
+  // the cone that dies can be as deep as the circuit
+  std::vector<int64_t> pending(1, wid);
+  while (!pending.empty()) {
+    int64_t gid = pending.back() - gate_bias;
+    pending.pop_back();
+    if (gid >= 0 && gid < (int64_t) garbled_circuit.gate_size
+        && fanout[gid] > 0) {
+      fanout[gid]--;
+      if (fanout[gid] == 0) {
+        pending.push_back(garbled_circuit.garbledGates[gid].input1);
+        pending.push_back(garbled_circuit.garbledGates[gid].input0);
+      }
     }
   }
 }
diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index 1fd9662..e3e6d90 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -19,6 +19,7 @@
 
 #include <string>
 #include <cstring>
+#include <utility>
 #include "scd/parse_netlist.h"
 #include "util/common.h"
 #include "util/log.h"
@@ -344,34 +345,37 @@ int TopologicalSortVisit(const ReadCircuit &read_circuit, vector<Mark>* marks,
   int64_t init_input_size = read_circuit.get_init_input_size();
   int64_t init_input_dff_size = init_input_size + read_circuit.dff_size;
 
-  if (current_unmark_index < 0) {  // CONSTANT or IV 2nd input (-1) are sorted.
-    return SUCCESS;
-  } else if (marks->at(current_unmark_index) == Mark::TempMarked) {
-    LOG(ERROR) << "There is a loop in the circuit." << endl;
-    loop->push_back(current_unmark_index);
-    return FAILURE;
-  } else if (marks->at(current_unmark_index) == Mark::UnMarked) {
-    marks->at(current_unmark_index) = Mark::TempMarked;
-
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[0],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
-      return FAILURE;
-    }
-    if (TopologicalSortVisit(
-        read_circuit,
-        marks,
-        read_circuit.gate_list[current_unmark_index - init_input_dff_size].input[1],
-        sorted_list, loop) == FAILURE) {
-      loop->push_back(current_unmark_index);
+  // Depth-first visit. The depth is the depth of the circuit, so the path is
+  // kept on the heap: <wire index, number of its inputs already visited>.
+  vector<std::pair<int64_t, int> > path;
+  int64_t index = current_unmark_index;
+
+  while (true) {
+    if (index < 0) {  // CONSTANT or IV 2nd input (-1) are sorted.
+    } else if (marks->at(index) == Mark::TempMarked) {
+      LOG(ERROR) << "There is a loop in the circuit." << endl;
+      loop->push_back(index);
+      for (int64_t i = (int64_t) path.size() - 1; i >= 0; i--) {
+        loop->push_back(path[i].first);
+      }
       return FAILURE;
+    } else if (marks->at(index) == Mark::UnMarked) {
+      marks->at(index) = Mark::TempMarked;
+      path.push_back(std::make_pair(index, 0));
     }
 
-    marks->at(current_unmark_index) = Mark::PerMarked;
-    sorted_list->push_back(current_unmark_index);
+    // gates whose both inputs are visited
+    while (!path.empty() && path.back().second == 2) {
+      marks->at(path.back().first) = Mark::PerMarked;
+      sorted_list->push_back(path.back().first);
+      path.pop_back();
+    }
+    if (path.empty()) {
+      break;
+    }
+    index = read_circuit.gate_list[path.back().first - init_input_dff_size]
+        .input[path.back().second];
+    path.back().second++;
   }
 
   return SUCCESS;
-- 
2.43.0


From 4620f3dea9dc798093f85a4ea830384bb64dab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 18/69] fix: renumber wire 0 too when it is the output of a
 gate

---
 scd/scheduling.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index e3e6d90..33be988 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -465,11 +465,11 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
 
   for (int64_t i = 0; i < (int64_t) read_circuit->dff_size; i++) {
-    if (read_circuit->dff_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[0] = sorted_list_1[read_circuit->dff_list[i]
           .input[0]];
     }
-    if (read_circuit->dff_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->dff_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->dff_list[i].input[1] = sorted_list_1[read_circuit->dff_list[i]
           .input[1]];
     }
@@ -478,14 +478,14 @@ int SortNetlist(ReadCircuit *read_circuit,
   }
   for (int64_t i = 0; i < (int64_t) read_circuit->gate_size; i++) {
     read_circuit->gate_list[i].output = sorted_list_1[init_input_dff_size + i];
-    if (read_circuit->gate_list[i].input[0] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[0] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[0] =
           sorted_list_1[read_circuit->gate_list[i].input[0]];
       CHECK_EXPR_MSG(
           read_circuit->gate_list[i].input[0] < read_circuit->gate_list[i].output,
           "input 0 is larger than gate id");
     }
-    if (read_circuit->gate_list[i].input[1] > 0) {  // Constant values are negative
+    if (read_circuit->gate_list[i].input[1] >= 0) {  // Constant values are negative
       read_circuit->gate_list[i].input[1] =
           sorted_list_1[read_circuit->gate_list[i].input[1]];
       CHECK_EXPR_MSG(
-- 
2.43.0


From 6ded6bcaeb0dbe11d14645808e95b800e2d57069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 19/69] fix: skip comments in a netlist

---
 scd/parse_netlist.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 8eec04a..de93c4f 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -105,6 +105,7 @@ int ParseNetlist(const string &filename,
     CHECK_EXPR_MSG(fin.good(), "File is broken, no endmodule found.");
     string line = "";
     getline(fin, line);
+    line = line.substr(0, line.find("//"));  // comment
     char_separator<char> sep(" ,()\t\r", ";");
     tokenizer<char_separator<char> > tok(line, sep);
     BOOST_FOREACH(string str, tok){
-- 
2.43.0


From db2e451b346f9febc3dd60e60f2930a5db833f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:41 +0000
Subject: [PATCH 20/69] fix: report a failed plaintext evaluation and an
 unusable map file

---
 scd/scd_evaluator.cpp      | 18 +++++++++++++-----
 scd/scd_evaluator_main.cpp |  8 +++++---
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index abf5a14..32c0c69 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -224,6 +224,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 		while (getline(map_file, buf)){
 			tokenizer<char_separator<char>> tok(buf, sep);	
 			tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
+			CHECK_EXPR_MSG(tok_it != tok.end(), "Empty line in " + map_file_address);
 			string wire_name(*(tok_it));
 			if(!wire_name.compare("terminate")) break;
 			sim_file << *tok_it << "\t";
@@ -237,10 +238,15 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 	while (getline(map_file, buf)){
 		tokenizer<char_separator<char>> tok(buf, sep);	
 		tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
+		CHECK_EXPR_MSG(tok_it != tok.end(), "Empty line in " + map_file_address);
 		string wire_name(*(tok_it));
 		if(!wire_name.compare("terminate")) break;
-		string index(*(++tok_it));
-		sim_file << wires[atoi(index.c_str())] << ", ";
+		CHECK_EXPR_MSG(++tok_it != tok.end(), "No index for " + wire_name);
+		string index(*tok_it);
+		uint64_t wire_index = strtoull(index.c_str(), nullptr, 10);
+		CHECK_EXPR_MSG(wire_index < garbled_circuit.get_wire_size(),
+		               "Invalid index for " + wire_name);
+		sim_file << wires[wire_index] << ", ";
 	}
 	sim_file << endl;
 
@@ -297,9 +303,11 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   }
 
   BIGNUM* outputs = BN_new();
-  EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
-                     garbled_circuit, p_init, g_init, e_init, p_input, g_input,
-                     e_input, &clock_cycles, terminate_period, &outputs);
+  CHECK(
+      EvalauatePlaintext(scd_file_address, // Store internal values in csv file 
+                         garbled_circuit, p_init, g_init, e_init, p_input,
+                         g_input, e_input, &clock_cycles, terminate_period,
+                         &outputs));
 
   OutputBN2StrHighMem(garbled_circuit, outputs, clock_cycles, output_mode,
                       outputs_str);
diff --git a/scd/scd_evaluator_main.cpp b/scd/scd_evaluator_main.cpp
index 356e177..ab995b1 100644
--- a/scd/scd_evaluator_main.cpp
+++ b/scd/scd_evaluator_main.cpp
@@ -122,9 +122,11 @@ int main(int argc, char*argv[]) {
   string e_input_str = ReadFileOrPassHex(e_input_f_hex_str);
 
   string output_str;
-  EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str, e_init_str,
-                        p_input_str, g_input_str, e_input_str, clock_cycles,
-                        terminate_period, output_mode, &output_str);
+  CHECK(
+      EvalauatePlaintextStr(scd_file_address, p_init_str, g_init_str,
+                            e_init_str, p_input_str, g_input_str, e_input_str,
+                            clock_cycles, terminate_period, output_mode,
+                            &output_str));
 
   std::cout << output_str << endl;
 
-- 
2.43.0


From 82a3f5db04c67ad28faaf130770cbf484cd2561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:41 +0000
Subject: [PATCH 21/69] fix: record the wire values of the terminating clock
 cycle

---
 scd/scd_evaluator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 32c0c69..364c4f7 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -201,18 +201,18 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
     }
 
     //if has terminate signal
+    bool is_terminate = false;
     if (terminate_period != 0 && garbled_circuit.terminate_id > 0) {
       if (cid % terminate_period == 0) {
-        bool is_terminate = wires[garbled_circuit.terminate_id];
+        is_terminate = wires[garbled_circuit.terminate_id];
         if (is_terminate) {
           LOG(INFO) << "Terminated in " << cid + 1 << "cc out of "
               << *clock_cycles << "cc." << endl;
           *clock_cycles = cid + 1;
-          break;
         }
       }
       //last clock cycle, not terminated
-      if (cid == (*clock_cycles) - 1) {
+      if (!is_terminate && cid == (*clock_cycles) - 1) {
         LOG(ERROR) << "Not enough clock cycles. Circuit is not terminated in "
             << *clock_cycles << "cc." << endl;
       }
@@ -252,6 +252,10 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 
 	map_file.clear();
 	map_file.seekg(0, std::ios::beg);	
+
+    if (is_terminate) {
+      break;
+    }
   }
 
   map_file.close();
-- 
2.43.0


From 87f3040350c4066207cb7fff18e3254569ed274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 22/69] fix: format and parse values of any length and the
 smallest 64-bit value

---
 util/util.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 9c66a85..5a83ce7 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -258,8 +258,8 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 
  void parseGCOutputString(vector<int64_t> &output, string output_str, vector<uint16_t> bit_len, uint16_t offset){
 	string bin_output_str = hex2bin(output_str);
-	uint8_t no_of_outputs = output.size();
-	uint16_t len = offset;
+	uint64_t no_of_outputs = output.size();
+	uint64_t len = offset;
 	uint64_t i;
 	for (i = 0; i < no_of_outputs; i++){
 		len += bit_len[i];
@@ -267,7 +267,7 @@ string formatGCInputString(vector<uint64_t> input, vector<uint16_t> bit_len){
 	if (len > bin_output_str.length()) bin_output_str.insert(0, len-bin_output_str.length(), '0');
 	else if (len < bin_output_str.length()) bin_output_str = bin_output_str.substr(bin_output_str.length()-len, len);
 	
-	uint16_t cur = 0;
+	uint64_t cur = 0;
 	for (i = 0; i < no_of_outputs; i++){
 		output[i] = bin2dec(bin_output_str.substr(cur, bit_len[i]), true);
 		cur += bit_len[i];
@@ -299,13 +299,13 @@ int64_t bin2dec(string bin, bool s){
 	bool neg = false;
 	if (s && (bin[0] == '1')) neg = true;
 	if (neg) bin = towsComplement(bin);	
-	int64_t dec = (int64_t)(std::bitset<64>(bin).to_ulong());
-	if (neg) dec = -dec;	
-    return dec;
+	uint64_t dec = std::bitset<64>(bin).to_ullong();
+	if (neg) dec = 0 - dec;  // modulo 2^64: -2^63 has no positive counterpart
+    return (int64_t)dec;
 }
 
 string hex2bin(string hex_){
-	uint16_t len = hex_.length();
+	uint64_t len = hex_.length();
 	string bin("");
 	
 	for (uint64_t i = 0; i < len; i++){
@@ -333,7 +333,7 @@ string hex2bin(string hex_){
 }
 
 string bin2hex(string bin){
-	uint16_t len = bin.length();
+	uint64_t len = bin.length();
 	bin.insert(0, 4-len%4, '0');
 	len = bin.length();
 	string hex_("");
-- 
2.43.0


From d6644618aadb511deca8608f7ff44a9e68850d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 23/69] fix: refuse a block string with characters that are not
 hexadecimal

---
 util/util.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/util.cpp b/util/util.cpp
index 5a83ce7..5c350f0 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -167,6 +167,11 @@ int Str2Block(const string &s, block* v) {
     return FAILURE;
   }
 
+  if (v_str.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+    LOG(ERROR) << "Invalid hex string: " << v_str << endl;
+    return FAILURE;
+  }
+
   while (v_str.length() < sizeof(block) * 2) {
     v_str.insert(0, "0");
   }
-- 
2.43.0


From c6424660dcd75404f8f4873205cfb8647b014736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 24/69] fix: refuse input values and masks that are not
 hexadecimal

---
 garbled_circuit/garbled_circuit_high_mem.cpp |  4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  |  4 ++--
 garbled_circuit/garbled_circuit_util.cpp     |  4 ++--
 scd/scd_evaluator.cpp                        | 12 ++++++------
 util/util.cpp                                |  9 +++++++++
 util/util.h                                  |  1 +
 6 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index c58d7de..654a15f 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -1046,7 +1046,7 @@ int GarbleTransferOutput(const GarbledCircuit& garbled_circuit,
                          OutputMode output_mode, BIGNUM* output_bn,
                          int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(ParseHexStr(output_mask, &output_mask_bn));
 
   for (uint64_t cid = 0; cid < clock_cycles; cid++) {
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
@@ -1087,7 +1087,7 @@ int EvaluateTransferOutput(const GarbledCircuit& garbled_circuit,
                            OutputMode output_mode, BIGNUM* output_bn,
                            int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(ParseHexStr(output_mask, &output_mask_bn));
 
   for (uint64_t cid = 0; cid < clock_cycles; cid++) {
     for (uint64_t i = 0; i < garbled_circuit.output_size; i++) {
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 70dae22..724129d 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -1110,7 +1110,7 @@ int GarbleTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
                                const string& output_mask, BIGNUM* output_bn,
                                int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(ParseHexStr(output_mask, &output_mask_bn));
 
   uint64_t output_bit_offset = 0;
   if (output_mode == OutputMode::consecutive) {  // normal mode, keep all the bits.
@@ -1157,7 +1157,7 @@ int EvaluateTransferOutputLowMem(const GarbledCircuit& garbled_circuit,
                                  const string& output_mask, BIGNUM* output_bn,
                                  int connfd) {
   BIGNUM* output_mask_bn = BN_new();
-  BN_hex2bn(&output_mask_bn, output_mask.c_str());
+  CHECK(ParseHexStr(output_mask, &output_mask_bn));
 
   uint64_t output_bit_offset = 0;
   if (output_mode == OutputMode::consecutive) {  // normal mode, keep all the bits.
diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index f21a2d5..dae9df9 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -73,8 +73,8 @@ void RemoveGarbledCircuit(GarbledCircuit *garbled_circuit) {
 int ParseInitInputStr(const string& init_str, const string&input_str,
                       uint64_t init_size, uint64_t input_size,
                       uint64_t clock_cycles, BIGNUM** init, BIGNUM** input) {
-  BN_hex2bn(init, init_str.c_str());
-  BN_hex2bn(input, input_str.c_str());
+  CHECK(ParseHexStr(init_str, init));
+  CHECK(ParseHexStr(input_str, input));
 
   return SUCCESS;
 }
diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 364c4f7..0f65da5 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -280,12 +280,12 @@ int EvalauatePlaintextStr(const string& scd_file_address, // Store internal valu
   BIGNUM* g_input = BN_new();
   BIGNUM* e_input = BN_new();
 
-  BN_hex2bn(&p_init, p_init_str.c_str());
-  BN_hex2bn(&g_init, g_init_str.c_str());
-  BN_hex2bn(&e_init, e_init_str.c_str());
-  BN_hex2bn(&p_input, p_input_str.c_str());
-  BN_hex2bn(&g_input, g_input_str.c_str());
-  BN_hex2bn(&e_input, e_input_str.c_str());
+  CHECK(ParseHexStr(p_init_str, &p_init));
+  CHECK(ParseHexStr(g_init_str, &g_init));
+  CHECK(ParseHexStr(e_init_str, &e_init));
+  CHECK(ParseHexStr(p_input_str, &p_input));
+  CHECK(ParseHexStr(g_input_str, &g_input));
+  CHECK(ParseHexStr(e_input_str, &e_input));
 
   LOG(INFO) << "p_init = " << BN_bn2hex(p_init) << "\tg_init = "
             << BN_bn2hex(g_init) << "\te_init = " << BN_bn2hex(e_init)
diff --git a/util/util.cpp b/util/util.cpp
index 5c350f0..527b334 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -397,6 +397,15 @@ string ReadFileOrPassHex(string file_hex_str) {  // file address of or a hex str
   }
 }
 
+int ParseHexStr(const string& hex_str, BIGNUM** v) {
+  // BN_hex2bn stops at the first character that is not hexadecimal
+  if (!hex_str.empty()) {  // empty is zero
+    CHECK_EXPR_MSG(
+        BN_hex2bn(v, hex_str.c_str()) == (int) hex_str.length(),
+        "Invalid hex string: " + hex_str);
+  }
+  return SUCCESS;
+}
 
 bool icompare_pred(unsigned char a, unsigned char b) {
   return std::tolower(a) == std::tolower(b);
diff --git a/util/util.h b/util/util.h
index 6876ef5..2ec1107 100644
--- a/util/util.h
+++ b/util/util.h
@@ -51,6 +51,7 @@ string hex2bin(string);
 string bin2hex(string);
 string formatGCOutputMask(uint16_t , uint16_t , bool );
 
+int ParseHexStr(const string& hex_str, BIGNUM** v);
 string ReadFileOrPassHex(string file_hex_str);
 bool icompare(std::string const& a, std::string const& b);
 
-- 
2.43.0


From 2467363b3514decf5a99d7904e541e323e9d1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:39 +0000
Subject: [PATCH 25/69] fix: draw labels, offsets and keys from a cryptographic
 generator

---
 util/util.cpp | 43 ++++++++++---------------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 527b334..1a8fe36 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -45,49 +45,26 @@
 #include <cstdlib> 
 #include <vector>
 #include <fstream>
+#include <openssl/rand.h>
 #include "crypto/aes.h"
 #include "util/common.h"
 #include "util/log.h"
 
 using std::ifstream;
 
-static block cur_seed;
-
 void SrandSSE(unsigned int seed) {
-  cur_seed = _mm_set_epi32(seed, seed + 1, seed, seed + 1);
+  // only adds to the entropy of the generator
+  RAND_add(&seed, sizeof(seed), 0);
 }
 
 block RandomBlock() {
-
-  block cur_seed_split;
-  block multiplier;
-  block adder;
-  block mod_mask;
-  //block sra_mask;
-  //block sseresult;
-
-  static const unsigned int mult[4] = { 214013, 17405, 214013, 69069 };
-  static const unsigned int gadd[4] = { 2531011, 10395331, 13737667, 1 };
-  static const unsigned int mask[4] = { 0xFFFFFFFF, 0, 0xFFFFFFFF, 0 };
-  //static const unsigned int masklo[4] = { 0x00007FFF, 0x00007FFF, 0x00007FFF,
-  //  0x00007FFF };
-
-  adder = _mm_load_si128((block *) gadd);
-  multiplier = _mm_load_si128((block *) mult);
-  mod_mask = _mm_load_si128((block *) mask);
-  //sra_mask = _mm_load_si128((block *) masklo);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_mul_epu32(cur_seed, multiplier);
-  multiplier = _mm_shuffle_epi32(multiplier, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed_split = _mm_mul_epu32(cur_seed_split, multiplier);
-  cur_seed = _mm_and_si128(cur_seed, mod_mask);
-  cur_seed_split = _mm_and_si128(cur_seed_split, mod_mask);
-  cur_seed_split = _mm_shuffle_epi32(cur_seed_split, _MM_SHUFFLE(2, 3, 0, 1));
-  cur_seed = _mm_or_si128(cur_seed, cur_seed_split);
-  cur_seed = _mm_add_epi32(cur_seed, adder);
-
-  return cur_seed;
-
+  // labels, offsets and keys: only a cryptographic generator is good enough
+  block random_block;
+  if (RAND_bytes((unsigned char*) &random_block, sizeof(block)) != 1) {
+    LOG(ERROR) << "Random generator failed." << endl;
+    abort();
+  }
+  return random_block;
 }
 /**
  * \brief constant v value based on gate Type
-- 
2.43.0


From 01c7be4d5493a4647384d6b0e8b530d20127140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:39 +0000
Subject: [PATCH 26/69] fix: mask every bit of messages whose length is not a
 multiple of 8 in OT extension

---
 crypto/OT_extension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 5d96846..d52c32a 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -82,7 +82,7 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   BN_CHECK(EVP_DigestFinal_ex(mdctx, md_value, &md_len));
   EVP_MD_CTX_destroy(mdctx);
 
-  BN_CHECK(BN_bin2bn(md_value, bits / 8, r));
+  BN_CHECK(BN_bin2bn(md_value, (bits + 7) / 8, r));
 
   return SUCCESS;
 }
-- 
2.43.0


From 15dc473d1e0aa384d0d127015aa11ec56d5b883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 27/69] fix: extend oblivious transfers from seeds so that long
 transfers do not leak the choices

---
 crypto/OT_extension.cpp | 91 ++++++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 23 deletions(-)

diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index d52c32a..3857eee 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -87,6 +87,32 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   return SUCCESS;
 }
 
+// expands a seed to a pseudo-random string: SHA-256 in counter mode
+int ExpandSeedBN(BIGNUM* r, uint32_t bits, const BIGNUM* seed) {
+  block seed_block;
+  BNToBlock(seed, &seed_block);
+
+  uint32_t md_size = (uint32_t) EVP_MD_size(md);
+  uint32_t md_count = bits / (8 * md_size) + 1;
+  unsigned char* r_arr = new unsigned char[md_count * md_size];
+  EVP_MD_CTX *mdctx = EVP_MD_CTX_create();
+  bool is_ok = (mdctx != nullptr);
+  for (uint32_t i = 0; i < md_count && is_ok; i++) {
+    is_ok = EVP_DigestInit_ex(mdctx, md, NULL)
+        && EVP_DigestUpdate(mdctx, &seed_block, sizeof(block))
+        && EVP_DigestUpdate(mdctx, &i, sizeof(uint32_t))
+        && EVP_DigestFinal_ex(mdctx, r_arr + i * md_size, nullptr);
+  }
+  EVP_MD_CTX_destroy(mdctx);
+  is_ok = is_ok && BN_bin2bn(r_arr, md_count * md_size, r);
+  delete[] r_arr;
+  if (is_ok && (uint32_t) BN_num_bits(r) > bits) {
+    is_ok = BN_mask_bits(r, bits);
+  }
+  CHECK_EXPR(is_ok);
+  return SUCCESS;
+}
+
 int SwitchRowColumnBN(const BIGNUM* const * v, uint32_t v_len,
                       uint32_t v_bit_len, BIGNUM*** w) {
   BIGNUM** _w = new BIGNUM*[v_bit_len];
@@ -141,8 +167,22 @@ int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
   }
   BN_new();
 
+  // 1. receive one seed of each pair of k-bit seeds
   CHECK(OTRecvBN(S, SEC_K_BIT, connfd, Q));
 
+  // 2. q_i = G(seed_i) xor s_i * u_i
+  BIGNUM* u = BN_new();
+  for (uint32_t i = 0; i < SEC_K_BIT; i++) {
+    BIGNUM* seed = BN_dup(Q[i]);
+    CHECK(ExpandSeedBN(Q[i], m_len, seed));
+    BN_free(seed);
+    CHECK(RecvBN(connfd, u));
+    if (BN_is_bit_set(S, i)) {
+      BN_CHECK(BN_xor(Q[i], m_len, Q[i], u));
+    }
+  }
+  BN_free(u);
+
   BIGNUM** Q_rotate;
   CHECK(SwitchRowColumnBN(Q, SEC_K_BIT, m_len, &Q_rotate));
 
@@ -181,27 +221,33 @@ int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
 int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
                 int connfd, BIGNUM** m) {
 
-  // 0.generate m_len random k-bits T ([0]) and T^r ([1])
-  BIGNUM*** T = new BIGNUM**[m_len];
-  for (uint32_t i = 0; i < m_len; i++) {
-    T[i] = new BIGNUM*[2];
+  // 0. generate and send k random pairs of k-bit seeds. The base OT hides only
+  // messages that are much shorter than its RSA modulus.
+  BIGNUM*** seed = new BIGNUM**[SEC_K_BIT];
+  for (uint32_t i = 0; i < SEC_K_BIT; i++) {
+    seed[i] = new BIGNUM*[2];
     for (uint32_t j = 0; j < 2; j++) {
-      T[i][j] = BN_new();
-    }
-    BN_rand(T[i][0], SEC_K_BIT, -1, 0);
-    int sel_bit = BN_is_bit_set(sel, i);
-    if (sel_bit == 1) {
-      BN_CHECK(BN_copy(T[i][1], T[i][0]));
-      BN_CHECK(BN_invert(T[i][1], SEC_K_BIT));
-    } else {
-      BN_CHECK(BN_copy(T[i][1], T[i][0]));
+      seed[i][j] = BN_new();
+      BN_CHECK(BN_rand(seed[i][j], SEC_K_BIT, -1, 0));
     }
   }
+  CHECK(OTSendBN(seed, SEC_K_BIT, connfd));
 
-  BIGNUM*** T_rotate;
-  CHECK(SwitchRowColumnBNPair(T, m_len, SEC_K_BIT, &T_rotate));
+  // 1. t_i = G(seed_i0), send u_i = G(seed_i0) xor G(seed_i1) xor r
+  BIGNUM** T_rotate = new BIGNUM*[SEC_K_BIT];
+  BIGNUM* u = BN_new();
+  for (uint32_t i = 0; i < SEC_K_BIT; i++) {
+    T_rotate[i] = BN_new();
+    CHECK(ExpandSeedBN(T_rotate[i], m_len, seed[i][0]));
+    CHECK(ExpandSeedBN(u, m_len, seed[i][1]));
+    BN_CHECK(BN_xor(u, m_len, u, T_rotate[i]));
+    BN_CHECK(BN_xor(u, m_len, u, sel));
+    CHECK(SendBN(connfd, u));
+  }
+  BN_free(u);
 
-  CHECK(OTSendBN(T_rotate, SEC_K_BIT, connfd));
+  BIGNUM** T;
+  CHECK(SwitchRowColumnBN(T_rotate, SEC_K_BIT, m_len, &T));
 
   BIGNUM* h = BN_new();
   BIGNUM* y0 = BN_new();
@@ -209,7 +255,7 @@ int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
   for (uint32_t i = 0; i < m_len; i++) {
     CHECK(RecvBN(connfd, y0));
     CHECK(RecvBN(connfd, y1));
-    CHECK(HashBN(h, m_bitlen, i, T[i][0]));
+    CHECK(HashBN(h, m_bitlen, i, T[i]));
 
     m[i] = BN_new();
     if (BN_is_bit_set(sel, i) == 0) {
@@ -226,17 +272,16 @@ int OTExtRecvBN(const BIGNUM *sel, uint32_t m_bitlen, uint32_t m_len,
   // free memory
   for (uint32_t i = 0; i < SEC_K_BIT; i++) {
     for (uint32_t j = 0; j < 2; j++) {
-      BN_free(T_rotate[i][j]);
+      BN_free(seed[i][j]);
     }
-    delete[] T_rotate[i];
+    delete[] seed[i];
+    BN_free(T_rotate[i]);
   }
+  delete[] seed;
   delete[] T_rotate;
 
   for (uint32_t i = 0; i < m_len; i++) {
-    for (uint32_t j = 0; j < 2; j++) {
-      BN_free(T[i][j]);
-    }
-    delete[] T[i];
+    BN_free(T[i]);
   }
   delete[] T;
   return SUCCESS;
-- 
2.43.0


From dcb92023a863f7a99b8ee92a1d1ef6b3e472d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:36 +0000
Subject: [PATCH 28/69] fix: do not send uninitialised padding of garbled
 tables

---
 garbled_circuit/garbled_circuit_high_mem.cpp | 4 ++--
 garbled_circuit/garbled_circuit_low_mem.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 654a15f..0d150ad 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -177,9 +177,9 @@ int GarbleHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   uint64_t num_skipped_non_xor_gates = 0;
 
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 724129d..b17a785 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -86,9 +86,9 @@ int GarbleBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
   uint64_t num_of_non_xor = NumOfNonXor(garbled_circuit);
   uint64_t garbled_tables_size = num_of_non_xor;
   GarbledTable* garbled_tables_temp = nullptr;
-  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables_temp = new GarbledTable[garbled_tables_size]());
   GarbledTable* garbled_tables = nullptr;
-  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]);
+  CHECK_ALLOC(garbled_tables = new GarbledTable[garbled_tables_size]());
 
   CHECK(
       GarbleAllocLabels(garbled_circuit, &init_labels, &input_labels,
-- 
2.43.0


From 4d591e90a3423633ef93e35ab5e82f7e4b5c2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:09 +0000
Subject: [PATCH 29/69] fix: refuse a cycle whose garbled tables were not all
 sent

---
 garbled_circuit/garbled_circuit_high_mem.cpp |  4 ++++
 garbled_circuit/garbled_circuit_low_mem.cpp  |  4 ++++
 garbled_circuit/garbled_circuit_util.cpp     | 23 ++++++++++++++++++++
 garbled_circuit/garbled_circuit_util.h       |  3 +++
 4 files changed, 34 insertions(+)

diff --git a/garbled_circuit/garbled_circuit_high_mem.cpp b/garbled_circuit/garbled_circuit_high_mem.cpp
index 0d150ad..debcac0 100644
--- a/garbled_circuit/garbled_circuit_high_mem.cpp
+++ b/garbled_circuit/garbled_circuit_high_mem.cpp
@@ -697,6 +697,10 @@ int EvaluateHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     CHECK_EXPR_MSG(garbled_table_ind == garbled_table_ind_rcv,
                    "Number of garbled tables generated "
                    "by Alice and received by Bob are not equal.");
+    CHECK_EXPR_MSG(garbled_table_ind == NumOfNeededTables(garbled_circuit,
+                                                          fanout, wires,
+                                                          wires_val),
+                   "Alice did not send every garbled table.");
 
     for (uint64_t j = 0; j < garbled_table_ind; j++) {  // clear tables
       garbled_tables[j].gid = (uint32_t)(-1);
diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index b17a785..6c7c4ea 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -292,6 +292,10 @@ int EvaluateBNLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* p_init,
     CHECK_EXPR_MSG(garbled_table_ind == garbled_table_ind_rcv,
                    "Number of garbled tables generated "
                    "by Alice and received by Bob are not equal.");
+    CHECK_EXPR_MSG(garbled_table_ind == NumOfNeededTables(garbled_circuit,
+                                                          fanout, wires,
+                                                          wires_val),
+                   "Alice did not send every garbled table.");
 
     for (uint64_t j = 0; j < garbled_table_ind; j++) {  // clear tables
       garbled_tables[j].gid = (uint32_t)(-1);
diff --git a/garbled_circuit/garbled_circuit_util.cpp b/garbled_circuit/garbled_circuit_util.cpp
index dae9df9..e9a3a29 100644
--- a/garbled_circuit/garbled_circuit_util.cpp
+++ b/garbled_circuit/garbled_circuit_util.cpp
@@ -451,6 +451,29 @@ void EvalGate(block input0_labels, short input0_value, block input1_labels,
   }
 }
 
+// Number of gates of an evaluated cycle whose result is used and can only come
+// from a garbled table.
+uint64_t NumOfNeededTables(const GarbledCircuit& garbled_circuit,
+                           const int* fanout, const block* wires,
+                           const short* wires_val) {
+  uint64_t num_of_tables = 0;
+  for (uint64_t i = 0; i < garbled_circuit.gate_size; i++) {
+    const GarbledGate& garbledGate = garbled_circuit.garbledGates[i];
+    int64_t input0 = garbledGate.input0;
+    int64_t input1 = garbledGate.input1;
+    if (fanout[i] <= 0 || garbledGate.type == XORGATE
+        || garbledGate.type == XNORGATE || garbledGate.type == NOTGATE
+        || input0 < 0 || input1 < 0) {
+      continue;
+    }
+    if (IsSecret(wires_val[input0]) && IsSecret(wires_val[input1])
+        && !CmpBlock(wires[input0], wires[input1])) {
+      num_of_tables++;
+    }
+  }
+  return num_of_tables;
+}
+
 int FillFanout(GarbledCircuit* garbled_circuit) {
 
   int64_t gate_bias = (int64_t) garbled_circuit->get_gate_lo_index();
diff --git a/garbled_circuit/garbled_circuit_util.h b/garbled_circuit/garbled_circuit_util.h
index 9ef97f7..2d8e918 100644
--- a/garbled_circuit/garbled_circuit_util.h
+++ b/garbled_circuit/garbled_circuit_util.h
@@ -238,6 +238,9 @@ void EvalGate(block input0_labels, short input0_value, block input1_labels,
               short input1_value, int type, uint64_t cid, uint64_t gid,
               GarbledTable* garbled_tables, uint64_t* garbled_table_ind,
               AES_KEY AES_Key, block* output_labels, short* output_value);
+uint64_t NumOfNeededTables(const GarbledCircuit& garbled_circuit,
+                           const int* fanout, const block* wires,
+                           const short* wires_val);
 int FillFanout(GarbledCircuit* garbled_circuit);
 void ReduceFanout(const GarbledCircuit& garbled_circuit, int *fanout,
                   int64_t wid, int64_t gate_bias);
-- 
2.43.0


From 7d2379dba049c1695a4288432e551ee59f985e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 30/69] fix: accept block comments, attributes and assignments
 without spaces in netlists

---
 scd/parse_netlist.cpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index de93c4f..51d7f3e 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -81,6 +81,35 @@ int ParsePortSize(const string& str, uint64_t* no_of_bits) {
   return SUCCESS;
 }
 
+// Replaces comments and attributes by a space. A block comment or attribute may
+// continue on the next line: block_end is then its end, otherwise it is empty.
+string RemoveComments(const string& line, string* block_end) {
+  string res = "";
+  size_t pos = 0;
+  while (pos < line.size()) {
+    if (!block_end->empty()) {
+      size_t end = line.find(*block_end, pos);
+      if (end == string::npos) {
+        break;
+      }
+      pos = end + block_end->size();
+      block_end->clear();
+      res += " ";
+    } else if (line.compare(pos, 2, "//") == 0) {
+      break;
+    } else if (line.compare(pos, 2, "/*") == 0) {
+      *block_end = "*/";
+      pos += 2;
+    } else if (line.compare(pos, 2, "(*") == 0) {
+      *block_end = "*)";
+      pos += 2;
+    } else {
+      res += line[pos++];
+    }
+  }
+  return res;
+}
+
 int ParseNetlist(const string &filename,
                  ReadCircuitString* read_circuit_string) {
 
@@ -100,13 +129,14 @@ int ParseNetlist(const string &filename,
 
   map<string, string> port;
   string port_key;
+  string block_end;
 
   while (!endoffile) {
     CHECK_EXPR_MSG(fin.good(), "File is broken, no endmodule found.");
     string line = "";
     getline(fin, line);
-    line = line.substr(0, line.find("//"));  // comment
-    char_separator<char> sep(" ,()\t\r", ";");
+    line = RemoveComments(line, &block_end);
+    char_separator<char> sep(" ,()\t\r", ";=");
     tokenizer<char_separator<char> > tok(line, sep);
     BOOST_FOREACH(string str, tok){
     if(!str.compare(";")) {
-- 
2.43.0


From c1b1dec4fd3ea033b8a183eeeb53caf61afda91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:57 +0000
Subject: [PATCH 31/69] fix: refuse assignments of expressions and accept lists
 of assignments in netlists

---
 scd/parse_netlist.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/scd/parse_netlist.cpp b/scd/parse_netlist.cpp
index 51d7f3e..e4237b3 100644
--- a/scd/parse_netlist.cpp
+++ b/scd/parse_netlist.cpp
@@ -123,6 +123,8 @@ int ParseNetlist(const string &filename,
   uint64_t no_of_bits = 0;
   bool is_right_assignmnet = false;
   bool is_left_assignmnet = false;
+  bool is_equal_sign = false;
+  bool is_next_assignment = false;
   bool is_inport = false;
   bool is_outport = false;
   bool endoffile = false;
@@ -313,11 +315,9 @@ int ParseNetlist(const string &filename,
         port.clear();
         gate_type = INVALGATE;
       } else {
-        CHECK_EXPR_MSG(!is_left_assignmnet && !is_right_assignmnet
-            && (read_circuit_string->assignment_list_string.empty()
-                || read_circuit_string->assignment_list_string.back().second
-                    != ""),
-            "Incomplete assignment: " + line);
+        CHECK_EXPR_MSG(!is_left_assignmnet && !is_equal_sign
+            && !is_right_assignmnet, "Incomplete assignment: " + line);
+        is_next_assignment = false;
         is_inport = 0;
         is_outport = 0;
         no_of_bits = 0;
@@ -372,20 +372,28 @@ int ParseNetlist(const string &filename,
       }
     } else if(!str.compare("assign")) {
       is_left_assignmnet = true;
-    } else if(is_left_assignmnet) {
+    } else if(is_next_assignment && str.at(0) == '[') {  // space before '['
+      read_circuit_string->assignment_list_string.back().second += str;
+    } else if(is_left_assignmnet || is_next_assignment) {
       read_circuit_string->assignment_list_string.push_back(
           std::make_pair(str, ""));
       is_left_assignmnet = false;
-    } else if(!str.compare("=")) {
+      is_next_assignment = false;
+      is_equal_sign = true;
+    } else if(is_equal_sign && str.at(0) == '[') {  // space before '['
+      read_circuit_string->assignment_list_string.back().first += str;
+    } else if(is_equal_sign || !str.compare("=")) {
+      CHECK_EXPR_MSG(is_equal_sign && !str.compare("="),
+          "Unsupported assignment: " + line);
+      is_equal_sign = false;
       is_right_assignmnet = true;
     } else if(is_right_assignmnet) {
-      CHECK_EXPR_MSG(!read_circuit_string->assignment_list_string.empty(),
-          "Assignment without left side: " + line);
       const auto assign_pair = read_circuit_string->assignment_list_string.back();
       read_circuit_string->assignment_list_string.pop_back();
       read_circuit_string->assignment_list_string.push_back(
           std::make_pair(assign_pair.first, str));
       is_right_assignmnet = false;
+      is_next_assignment = true;  // a = b, c = d
     } else if(!str.compare("AND")) {
       gate_type = ANDGATE;
     } else if(!str.compare("ANDN")) {
-- 
2.43.0


From 0aa5728c1587a076c0d6b40eaef0c37f426d86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 32/69] fix: check the sizes of an SCD file that ends right
 after its header

---
 scd/scd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 7dd7f05..b94f4ce 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -120,7 +120,8 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
 
   // Every number in the file takes at least two characters, so that no size
   // can be larger than the file.
-  if (f.good()) {
+  if (!f.fail()) {
+    f.clear();  // the header may be all there is
     std::streampos header_end = f.tellg();
     f.seekg(0, std::ios::end);
     uint64_t file_size = (uint64_t) f.tellg();
-- 
2.43.0


From dd229c595346d7c49828019788556940841e4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 33/69] fix: refuse an SCD file that holds more than its header
 announces

---
 scd/scd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index b94f4ce..70bc351 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -195,7 +195,8 @@ int ReadSCD(const string& file_name, GarbledCircuit* garbled_circuit) {
     f >> garbled_circuit->I[i];
   }
 
-  if (f.fail() || !IsValidSCD(*garbled_circuit)) {
+  // nothing may follow: the sizes do not match the content otherwise
+  if (f.fail() || !(f >> std::ws).eof() || !IsValidSCD(*garbled_circuit)) {
     LOG(ERROR) << file_name << " is truncated or inconsistent." << endl;
     free(garbled_circuit->garbledGates);
     free(garbled_circuit->outputs);
-- 
2.43.0


From ef6c30dd90ab3015af72ad7eb090f341c9a4a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 34/69] fix: report circuit, map and simulation files that
 could not be written

---
 scd/scd.cpp           | 4 ++++
 scd/scd_evaluator.cpp | 5 +++++
 scd/scheduling.cpp    | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 70bc351..02cc3ec 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -277,6 +277,10 @@ int WriteSCD(const ReadCircuit& read_circuit, const string &file_name) {
   f << endl;
 
   f.close();
+  if (f.fail()) {
+    LOG(ERROR) << "can't write " << file_name << endl;
+    return FAILURE;
+  }
 
   return 0;
 }
diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 0f65da5..13c9fc1 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -259,6 +259,11 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
   }
 
   map_file.close();
+  sim_file.close();
+  if (sim_file.fail()) {
+    LOG(ERROR) << "can't write " << sim_file_address << endl;
+    return FAILURE;
+  }
   /*--- x ---*/
 
   delete[] wires;
diff --git a/scd/scheduling.cpp b/scd/scheduling.cpp
index 33be988..b2043c9 100644
--- a/scd/scheduling.cpp
+++ b/scd/scheduling.cpp
@@ -531,6 +531,10 @@ int WriteMapping(const ReadCircuitString& read_circuit_string,
   f << "terminate " << read_circuit.terminate_id << endl;
 
   f.close();
+  if (f.fail()) {
+    LOG(ERROR) << "can't write " << out_mapping_filename << endl;
+    return FAILURE;
+  }
 
   return SUCCESS;
 }
-- 
2.43.0


From e3b0826c6291792b9d558a6d8f1e41c926a56235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 35/69] fix: record the wires listed after the terminate wire

---
 scd/scd_evaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scd/scd_evaluator.cpp b/scd/scd_evaluator.cpp
index 13c9fc1..1de2f8b 100644
--- a/scd/scd_evaluator.cpp
+++ b/scd/scd_evaluator.cpp
@@ -226,7 +226,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 			tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
 			CHECK_EXPR_MSG(tok_it != tok.end(), "Empty line in " + map_file_address);
 			string wire_name(*(tok_it));
-			if(!wire_name.compare("terminate")) break;
+			if(!wire_name.compare("terminate")) continue;  // may be a gate's output too
 			sim_file << *tok_it << "\t";
 		}
 		sim_file << endl;
@@ -240,7 +240,7 @@ int EvalauatePlaintext(const string& scd_file_address, // Store internal values
 		tokenizer<char_separator<char>>::iterator tok_it = tok.begin();
 		CHECK_EXPR_MSG(tok_it != tok.end(), "Empty line in " + map_file_address);
 		string wire_name(*(tok_it));
-		if(!wire_name.compare("terminate")) break;
+		if(!wire_name.compare("terminate")) continue;  // may be a gate's output too
 		CHECK_EXPR_MSG(++tok_it != tok.end(), "No index for " + wire_name);
 		string index(*tok_it);
 		uint64_t wire_index = strtoull(index.c_str(), nullptr, 10);
-- 
2.43.0


From 6f960db835f7749a0d773bf8adb21c5b676d2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 36/69] fix: refuse input values with a sign

---
 util/util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 1a8fe36..9541fad 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -375,10 +375,12 @@ string ReadFileOrPassHex(string file_hex_str) {  // file address of or a hex str
 }
 
 int ParseHexStr(const string& hex_str, BIGNUM** v) {
-  // BN_hex2bn stops at the first character that is not hexadecimal
+  // BN_hex2bn stops at the first character that is not hexadecimal, but
+  // accepts a sign
   if (!hex_str.empty()) {  // empty is zero
     CHECK_EXPR_MSG(
-        BN_hex2bn(v, hex_str.c_str()) == (int) hex_str.length(),
+        hex_str[0] != '-'
+            && BN_hex2bn(v, hex_str.c_str()) == (int) hex_str.length(),
         "Invalid hex string: " + hex_str);
   }
   return SUCCESS;
-- 
2.43.0


From 319364b9f88b9556903b8146082880d6ab809b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:35 +0000
Subject: [PATCH 37/69] fix: refuse a NOT gate whose unused second input is out
 of range

---
 scd/scd.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scd/scd.cpp b/scd/scd.cpp
index 02cc3ec..203ee17 100644
--- a/scd/scd.cpp
+++ b/scd/scd.cpp
@@ -72,7 +72,9 @@ static bool IsValidSCD(const GarbledCircuit& garbled_circuit) {
       return false;
     switch (gate.type) {
       case NOTGATE:
-        if (gate.input1 >= gate.output)
+        // unused, -1 as written by WriteSCD
+        if (gate.input1 != -1
+            && !IsValidWire(garbled_circuit, gate.input1, gate.output))
           return false;
         break;
       case ANDGATE: case ANDNGATE: case NANDGATE: case NANDNGATE:
-- 
2.43.0


From e695d6ff9886ebd787d6e14f5359c4fb53153e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:01 +0000
Subject: [PATCH 38/69] fix: keep the middle index of each merge-sort call

---
 a23/merge-sort/merge-sort.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a23/merge-sort/merge-sort.c b/a23/merge-sort/merge-sort.c
index 5d4a97b..ac3884d 100644
--- a/a23/merge-sort/merge-sort.c
+++ b/a23/merge-sort/merge-sort.c
@@ -3,10 +3,10 @@
 #define O_SIZE 32 // size of output array
 
 int __attribute__((aligned(256))) b[G_SIZE]; // temporary array for mergesort
-int i, j, k, m;
+int i, j, k;
 void mergesort(int* array, int l, int r) {
   if (r > l) {
-    m = (r + l) / 2;
+    int m = (r + l) / 2; // local: the recursive calls have their own
     mergesort(array, l, m);
     mergesort(array, m + 1, r);
     for (i = m + 1; i > l; i--)
-- 
2.43.0


From 8bef048c62cda49d4a78597cbe955b508efb93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:01 +0000
Subject: [PATCH 39/69] fix: compare the words of the arrays as unsigned, as
 the ARM version does

---
 a23/compare/compare.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a23/compare/compare.c b/a23/compare/compare.c
index 48012fe..c7f5a29 100644
--- a/a23/compare/compare.c
+++ b/a23/compare/compare.c
@@ -26,7 +26,7 @@ static int compare_array(const int *g, const int *e, int *o) {
 static int compare_array(const int *g, const int *e, int *o) {
   int greater = 0;
   for(int i = 0; i < G_SIZE;i++) {
-    greater = (g[i] == e[i])?greater:(g[i] < e[i]);
+    greater = (g[i] == e[i])?greater:((uint)g[i] < (uint)e[i]);
   }
   return greater;
 }
-- 
2.43.0


From ceb3a92783938a221219a9235568dd5be5bb9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:21 +0000
Subject: [PATCH 40/69] fix: size of the temporaries of the AES S-box

---
 a23/aes/aes.c   | 2 +-
 a23/sbox/sbox.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/a23/aes/aes.c b/a23/aes/aes.c
index 54af8d0..ba121a4 100644
--- a/a23/aes/aes.c
+++ b/a23/aes/aes.c
@@ -99,7 +99,7 @@ uint8_t getSBoxValue(uint8_t num){
 	byte x, s;
 	x.byte = num;
 	
-	byte y[3], t[8], z[2];
+	byte y[3], t[9], z[3];
 	
 	y[1].bits.bit6	=	x.bits.bit4	^	x.bits.bit2;
 	y[1].bits.bit5	=	x.bits.bit7	^	x.bits.bit1;
diff --git a/a23/sbox/sbox.c b/a23/sbox/sbox.c
index 847aaba..551c25a 100644
--- a/a23/sbox/sbox.c
+++ b/a23/sbox/sbox.c
@@ -26,7 +26,7 @@ uint8_t getSBoxValue(uint8_t num){
 	byte x, s;
 	x.byte = num;
 	
-	byte y[3], t[8], z[2];
+	byte y[3], t[9], z[3];
 	
 	y[1].bits.bit6	=	x.bits.bit4	^	x.bits.bit2;
 	y[1].bits.bit5	=	x.bits.bit7	^	x.bits.bit1;
-- 
2.43.0


From a79d0ac72649063109ceb63651e05633f1cd65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:21 +0000
Subject: [PATCH 41/69] fix: declare that the ARM additions change the flags

---
 a23/compare/compare.c | 2 +-
 a23/sum/sum.c         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/a23/compare/compare.c b/a23/compare/compare.c
index c7f5a29..9312b49 100644
--- a/a23/compare/compare.c
+++ b/a23/compare/compare.c
@@ -17,7 +17,7 @@ static int compare_array(const int *g, const int *e, int *o) {
       "adcs %[c], %[a], %[b]\n\t"
       "mov %[dd], #0\n\t"
       "movhs %[dd], #1"  :
-      [c] "=r" (dumm), [dd] "=r" (carry)  : [a] "r" (g[i]), [b] "r" (nei), [d] "r" (carry)
+      [c] "=r" (dumm), [dd] "=r" (carry)  : [a] "r" (g[i]), [b] "r" (nei), [d] "r" (carry) : "cc"
     );
   }
   return !carry;
diff --git a/a23/sum/sum.c b/a23/sum/sum.c
index a660b71..6f43fc2 100644
--- a/a23/sum/sum.c
+++ b/a23/sum/sum.c
@@ -17,14 +17,14 @@ void sum_array(const int *g, const int *e, int *o) {
       "mov %[dd], #0\n\t"
       "movhs %[dd], #1"  :
       [c] "=r" (o[i]), [dd] "=r" (carry) :
-      [a] "r" (g[i]), [b] "r" (e[i]), [d] "r" (carry)
+      [a] "r" (g[i]), [b] "r" (e[i]), [d] "r" (carry) : "cc"
     );
   }
   asm (
     "cmp %[d], #1\n\t"
     "adc %[c], %[a], %[b]\n\t" :
     [c] "=r" (o[G_SIZE-1]) :
-    [a] "r" (g[G_SIZE-1]), [b] "r" (e[G_SIZE-1]), [d] "r" (carry)
+    [a] "r" (g[G_SIZE-1]), [b] "r" (e[G_SIZE-1]), [d] "r" (carry) : "cc"
   );
 }
 #else 
-- 
2.43.0


From 3bd5ff4e5335ae7ea8936b14482c69139af1be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 42/69] fix: report repeated or incomplete options instead of
 aborting

---
 util/log.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/util/log.cpp b/util/log.cpp
index 1db94f2..f238848 100644
--- a/util/log.cpp
+++ b/util/log.cpp
@@ -58,10 +58,14 @@ void LogInitial(int argc, char *argv[]) {
   ("log2std", "");
 
   po::variables_map vm;
-  po::parsed_options parsed = po::command_line_parser(argc, argv).options(desc)
-      .allow_unregistered().run();
-
-  po::store(parsed, vm);
+  try {
+    po::parsed_options parsed = po::command_line_parser(argc, argv).options(
+        desc).allow_unregistered().run();
+    po::store(parsed, vm);
+  } catch (po::error& e) {
+    // invalid options are reported by the program itself
+    vm.clear();
+  }
 
   bool log_2_std = false;
   if (vm.count("log2std")) {
-- 
2.43.0


From f46b71580f7e1b6db4fec5f4fc7e5fd1ccc19596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 43/69] fix: refuse port numbers out of range

---
 tcpip/tcpip.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tcpip/tcpip.cpp b/tcpip/tcpip.cpp
index 12298fa..816bf9d 100644
--- a/tcpip/tcpip.cpp
+++ b/tcpip/tcpip.cpp
@@ -37,8 +37,18 @@ int listenfd = 0;
 
 int kSocketBuffSize = (1 << 15);
 
+static bool IsPort(int port) {
+  if (port < 0 || port > 65535) {
+    LOG(ERROR) << "Invalid port number: " << port << endl;
+    return false;
+  }
+  return true;
+}
+
 int ServerOpenSocket(int port) {
   struct sockaddr_in serv_addr;
+  if (!IsPort(port))
+    return FAILURE;
   listenfd = socket(AF_INET, SOCK_STREAM, 0);
   if (listenfd < 0) {
     LOG(ERROR) << strerror(errno) << endl;
@@ -101,6 +111,8 @@ int ClientInit(const char* ip, int port) {
   int sockfd;
   struct hostent *server;
   struct sockaddr_in serv_addr;
+  if (!IsPort(port))
+    return FAILURE;
   sockfd = socket(AF_INET, SOCK_STREAM, 0);
   if (sockfd < 0) {
     LOG(ERROR) << strerror(errno) << endl;
-- 
2.43.0


From 8c0028db61f625faa82d82f33cf1c5fb56775b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 44/69] fix: refuse a selection other than 0 and 1

---
 crypto/OT_main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/OT_main.cpp b/crypto/OT_main.cpp
index dadd48f..38dc4cf 100644
--- a/crypto/OT_main.cpp
+++ b/crypto/OT_main.cpp
@@ -84,6 +84,12 @@ int main(int argc, char *argv[]) {
     return FAILURE;
   }
 
+  if (select_str != "0" && select_str != "1") {
+    LOG(ERROR) << "select should be 0 or 1." << endl;
+    std::cout << desc << endl;
+    return FAILURE;
+  }
+
   if (vm.count("alice")) {
     // open the socket
     int connfd;
-- 
2.43.0


From 9ad384fa7215fdbdcc2119a6674a145b0d49e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 45/69] fix: give garbled tables no padding, which was still
 sent uninitialised

---
 garbled_circuit/garbled_circuit_util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/garbled_circuit/garbled_circuit_util.h b/garbled_circuit/garbled_circuit_util.h
index 2d8e918..35c6803 100644
--- a/garbled_circuit/garbled_circuit_util.h
+++ b/garbled_circuit/garbled_circuit_util.h
@@ -65,6 +65,7 @@ typedef struct BlockPair {
 typedef struct GarbledTable {
   block row[2];
   uint32_t gid;
+  uint32_t unused[3];  // tables are sent as they are: no uninitialised padding
 } GarbleTable;
 
 /**
-- 
2.43.0


From 19ae69f6f8460b587395d4f263f5281b0e41595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 46/69] fix: draw the receiver's OT blinding uniformly modulo N

A 1024-bit random number reduced modulo N favours small values: the sender,
who computes both candidates for the blinding, could tell the receiver's
choice with probability about 0.59.
---
 crypto/OT.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crypto/OT.cpp b/crypto/OT.cpp
index b7fb186..68ed738 100644
--- a/crypto/OT.cpp
+++ b/crypto/OT.cpp
@@ -137,13 +137,11 @@ int OTRecvBN(const BIGNUM *sel, uint32_t m_len, int connfd, BIGNUM** m) {
 
   // 3. generate random k
   BIGNUM **k = new BIGNUM*[m_len];
-  BIGNUM *_k = BN_new();
   for (uint32_t i = 0; i < m_len; i++) {
-    BN_CHECK(BN_rand(_k, RSA_BITS, -1, 0));
     k[i] = BN_new();
-    BN_CHECK(BN_nnmod(k[i], _k, rsa_n, ctx));  // k = _k mod N
+    // uniform modulo N: the sender could tell a biased k from the other candidate
+    BN_CHECK(BN_rand_range(k[i], rsa_n));
   }
-  BN_free(_k);
 
   // 4. compute v = (x_b + k^e) mod N and send it to Alice (sender)
   BIGNUM *v = BN_new();
-- 
2.43.0


From b6b3ab020302ac46610054f975383e7422ff7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 47/69] fix: read only the 24 bytes of a 192-bit AES key

---
 crypto/aes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/aes.h b/crypto/aes.h
index 7a9d586..87780a9 100644
--- a/crypto/aes.h
+++ b/crypto/aes.h
@@ -132,7 +132,7 @@ inline void AES128KeyExpansion(const unsigned char *userkey, void *key) {
 inline void AES192KeyExpansion(const unsigned char *userkey, void *key) {
   __m128i x0, x1, x2, x3, tmp, *kp = (__m128i *) key;
   kp[0] = x0 = _mm_loadu_si128((__m128i *) userkey);
-  tmp = x3 = _mm_loadu_si128((__m128i *) (userkey + 16));
+  tmp = x3 = _mm_loadl_epi64((__m128i *) (userkey + 16));
   x2 = _mm_setzero_si128();
   EXPAND192_STEP(1, 1);
   EXPAND192_STEP(4, 4);
-- 
2.43.0


From 1b8fccac9f6c2fc3df6bb66d47eb0ef799162aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 48/69] fix: release what every oblivious transfer allocates

---
 crypto/OT.cpp           | 6 ++++++
 crypto/OT_extension.cpp | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crypto/OT.cpp b/crypto/OT.cpp
index 68ed738..dd08bb5 100644
--- a/crypto/OT.cpp
+++ b/crypto/OT.cpp
@@ -98,7 +98,9 @@ int OTSendBN(const BIGNUM* const * const * m, uint32_t m_len, int connfd) {
     for (uint32_t j = 0; j < 2; j++) {
       BN_free(x[i][j]);
     }
+    delete[] x[i];
   }
+  delete[] x;
   BN_CTX_free(ctx);
   return SUCCESS;
 }
@@ -176,13 +178,17 @@ int OTRecvBN(const BIGNUM *sel, uint32_t m_len, int connfd, BIGNUM** m) {
 
   BN_free(m0p);
   BN_free(m1p);
+  BN_free(mb);
 
   for (uint32_t i = 0; i < m_len; i++) {
     for (uint32_t j = 0; j < 2; j++) {
       BN_free(x[i][j]);
     }
+    delete[] x[i];
     BN_free(k[i]);
   }
+  delete[] x;
+  delete[] k;
   BN_CTX_free(ctx);
 
   return SUCCESS;
diff --git a/crypto/OT_extension.cpp b/crypto/OT_extension.cpp
index 3857eee..29175f8 100644
--- a/crypto/OT_extension.cpp
+++ b/crypto/OT_extension.cpp
@@ -77,6 +77,7 @@ int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) {
   } else {
     BN_CHECK(EVP_DigestUpdate(mdctx, /*v->d*/v_arr+diff_words, SEC_K_BIT/8));
   }
+  delete[] v_arr;
   unsigned char md_value[EVP_MAX_MD_SIZE];
   uint32_t md_len;
   BN_CHECK(EVP_DigestFinal_ex(mdctx, md_value, &md_len));
@@ -165,7 +166,6 @@ int OTExtSendBN(const BIGNUM* const * const * m, uint32_t m_bitlen,
   for (uint32_t i = 0; i < SEC_K_BIT; i++) {
     Q[i] = BN_new();
   }
-  BN_new();
 
   // 1. receive one seed of each pair of k-bit seeds
   CHECK(OTRecvBN(S, SEC_K_BIT, connfd, Q));
@@ -312,7 +312,7 @@ int OTExtRecv(const bool *sel, uint32_t m_len, int connfd, block* m) {
   BIGNUM *bn_sel = BN_new();
   BIGNUM** bn_m = new BIGNUM*[m_len];
   for (uint32_t i = 0; i < m_len; ++i) {
-    bn_m[i] = BN_new();
+    bn_m[i] = nullptr;  // allocated by OTExtRecvBN
     if (sel[i]) {
       BN_CHECK(BN_set_bit(bn_sel, i));
     }
-- 
2.43.0


From c1174035d7ab9bc21855aa6b83c8557807f5a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 49/69] fix: release the labels received in each cycle of
 low-memory mode

---
 garbled_circuit/garbled_circuit_low_mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/garbled_circuit/garbled_circuit_low_mem.cpp b/garbled_circuit/garbled_circuit_low_mem.cpp
index 6c7c4ea..ade3285 100644
--- a/garbled_circuit/garbled_circuit_low_mem.cpp
+++ b/garbled_circuit/garbled_circuit_low_mem.cpp
@@ -976,6 +976,7 @@ int EvalauteOTInputLowMem(const GarbledCircuit& garbled_circuit,
   }
 
   delete[] select;
+  delete[] message;
 
   return SUCCESS;
 }
-- 
2.43.0


From fb1627abcb003a532cabaf3bb0aafe2daa54affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 50/69] fix: release the strings output values are printed to

---
 util/util.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/util/util.cpp b/util/util.cpp
index 9541fad..1937650 100644
--- a/util/util.cpp
+++ b/util/util.cpp
@@ -176,19 +176,25 @@ string to_string_hex(uint64_t v, int pad /* = 0 */) {
   return ret;
 }
 
+static string BN2HexStr(const BIGNUM* bn) {
+  char* hex = BN_bn2hex(bn);
+  string str = (hex != nullptr) ? hex : "";
+  OPENSSL_free(hex);
+  return str;
+}
+
 int OutputBN2StrHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
                         uint64_t clock_cycles, OutputMode output_mode,
                         string *output_str) {
   (*output_str) = "";
   if (output_mode == OutputMode::consecutive) {  // normal
-    const char* output_c = BN_bn2hex(outputs);
-    (*output_str) = output_c;
+    (*output_str) = BN2HexStr(outputs);
   } else if (output_mode == OutputMode::separated_clock) {  // Separated by clock
     BIGNUM* temp = BN_new();
     for (uint64_t i = 0; i < clock_cycles; i++) {
       BN_rshift(temp, outputs, i * garbled_circuit.output_size);
       BN_mask_bits(temp, garbled_circuit.output_size);
-      (*output_str) += BN_bn2hex(temp);
+      (*output_str) += BN2HexStr(temp);
       if (i < clock_cycles - 1) {
         (*output_str) += "\n";
       }
@@ -198,7 +204,7 @@ int OutputBN2StrHighMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
     BIGNUM* temp = BN_new();
     BN_rshift(temp, outputs, (clock_cycles - 1) * garbled_circuit.output_size);
     BN_mask_bits(temp, garbled_circuit.output_size);
-    (*output_str) += BN_bn2hex(temp);
+    (*output_str) += BN2HexStr(temp);
     BN_free(temp);
   }
   return SUCCESS;
@@ -209,21 +215,20 @@ int OutputBN2StrLowMem(const GarbledCircuit& garbled_circuit, BIGNUM* outputs,
                        string* output_str) {
   (*output_str) = "";
   if (output_mode == OutputMode::consecutive) {  // normal
-    const char* output_c = BN_bn2hex(outputs);
-    (*output_str) = output_c;
+    (*output_str) = BN2HexStr(outputs);
   } else if (output_mode == OutputMode::separated_clock) {  // Separated by clock
     BIGNUM* temp = BN_new();
     for (uint64_t i = 0; i < clock_cycles; i++) {
       BN_rshift(temp, outputs, i * garbled_circuit.output_size);
       BN_mask_bits(temp, garbled_circuit.output_size);
-      (*output_str) += BN_bn2hex(temp);
+      (*output_str) += BN2HexStr(temp);
       if (i < clock_cycles - 1) {
         (*output_str) += "\n";
       }
     }
     BN_free(temp);
   } else if (output_mode == OutputMode::last_clock) {  // only last clock
-    (*output_str) += BN_bn2hex(outputs);
+    (*output_str) += BN2HexStr(outputs);
   }
 
   return SUCCESS;
-- 
2.43.0


From 190347e48865db6560e137ac987a26f27db02861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 51/69] fix: SHIFT_LEFT shifts to the left and SHIFT_RIGHT to
 the right

---
 circuit_synthesis/syn_lib/SHIFT_LEFT.v  | 2 +-
 circuit_synthesis/syn_lib/SHIFT_RIGHT.v | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/syn_lib/SHIFT_LEFT.v b/circuit_synthesis/syn_lib/SHIFT_LEFT.v
index e3f0c7c..15c6615 100644
--- a/circuit_synthesis/syn_lib/SHIFT_LEFT.v
+++ b/circuit_synthesis/syn_lib/SHIFT_LEFT.v
@@ -25,7 +25,7 @@ module SHIFT_LEFT
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift_amount[i])?(ai[i]>>2**i):(ai[i]);
+      assign ai[i+1] = (shift_amount[i])?(ai[i]<<2**i):(ai[i]);
     end
   endgenerate
 
diff --git a/circuit_synthesis/syn_lib/SHIFT_RIGHT.v b/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
index 391c130..58cbff5 100644
--- a/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
+++ b/circuit_synthesis/syn_lib/SHIFT_RIGHT.v
@@ -25,7 +25,7 @@ module SHIFT_RIGHT
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift_amount[i])?(ai[i]<<2**i):(ai[i]);
+      assign ai[i+1] = (shift_amount[i])?(ai[i]>>2**i):(ai[i]);
     end
   endgenerate
 
-- 
2.43.0


From 9c698d963f29c02fd63f693c32d9a55f87afd2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 52/69] fix: pass the arms of a MUX in its order (S ? B : A)

---
 circuit_synthesis/knns/first_nns_comb.v             |  8 ++++----
 circuit_synthesis/knns/first_nns_seq.v              |  8 ++++----
 circuit_synthesis/knns_td/first_nns_comb_td.v       |  8 ++++----
 circuit_synthesis/knns_td/first_nns_seq_td.v        |  8 ++++----
 circuit_synthesis/non_secret_test/non_secret_test.v |  4 ++--
 circuit_synthesis/rsa/modexp_2N_NN.v                | 12 ++++++------
 circuit_synthesis/rsa/modmult.v                     | 12 ++++++------
 7 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/circuit_synthesis/knns/first_nns_comb.v b/circuit_synthesis/knns/first_nns_comb.v
index 6748ba6..c227465 100644
--- a/circuit_synthesis/knns/first_nns_comb.v
+++ b/circuit_synthesis/knns/first_nns_comb.v
@@ -86,8 +86,8 @@ module first_nns_comb
 		)
 		MUX_1
 		(
-			.A(DBi[i]),
-			.B(min_val[i-1]),
+			.A(min_val[i-1]),
+			.B(DBi[i]),
 			.S(gt_dist[i]),
 			.O(min_val[i])
 		);
@@ -98,8 +98,8 @@ module first_nns_comb
 		)
 		MUX_2
 		(
-			.A(dist[i]),
-			.B(min_dist[i-1]),
+			.A(min_dist[i-1]),
+			.B(dist[i]),
 			.S(gt_dist[i]),
 			.O(min_dist[i])
 		);
diff --git a/circuit_synthesis/knns/first_nns_seq.v b/circuit_synthesis/knns/first_nns_seq.v
index 35cc565..46a5b08 100644
--- a/circuit_synthesis/knns/first_nns_seq.v
+++ b/circuit_synthesis/knns/first_nns_seq.v
@@ -67,8 +67,8 @@ module first_nns_seq
 	)
 	MUX_1
 	(
-		.A(e_input),
-		.B(min_val_reg),
+		.A(min_val_reg),
+		.B(e_input),
 		.S(gt_dist),
 		.O(min_val)
 	);
@@ -79,8 +79,8 @@ module first_nns_seq
 	)
 	MUX_2
 	(
-		.A(dist),
-		.B(min_dist_reg),
+		.A(min_dist_reg),
+		.B(dist),
 		.S(gt_dist),
 		.O(min_dist)
 	);
diff --git a/circuit_synthesis/knns_td/first_nns_comb_td.v b/circuit_synthesis/knns_td/first_nns_comb_td.v
index afde135..4566afe 100644
--- a/circuit_synthesis/knns_td/first_nns_comb_td.v
+++ b/circuit_synthesis/knns_td/first_nns_comb_td.v
@@ -100,8 +100,8 @@ module first_nns_comb_td
 		MUX_1
 		(
 			//.A(DBi[i]),
-			.A({x1[i], y1[i]}),
-			.B({min_val_x[i-1], min_val_y[i-1]}),
+			.A({min_val_x[i-1], min_val_y[i-1]}),
+			.B({x1[i], y1[i]}),
 			.S(gt_dist[i]),
 			.O({min_val_x[i], min_val_y[i]})
 		);
@@ -112,8 +112,8 @@ module first_nns_comb_td
 		)
 		MUX_2
 		(
-			.A(dist[i]),
-			.B(min_dist[i-1]),
+			.A(min_dist[i-1]),
+			.B(dist[i]),
 			.S(gt_dist[i]),
 			.O(min_dist[i])
 		);
diff --git a/circuit_synthesis/knns_td/first_nns_seq_td.v b/circuit_synthesis/knns_td/first_nns_seq_td.v
index 8dbec88..b7f182d 100644
--- a/circuit_synthesis/knns_td/first_nns_seq_td.v
+++ b/circuit_synthesis/knns_td/first_nns_seq_td.v
@@ -75,8 +75,8 @@ module first_nns_seq_td
 	)
 	MUX_1
 	(
-		.A(e_input),
-		.B(min_val_reg),
+		.A(min_val_reg),
+		.B(e_input),
 		.S(gt_dist),
 		.O(min_val)
 	);
@@ -87,8 +87,8 @@ module first_nns_seq_td
 	)
 	MUX_2
 	(
-		.A(dist),
-		.B(min_dist_reg),
+		.A(min_dist_reg),
+		.B(dist),
 		.S(gt_dist),
 		.O(min_dist)
 	);
diff --git a/circuit_synthesis/non_secret_test/non_secret_test.v b/circuit_synthesis/non_secret_test/non_secret_test.v
index e27f9d7..52bf79f 100644
--- a/circuit_synthesis/non_secret_test/non_secret_test.v
+++ b/circuit_synthesis/non_secret_test/non_secret_test.v
@@ -60,8 +60,8 @@ module non_secret_test
   )
   _MUX 
   (
-    .A(o_add),
-    .B(o_sub),
+    .A(o_sub),
+    .B(o_add),
     .S(sel),
     .O(o)
   );
diff --git a/circuit_synthesis/rsa/modexp_2N_NN.v b/circuit_synthesis/rsa/modexp_2N_NN.v
index f27d0ff..6945410 100644
--- a/circuit_synthesis/rsa/modexp_2N_NN.v
+++ b/circuit_synthesis/rsa/modexp_2N_NN.v
@@ -62,8 +62,8 @@ module modexp_2N_NN
   )
   MUX_4
   (
-    .A(mod_mult_o),
-    .B(creg),
+    .A(creg),
+    .B(mod_mult_o),
     .S(((first_one & ein[N-1] & mul_pow)|(first_one & ~mul_pow))),
     .O(w1)
   );  
@@ -76,8 +76,8 @@ module modexp_2N_NN
   )
   MUX_6
   (
-    .A({ein[N-2:0], 1'b0}),
-    .B(ereg),
+    .A(ereg),
+    .B({ein[N-2:0], 1'b0}),
     .S(mul_pow),
     .O(w2)
   );  
@@ -126,8 +126,8 @@ module modexp_2N_NN
   )
   MUX_9
   (
-    .A(mreg),
-    .B(w3),
+    .A(w3),
+    .B(mreg),
     .S(mul_pow),
     .O(y)
   );  
diff --git a/circuit_synthesis/rsa/modmult.v b/circuit_synthesis/rsa/modmult.v
index 22ff7e0..26642dd 100644
--- a/circuit_synthesis/rsa/modmult.v
+++ b/circuit_synthesis/rsa/modmult.v
@@ -177,8 +177,8 @@ module modmult_step
 	)
 	MUX_1
 	(
-		.A(y_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(y_ext),
 		.S(xregN_1),
 		.O(w1)
 	);	
@@ -189,8 +189,8 @@ module modmult_step
 	)
 	MUX_2
 	(
-		.A(n_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(n_ext),
 		.S(c1),
 		.O(w2)
 	);	
@@ -202,8 +202,8 @@ module modmult_step
 	)
 	MUX_3
 	(
-		.A(n_ext),
-		.B({(N+2){1'b0}}),
+		.A({(N+2){1'b0}}),
+		.B(n_ext),
 		.S(c2p),
 		.O(w3)
 	);	
-- 
2.43.0


From 0b9e0937f8c690605986ff71f05ee4414a894b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 53/69] fix: modular multiplication and exponentiation compute
 their result

modmult reduced only above n and lost its last bit when it runs over
several cycles; modexp_2N_NN took over partial products; modexp_1_N
left its output undriven.
---
 circuit_synthesis/rsa/modexp_1_N.v   |  2 +-
 circuit_synthesis/rsa/modexp_2N_NN.v |  4 ++--
 circuit_synthesis/rsa/modmult.v      | 19 ++++++-------------
 3 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/circuit_synthesis/rsa/modexp_1_N.v b/circuit_synthesis/rsa/modexp_1_N.v
index d44786a..dfed6ca 100644
--- a/circuit_synthesis/rsa/modexp_1_N.v
+++ b/circuit_synthesis/rsa/modexp_1_N.v
@@ -44,7 +44,7 @@ module modexp_1_N
 	assign cin[0] = creg;
 	assign ein = (init)?ereg:e;
 	
-	assign c = (ein[N-N/CC])?cout2[N/CC-1]:cout1[N/CC-1];
+	assign o = (keep_2[N/CC-1])?cout2[N/CC-1]:(keep_1[N/CC-1])?cout1[N/CC-1]:g_input;
 	
 	generate 
 	for(i=0;i<N/CC;i=i+1)
diff --git a/circuit_synthesis/rsa/modexp_2N_NN.v b/circuit_synthesis/rsa/modexp_2N_NN.v
index 6945410..0db2299 100644
--- a/circuit_synthesis/rsa/modexp_2N_NN.v
+++ b/circuit_synthesis/rsa/modexp_2N_NN.v
@@ -64,7 +64,7 @@ module modexp_2N_NN
   (
     .A(creg),
     .B(mod_mult_o),
-    .S(((first_one & ein[N-1] & mul_pow)|(first_one & ~mul_pow))),
+    .S(((first_one & ein[N-1] & mul_pow)|(first_one & ~mul_pow)) & start_in[CC/(2*N)-1]),
     .O(w1)
   );  
 
@@ -78,7 +78,7 @@ module modexp_2N_NN
   (
     .A(ereg),
     .B({ein[N-2:0], 1'b0}),
-    .S(mul_pow),
+    .S(mul_pow & start_in[CC/(2*N)-1]),
     .O(w2)
   );  
 
diff --git a/circuit_synthesis/rsa/modmult.v b/circuit_synthesis/rsa/modmult.v
index 26642dd..af5dc39 100644
--- a/circuit_synthesis/rsa/modmult.v
+++ b/circuit_synthesis/rsa/modmult.v
@@ -61,8 +61,8 @@ module modmult
 	//assign zin[0] 	= (start)?0:zreg;
 	//assign xin 		= (start)?x:xreg;
 
-	assign zin[0] 	= zreg;
-	assign xin 		= xreg;
+	assign zin[0] 	= (start)?{(N+2){1'b0}}:zreg;
+	assign xin 		= (start)?x:xreg;
 
 
 	genvar g;
@@ -101,11 +101,6 @@ module modmult
 				zreg <= 0;
 				xreg <= 0;
 			end
-			else if(start)
-			begin
-				zreg <= 0;
-				xreg <= x;
-			end
 			else
 			begin
 				zreg <= zout[N/CC-1];
@@ -154,7 +149,7 @@ module modmult_step
 	wire 	[N+1:0]	w1, w2, w3;
 
 
-	wire c1, c2, c2p;
+	wire c1, c2p;
 
 
 	assign y_ext = {2'b0, y};
@@ -254,13 +249,11 @@ module modmult_step
 	)
 	COMP_2
 	(
-		.A(n_ext),
-		.B(z3), 
-		.O(c2)
+		.A(z3),
+		.B(n_ext), 
+		.O(c2p)
 	);
 
-	assign c2p = ~c2;
-
 	SUB 
 	#(
 		.N(N+2)
-- 
2.43.0


From 4dc5ac9f7d897aac745d6c09985b390f3dccdea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 54/69] fix: nearest-neighbour designs measure and return the
 points of the database

---
 circuit_synthesis/knns/first_nns_seq.v   | 2 +-
 circuit_synthesis/knns_td/k_nns_seq_td.v | 6 +++---
 circuit_synthesis/knns_td/knns_seq_td.v  | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/circuit_synthesis/knns/first_nns_seq.v b/circuit_synthesis/knns/first_nns_seq.v
index 46a5b08..3addc5e 100644
--- a/circuit_synthesis/knns/first_nns_seq.v
+++ b/circuit_synthesis/knns/first_nns_seq.v
@@ -45,7 +45,7 @@ module first_nns_seq
 	)
 	COUNT_
 	(
-		.A(g_input ^ DBi),
+		.A(g_input ^ e_input),
 		.S(dist)
 	);
 
diff --git a/circuit_synthesis/knns_td/k_nns_seq_td.v b/circuit_synthesis/knns_td/k_nns_seq_td.v
index af5c338..780534d 100644
--- a/circuit_synthesis/knns_td/k_nns_seq_td.v
+++ b/circuit_synthesis/knns_td/k_nns_seq_td.v
@@ -36,7 +36,7 @@ module k_nns_seq_td
 	assign y1 = e_input[W-1:0];
 	assign x2 = g_input[2*W-1:W];
 	assign y2 = g_input[W-1:0];
-	assign min_val_out = o;
+	assign o = min_val_out;
 
 	wire [W+1:0] dist;
 
@@ -181,8 +181,8 @@ module k_nns_seq_td
 	endgenerate
 
 	assign local_min_dist[K] = dist;
-	assign local_min_val_x[K] = x2;
-	assign local_min_val_y[K] = y2;
+	assign local_min_val_x[K] = x1;
+	assign local_min_val_y[K] = y1;
 
 
 
diff --git a/circuit_synthesis/knns_td/knns_seq_td.v b/circuit_synthesis/knns_td/knns_seq_td.v
index 593f794..deb3d75 100644
--- a/circuit_synthesis/knns_td/knns_seq_td.v
+++ b/circuit_synthesis/knns_td/knns_seq_td.v
@@ -36,7 +36,7 @@ module knns_seq
 	assign y1 = e_input[W-1:0];
 	assign x2 = g_input[2*W-1:W];
 	assign y2 = g_input[W-1:0];
-	assign min_val_out = o;
+	assign o = min_val_out;
 
 	wire [W+1:0] dist;
 
@@ -181,8 +181,8 @@ module knns_seq
 	endgenerate
 
 	assign local_min_dist[K] = dist;
-	assign local_min_val_x[K] = x2;
-	assign local_min_val_y[K] = y2;
+	assign local_min_val_x[K] = x1;
+	assign local_min_val_y[K] = y1;
 
 
 
-- 
2.43.0


From f12a06f3b9e953ebae639459bd3fe89f1ac24e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 55/69] fix: sha3_seq starts with the first round constant

---
 circuit_synthesis/sha3/sha3_seq.v | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/circuit_synthesis/sha3/sha3_seq.v b/circuit_synthesis/sha3/sha3_seq.v
index 1b9d9c6..c22dd3a 100644
--- a/circuit_synthesis/sha3/sha3_seq.v
+++ b/circuit_synthesis/sha3/sha3_seq.v
@@ -33,7 +33,6 @@ module sha3_seq
   input   [287:0]   e_init;
   output  [1599:0]	o;
   
-	reg 							init;
   reg		[CC-1:0]		rc_i; /* select round constant */
 	reg		[24-1:0]		rc_j[24/CC-1:0]; /* select round constant */
 	wire	[63:0]			rc[24/CC-1:0]; /* round constant */
@@ -46,14 +45,12 @@ module sha3_seq
 	begin
 		if (rst) 	
 		begin
-			init <= 0;
-			rc_i <= 0;
+			rc_i <= 1;
 			round_reg <= {e_init, g_init};
 		end
 		else     
 		begin
-			init <= 1;
-			rc_i <= {rc_i[CC-2:0], ~init};
+			rc_i <= {rc_i[CC-2:0], 1'b0};
 			round_reg <= round_out[24/CC-1];
 		end
     end
-- 
2.43.0


From fd588f250ecd59e59996bed011b896709b0fd978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 56/69] fix: cordic shifts arithmetically and vectors towards y
 = 0

---
 circuit_synthesis/cordic/barrel_shifter_left.v | 2 +-
 circuit_synthesis/cordic/cordic.v              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/cordic/barrel_shifter_left.v b/circuit_synthesis/cordic/barrel_shifter_left.v
index 7f179c5..310eab9 100644
--- a/circuit_synthesis/cordic/barrel_shifter_left.v
+++ b/circuit_synthesis/cordic/barrel_shifter_left.v
@@ -26,7 +26,7 @@ module barrel_shifter_left
   genvar i;
   generate
     for (i = 0; i < LOG_N+1; i = i + 1) begin: ASSIGN
-      assign ai[i+1] = (shift[i])?(ai[i]>>2**i):(ai[i]);
+      assign ai[i+1] = (shift[i])?({{2**i{a[N-1]}}, ai[i]}>>2**i):(ai[i]);
     end
   endgenerate
 
diff --git a/circuit_synthesis/cordic/cordic.v b/circuit_synthesis/cordic/cordic.v
index 19b4186..14a8b89 100644
--- a/circuit_synthesis/cordic/cordic.v
+++ b/circuit_synthesis/cordic/cordic.v
@@ -73,7 +73,7 @@ module cordic
     if(DIR==`DIR_ROT) begin :ROT
       assign di = zi[L-1];
     end else begin :VEC// if(DIR==`DIR_VEC)
-      assign di = xi[L-1]&yi[L-1];
+      assign di = ~(xi[L-1]^yi[L-1]);
     end
   endgenerate
   
-- 
2.43.0


From 3faca371bb957906641745f8174e63a17875c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 57/69] fix: sign extension of LB, LH and SLTIU in the MIPS
 core

---
 circuit_synthesis/mips/Control.v  | 2 +-
 circuit_synthesis/mips/Data_Mem.v | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/circuit_synthesis/mips/Control.v b/circuit_synthesis/mips/Control.v
index 8883dd3..f407e45 100644
--- a/circuit_synthesis/mips/Control.v
+++ b/circuit_synthesis/mips/Control.v
@@ -577,7 +577,7 @@ module Control
 				$display("SLTIU");
 				rs_index<=r1;
 				rd_index<=r2;
-				b_source_out<=`B_FROM_IMM;
+				b_source_out<=`B_FROM_SIGNED_IMM;
 				alu_func<=`ALU_LESS_THAN;
 			end
 			3'b100://ANDI
diff --git a/circuit_synthesis/mips/Data_Mem.v b/circuit_synthesis/mips/Data_Mem.v
index ee8177b..22a25bb 100644
--- a/circuit_synthesis/mips/Data_Mem.v
+++ b/circuit_synthesis/mips/Data_Mem.v
@@ -113,7 +113,7 @@ module Data_Mem
             if(addr[1]==1'b0)
                 data_out <= {{16{memory[addr[L+1:2]][15]}}, memory[addr[L+1:2]][15:0]};
             else if (addr[1]==1'b1)
-                data_out <= {{16{memory[addr[L+1:2]][16]}}, memory[addr[L+1:2]][31:16]};
+                data_out <= {{16{memory[addr[L+1:2]][31]}}, memory[addr[L+1:2]][31:16]};
         end
         `MEM_READ8  :
         begin
@@ -131,11 +131,11 @@ module Data_Mem
             if(addr[1:0]==2'b00)
                 data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][7:0]};
             else if(addr[1:0]==2'b01)
-                data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][15:8]};
+                data_out <= {{24{memory[addr[L+1:2]][15]}}, memory[addr[L+1:2]][15:8]};
             else if(addr[1:0]==2'b10)
-                data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][23:16]};
+                data_out <= {{24{memory[addr[L+1:2]][23]}}, memory[addr[L+1:2]][23:16]};
             else if(addr[1:0]==2'b11)
-                data_out <= {{24{memory[addr[L+1:2]][7]}}, memory[addr[L+1:2]][31:24]};
+                data_out <= {{24{memory[addr[L+1:2]][31]}}, memory[addr[L+1:2]][31:24]};
         end
         default:
             data_out <= 32'b0;
-- 
2.43.0


From 252850aca2bc94676e25fc9ee3c2c017ce648c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:50 +0000
Subject: [PATCH 58/69] fix: stable_match records matched women, frees rejected
 men and reaches woman 0

---
 circuit_synthesis/stable_match/stable_match.v | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/circuit_synthesis/stable_match/stable_match.v b/circuit_synthesis/stable_match/stable_match.v
index 0da0b19..19a251f 100644
--- a/circuit_synthesis/stable_match/stable_match.v
+++ b/circuit_synthesis/stable_match/stable_match.v
@@ -342,6 +342,8 @@ module stable_match_core
   wire propose;
   wire can_propose;
 
+  wire [logW-1:0] wIndex_next;
+  assign wIndex_next = wIndex + 1;
   assign m_assigned = matchListMatrix_rdata;
   assign better = (wPref_rev_Matrix_rdata1 < wPref_rev_Matrix_rdata2);
   assign can_propose = |pc_mIndex & ~mIsMatch_rdata;
@@ -364,7 +366,7 @@ module stable_match_core
 
   assign wIsMatch_addr = w;
   assign wIsMatch_wdata = 1'b1;
-  assign wIsMatch_wen = state==state_do_proposal && wIsMatch_rdata;
+  assign wIsMatch_wen = state==state_do_proposal && ~wIsMatch_rdata;
 
   assign matchListMatrix_addr = w;
   assign matchListMatrix_wdata = m;
@@ -385,7 +387,7 @@ module stable_match_core
           nState = state_select_m;
       end
       state_wait_w: begin
-        if (wIndex + 1 == w) begin
+        if (wIndex_next == w) begin
           nState=state_do_proposal;
         end else begin
           nState=state_wait_w;
@@ -630,10 +632,13 @@ module MIsMatch
       for (k=0;k<M;k=k+1) begin :always_line
         mIsMatch[k] <= 1'b0;
       end
-    end else if (wen1) begin
-      mIsMatch[waddr1] <= wdata1;
-    end else if (wen2) begin
-      mIsMatch[waddr2] <= wdata2;
+    end else begin
+      if (wen1) begin
+        mIsMatch[waddr1] <= wdata1;
+      end
+      if (wen2) begin
+        mIsMatch[waddr2] <= wdata2;
+      end
     end
   end
 
-- 
2.43.0


From 6ef1fc90cea60bd33b41264ed7f7122f20a0c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:25 +0000
Subject: [PATCH 59/69] fix: a23 MLA adds the accumulated register; a multiply
 right after another computes its own product

---
 circuit_synthesis/a23/a23_multiply.v | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/circuit_synthesis/a23/a23_multiply.v b/circuit_synthesis/a23/a23_multiply.v
index 8de06d0..7511e95 100644
--- a/circuit_synthesis/a23/a23_multiply.v
+++ b/circuit_synthesis/a23/a23_multiply.v
@@ -77,7 +77,8 @@ reg  [3:0]  count;
 assign enable         = i_function[0];
 assign accumulate     = i_function[1];
 
-assign o_out   = product;
+// The register to accumulate is on i_a_in in the cycle that stores the result
+assign o_out   = (accumulate && count == 4'd3) ? product + i_a_in : product;
 
 assign o_flags = {o_out[31], o_out == 32'd0 }; 
 assign o_done  = 1'b1;
@@ -88,11 +89,9 @@ always @(posedge i_clk or posedge i_rst) begin
     product <= 32'b0;
     count <= 4'b0;
   end else if(enable) begin
-    count <= count + 1;
+    count <= (count == 4'd3) ? 4'd0 : count + 4'd1; // the next one may follow at once
     if (i_execute && count == 0) begin
       product <= i_a_in*i_b_in;
-    end else if (i_execute && accumulate && count == 3) begin
-      product <= product + i_a_in;
     end
   end else begin
     product <= 32'b0;
-- 
2.43.0


From 464115889e97542986276a6557eb53c954c64864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:25 +0000
Subject: [PATCH 60/69] fix: a23 ADCS, SBCS and RSCS set all four flags

---
 circuit_synthesis/a23/a23_alu.v | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/circuit_synthesis/a23/a23_alu.v b/circuit_synthesis/a23/a23_alu.v
index a54d5a5..bd359c9 100644
--- a/circuit_synthesis/a23/a23_alu.v
+++ b/circuit_synthesis/a23/a23_alu.v
@@ -141,12 +141,7 @@ assign o_out = out_sel == 4'd0 ? b_not            :
                out_sel == 4'd7 ? or_out           :
                                  and_out          ;
 
-wire only_carry;
-// activate for adc
-assign only_carry = (out_sel == 4'd1)  && (cin_sel == 2'd2);
-
-assign o_flags = only_carry ?
-                 {1'b0, 1'b0, carry_out, 1'b0}:
+assign o_flags =
                  {
                  o_out[31],      // negative
                  |o_out == 1'd0,  // zero
-- 
2.43.0


From ea1cbd9c2a2cb5185703ecd3af402e69564d59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:25 +0000
Subject: [PATCH 61/69] fix: a23 TST and ANDS keep the carry when nothing is
 shifted

---
 circuit_synthesis/a23/a23_decode.v | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit_synthesis/a23/a23_decode.v b/circuit_synthesis/a23/a23_decode.v
index bdfb192..53ea240 100644
--- a/circuit_synthesis/a23/a23_decode.v
+++ b/circuit_synthesis/a23/a23_decode.v
@@ -535,6 +535,7 @@ always @(*)
             if ( opcode == AND || opcode == TST ) begin // Logical AND, Test  (using AND operator)
                 alu_out_sel_nxt  = 4'd8;  // AND
                 alu_cout_sel_nxt = 1'd1;  // i_barrel_shift_carry
+                use_carry_in_nxt = 1'd1;
                 end
 
             if ( opcode == EOR || opcode == TEQ ) begin // Logical Exclusive OR, Test Equivalence (using EOR operator)
-- 
2.43.0


From 5a63c2d9d9e977339f97314be7e1c5adf82fae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:25 +0000
Subject: [PATCH 62/69] fix: a23 writes to the pc whose condition is false do
 not branch

---
 circuit_synthesis/a23/a23_execute.v | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/a23/a23_execute.v b/circuit_synthesis/a23/a23_execute.v
index fab593a..c69384d 100644
--- a/circuit_synthesis/a23/a23_execute.v
+++ b/circuit_synthesis/a23/a23_execute.v
@@ -190,7 +190,9 @@ assign barrel_shift_in = i_barrel_shift_data_sel == 2'd0 ? i_imm32       :
 
 // If rd is the pc, then seperate the address bits from the status bits for
 // generating the next address to fetch
-assign alu_out_pc_filtered = pc_wen && i_pc_sel == 2'd1 ? pcf(alu_out) : alu_out;
+// If the instruction that writes the pc does not execute, the pipeline continues
+// with the instruction that follows it
+assign alu_out_pc_filtered = pc_wen && i_pc_sel == 2'd1 ? ((!execute) ? pc_minus4 : pcf(alu_out)) : alu_out;
 
 
 assign branch_address_nxt = (!execute) ? pc_minus4 : alu_out_pc_filtered;
@@ -215,7 +217,6 @@ assign branch_pc_nxt = (!execute) ? pc_minus4 : alu_out;
 // If current instruction does not execute because it does not meet the condition
 // then PC advances to next instruction
 assign pc_nxt = i_pc_sel == 2'd0 ? pc_plus4              :
-                i_pc_sel == 2'd1 ? alu_out               :
                                    branch_pc_nxt         ;
 
 
-- 
2.43.0


From d1cca81c2408f19ba392ad5775beacf8dad4fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:33 +0000
Subject: [PATCH 63/69] fix: output pins of asic_cell_yosys.lib are named as
 the translator reads them

---
 circuit_synthesis/lib/asic_cell_yosys.lib | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuit_synthesis/lib/asic_cell_yosys.lib b/circuit_synthesis/lib/asic_cell_yosys.lib
index cc5ab66..7832ff1 100644
--- a/circuit_synthesis/lib/asic_cell_yosys.lib
+++ b/circuit_synthesis/lib/asic_cell_yosys.lib
@@ -2,18 +2,18 @@ library(demo) {
 	cell(IV) {
 		area: 1;
 		pin(A) { direction: input; }
-		pin(Y) { direction: output; function: "A'"; }
+		pin(Z) { direction: output; function: "A'"; }
 	}
 	cell(XOR) {
 		area: 1;
 		pin(A) { direction: input; }
 		pin(B) { direction: input; }
-		pin(Y) { direction: output; function: "(A^B)"; }
+		pin(Z) { direction: output; function: "(A^B)"; }
 	}	
 	cell(NOR) {
 		area: 5;
 		pin(A) { direction: input; }
 		pin(B) { direction: input; }
-		pin(Y) { direction: output; function: "(A+B)'"; }
+		pin(Z) { direction: output; function: "(A+B)'"; }
 	}
 }
-- 
2.43.0


From e33726d084c7b59b6133441679e4ca080b0cf787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 64/69] Restore non_secret_test.v: test designs stay as they
 were

---
 circuit_synthesis/non_secret_test/non_secret_test.v | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuit_synthesis/non_secret_test/non_secret_test.v b/circuit_synthesis/non_secret_test/non_secret_test.v
index 52bf79f..e27f9d7 100644
--- a/circuit_synthesis/non_secret_test/non_secret_test.v
+++ b/circuit_synthesis/non_secret_test/non_secret_test.v
@@ -60,8 +60,8 @@ module non_secret_test
   )
   _MUX 
   (
-    .A(o_sub),
-    .B(o_add),
+    .A(o_add),
+    .B(o_sub),
     .S(sel),
     .O(o)
   );
-- 
2.43.0


From 66c9295f3d5fc317873b38f8edd070f75e8df5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:03 +0000
Subject: [PATCH 65/69] fix: alpha_table has a linear 32-bit table of its own

---
 circuit_synthesis/cordic/alpha_table.v | 66 +++++++++++++-------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/circuit_synthesis/cordic/alpha_table.v b/circuit_synthesis/cordic/alpha_table.v
index 4a7a93b..088027f 100644
--- a/circuit_synthesis/cordic/alpha_table.v
+++ b/circuit_synthesis/cordic/alpha_table.v
@@ -88,6 +88,7 @@ module alpha_table
         end
       end
       end else if (L==32) begin:L_32
+      if(MOD == `MOD_CIR) begin:CIR
       always @(*) begin
           case(iter)
           00:  alphai = 32'h3243F6A8;
@@ -128,38 +129,38 @@ module alpha_table
       end else if (MOD == `MOD_LIN) begin:LIN
         always @(*) begin
           case(iter)
-          00:  alphai = 32'h80000000;
-          01:  alphai = 32'h40000000;
-          02:  alphai = 32'h20000000;
-          03:  alphai = 32'h10000000;
-          04:  alphai = 32'h08000000;
-          05:  alphai = 32'h04000000;
-          06:  alphai = 32'h02000000;
-          07:  alphai = 32'h01000000;
-          08:  alphai = 32'h00800000;
-          09:  alphai = 32'h00400000;
-          10:  alphai = 32'h00200000;
-          11:  alphai = 32'h00100000;
-          12:  alphai = 32'h00080000;
-          13:  alphai = 32'h00040000;
-          14:  alphai = 32'h00020000;
-          15:  alphai = 32'h00010000;
-          16:  alphai = 32'h00008000;
-          17:  alphai = 32'h00004000;
-          18:  alphai = 32'h00002000;
-          19:  alphai = 32'h00001000;
-          20:  alphai = 32'h00000800;
-          21:  alphai = 32'h00000400;
-          22:  alphai = 32'h00000200;
-          23:  alphai = 32'h00000100;
-          24:  alphai = 32'h00000080;
-          25:  alphai = 32'h00000040;
-          26:  alphai = 32'h00000020;
-          27:  alphai = 32'h00000010;
-          28:  alphai = 32'h00000008;
-          29:  alphai = 32'h00000004;
-          30:  alphai = 32'h00000002;
-          31:  alphai = 32'h00000001;
+          00:  alphai = 32'h40000000;
+          01:  alphai = 32'h20000000;
+          02:  alphai = 32'h10000000;
+          03:  alphai = 32'h08000000;
+          04:  alphai = 32'h04000000;
+          05:  alphai = 32'h02000000;
+          06:  alphai = 32'h01000000;
+          07:  alphai = 32'h00800000;
+          08:  alphai = 32'h00400000;
+          09:  alphai = 32'h00200000;
+          10:  alphai = 32'h00100000;
+          11:  alphai = 32'h00080000;
+          12:  alphai = 32'h00040000;
+          13:  alphai = 32'h00020000;
+          14:  alphai = 32'h00010000;
+          15:  alphai = 32'h00008000;
+          16:  alphai = 32'h00004000;
+          17:  alphai = 32'h00002000;
+          18:  alphai = 32'h00001000;
+          19:  alphai = 32'h00000800;
+          20:  alphai = 32'h00000400;
+          21:  alphai = 32'h00000200;
+          22:  alphai = 32'h00000100;
+          23:  alphai = 32'h00000080;
+          24:  alphai = 32'h00000040;
+          25:  alphai = 32'h00000020;
+          26:  alphai = 32'h00000010;
+          27:  alphai = 32'h00000008;
+          28:  alphai = 32'h00000004;
+          29:  alphai = 32'h00000002;
+          30:  alphai = 32'h00000001;
+          31:  alphai = 32'h00000000;
           default: alphai = 32'b0;
           endcase
         end
@@ -203,6 +204,7 @@ module alpha_table
           endcase
         end
       end
+      end
   endgenerate
 
 
-- 
2.43.0


From d19fb6e99e44a54ef6776c7c01cbcbe966fc4e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:18 +0000
Subject: [PATCH 66/69] fix: elfsplitter takes room for the whole image and
 clears it

---
 a23/tools/amber-elfsplitter.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/a23/tools/amber-elfsplitter.c b/a23/tools/amber-elfsplitter.c
index e97ad1e..8fbf24c 100644
--- a/a23/tools/amber-elfsplitter.c
+++ b/a23/tools/amber-elfsplitter.c
@@ -229,6 +229,7 @@ int main(int argc,char *argv[])
    int infile_size;
    int boffset;
    int max_out = 0;
+   size_t out_size = 0;
    
    if (argc<2){
       printf("%s ERROR: no input file specified. Quitting\n", argv[0]);
@@ -244,7 +245,6 @@ int main(int argc,char *argv[])
    infile_size = fsize(infile);
    
    inbuf =(unsigned char*)malloc(infile_size);
-   outbuf=(unsigned char*)malloc(infile_size*2);
    buf_size=fread(inbuf,1,infile_size,infile);
    fclose(infile);
 
@@ -306,6 +306,21 @@ int main(int argc,char *argv[])
          }
       }
 
+   /* The image needs room up to its highest address, and what no section fills is zero */
+   for(i=0;i<elfHeader->e_shnum;++i) {
+      elfSection=(Elf32_Shdr*)(inbuf+elfHeader->e_shoff+elfHeader->e_shentsize*i);
+      if ((elfSection->sh_type == SHT_PROGBITS || elfSection->sh_type == SHT_NOBITS) && elfSection->sh_size != 0
+            && (size_t)elfSection->sh_addr + elfSection->sh_size > out_size)
+         out_size = (size_t)elfSection->sh_addr + elfSection->sh_size;
+      }
+   
+   /* the last words printed can lie up to 7 bytes behind it */
+   outbuf=out_size < 0x7ffffff0 ? (unsigned char*)calloc(out_size+8,1) : NULL;
+   if(outbuf==NULL) {
+      fprintf(stderr, "%s ERROR: No memory for an image of %lu bytes. Quitting\n", argv[0], (unsigned long)out_size);
+      exit(1);
+   }
+
    for(i=0;i<elfHeader->e_shnum;++i) {
       elfSection=(Elf32_Shdr*)(inbuf+elfHeader->e_shoff+elfHeader->e_shentsize*i);
 
-- 
2.43.0


From 7a49ec54adb695ee5cfc2d140513090b2e0e1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:18 +0000
Subject: [PATCH 67/69] fix: elfsplitter takes section names from the
 section-name string table

---
 a23/tools/amber-elfsplitter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a23/tools/amber-elfsplitter.c b/a23/tools/amber-elfsplitter.c
index 8fbf24c..2dfd948 100644
--- a/a23/tools/amber-elfsplitter.c
+++ b/a23/tools/amber-elfsplitter.c
@@ -300,7 +300,7 @@ int main(int argc,char *argv[])
    */   
    for(i=0;i<elfHeader->e_shnum;++i) {
       elfSection=(Elf32_Shdr*)(inbuf+elfHeader->e_shoff+elfHeader->e_shentsize*i);
-      if (elfSection->sh_type == SHT_STRTAB && !StringSectionOffsetFound) { 
+      if (elfSection->sh_type == SHT_STRTAB && i == elfHeader->e_shstrndx) { 
          StringSectionOffset      = elfSection->sh_offset; 
          StringSectionOffsetFound = 1;
          }
-- 
2.43.0


From 65edee1b96f1c693e6fe3c54d23bc7a75cbd12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:35 +0000
Subject: [PATCH 68/69] fix: elfsplitter refuses files whose headers point
 outside the file

---
 a23/tools/amber-elfsplitter.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/a23/tools/amber-elfsplitter.c b/a23/tools/amber-elfsplitter.c
index 2dfd948..edd777a 100644
--- a/a23/tools/amber-elfsplitter.c
+++ b/a23/tools/amber-elfsplitter.c
@@ -211,7 +211,8 @@ int main(int argc,char *argv[])
    unsigned char *outbuf;
    int buf_size;
    unsigned int length,i;
-   unsigned int StringSectionOffset;
+   unsigned int StringSectionOffset = 0;
+   unsigned int StringSectionSize = 0;
    unsigned int StringSectionOffsetFound = 0;
    unsigned int outP;
    
@@ -260,6 +261,11 @@ int main(int argc,char *argv[])
       argv[0], argv[1], infile_size);
       }
       
+   if(infile_size < (int)sizeof(ElfHeader)) {
+      printf("%s ERROR: Not an ELF file.\n", argv[0]);
+      exit(1);
+   }
+
    elfHeader=(ElfHeader*)inbuf;
 
 #ifdef DEBUG   
@@ -281,6 +287,23 @@ int main(int argc,char *argv[])
       exit(1);
    }
 
+   /* the headers and what is copied or printed from them have to lie in the file */
+   if((size_t)elfHeader->e_phoff + (size_t)elfHeader->e_phentsize*elfHeader->e_phnum > infile_size
+         || (elfHeader->e_phnum != 0 && elfHeader->e_phentsize < sizeof(Elf32_Phdr))) {
+      printf("%s ERROR: Invalid ELF file.\n", argv[0]);
+      exit(1);
+   }
+   for(i=0;i<elfHeader->e_shnum;++i) {
+      size_t header = (size_t)elfHeader->e_shoff + (size_t)elfHeader->e_shentsize*i;
+      elfSection=(Elf32_Shdr*)(inbuf+header);
+      if (elfHeader->e_shentsize < sizeof(Elf32_Shdr) || header + sizeof(Elf32_Shdr) > infile_size
+            || ((elfSection->sh_type == SHT_PROGBITS || (elfSection->sh_type == SHT_STRTAB && i == elfHeader->e_shstrndx))
+               && (size_t)elfSection->sh_offset + elfSection->sh_size > infile_size)) {
+         printf("%s ERROR: Invalid ELF file.\n", argv[0]);
+         exit(1);
+         }
+      }
+
 #ifdef DEBUG   
    printf("Debug: elfHeader->e_phnum=0x%x\n",elfHeader->e_phnum);
 #endif
@@ -302,6 +325,7 @@ int main(int argc,char *argv[])
       elfSection=(Elf32_Shdr*)(inbuf+elfHeader->e_shoff+elfHeader->e_shentsize*i);
       if (elfSection->sh_type == SHT_STRTAB && i == elfHeader->e_shstrndx) { 
          StringSectionOffset      = elfSection->sh_offset; 
+         StringSectionSize        = elfSection->sh_size;
          StringSectionOffsetFound = 1;
          }
       }
@@ -328,7 +352,9 @@ int main(int argc,char *argv[])
         boffset = elfSection->sh_offset & 3;
 
         if (elfSection->sh_type != SHT_NULL) {
-          printf("// Section name %s\n", (char*)(inbuf+StringSectionOffset+elfSection->sh_name));
+          /* a name ends within its table */
+          length = elfSection->sh_name < StringSectionSize ? StringSectionSize - elfSection->sh_name : 0;
+          printf("// Section name %.*s\n", (int)length, (char*)(inbuf+StringSectionOffset+(length ? elfSection->sh_name : 0)));
           printf("//  Type %s, Size 0x%x, Start address 0x%08x, File offset 0x%x, boffset %d\n",
               pSHT(elfSection->sh_type), 
               elfSection->sh_size, 
-- 
2.43.0


From 19bea247563064851f5ee4d292c5d358c8ec13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:21 +0000
Subject: [PATCH 69/69] fix: build elfsplitter from its source, the binary kept
 here crashes on zero data

---
 a23/tools/amber-elfsplitter | Bin 13416 -> 0 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)
 delete mode 100755 a23/tools/amber-elfsplitter

diff --git a/a23/tools/amber-elfsplitter b/a23/tools/amber-elfsplitter
deleted file mode 100755
index 7d7b37696f8c0df26e9f0f4b5596200fe88f35d7..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 13416
zcmeHOYj7M@cD^&CvE>JnYzq*W;07$#rtlyeLu9;(dt^y&fh-9<zy?ffq?xe>Ml-5;
z7?~_VW)Lt8CMpP9hCjGSYL}4Rh1vwxMXhatS&5`}vm#ZYfL&4w1(XJ{#5|T2#4!2J
zeYAR7qs?xrQu)JGb)S2_^SI}pzJ0rI&(+;ct<7$ii>cyff6j=jD%UwA&Wz1m&RL1o
zvt>+Y7qYc%2@o$1olA&{nxb>kwW8%x&jVV9quwomdbiFiie4aKrl^XLD780VbXgVj
zp&G#|%9zFhvZGk5F61m|FRv&%Cgad4FkUo%CYbCtNV^TvPSGhDn4+qG)Hgc1rQdG1
z4vu)82y5i$c}lueI^IhKsXl!UXF+vdQM6USOi^WbJ?tpXKeSXy#ZKAYVtF|&`=_X6
z*%i@9-_={Mhz2)BBeC@Grs4XlH(kBemyG+i@P3nj(%se8!&_2$)WA{9)i@~CB>&~)
zPk&tLdF1&uxm(`({@-5k)OX8<%1K}O;QbN}^K25n?US4u8sHX|G@#WBVMb{!g|A-(
zr|3)R>x<wU7r}2?1n*x2zj+ayhGD6A?gXykaF$&FO6gy-2u`^zrN3ekybbs&b{-qo
zdQoFcjemym(NDwSY8D!fq*ypU6pFEADiP}+9Ae>AC>mu$=~R-LW-=A%zuoK~xZMl~
zB2gAjhC;WqaDOzO46(sLG#c-RT`-hLuy7(22(s`{A`(l5VM%R}c_L*F1|l(%hXC&%
zjK?HwvR$n$4Li*(zO7bmi|;Cm)NTEFtePDq9U8-KK8`6bRH`G9vuNaIQ70^Yeq<S0
zJxW59xplpq(wL>3siN{jbC>c(vKpDUrKqcWi*U_`%PE9lw!wybI3iAUHeAgKB&oOI
z_IXpc;r4mMu;CPwDjhc5y2cRhvEfLBReEjsatmc_z=qrNGi1Y8+VqEQI1+D_5gT4%
zp^QCX!z*pLk@>LP$a%fzY0MZMPkCofL1<)NDJN<xg{wZP(O9AOGn^~e>8KGuKpOe!
z0!r-%#M7n9PjUVo;^`9Q$2tEN@gCxz<NUu8PnRTrl=J^gJY9<X80TLmo-RRtg!3;F
zPpQujasJ1|Q_AzboPUORN_D=2^G^{^DbDMhe}Z^QZN854j}T8O&1;;0ka$XEzKZkr
z5Kk%0Gw_>#(~^DdRwMh4k$LxYM|aEQxK^z*WAdfv))1N8wo+#^H$w5VaOJv2#*Td-
z3GXpB9R)Ema}`GRy#s5H!5dHWs(mL(P?(1Dy#%s-rzopopW;uDyvI275qI#?*B&@9
zvZsxgW_B2^3FEb|Q)gS=Rw!?k>)=PUKk{cT#Lv>JdSEycLty(RydRybG1sTOrIQ*S
z*hXdtOM7P@g`MT>V=^dA?aSW@8>$=GyJoWKce6dyxt@28T+@u<n#!?k)0te;nJ~<<
zFXx)3D}OS+Y>F_Y0`N@Mz3&ux$li4(bJv+QmG}P(h68XTSN5}dWUnx79P2W=&9<J_
zRwL`pBDx9hgE+JNv(Oa6j?VU75Jmw{dT+zIp{2WP!n>cVJz%MI?cLoCwI;yfNpB;F
zzhT0=gKPE8Yjt;$);gheq0~B$Ykk|&>TGKDL+gukD4s8IX8CoN(C~K|5dNAA-{wNM
zC2ZW=MwTZ5PkN8zyt`#5%fExWLiV)1y9x3qx$#kM{4<-dp#{Qw0HX_sK&YeN;aX2x
zS_qCo>lVQItc7+Ntz_FQY@0wDSpGIkjJUcW{+1A53bJ?ig!dv)mT$DQdfKjQgO&^M
zq_=Rk#@cUe+l)}YM0E?xuXQTE0esT?`n=+6s9wqPpD@+mmbMnk_p@B_hd7)5&Q5rI
z8dd+^3Gd&4vi!@IelrZ9e>c~^YhHg?>L<DWBbI(gXA|kS12&GKEpks6pcw#~X#&~H
zW<w(RyE@x38od__*+n27Y_>(n<nUPn&^YFAFuRPl#ywE}s+z{Y*EqA;3*|NJ*-aPV
zSHNahOnQF_x?{%<Hg=3%)Qj7X2E4z=-`!;#`fvt;W{<DLjbvn>r&%P3p<la!!p}Cn
zv3Y!Ql%^iAY@%rd#~~c|;K<;(7sn`@9K9SGNIWxgqvXNJ>E%Xt)IfD|bc3|c@HSj`
zUur3#fr*oERO{ltp83(2g~CblGPC}_$cJ#18OPMmPI%AOp*}hD1(e{LW=|t?oCr&A
zEz+%0T#oxMhasOgX4)+OuaJ|RZ~~tdn8356G~wp>**HQi#YIbdEZ8+J1UCpluO%@0
zr;OZT9#U?U^iS|yz{lTzQ7B|bw*s;?_dS3)4sPeorFN@`d0)|8nMCx&`{rtm<&Kkw
z-18KnKl_D0d-_D3NQdayV{j-EH;dY#<D`c)y8iMS<*J0^5ppbDo<1>R_tyk3u%w<K
z)dNIwf@H>BFM8nm#GCSRJTq4);E7zP8WK5w+sgS{ke_7d;IT7CHGXxQg?sW_`4fG0
zI5W2)<roxOU?KYUxMfxev&qpK(Kj}GlZ+{+UyyxS*5U3lO!Ae_a<%NZ;UdW%>VRts
zT^SNxA(HE$JoB1f?V8Gt)&tCNJJ-Co%i(Q12k#iOwLK&?a=K=3+xPq09u{pA$?0X8
zIZyhM%yE8arO$^ufmdZmFMxu$<tSMTBC4|@s=WUISFOPrnk>JKW_WR-{?~z3Wu`sZ
z(Qm`06;s*hc;&tH{Lei`u_>G_NbkhScI&de^SPzjm>a-A<{fOz^{!O*d#Y7UFT<U3
za1I99i5zd+pM9w*JJXo`kL+6~2P~ft&->&VbXAT%gRm?&)fDIvAd{o(Wlm-fC}~Gk
zj-zy`bz3(&R?g#%z;ln$8CG<AWBlX}OYJ?Jf3@-j_JBLbC$;UPq?&{SqFIh*L?fzI
zy?Q$bD(_E`xw_1_{N<IS_c(%2rB41M-6`SU(g;`&11PZBR%P}-ggP~WOZ3MEcE?k{
zcZB`$D|;yU9OB76Mv++wnnFS<Uzig~#Pq=L2a!7=I;}+R1)^7#$g@B+B}8Jj!&73?
z8U+u0M)xVjP$qht8TY6p^LEw5H97Our}Kegh<yZ>Pbx-k-y1>W$_w~I4y%b;xHJyE
zLJz{5{kQn{iRU909U8q>8hD$05w{jQfrCGTLZnacm~grgb-Yq?C6Zf8Is|x){HIg%
zughcp8~r!<vjuwcwjQo+Tdv{d`S2#9T`k$qTeAPQ`B$wQ-{Y&Dm%j4Mcq#tT-=r>7
z@7t}}4_dRIH^M`q`qxJ0l*`yQoBn_nLO1WD!2P%S%~NCZ4SsqG0n^$^E|q9KOeMTb
z=QJbfGm=h8`njZQmJ7W)NjoGRl=M+a|4!0ZCH+X!b5{s^UD6>*k4pLrN%N9cV|_xU
zHmNmrcD8q3qs8J{B!*87S~wC7Y005be<U0U1%2A}=}0OSiS1v`5`8xPoq^c5QW|}(
z&}x%*Er;J0?iB5CztK=^e`-LBB(>V0)^{)!N@~$~Z2#q2UpgEPB{ceSL3J}3xibVE
zwI+uBjsDKImbP8jXn&x`{qU87%hW(1ruD_+sZG&%0N+Qne(=D8=;m^U@4B{5wZ&5!
zqyTxiKGi(yNrvDkr1i%WiBNw^>rcd!NpOQh$W}rN#}nFMWXP5Wo70xqfj~48w0phc
z3atxnBJr3O3k;&8N!bzvTKB;rLN3?3C<k@JwZo{=*BdPm3?@Qo7g$|A&}O<+@i0CG
zrKDb;<S29S<?DlXV|s8%yD5Z-nND_EZQT|)m_N|AYprKHeJd@;QFppfpvk@N<3eEo
z^wLiXg>ldU&}q=Um^JAm%)v8-!UoVOPy<xQ6gEbWQj}^znCs3?<{GYYtzEgae9X19
zig5ZMIgU0ilR897>oc|<GSVOWPthi;sA{gLxwdk}9pxiz$NAeYyK?=-WKTL+X0uxn
za{~eXimLnEJI`8j7a9gj@*s{8$UmlAQ^`Fax=DlDxfjRvm`gPJs-WbphdmFKWxSrs
zrQ8wu`2mg=yf;(6EIs!wE~glNj$;J!5Xl=Vs{YE|P*L-+r>R0aT-H#r;UTY4QFq@G
zqoO{uw7o(fs;Ku@)cGqmG*oENgMLFrInPHma``m;h?#_(eN(>4z&9EACIjDO;Qu=V
z)8#r3VO&xbk9_=Dzfr7|f|(^kUwxZjk8d$l&f{nLy|tIu)=Hk9Syav!gw;qnJ%6Yu
z`ES22#EC!R)`?iZ`R*wbJbf^yGVa!KW(<#dUY?Y6g`_o-o-L^&^a+9&e14{)o<;o2
zK6v%qR=<Iq%eC<Q^Xj~&@D9nVxa*|eGD%hYUl&AwG^vlp2k)QCD_$EoKPUSq&HvAd
z`W@TZ(4|Xt4qYv2v!pjj8kY2cr1wesT}i(u=?juhNcy^@?@Ri*q)Qy*O~tco=gw=i
z4LyD7SSqb;^=<QAx#_Aj=QeK?JY&A(!NF9Z4>Xk!bU@YcLt!W}#C)-MD&+Gwv}{TR
z_DgPmEbZ${NAL@FB*=Wk4Fr+{%ojWugFiu22_ZQUN+j`4Tf~@<B|^~v8OYjDG{t<8
z7=G^br9#6vhrvJ=4+c^J<_is&;RN1_&4D0n6(=mrKq3)1C@fU{wtlF=dtflqkEY{r
zh?9@EB0S<PnECLsJ{XFnRK^yk9^Ae4Zhe6Q{r=fq68ErFNxaOuFYV4exJ$=N>MvpH
zzAe^Y%1VuQ4`u;%pA_paW9oh@#+O_7Wih^jsrjiGU&*TExGTobvi7|c;}uNJYsGja
ztCRCxF<xcu+bG6YvAT10JH+cA{Nk?WNxRU))>!jnF<#B+XDw&(u(PpGr4)V+Q@=~w
zZ9ELKnw<ZN@ftQ(5}*H_zgS<*=JP1cYh~<X{{3klWsII1F3hgZ`007!W@j<oF%S48
zKH|Xr5_dkQZsh*YW3S5i)%+Uf_`-Z1mVTxk{vYT13$M#D;HCPtSbu5F<iZY#2WoWG
z=F3~CmdXQZl=A;RH(kA8Jp7LPDRJF-#}~%G2Dq!lb>9elHS$lt_EJ&L!)+YrP|@kS
zMettWT9Kw;zQgf_<LdrJ{5-x0{sZ8&--LdIqSC?7j6Dy$iq$as8QETbx`-dzueF*j
zysuwhME{dT@Fhr8sr@pwz$qT*eY9l}{auUTHv!k|9g_73@Kx>_cEr)&1KiJ9%#h#T
z_%{LA`~~T=`T43$`gu_5)6e@<Lj26w6C9U}jr<6B74qM4QLhbU>>s2bwQuk;DW%Vz
zrSkI&>Bo7!-jsf5p8*yA%>wk_CB9e2*~+Diy}OA2-vQU8j-9OVh;hC|=BGgl*Kpjf
zDeASrDbLP0Hv`ues<Z33pM}qz>&XxDHm>z@EA_s}`V*;S3f~BQ{n)v5?aofKwWX`u
zG#NhVh4x31czrQbgC=%E#X?C|0y52D+}t0H_XVP6FcnWE%|LpX(FeR}D230Qf4XJc
zW_T{4WYXJ-c-JuT{*X9`{ZsUI5=;*c9)yXFGwG$KNHs9n7fNgjMZ?LVC_bZx5<LFq
zPXF#Ev#G5S9T2@y^&$sBX3`D<+B9I=UGuG6%-q%5-r#RF+nbxan!3$ye?w~%x#PRN
z`jcrMH{a`}>uPrw?dg)6%Zfp>rF*wIpUdvuJ1LXhfxc*n(L0pbC&ss;6&v!sX2lTS
z!+{PmGsIuN#2&R`9TA*!Q`@}GRwj0@%_9{0f~{;$u`N`&{jFGoZ>TGV9Q)uf1d?%6
zd>&>)=n6Ai+R^)9Bxa_QAzYIA1k=TmTkjk`Loq0d%f$ETIm9MjNTpb8$fK{_V(*_r
z^V$PurySoqqk&`+gBu@v&1n1%zF*LxZQ{DAVMP~I-3LXNlaD01Rj}B;#C`h5LbQIx
zBfxqts`qHMe_5?xm0!}emrKCVni10yFY0|;?GM%@u85kS6~7r3yS;iZPf3UCm7=6h
z`$pjS@iVU4KjPN8<`IXzm!tFRaLKYZRA^1D?8n_YI9h*m!j8xe)4H6hYJRH`Vs-;4
zra;SHtq1nVK-Icks&gNzPV`nBv}RWAt98Siw7*y?tN4|kqPIg%YjDM@^@S!4)Vkdn
zzjVv)M1`7C_G%r{;jmZjJNtjHv~Q3ON91>a5ow^lI}l6n$WHr*fl*#5J}PQmGa~`#
z8@No1P{uin!)~wEKUFlSsL1Ol7<$HwqUc{s71h3a&R5AmS5wfoqU;p(1S<CS)p}}u
zwa`%COO(Dd{-e@f<zKD4>ZJX%N+2Dm{3(A=JM5>=(YZ+NvsdpEO5fT33l4j=j;oU&
zhHi1>&)NPs>??54JwQdR_td_7r@oW_Ic#V@tFl+$&1z^vIEqu>$-e;|3Q^gs^_TVs
z+P@83y7tOmtuxjCMbP^+6*WFo`)VA#51GAvwH}>Y$ITXvU-_AJ*fXtH7;1uy31Xd<
zouZ#XVsBr)myc<}M8&BbC_BY}i3(w=|LQ&Ns3tU=?dt-z&a@Dw_UkM}RFwTC4xDtU
zD7p%D)ixK%(<x0<%9WzT9W3|bxJ9_;)J4MJIXMsf3D`|IRR7idP4{Q1_D41f`;bHE
HZ2!Ljk?!EW

-- 
2.43.0

