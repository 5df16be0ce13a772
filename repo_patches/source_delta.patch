From db1c53331af54f031da35713bcb3c69d883e33f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 01/36] fix: signextend beyond 64 bits and at byte 31

---
 stdlib/chain.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 327c232..7ea9ad9 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -889,15 +889,15 @@ void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
   // the original value's sign bit, and extends the bits preceding the specified
   // byte count (b) according to the most significant bit's sign.
   uint256_t value = *value_ptr;
-  if (bits > 31) {
+  if (bits >= 31) {
     *result = value;
-    return; // If b is greater than 31, return the original value
+    return; // If b is at least 31, return the original value
   }
   // Calculate the number of bits to extend
   unsigned int bits_to_extend = (bits + 1) * 8;
 
   // Create the mask for the sign bit
-  uint256_t sign_bit_mask = 1ULL << (bits_to_extend - 1);
+  uint256_t sign_bit_mask = ((uint256_t)1) << (bits_to_extend - 1);
   uint256_t extension_mask = ~((((uint256_t)1) << bits_to_extend) - 1);
 
   // Check the sign bit
-- 
2.43.0


From b24bee9fb6635e429cad181af73d9f80c1bcff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 02/36] fix: calldataload at and past the end of the calldata
 reads zeros

---
 stdlib/chain.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 7ea9ad9..dcb3df4 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -95,7 +95,9 @@ static void cachedCallDataCopy(int32_t /* uint8_t* */ memory_ptr,
 void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
   uint32_t calldata_size = cachedCallDataSize();
   uint8_t data[32] = {0};
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset >= calldata_size) {
+    // Nothing to read, every byte is past the end of the calldata
+  } else if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
@@ -107,7 +109,9 @@ void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
 }
 void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {
   uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset >= calldata_size) {
+    __memset(result, 0, sizeof(bytes32));
+  } else if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
-- 
2.43.0


From 437cf6ec76a788bd427d0b3e68e872823284d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 03/36] fix: signed word comparisons compare the words' own
 bytes

---
 stdlib/chain_math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 2643626..0f53ebe 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -58,9 +58,9 @@ BOOL wrapper_bytes32_slt(const bytes32 *a, const bytes32 *b) {
   // If signs are the same, perform comparison based on magnitude
   // For signed comparison, the rest of the bytes are compared normally
   for (int i = 0; i < 32; i++) {
-    if (a[i] < b[i]) {
+    if (a_bytes[i] < b_bytes[i]) {
       return 1; // a is smaller
-    } else if (a[i] > b[i]) {
+    } else if (a_bytes[i] > b_bytes[i]) {
       return 0; // a is larger
     }
   }
@@ -81,9 +81,9 @@ BOOL wrapper_bytes32_sgt(const bytes32 *a, const bytes32 *b) {
 
   // If signs are the same, perform comparison based on magnitude
   for (int i = 0; i < 32; i++) {
-    if (a[i] > b[i]) {
+    if (a_bytes[i] > b_bytes[i]) {
       return 1; // a is larger
-    } else if (a[i] < b[i]) {
+    } else if (a_bytes[i] < b_bytes[i]) {
       return 0; // a is smaller
     }
   }
-- 
2.43.0


From c51240bffd03d70e091aee55652b5539d587f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 04/36] fix: word shift left of small values treats the word as
 big-endian

---
 stdlib/chain_math.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 0f53ebe..9b89896 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -158,12 +158,13 @@ void wrapper_bytes32_shl(const bytes32 *value, int32_t shift, bytes32 *result) {
     if (shift <= 32 && value_as_u64_array[0] == 0 &&
         value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0 &&
         value_as_u32_array[6] == 0) {
-      uint64_t last_u64 = ((uint64_t)value_as_u32_array[7]) << shift;
+      uint64_t last_u64 =
+          ((uint64_t)__builtin_bswap32(value_as_u32_array[7])) << shift;
       uint64_t *result_as_u64_array = (uint64_t *)result;
       result_as_u64_array[0] = 0;
       result_as_u64_array[1] = 0;
       result_as_u64_array[2] = 0;
-      result_as_u64_array[3] = last_u64;
+      result_as_u64_array[3] = __builtin_bswap64(last_u64);
       return;
     } else {
       // TODO: optimize this
-- 
2.43.0


From bdb6973682b1d5dfd1e95616b18c32fd380df883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 05/36] fix: codecopy up to the last code byte

---
 stdlib/chain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index dcb3df4..946800f 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -261,7 +261,7 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
 
   int32_t cur_code_size = getCodeSize();
 
-  if ((evm_memory_offset + size) < cur_code_size) {
+  if ((evm_memory_offset + size) <= cur_code_size) {
     // Copy current WASM contract bytecode
     codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
     return;
-- 
2.43.0


From 5b59b333ce78404df11c179e902582ca240d03f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 06/36] fix: grow EVM memory before it is read or handed to the
 host

---
 stdlib/chain.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 946800f..c56ed8a 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -67,6 +67,15 @@ static void u64_to_big_endian(const uint64_t value, uint8_t *memory_ptr) {
   }
 }
 
+// EVM memory [offset, offset + size), grown when it is not accessible yet.
+// Negative offsets name embedded data, empty ranges touch no memory.
+static uint8_t *evm_memory_range(int32_t offset, uint32_t size) {
+  if (offset >= 0 && size > 0) {
+    evm_make_sure_memory(offset + size);
+  }
+  return evm_get_memory_addr(offset);
+}
+
 static int32_t cachedCallDataSize() {
   static int32_t cached = -1;
   if (cached < 0) {
@@ -233,7 +242,7 @@ void wrapper_self_balance(uint256_t *result) {
 }
 
 void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
-  uint8_t *error_msg_ptr = evm_get_memory_addr(error_msg_evm_mem);
+  uint8_t *error_msg_ptr = evm_memory_range(error_msg_evm_mem, size);
   revert((ADDRESS_UINT)error_msg_ptr, size);
 }
 
@@ -359,12 +368,12 @@ void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
 }
 
 void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   u256_from_big_endian_bytes(memory_ptr, result);
 }
 
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
   uint32_t result = 0;
   for (int i = 0; i < 4; i++) {
@@ -374,7 +383,7 @@ uint32_t wrapper_mload_u32(int32_t evm_mem) {
 }
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   // Read 8 bytes in big-endian order from the last 8 bytes of the 32-byte slot
   uint64_t result = 0;
   for (int i = 0; i < 8; i++) {
@@ -384,7 +393,7 @@ uint64_t wrapper_mload_u64(int32_t evm_mem) {
 }
 
 void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   // Copy all 32 bytes directly
   memcpy(result, memory_ptr, 32);
 }
@@ -497,12 +506,12 @@ void wrapper_loadimmutable(uint256_t *slot_ptr, uint256_t *result) {
 }
 
 void wrapper_keccak256(int32_t evm_mem, uint32_t size, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, size);
   keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
 }
 
 void wrapper_return(int32_t src_evm_mem, uint32_t size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(src_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(src_evm_mem, size);
   finish((ADDRESS_UINT)memory_ptr, size);
 }
 
@@ -512,14 +521,14 @@ void wrapper_decode_big_endian_i256_from_wasm_mem(uint8_t *wasm_mem,
 }
 
 void wrapper_log0(int32_t data_evm_mem, uint32_t data_size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
   uint32_t num_topics = 0;
   emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);
 }
 
 void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
                   bytes32 *topic0_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
 
   uint32_t num_topics = 1;
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
@@ -530,7 +539,7 @@ void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
 
 void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -543,7 +552,7 @@ void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 
 void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -559,7 +568,7 @@ void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 void wrapper_log4(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr,
                   bytes32 *topic3_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -578,7 +587,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_memory_range(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -606,7 +615,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_memory_range(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -691,7 +700,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_memory_range(in_evm_offset, in_length);
 
   int32_t retCode = callContract(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)&value_bytes,
@@ -708,7 +717,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
                          int32_t in_evm_offset, int32_t in_length,
                          int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_memory_range(in_evm_offset, in_length);
   int32_t retCode = callDelegate(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)in_offset, in_length);
 
@@ -723,7 +732,7 @@ int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_staticcall(uint64_t gas, bytes32 *callee_addr_ptr,
                        int32_t in_evm_offset, int32_t in_length,
                        int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_memory_range(in_evm_offset, in_length);
   int32_t retCode = callStatic(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                (ADDRESS_UINT)in_offset, in_length);
   if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
-- 
2.43.0


From c105811dd21e54fe9cc084bc7e24d779d7a6bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 07/36] fix: mcopy of overlapping ranges, and growth for its
 source

---
 stdlib/chain.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index c56ed8a..c4fd659 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -399,10 +399,17 @@ void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
 }
 
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
-  evm_make_sure_memory(evm_dst + size);
-  uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
-  uint8_t *src_memory = evm_get_memory_addr(evm_src);
-  memcpy(dst_memory, src_memory, size);
+  uint8_t *dst_memory = evm_memory_range(evm_dst, size);
+  uint8_t *src_memory = evm_memory_range(evm_src, size);
+  if (evm_dst <= evm_src) {
+    memcpy(dst_memory, src_memory, size);
+    return;
+  }
+  // The ranges may overlap, copy from the last byte down
+  while (size > 0) {
+    size--;
+    dst_memory[size] = src_memory[size];
+  }
 }
 
 void wrapper_sstore_u256(uint256_t *slot_ptr, uint256_t *value_ptr) {
-- 
2.43.0


From 9e595d192368029416775abac54a3fd0ed67f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 08/36] fix: created addresses are zero-padded to a full word

---
 stdlib/chain.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index c4fd659..5977098 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -612,6 +612,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
                      wasm_code_length + 4, (ADDRESS_UINT)calldata_mem,
                      calldata_length, 0, 0, 12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create contract failed", 22);
@@ -643,6 +644,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
       (ADDRESS_UINT)calldata_mem, calldata_length, (ADDRESS_UINT)&salt_bytes, 1,
       12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create2 contract failed", 23);
-- 
2.43.0


From 801d27333711ef97154eeeb96b22fac475283613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 09/36] fix: a failed call yields 0 and its return data instead
 of reverting the caller

---
 stdlib/chain.c | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 5977098..e1ad94c 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -652,34 +652,14 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
 
 BOOL write_call_data(int32_t call_status, int32_t out_evm_offset,
                      int32_t out_length) {
-  if (call_status == 2) {
-    revert((ADDRESS_UINT) "call contract failed", 20);
-    return 0;
-  } else if (out_length == 0) {
-    return call_status == 0 ? 1 : 0;
-  } else {
+  if (out_length != 0) {
     int32_t ret_data_size = getReturnDataSize();
-    if (ret_data_size < out_length) {
-      if (call_status == 0) {
-        // success call
-        wrapper_returndata_copy(out_evm_offset, 0, ret_data_size);
-        return 1; // true
-      }
-#define MAX_REVERT_LENGTH 1024
-      static uint8_t tmp_revert_data[MAX_REVERT_LENGTH] = {0};
-      if (ret_data_size == 0) {
-        revert((ADDRESS_UINT) "call failed with no revert data", 31);
-      } else if (ret_data_size <= MAX_REVERT_LENGTH) {
-        returnDataCopy((ADDRESS_UINT)&tmp_revert_data, 0, ret_data_size);
-        revert((ADDRESS_UINT)&tmp_revert_data, ret_data_size);
-      } else {
-        revert((ADDRESS_UINT) "out length is not enough", 24);
-      }
-    } else {
-      wrapper_returndata_copy(out_evm_offset, 0, out_length);
-    }
-    return call_status == 0 ? 1 : 0; // true or false
+    // Succeeded or not, the output area receives what the callee returned
+    wrapper_returndata_copy(out_evm_offset, 0,
+                            ret_data_size < out_length ? ret_data_size
+                                                       : out_length);
   }
+  return call_status == 0 ? 1 : 0; // true or false
 }
 
 static BOOL is_precompiled_contract(bytes32 *callee_addr_ptr) {
-- 
2.43.0


From 6e0abd5c1f8fcbc329e861d362bffacbefd3b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:30 +0000
Subject: [PATCH 10/36] fix: int32_to_str of INT32_MIN

---
 stdlib/utils.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stdlib/utils.c b/stdlib/utils.c
index 936f37c..df1271a 100644
--- a/stdlib/utils.c
+++ b/stdlib/utils.c
@@ -8,23 +8,24 @@
 int int32_to_str(int32_t value, char *str_buffer, int buffer_size) {
   int index = 0;
   int is_negative = 0;
+  uint32_t magnitude = value;
 
-  // Handle negative numbers
+  // Handle negative numbers, unsigned so that INT32_MIN does not overflow
   if (value < 0) {
     is_negative = 1;
-    value = -value; // Convert to positive for processing
+    magnitude = 0u - magnitude;
   }
 
   // Special case for zero
-  if (value == 0) {
+  if (magnitude == 0) {
     if (buffer_size > 0) {
       str_buffer[index++] = '0';
     }
   } else {
     // Convert from least significant digit to most significant
-    while (value > 0 && index < buffer_size - 1) {
-      str_buffer[index++] = '0' + (value % 10);
-      value /= 10;
+    while (magnitude > 0 && index < buffer_size - 1) {
+      str_buffer[index++] = '0' + (magnitude % 10);
+      magnitude /= 10;
     }
 
     // Add negative sign if needed
-- 
2.43.0


From f4c76fffbde47aabb7b4bf2e56d1c4cf267b80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 11/36] fix: scratch words beyond the first extra page come
 from the page just grown

---
 stdlib/chain.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index e1ad94c..a4426b4 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -964,8 +964,13 @@ bytes32 *memory_alloca_bytes32() {
     if (after_pages == before_pages) {
       __abort("wasm memory grow failed");
     }
+    // The new page need not follow the previous one, EVM memory may have grown
+    // in between: continue from the beginning of the new page
+    extra_memory_alloca_bytes32_memory_begin =
+        (uint8_t *)(before_pages * WASM_PAGE_SIZE);
     extra_memory_alloca_bytes32_memory_end =
         (uint8_t *)(after_pages * WASM_PAGE_SIZE);
+    extra_memory_alloca_bytes32_memory_used_size = 0;
     bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                   extra_memory_alloca_bytes32_memory_used_size);
     extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
-- 
2.43.0


From e4342587f3ceeed2fc373cf4cb15391889d3cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 12/36] fix: stop when memory growth fails

---
 stdlib/evm_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index b96cf31..ffcb98c 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -8,7 +8,7 @@
 #define WASM_PAGE_SIZE (65536)
 
 // TODO: use revert with not malloc for abort
-#define __abort(x) __builtin_unreachable()
+#define __abort(x) __builtin_trap()
 
 void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool);
 
-- 
2.43.0


From 9b107b82bc80c3de6037b1375ec5358498a2ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 13/36] fix: a block comment ending in **/ ends there

---
 src/yul2ir/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 559962d..b959278 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -391,13 +391,13 @@ pub fn remove_comments(code: &str) -> String {
                         '*' => {
                             in_multiline = true;
                             // Skip until matching */
-                            while let Some(c) = chars.next() {
-                                if c == '*' {
-                                    if let Some('/') = chars.next() {
-                                        in_multiline = false;
-                                        break;
-                                    }
+                            let mut prev = None;
+                            for c in chars.by_ref() {
+                                if c == '/' && prev == Some('*') {
+                                    in_multiline = false;
+                                    break;
                                 }
+                                prev = Some(c);
                             }
                         }
                         _ => {
-- 
2.43.0


From 4635dde2e178177e0655a24510caccc4aa4884e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 14/36] fix: an escaped quote does not end a string when
 comments are removed

---
 src/yul2ir/utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index b959278..1a7bd3d 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -376,6 +376,13 @@ pub fn remove_comments(code: &str) -> String {
                 }
                 result.push(c);
             }
+            '\\' if in_string => {
+                // An escaped quote does not end the string
+                result.push(c);
+                if let Some(next) = chars.next() {
+                    result.push(next);
+                }
+            }
             '/' if !in_string => {
                 if let Some(next) = chars.next() {
                     match next {
-- 
2.43.0


From de8290155b35a69d5162061eb17852d197c80039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 15/36] fix: every gap in a string literal is dropped, and
 escaped backslashes are kept

---
 src/yul.lalrpop | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 8a85e8e..dfde77e 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -236,8 +236,9 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
 pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
-    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
-    let mut s = String::from(escape_ignore_reg.replace(s, ""));
+    // drop every `\ whitespace \` gap, keeping the other escapes whole
+    let escape_ignore_reg = Regex::new("(\\\\[^ \\n\\t\\r\\f])|\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
+    let mut s = String::from(escape_ignore_reg.replace_all(s, "$1"));
     s.remove(0);
     s.pop();
     utils::unescape_str_wrap_error(s.as_str())
-- 
2.43.0


From 8b047a244b56eb0426774a6216f110a4bd1f5e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:55 +0000
Subject: [PATCH 16/36] fix: a missing output directory is created before it is
 resolved

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a7c5bd4..d0fec44 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,10 +146,10 @@ fn main() {
     } else {
         output_dir
     };
-    let output_dir = output_dir.canonicalize().unwrap();
     if !output_dir.exists() {
-        fs::create_dir_all(&output_dir).unwrap();
+        fs::create_dir_all(output_dir).unwrap();
     }
+    let output_dir = output_dir.canonicalize().unwrap();
 
     opts.output_dir = output_dir.to_str().unwrap_or(".").to_string();
 
-- 
2.43.0


From 796652d538f4e13a30144055ee081289fc409653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 17/36] fix: errors met while generating statements are
 returned, not dropped

---
 src/yul2ir/transform.rs | 68 ++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 203ba31..8ce3e46 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -142,25 +142,27 @@ impl<'a> Yul2IRContext<'a> {
                 let otherwise_block = self
                     .llvm_context
                     .append_basic_block(cur_func_value, "switch_otherwise");
-                self.builder
-                    .borrow_mut()
-                    .build_switch(cond_value, otherwise_block, &jump_blocks);
+                self.builder.borrow_mut().build_switch(
+                    cond_value,
+                    otherwise_block,
+                    &jump_blocks,
+                )?;
 
                 for (_, bb) in jump_tbl {
                     self.builder.borrow_mut().position_at_end(bb.0);
-                    self.walk_block(yul_func_name, &bb.1);
+                    self.walk_block(yul_func_name, &bb.1)?;
                     self.builder
                         .borrow_mut()
-                        .build_unconditional_branch(end_block);
+                        .build_unconditional_branch(end_block)?;
                 }
 
                 self.builder.borrow_mut().position_at_end(otherwise_block);
                 if let Some(default) = default {
-                    self.walk_block(yul_func_name, &default.body);
+                    self.walk_block(yul_func_name, &default.body)?;
                 }
                 self.builder
                     .borrow_mut()
-                    .build_unconditional_branch(end_block);
+                    .build_unconditional_branch(end_block)?;
             }
             ast::SwitchOptions::Default(default) => {
                 let mut jump_tbl: IndexMap<u32, u32> = IndexMap::default();
@@ -168,10 +170,10 @@ impl<'a> Yul2IRContext<'a> {
                     .llvm_context
                     .append_basic_block(cur_func_value, "switch_otherwise");
                 self.builder.borrow_mut().position_at_end(otherwise_block);
-                self.walk_block(yul_func_name, &default.body);
+                self.walk_block(yul_func_name, &default.body)?;
                 self.builder
                     .borrow_mut()
-                    .build_unconditional_branch(end_block);
+                    .build_unconditional_branch(end_block)?;
             }
         }
         self.builder.borrow_mut().position_at_end(end_block);
@@ -224,7 +226,7 @@ impl<'a> Yul2IRContext<'a> {
 
         self.builder
             .borrow_mut()
-            .build_unconditional_branch(cond_block);
+            .build_unconditional_branch(cond_block)?;
 
         self.builder.borrow_mut().position_at_end(cond_block);
         // For conditions, we prefer boolean (i32) results
@@ -237,9 +239,11 @@ impl<'a> Yul2IRContext<'a> {
             self.try_into_u256(&cond_value)?
         };
         let bool_cond_value = self.int_to_bool(cond_value)?;
-        self.builder
-            .borrow_mut()
-            .build_conditional_branch(bool_cond_value, body_block, end_block);
+        self.builder.borrow_mut().build_conditional_branch(
+            bool_cond_value,
+            body_block,
+            end_block,
+        )?;
 
         self.builder.borrow_mut().position_at_end(body_block);
         // Push the control flow end block onto the stack to facilitate break/continue in control flow
@@ -251,7 +255,7 @@ impl<'a> Yul2IRContext<'a> {
 
         self.builder
             .borrow_mut()
-            .build_unconditional_branch(update_block);
+            .build_unconditional_branch(update_block)?;
 
         self.builder.borrow_mut().position_at_end(update_block);
 
@@ -260,7 +264,7 @@ impl<'a> Yul2IRContext<'a> {
 
         self.builder
             .borrow_mut()
-            .build_unconditional_branch(cond_block);
+            .build_unconditional_branch(cond_block)?;
 
         self.builder.borrow_mut().position_at_end(end_block);
         self.pop_control_flow_end_bb();
@@ -288,9 +292,11 @@ impl<'a> Yul2IRContext<'a> {
             .append_basic_block(cur_func_value, "if_exit");
 
         let mut unreachableflag = false;
-        self.builder
-            .borrow_mut()
-            .build_conditional_branch(bool_cond_value, then_block, end_block);
+        self.builder.borrow_mut().build_conditional_branch(
+            bool_cond_value,
+            then_block,
+            end_block,
+        )?;
         self.builder.borrow_mut().position_at_end(then_block);
         // To avoid an empty then_block, add a no-operation instruction
         self.builder.borrow_mut().build_int_add(
@@ -305,7 +311,7 @@ impl<'a> Yul2IRContext<'a> {
         // The internal then block should branch to the end block
         self.builder
             .borrow_mut()
-            .build_unconditional_branch(end_block);
+            .build_unconditional_branch(end_block)?;
 
         if !unreachableflag {
             self.builder.borrow_mut().position_at_end(end_block);
@@ -356,7 +362,7 @@ impl<'a> Yul2IRContext<'a> {
         let to_set_value = self.walk_expr_with_type(yul_func_name, val, ExpectedType::Untyped)?;
         self.builder
             .borrow_mut()
-            .build_store(tmp_value, to_set_value.get_value());
+            .build_store(tmp_value, to_set_value.get_value())?;
 
         for (index, iden) in assign.identifiers.iter().enumerate() {
             let name = iden.name.clone();
@@ -395,14 +401,14 @@ impl<'a> Yul2IRContext<'a> {
                     == YulLowLevelValueType::Bytes32Pointer
             {
                 // If the left-hand side variable is a local variable (bytes32*), the right-hand side Yul function return value after loading is also bytes32
-                self.builder.borrow_mut().build_store(cur_var, item);
+                self.builder.borrow_mut().build_store(cur_var, item)?;
                 continue;
             }
 
             // When using build_store, the pointer type and value type must match.
             let item = self.try_cast(item, cur_var_ty)?;
 
-            self.builder.borrow_mut().build_store(cur_var, item);
+            self.builder.borrow_mut().build_store(cur_var, item)?;
         }
         self.ok_result()
     }
@@ -438,7 +444,7 @@ impl<'a> Yul2IRContext<'a> {
                         self.build_load(self.bytes32_type(), val.value.into_pointer_value(), "")?;
                     self.builder
                         .borrow_mut()
-                        .build_store(var_pointer, val_content);
+                        .build_store(var_pointer, val_content)?;
 
                     return self.ok_result();
                 }
@@ -462,7 +468,7 @@ impl<'a> Yul2IRContext<'a> {
             },
         )?;
 
-        self.builder.borrow_mut().build_store(var_pointer, val);
+        self.builder.borrow_mut().build_store(var_pointer, val)?;
 
         self.ok_result()
     }
@@ -658,7 +664,7 @@ impl<'a> Yul2IRContext<'a> {
             let init_val = self.walk_expr_with_type(yul_func_name, val, ExpectedType::Untyped)?;
             self.builder
                 .borrow_mut()
-                .build_store(tmp_value, init_val.get_value());
+                .build_store(tmp_value, init_val.get_value())?;
         }
 
         for (index, i) in var_decl.identifiers.iter().enumerate() {
@@ -732,16 +738,16 @@ impl<'a> Yul2IRContext<'a> {
                 None => self.default_primitive_type().const_zero(),
             };
             // let item = self.try_cast(item, new_var_ty)?;
-            self.builder.borrow_mut().build_store(new_var, item);
+            self.builder.borrow_mut().build_store(new_var, item)?;
         }
 
         self.ok_result()
     }
 
     fn walk_typed_identifier(&self, typed_id: &ast::TypedIdentifier) -> CompileResult<'a> {
-        self.walk_identifier(&typed_id.identifier);
+        self.walk_identifier(&typed_id.identifier)?;
         if let Some(ty) = &typed_id.type_name {
-            self.walk_identifier(&ty.type_name);
+            self.walk_identifier(&ty.type_name)?;
         }
         self.ok_result()
     }
@@ -929,7 +935,7 @@ impl<'a> Yul2IRContext<'a> {
                 value: result,
             })
         } else {
-            self.build_void_call(&qualifier_func_name, &call_args);
+            self.build_void_call(&qualifier_func_name, &call_args)?;
             Ok(YulLowLevelValue {
                 value_type: YulLowLevelValueType::I32,
                 value: self.i32_type().const_zero().into(),
@@ -965,7 +971,7 @@ impl<'a> Yul2IRContext<'a> {
         let target_bb = binding.last().unwrap();
         self.builder
             .borrow_mut()
-            .build_unconditional_branch(*target_bb);
+            .build_unconditional_branch(*target_bb)?;
         // Since the previous branch instruction will end the current basic block, we need to create a new basic block to continue.
         let cur_func = self.current_function.borrow().clone().unwrap();
         let cur_func_value = *cur_func.clone();
@@ -981,7 +987,7 @@ impl<'a> Yul2IRContext<'a> {
         let target_bb = binding.last().unwrap();
         self.builder
             .borrow_mut()
-            .build_unconditional_branch(*target_bb);
+            .build_unconditional_branch(*target_bb)?;
         // Since the previous branch instruction will end the current basic block, we need to create a new basic block to continue.
         let cur_func = self.current_function.borrow().clone().unwrap();
         let cur_func_value = *cur_func.clone();
-- 
2.43.0


From e07b7706be54b4ecc3cffb8d17c504ebc4e2f7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 18/36] fix: a switch with only a default case reaches it

---
 src/yul2ir/transform.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 8ce3e46..f00c0c6 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -169,6 +169,9 @@ impl<'a> Yul2IRContext<'a> {
                 let otherwise_block = self
                     .llvm_context
                     .append_basic_block(cur_func_value, "switch_otherwise");
+                self.builder
+                    .borrow_mut()
+                    .build_unconditional_branch(otherwise_block)?;
                 self.builder.borrow_mut().position_at_end(otherwise_block);
                 self.walk_block(yul_func_name, &default.body)?;
                 self.builder
-- 
2.43.0


From 80eb902ff915c49a18047391088e1e59c0b2c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 19/36] fix: switch compares the whole word

---
 src/yul2ir/transform.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index f00c0c6..57fd84e 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -93,15 +93,10 @@ impl<'a> Yul2IRContext<'a> {
         let cur_func = self.current_function.borrow().clone().unwrap();
         let cur_func_value = *cur_func.clone();
 
-        // For switch condition, we ideally want the type to match case values (typically u256)
+        // Case values are full words, so the condition is compared as one
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::I32)?;
-        let cond_value = cond_value.get_value();
-        let cond_value = if cond_value.is_int_value() {
-            cond_value.into_int_value()
-        } else {
-            self.try_into_u256(&cond_value)?
-        };
+            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::U256)?;
+        let cond_value = self.try_into_u256(&cond_value.get_value())?;
         let cond_value_ty = cond_value.get_type();
 
         // Determine the expected type for case values based on the condition value type
-- 
2.43.0


From ef25071dc0e9db64f14580a45b989fde2e79cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 20/36] fix: a loop condition is tested as a whole word

---
 src/yul2ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 57fd84e..99d2fc4 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -229,7 +229,7 @@ impl<'a> Yul2IRContext<'a> {
         self.builder.borrow_mut().position_at_end(cond_block);
         // For conditions, we prefer boolean (i32) results
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::I32)?;
+            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::Bool)?;
         let cond_value = cond_value.get_value();
         let cond_value = if cond_value.is_int_value() {
             cond_value.into_int_value()
-- 
2.43.0


From 2b92e832b477e935541f533c3dfabcbb5c47930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 21/36] fix: variables declared in an if body end with it

---
 src/yul2ir/transform.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 99d2fc4..1239754 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -302,6 +302,7 @@ impl<'a> Yul2IRContext<'a> {
             self.i32_type().const_zero(),
             "nop",
         )?;
+        let _scope_guard = ScopeGuard::new(self);
         for stmt in &r#if.body.statements {
             self.walk_stmt(yul_func_name, stmt)?;
             unreachableflag = self.is_unreachable_node(stmt);
-- 
2.43.0


From 4f13c1a85d843dca20175e13564dddd2749f6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 22/36] fix: variables and results not yet assigned are zero

---
 src/yul2ir/transform.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 1239754..92f4cf8 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -608,6 +608,9 @@ impl<'a> Yul2IRContext<'a> {
                 .borrow_mut()
                 .build_store(llvm_var, init_val)
                 .unwrap();
+        } else {
+            // A variable declared without a value is zero
+            self.build_store(llvm_var, ty.const_zero())?;
         }
         self.ok_result()
     }
@@ -1799,7 +1802,14 @@ impl<'a> Yul2IRContext<'a> {
                     )
                 };
 
-            // TODO: Set initial value for the return variable
+            // A return variable is zero until it is assigned
+            let ret_var_content_ty =
+                if func_low_level_type.returns[i] == YulLowLevelValueType::Bytes32Pointer {
+                    self.bytes32_type().as_basic_type_enum()
+                } else {
+                    ret_ty
+                };
+            self.build_store(ret_var_pointer, ret_var_content_ty.const_zero())?;
             self.set_var(
                 ret_name,
                 ret_ty,
-- 
2.43.0


From 7c939031ed81a36efaad3319b3f3832f74cd7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 23/36] fix: a variable keeps the width of its first value only
 if never assigned again

---
 src/yul2ir/transform.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 92f4cf8..95d09f9 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -518,6 +518,23 @@ impl<'a> Yul2IRContext<'a> {
             None => None,
         };
 
+        // A variable written again must hold any word, not only one as narrow as its first value
+        let init_val_low_level = match init_val_low_level {
+            Some(init_val)
+                if init_val.get_value().is_int_value()
+                    && !self.is_u256_type(&init_val.get_value().get_type())
+                    && self
+                        .get_variable_usage(yul_func_name, &name)
+                        .map_or(true, |usage| usage.writes > 1) =>
+            {
+                Some(YulLowLevelValue {
+                    value_type: YulLowLevelValueType::U256,
+                    value: self.try_into_u256(&init_val.get_value())?.into(),
+                })
+            }
+            other => other,
+        };
+
         // If the right-hand value is bytes32*, declare a bytes32* variable and copy the value
         if init_val_low_level.is_some()
             && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-- 
2.43.0


From 4fc205eb94621ba6bdf622e009b21091510e184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 24/36] fix: arguments are evaluated from right to left

---
 src/yul2ir/instruction.rs | 6 ++++--
 src/yul2ir/transform.rs   | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f848a75..016cb4c 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -513,10 +513,11 @@ impl<'a> Yul2IRContext<'a> {
         args_exprs: &[Expression],
         arg_expected_types: &[ExpectedType],
     ) -> Vec<YulLowLevelValue<'a>> {
-        // Evaluate each argument with its expected type
-        let args: Vec<YulLowLevelValue<'a>> = args_exprs
+        // Evaluate each argument, from right to left, with its expected type
+        let mut args: Vec<YulLowLevelValue<'a>> = args_exprs
             .iter()
             .enumerate()
+            .rev()
             .map(|(i, arg)| {
                 let arg_expected_type = if i < arg_expected_types.len() {
                     arg_expected_types[i]
@@ -527,6 +528,7 @@ impl<'a> Yul2IRContext<'a> {
                     .unwrap()
             })
             .collect();
+        args.reverse();
         args
     }
 
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 95d09f9..dfda058 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -906,8 +906,9 @@ impl<'a> Yul2IRContext<'a> {
             })?
             .clone();
 
+        // Arguments are evaluated from right to left
         let mut call_args = vec![];
-        for (i, arg) in func_call.arguments.iter().enumerate() {
+        for (i, arg) in func_call.arguments.iter().enumerate().rev() {
             // Try to get the expected parameter type from function declaration
             let expected_param_type =
                 if let Some(func_decl) = self.current_func_decls.borrow().get(&func_name) {
@@ -936,6 +937,8 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
+        call_args.reverse();
+
         let func_def = self.current_func_decls.borrow().get(&func_name).unwrap();
 
         if has_ret {
-- 
2.43.0


From b8697a4effd889ecc6026b7a0e31f25d7e20fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 25/36] fix: arguments of a reverting function are evaluated
 before it reverts

---
 src/yul2ir/transform.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index dfda058..2ce7418 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -810,6 +810,9 @@ impl<'a> Yul2IRContext<'a> {
             .borrow()
             .contains(&qualifier_func_name)
         {
+            for arg in func_call.arguments.iter().rev() {
+                self.walk_expr_with_type(yul_func_name, arg, ExpectedType::Untyped)?;
+            }
             self.build_void_call(UNIFIED_REVERT_ERROR_ZERO, &[])?;
             return Ok(YulLowLevelValue {
                 value_type: YulLowLevelValueType::I32,
-- 
2.43.0


From 6ecca2d7b28924f8c855ef903b31516aec1c9883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 26/36] fix: division and remainder by zero, and of the
 smallest value by minus one

---
 src/yul2ir/instruction.rs | 66 +++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 016cb4c..9fbe321 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use ethereum_types::U256;
 use inkwell::types::StringRadix;
-use inkwell::values::{BasicValue, BasicValueEnum, PointerValue};
+use inkwell::values::{BasicValue, BasicValueEnum, IntValue, PointerValue};
 use inkwell::IntPredicate;
 
 use super::yul_instruction::{YulLowLevelValue, YulLowLevelValueType};
@@ -33,6 +33,38 @@ fn check_args_count(
 }
 
 impl<'a> Yul2IRContext<'a> {
+    /// The divisor to divide by in place of `divisor`: one where that is zero, as dividing by zero
+    /// is undefined in LLVM and gives zero in the EVM. Also returns whether it is zero.
+    fn guard_divisor(
+        &self,
+        divisor: IntValue<'a>,
+    ) -> Result<(IntValue<'a>, IntValue<'a>), ASTLoweringError> {
+        let ty = divisor.get_type();
+        let builder = self.builder.borrow_mut();
+        let is_zero = builder.build_int_compare(IntPredicate::EQ, divisor, ty.const_zero(), "")?;
+        let divisor = builder
+            .build_select(is_zero, ty.const_int(1, false), divisor, "")?
+            .into_int_value();
+        Ok((divisor, is_zero))
+    }
+
+    /// Like `guard_divisor`, for signed division, where the smallest value divided by minus one
+    /// overflows: minus one is replaced by one too. Also returns whether it is minus one.
+    fn guard_signed_divisor(
+        &self,
+        divisor: IntValue<'a>,
+    ) -> Result<(IntValue<'a>, IntValue<'a>, IntValue<'a>), ASTLoweringError> {
+        let (divisor, is_zero) = self.guard_divisor(divisor)?;
+        let ty = divisor.get_type();
+        let builder = self.builder.borrow_mut();
+        let is_minus_one =
+            builder.build_int_compare(IntPredicate::EQ, divisor, ty.const_all_ones(), "")?;
+        let divisor = builder
+            .build_select(is_minus_one, ty.const_int(1, false), divisor, "")?
+            .into_int_value();
+        Ok((divisor, is_zero, is_minus_one))
+    }
+
     fn read_string_literal(&self, expr: &Expression) -> Option<String> {
         let mut result: Option<String> = None;
         if let Expression::Literal(Literal::StringLiteral(s, _)) = expr {
@@ -713,13 +745,13 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                let (divisor, is_zero) = self.guard_divisor(arg1)?;
+                let builder = self.builder.borrow_mut();
+                let quotient = builder.build_int_unsigned_div(arg0, divisor, "div_result")?;
+                let zero = quotient.get_type().const_zero();
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_div(arg0, arg1, "div_result")?
-                        .into(),
+                    value: builder.build_select(is_zero, zero, quotient, "")?,
                 })
             }
             YulInstructionName::SDiv => {
@@ -729,13 +761,17 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                let (divisor, is_zero, is_minus_one) = self.guard_signed_divisor(arg1)?;
+                let builder = self.builder.borrow_mut();
+                let quotient = builder.build_int_signed_div(arg0, divisor, "sdiv_result")?;
+                let zero = quotient.get_type().const_zero();
+                let negated = builder.build_int_sub(zero, arg0, "")?;
+                let quotient = builder
+                    .build_select(is_minus_one, negated, quotient, "")?
+                    .into_int_value();
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_div(arg0, arg1, "sdiv_result")?
-                        .into(),
+                    value: builder.build_select(is_zero, zero, quotient, "")?,
                 })
             }
             YulInstructionName::Mod => {
@@ -745,12 +781,14 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                // A divisor of one in its place leaves the remainder zero
+                let (divisor, _) = self.guard_divisor(arg1)?;
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
                     value: self
                         .builder
                         .borrow_mut()
-                        .build_int_unsigned_rem(arg0, arg1, "mod_result")?
+                        .build_int_unsigned_rem(arg0, divisor, "mod_result")?
                         .into(),
                 })
             }
@@ -761,12 +799,14 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                // A divisor of one in its place leaves the remainder zero
+                let (divisor, _, _) = self.guard_signed_divisor(arg1)?;
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
                     value: self
                         .builder
                         .borrow_mut()
-                        .build_int_signed_rem(arg0, arg1, "smod_result")?
+                        .build_int_signed_rem(arg0, divisor, "smod_result")?
                         .into(),
                 })
             }
-- 
2.43.0


From fa06b4db859aeb471ef49adfa5b8612871e0691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 27/36] fix: shift counts and byte indices are not truncated,
 and large ones are defined

---
 src/yul2ir/instruction.rs | 78 ++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 9fbe321..31cbcb0 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -65,6 +65,25 @@ impl<'a> Yul2IRContext<'a> {
         Ok((divisor, is_zero, is_minus_one))
     }
 
+    /// An index or shift count as i32; those of `limit` or more, which all mean the same, become
+    /// `limit`, so that none is confused with a small one.
+    fn clamp_to_i32(
+        &self,
+        value: &BasicValueEnum<'a>,
+        limit: u64,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let value = self.try_into_u256(value)?;
+        let limit = self.u256_type().const_int(limit, false);
+        let clamped = {
+            let builder = self.builder.borrow_mut();
+            let is_less = builder.build_int_compare(IntPredicate::ULT, value, limit, "")?;
+            builder
+                .build_select(is_less, value, limit, "")?
+                .into_int_value()
+        };
+        self.int_as_i32(clamped)
+    }
+
     fn read_string_literal(&self, expr: &Expression) -> Option<String> {
         let mut result: Option<String> = None;
         if let Expression::Literal(Literal::StringLiteral(s, _)) = expr {
@@ -723,8 +742,7 @@ impl<'a> Yul2IRContext<'a> {
                 // signextend(b, x) extends a smaller signed integer x to 256 bits while preserving its sign bit.
                 // The bits before the specified byte count (b) are extended according to the sign of the most significant bit.
                 check_args_count(&instr, &args, 2)?;
-                let b = self.try_into_int(args.first().unwrap())?;
-                let b = self.int_as_i32(b)?;
+                let b = self.clamp_to_i32(args.first().unwrap(), 32)?;
                 let x = self.try_into_u256(args.get(1).unwrap())?;
                 let x_ptr = self.get_value_pointer(x)?;
                 let tmp_result = self.fast_alloca(self.u256_type(), "")?;
@@ -1167,8 +1185,19 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::Byte => {
                 check_args_count(&instr, &args, 2)?;
-                let nth_byte_i32 =
-                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
+                let nth_byte_i32 = self.clamp_to_i32(args.first().unwrap(), 32)?;
+                let past_the_end = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::EQ,
+                    nth_byte_i32,
+                    self.i32_type().const_int(32, false),
+                    "",
+                )?;
+                // Any byte index will do there, as the result is zero
+                let nth_byte_i32 = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(past_the_end, self.i32_type().const_zero(), nth_byte_i32, "")?
+                    .into_int_value();
                 let value = self.try_into_int(args.get(1).unwrap())?;
                 let value = self.int_as_u256(value)?;
                 let shift_amount_tmp = self.builder.borrow_mut().build_int_sub(
@@ -1189,15 +1218,17 @@ impl<'a> Yul2IRContext<'a> {
                     "shifted_value",
                 )?;
                 // get last byte
-                let result = self
-                    .builder
-                    .borrow_mut()
-                    .build_and(
-                        shifted_value,
-                        self.u256_type().const_int(0xff, false),
-                        "byte_result",
-                    )?
-                    .into();
+                let byte = self.builder.borrow_mut().build_and(
+                    shifted_value,
+                    self.u256_type().const_int(0xff, false),
+                    "byte_result",
+                )?;
+                let result = self.builder.borrow_mut().build_select(
+                    past_the_end,
+                    self.u256_type().const_zero(),
+                    byte,
+                    "",
+                )?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::U256,
                     value: result,
@@ -1212,7 +1243,7 @@ impl<'a> Yul2IRContext<'a> {
                 // so we use bytes32 version
                 if self.is_bytes32_value(value) {
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.clamp_to_i32(shift, 256)?;
                     let value = self.try_into_bytes32_pointer(value)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shl_result")?;
                     self.build_void_call(
@@ -1228,7 +1259,7 @@ impl<'a> Yul2IRContext<'a> {
                 // because llvm shl not work well for shift>=256, so we use c wrapper
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.clamp_to_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shl_result")?;
                 self.build_void_call(
@@ -1249,6 +1280,19 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
+                // A shift of 256 or more, undefined in LLVM, leaves only copies of the sign bit
+                let limit = self.u256_type().const_int(255, false);
+                let is_less = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::ULT,
+                    arg0,
+                    limit,
+                    "",
+                )?;
+                let arg0 = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(is_less, arg0, limit, "")?
+                    .into_int_value();
                 let result = self
                     .builder
                     .borrow_mut()
@@ -1273,7 +1317,7 @@ impl<'a> Yul2IRContext<'a> {
                 if self.is_bytes32_value(value) {
                     let value = self.try_into_bytes32_pointer(value)?;
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.clamp_to_i32(shift, 256)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shr_result")?;
                     self.build_void_call(
                         "wrapper_bytes32_shr",
@@ -1286,7 +1330,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.clamp_to_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shr_result")?;
                 self.build_void_call(
-- 
2.43.0


From 69692f26f413721c4ecdadbe0209a97675189362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 28/36] fix: immutable names are hashed whole

---
 src/yul2ir/instruction.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 31cbcb0..fe7bc11 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1605,7 +1605,7 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
@@ -1688,7 +1688,7 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
-- 
2.43.0


From 07c9ae0d98f122ead6a3212a03f2f704e9f40c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 29/36] fix: calldatasize() - 4 is a signed word

---
 src/yul2ir/instruction.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index fe7bc11..9acfccf 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -342,10 +342,16 @@ impl<'a> Yul2IRContext<'a> {
                         // else return negative result.
                         // Optimize by directly calling a specialized wrapper
                         if let Ok(result) = self.build_call("wrapper_calldata_size_minus_4", &[]) {
+                            // The result is signed
+                            let result = self
+                                .builder
+                                .borrow_mut()
+                                .build_int_s_extend(result.into_int_value(), self.u256_type(), "")
+                                .unwrap();
                             return (
                                 Some(YulLowLevelValue {
-                                    value_type: YulLowLevelValueType::I32,
-                                    value: result,
+                                    value_type: YulLowLevelValueType::U256,
+                                    value: result.into(),
                                 }),
                                 None,
                             );
-- 
2.43.0


From d9093bd88ff213caa4b177ebb6396ae8d03d590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:56 +0000
Subject: [PATCH 30/36] fix: a variable read into another does not follow its
 later assignments

---
 src/yul2ir/transform.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 2ce7418..89b437a 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1046,9 +1046,11 @@ impl<'a> Yul2IRContext<'a> {
                 && self.default_func_return_low_level_value_type()
                     == YulLowLevelValueType::Bytes32Pointer
             {
+                // The variable may be assigned later, so its value is a copy
+                let value = self.build_load(self.bytes32_type(), identifier_pointer, &id.name)?;
                 return Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::Bytes32Pointer,
-                    value: identifier_pointer.into(),
+                    value: self.get_value_pointer(value)?.into(),
                 });
             }
 
@@ -1062,10 +1064,11 @@ impl<'a> Yul2IRContext<'a> {
             }
 
             if self.is_bytes32_type(&id_ty) {
-                // Attempt to return the local variable pointer directly, using it or loading it when necessary
+                // The variable may be assigned later, so its value is a copy
+                let value = self.build_load(id_ty, identifier_pointer, &id.name)?;
                 return Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::Bytes32Pointer,
-                    value: identifier_pointer.into(),
+                    value: self.get_value_pointer(value)?.into(),
                 });
             }
             let result = self
-- 
2.43.0


From 9ae9ef2502565b1337895b14a4eee6e7ef63fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 31/36] fix: only the address check itself is dropped from
 address decoders, and only on request

---
 src/yul2ir/context.rs     | 12 ++++++++++++
 src/yul2ir/instruction.rs | 14 ++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index df88f63..4c6297d 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -675,6 +675,18 @@ impl<'ctx> Yul2IRContext<'ctx> {
         None
     }
 
+    /// Whether the expression is `eq(addr, and(addr, sub(shl(160, 1), 1)))` for a variable `addr`
+    pub fn matches_address_check_pattern(&self, expr: &Expression) -> bool {
+        if let Some(eq_args) = self.matches_yul_instruction(expr, "eq", 2) {
+            if let (Expression::Identifier(addr), Some(Expression::Identifier(masked))) =
+                (&eq_args[0], self.matches_address_mask_pattern(&eq_args[1]))
+            {
+                return addr.name == masked.name;
+            }
+        }
+        false
+    }
+
     pub fn add_global_constant_bytes32(
         &self,
         value: &[u8],
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 9acfccf..f217739 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -417,11 +417,17 @@ impl<'a> Yul2IRContext<'a> {
 
         //  Optimize iszero(eq(value, and(value, sub(shl(160, 1), 1)))) by checking if the first 12 bytes of u256/bytes32 are zero
 
-        if yul_func_name.contains("abi_decode_address")
-            || yul_func_name.contains("abi_decode_t_address")
+        if self.opts.enable_all_optimizers
+            && (yul_func_name.contains("abi_decode_address")
+                || yul_func_name.contains("abi_decode_t_address"))
         {
-            // TODO: Since abi_decode_address only uses the last 20 bytes of the address, we can simply return false for the iszero check
-            if let YulInstructionName::IsZero = instr {
+            // TODO: Since abi_decode_address only uses the last 20 bytes of the address, we can simply return false for this check.
+            // Any other iszero is evaluated
+            if matches!(instr, YulInstructionName::IsZero)
+                && args_exprs
+                    .first()
+                    .map_or(false, |check| self.matches_address_check_pattern(check))
+            {
                 return (
                     Some(YulLowLevelValue {
                         value_type: YulLowLevelValueType::I32,
-- 
2.43.0


From 9cba461842dfc5f847090e935c87cff6b12e0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:09 +0000
Subject: [PATCH 32/36] fix: the arguments of the replaced token transfer are
 evaluated right to left

---
 src/yul2ir/transform.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 89b437a..9167577 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -843,24 +843,25 @@ impl<'a> Yul2IRContext<'a> {
             if (func_call.id.name == "fun_transfer" || func_call.id.name == "fun__transfer")
                 && func_call.arguments.len() == 3
             {
-                let from_arg = self.walk_expr_with_type(
+                // Yul evaluates the arguments of a call from right to left
+                let value_arg = self.walk_expr_with_type(
                     yul_func_name,
-                    &func_call.arguments[0],
+                    &func_call.arguments[2],
                     ExpectedType::Bytes32Pointer,
                 )?;
-                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
+                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
                 let to_arg = self.walk_expr_with_type(
                     yul_func_name,
                     &func_call.arguments[1],
                     ExpectedType::Bytes32Pointer,
                 )?;
                 let to_arg = self.try_into_bytes32_pointer(&to_arg.get_value())?;
-                let value_arg = self.walk_expr_with_type(
+                let from_arg = self.walk_expr_with_type(
                     yul_func_name,
-                    &func_call.arguments[2],
+                    &func_call.arguments[0],
                     ExpectedType::Bytes32Pointer,
                 )?;
-                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
+                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
                 self.build_void_call(
                     "wrapper_optimized_erc20_fun_transfer",
                     &[from_arg, to_arg, value_arg],
-- 
2.43.0


From f218eb1dea4e9823cba6bf23a87968ba39ae1cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:17 +0000
Subject: [PATCH 33/36] fix: a constant stored to the free memory pointer goes
 where it is read under all optimizers

---
 src/yul2ir/instruction.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f217739..434588c 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -362,7 +362,16 @@ impl<'a> Yul2IRContext<'a> {
         }
 
         // optimize for mstore(offset, constant_value)
-        if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
+        // With all optimizations mstore(64, value) sets the free memory pointer global, see below
+        let sets_memptr_global = self.opts.enable_all_optimizers
+            && args_exprs
+                .first()
+                .and_then(|offset| self.fetch_not_string_literal_constant(offset))
+                .map_or(false, |offset| offset == U256::from(64));
+        if matches!(instr, YulInstructionName::MStore)
+            && args_exprs.len() == 2
+            && !sets_memptr_global
+        {
             let offset = &args_exprs[0].clone();
             let value = &args_exprs[1].clone();
 
-- 
2.43.0


From acb92cdc92911c6230c9df443ab7ed033c45172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 34/36] fix: a Yul function named init does not replace the
 object's own code

---
 src/yul2ir/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 9167577..31b83b8 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1701,7 +1701,8 @@ impl<'a> Yul2IRContext<'a> {
     fn transform_init_func(&self, object: &Object) -> (CompileFunctionResult<'a>, String) {
         let module_name = self.current_module_name.borrow().clone();
         let contract_name = self.current_contract_name.borrow().clone();
-        let qualifier_func_name = format!("{}.{}.init", module_name, contract_name,);
+        // Not an identifier, so that no Yul function can have this name
+        let qualifier_func_name = format!("{}.{}.<init>", module_name, contract_name);
 
         let params_meta_types: Vec<BasicMetadataTypeEnum<'a>> = vec![];
         let func_ty: FunctionType<'a> = self
-- 
2.43.0


From 292955c95e9b3ab1c35e9f8e73472ae49e902a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 35/36] fix: a data segment is exactly its own bytes, without
 the length prefix of contract bytecode

---
 src/yul2ir/instruction.rs |  2 +-
 src/yul2ir/transform.rs   | 55 +++++++++++++--------------------------
 2 files changed, 19 insertions(+), 38 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 434588c..49fb1a5 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1914,7 +1914,7 @@ impl<'a> Yul2IRContext<'a> {
                     self.i32_type(),
                     "global_var_addr",
                 )?;
-                // The first 4 bytes contain the length in big endian format, but we don't skip them
+                // A sub object starts with its length in 4 big endian bytes, which are not skipped
                 let data_offset = global_var_addr;
 
                 let memory_begin = self.build_call(
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 31b83b8..67e7c4a 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1526,7 +1526,10 @@ impl<'a> Yul2IRContext<'a> {
                     }
                 }
                 InnerSegment::Data(data_segment_name, data_literals) => {
-                    // Compile data segments from object inner_segments into LLVM global constants
+                    // Compile data segments from object inner_segments into LLVM global constants.
+                    // A data segment is the bytes of all its literals. The length prefix belongs to
+                    // the contract bytecode ABI, so only sub objects have one.
+                    let mut data_bytes: Vec<u8> = vec![];
                     for data_literal in data_literals {
                         match data_literal {
                             ast::DataLiteral::HexLiteral(hex_literal) => {
@@ -1534,47 +1537,25 @@ impl<'a> Yul2IRContext<'a> {
                                 if hex_literal.len() % 2 != 0 {
                                     bytes.push('0');
                                 }
-                                let data_bytes = hex::decode(bytes).unwrap();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(&data_bytes);
-
-                                let data_segment_qualified_name =
-                                    &format!("{}.{}", object.name, data_segment_name);
-                                let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
-                                    data_segment_qualified_name,
-                                );
-
-                                self.global_bytes_lengths.borrow_mut().insert(
-                                    data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
-                                );
-                                self.global_bytes_values
-                                    .borrow_mut()
-                                    .insert(data_segment_qualified_name.to_string(), global_var);
+                                data_bytes.extend(hex::decode(bytes).unwrap());
                             }
                             ast::DataLiteral::StringLiteral(string_literal) => {
-                                let data_bytes = string_literal.as_bytes();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(data_bytes);
-
-                                let data_segment_qualified_name =
-                                    &format!("{}.{}", object.name, data_segment_name);
-                                let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
-                                    data_segment_qualified_name,
-                                );
-
-                                self.global_bytes_lengths.borrow_mut().insert(
-                                    data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
-                                );
-                                self.global_bytes_values
-                                    .borrow_mut()
-                                    .insert(data_segment_qualified_name.to_string(), global_var);
+                                data_bytes.extend(string_literal.as_bytes());
                             }
                         }
                     }
+
+                    let data_segment_qualified_name =
+                        format!("{}.{}", object.name, data_segment_name);
+                    let global_var =
+                        self.add_global_constant_bytes32(&data_bytes, &data_segment_qualified_name);
+
+                    self.global_bytes_lengths
+                        .borrow_mut()
+                        .insert(data_segment_qualified_name.to_string(), data_bytes.len());
+                    self.global_bytes_values
+                        .borrow_mut()
+                        .insert(data_segment_qualified_name.to_string(), global_var);
                 }
             }
         }
-- 
2.43.0


From a28c61e1ed7ae37bb2c3efbda11a206195e82bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:45 +0000
Subject: [PATCH 36/36] fix: a library symbol held in a variable of an object's
 own code is not dropped

---
 src/yul2ir/transform.rs |  3 ++-
 src/yul2ir/usage.rs     | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 67e7c4a..a51d129 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -497,7 +497,7 @@ impl<'a> Yul2IRContext<'a> {
                 .is_some()
             {
                 let usage_info = self.get_variable_usage(yul_func_name, &name);
-                if usage_info.is_none() || usage_info.unwrap().reads == 0 {
+                if usage_info.is_some_and(|usage| usage.reads == 0 && usage.writes <= 1) {
                     // the variable not used, so we can optimize this variable declaration
                     return self.ok_result();
                 }
@@ -1684,6 +1684,7 @@ impl<'a> Yul2IRContext<'a> {
         let contract_name = self.current_contract_name.borrow().clone();
         // Not an identifier, so that no Yul function can have this name
         let qualifier_func_name = format!("{}.{}.<init>", module_name, contract_name);
+        self.analyze_code_usage(&qualifier_func_name, &object.code);
 
         let params_meta_types: Vec<BasicMetadataTypeEnum<'a>> = vec![];
         let func_ty: FunctionType<'a> = self
diff --git a/src/yul2ir/usage.rs b/src/yul2ir/usage.rs
index 021500e..47a4017 100644
--- a/src/yul2ir/usage.rs
+++ b/src/yul2ir/usage.rs
@@ -111,15 +111,20 @@ impl<'a> Yul2IRContext<'a> {
     #[allow(unused)]
     pub fn analyze_function_usage(&self, func_def: &FunctionDefinition) {
         let func_qualifier = self.get_func_decl_qualifier_name(func_def);
+        self.analyze_code_usage(&func_qualifier, &func_def.body);
+    }
+
+    /// Analyze a block compiled under the given name: a function body or the code of an object
+    pub fn analyze_code_usage(&self, func_qualifier: &str, code: &Block) {
         // Avoid re-analyzing if already done (e.g., if called multiple times)
-        if self.variable_usage.borrow().contains_key(&func_qualifier) {
+        if self.variable_usage.borrow().contains_key(func_qualifier) {
             return;
         }
         let mut usage_map = HashMap::new();
-        self.analyze_block_usage(&func_def.body, &mut usage_map);
+        self.analyze_block_usage(code, &mut usage_map);
         self.variable_usage
             .borrow_mut()
-            .insert(func_qualifier, usage_map.clone());
+            .insert(func_qualifier.to_string(), usage_map);
     }
 
     #[allow(unused)]
-- 
2.43.0

