From d33cf80604b34dd2a9a9b389cf5d6edeae1f7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 01/31] fix: reject typed transactions signed for another chain

recover_sender checked the chain id of EIP-155 legacy transactions but not
the chain_id field of EIP-2930, 1559, 4844 and 7702 transactions, so a block
could include a typed transaction replayed from a different chain.
---
 src/ethereum/arrow_glacier/transactions.py | 3 +++
 src/ethereum/berlin/transactions.py        | 3 +++
 src/ethereum/cancun/transactions.py        | 3 +++
 src/ethereum/gray_glacier/transactions.py  | 3 +++
 src/ethereum/london/transactions.py        | 3 +++
 src/ethereum/osaka/transactions.py         | 3 +++
 src/ethereum/paris/transactions.py         | 3 +++
 src/ethereum/prague/transactions.py        | 3 +++
 src/ethereum/shanghai/transactions.py      | 3 +++
 9 files changed, 27 insertions(+)

diff --git a/src/ethereum/arrow_glacier/transactions.py b/src/ethereum/arrow_glacier/transactions.py
index 751ed8f..3b0c34b 100644
--- a/src/ethereum/arrow_glacier/transactions.py
+++ b/src/ethereum/arrow_glacier/transactions.py
@@ -421,6 +421,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/berlin/transactions.py b/src/ethereum/berlin/transactions.py
index 4832858..cb003c0 100644
--- a/src/ethereum/berlin/transactions.py
+++ b/src/ethereum/berlin/transactions.py
@@ -338,6 +338,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/cancun/transactions.py b/src/ethereum/cancun/transactions.py
index 98a82bd..98bb52b 100644
--- a/src/ethereum/cancun/transactions.py
+++ b/src/ethereum/cancun/transactions.py
@@ -534,6 +534,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/gray_glacier/transactions.py b/src/ethereum/gray_glacier/transactions.py
index 751ed8f..3b0c34b 100644
--- a/src/ethereum/gray_glacier/transactions.py
+++ b/src/ethereum/gray_glacier/transactions.py
@@ -421,6 +421,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/london/transactions.py b/src/ethereum/london/transactions.py
index 751ed8f..3b0c34b 100644
--- a/src/ethereum/london/transactions.py
+++ b/src/ethereum/london/transactions.py
@@ -421,6 +421,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/osaka/transactions.py b/src/ethereum/osaka/transactions.py
index 90b1dee..1da03f8 100644
--- a/src/ethereum/osaka/transactions.py
+++ b/src/ethereum/osaka/transactions.py
@@ -666,6 +666,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/paris/transactions.py b/src/ethereum/paris/transactions.py
index 751ed8f..3b0c34b 100644
--- a/src/ethereum/paris/transactions.py
+++ b/src/ethereum/paris/transactions.py
@@ -421,6 +421,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/prague/transactions.py b/src/ethereum/prague/transactions.py
index b4023f1..958c4c0 100644
--- a/src/ethereum/prague/transactions.py
+++ b/src/ethereum/prague/transactions.py
@@ -658,6 +658,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
diff --git a/src/ethereum/shanghai/transactions.py b/src/ethereum/shanghai/transactions.py
index 1dff83b..0ab09fa 100644
--- a/src/ethereum/shanghai/transactions.py
+++ b/src/ethereum/shanghai/transactions.py
@@ -433,6 +433,9 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
 
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain_id")
+
     if isinstance(tx, LegacyTransaction):
         v = tx.v
         if v == 27 or v == 28:
-- 
2.43.0


From 4883bb84719946171482088ce633b89e264b433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 02/31] fix: MODEXP with a base length near 2**256 runs out of
 gas instead of crashing

The start of the exponent was computed in U256 arithmetic, so a declared base
length above 2**256 - 97 raised an OverflowError out of block execution.
---
 src/ethereum/arrow_glacier/vm/memory.py                     | 6 +++++-
 .../arrow_glacier/vm/precompiled_contracts/modexp.py        | 4 ++--
 src/ethereum/berlin/vm/memory.py                            | 6 +++++-
 src/ethereum/berlin/vm/precompiled_contracts/modexp.py      | 4 ++--
 src/ethereum/byzantium/vm/memory.py                         | 6 +++++-
 src/ethereum/byzantium/vm/precompiled_contracts/modexp.py   | 4 ++--
 src/ethereum/cancun/vm/memory.py                            | 6 +++++-
 src/ethereum/cancun/vm/precompiled_contracts/modexp.py      | 4 ++--
 src/ethereum/constantinople/vm/memory.py                    | 6 +++++-
 .../constantinople/vm/precompiled_contracts/modexp.py       | 4 ++--
 src/ethereum/gray_glacier/vm/memory.py                      | 6 +++++-
 .../gray_glacier/vm/precompiled_contracts/modexp.py         | 4 ++--
 src/ethereum/istanbul/vm/memory.py                          | 6 +++++-
 src/ethereum/istanbul/vm/precompiled_contracts/modexp.py    | 4 ++--
 src/ethereum/london/vm/memory.py                            | 6 +++++-
 src/ethereum/london/vm/precompiled_contracts/modexp.py      | 4 ++--
 src/ethereum/muir_glacier/vm/memory.py                      | 6 +++++-
 .../muir_glacier/vm/precompiled_contracts/modexp.py         | 4 ++--
 src/ethereum/paris/vm/memory.py                             | 6 +++++-
 src/ethereum/paris/vm/precompiled_contracts/modexp.py       | 4 ++--
 src/ethereum/prague/vm/memory.py                            | 6 +++++-
 src/ethereum/prague/vm/precompiled_contracts/modexp.py      | 4 ++--
 src/ethereum/shanghai/vm/memory.py                          | 6 +++++-
 src/ethereum/shanghai/vm/precompiled_contracts/modexp.py    | 4 ++--
 24 files changed, 84 insertions(+), 36 deletions(-)

diff --git a/src/ethereum/arrow_glacier/vm/memory.py b/src/ethereum/arrow_glacier/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/arrow_glacier/vm/memory.py
+++ b/src/ethereum/arrow_glacier/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/berlin/vm/memory.py b/src/ethereum/berlin/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/berlin/vm/memory.py
+++ b/src/ethereum/berlin/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/byzantium/vm/memory.py b/src/ethereum/byzantium/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/byzantium/vm/memory.py
+++ b/src/ethereum/byzantium/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
index c5956d4..1e42b6c 100644
--- a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/cancun/vm/memory.py b/src/ethereum/cancun/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/cancun/vm/memory.py
+++ b/src/ethereum/cancun/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/constantinople/vm/memory.py b/src/ethereum/constantinople/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/constantinople/vm/memory.py
+++ b/src/ethereum/constantinople/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
index c5956d4..1e42b6c 100644
--- a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/gray_glacier/vm/memory.py b/src/ethereum/gray_glacier/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/gray_glacier/vm/memory.py
+++ b/src/ethereum/gray_glacier/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/istanbul/vm/memory.py b/src/ethereum/istanbul/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/istanbul/vm/memory.py
+++ b/src/ethereum/istanbul/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
index c5956d4..1e42b6c 100644
--- a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/london/vm/memory.py b/src/ethereum/london/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/london/vm/memory.py
+++ b/src/ethereum/london/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/london/vm/precompiled_contracts/modexp.py b/src/ethereum/london/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/london/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/london/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/muir_glacier/vm/memory.py b/src/ethereum/muir_glacier/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/muir_glacier/vm/memory.py
+++ b/src/ethereum/muir_glacier/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
index c5956d4..1e42b6c 100644
--- a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/paris/vm/memory.py b/src/ethereum/paris/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/paris/vm/memory.py
+++ b/src/ethereum/paris/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/paris/vm/precompiled_contracts/modexp.py b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/paris/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/prague/vm/memory.py b/src/ethereum/prague/vm/memory.py
index d4d2b47..27b327e 100644
--- a/src/ethereum/prague/vm/memory.py
+++ b/src/ethereum/prague/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/prague/vm/precompiled_contracts/modexp.py b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/prague/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
diff --git a/src/ethereum/shanghai/vm/memory.py b/src/ethereum/shanghai/vm/memory.py
index 690ece1..ea27728 100644
--- a/src/ethereum/shanghai/vm/memory.py
+++ b/src/ethereum/shanghai/vm/memory.py
@@ -11,6 +11,8 @@ Introduction
 
 EVM memory operations.
 """
+from typing import Union
+
 from ethereum_types.bytes import Bytes
 from ethereum_types.numeric import U256, Uint
 
@@ -58,7 +60,9 @@ def memory_read_bytes(
     return Bytes(memory[start_position : Uint(start_position) + Uint(size)])
 
 
-def buffer_read(buffer: Bytes, start_position: U256, size: U256) -> Bytes:
+def buffer_read(
+    buffer: Bytes, start_position: Union[U256, Uint], size: U256
+) -> Bytes:
     """
     Read bytes from a buffer. Padding with zeros if necessary.
 
diff --git a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
index 790d2fd..21b0d79 100644
--- a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,7 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = Uint(96) + Uint(base_length)
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
@@ -52,7 +52,7 @@ def modexp(evm: Evm) -> None:
     base = Uint.from_be_bytes(buffer_read(data, U256(96), base_length))
     exp = Uint.from_be_bytes(buffer_read(data, exp_start, exp_length))
 
-    modulus_start = exp_start + exp_length
+    modulus_start = exp_start + Uint(exp_length)
     modulus = Uint.from_be_bytes(
         buffer_read(data, modulus_start, modulus_length)
     )
-- 
2.43.0


From 809cbf901c2d47db9faa4aa4feb0ff823db94259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 03/31] fix: reject an empty transaction instead of raising
 IndexError

decode_transaction indexed the type byte of a zero-length transaction, so a
block containing one crashed instead of being rejected as invalid.
---
 src/ethereum/arrow_glacier/transactions.py | 3 +++
 src/ethereum/berlin/transactions.py        | 3 +++
 src/ethereum/cancun/transactions.py        | 3 +++
 src/ethereum/gray_glacier/transactions.py  | 3 +++
 src/ethereum/london/transactions.py        | 3 +++
 src/ethereum/osaka/transactions.py         | 3 +++
 src/ethereum/paris/transactions.py         | 3 +++
 src/ethereum/prague/transactions.py        | 3 +++
 src/ethereum/shanghai/transactions.py      | 3 +++
 9 files changed, 27 insertions(+)

diff --git a/src/ethereum/arrow_glacier/transactions.py b/src/ethereum/arrow_glacier/transactions.py
index 3b0c34b..0d3ab8e 100644
--- a/src/ethereum/arrow_glacier/transactions.py
+++ b/src/ethereum/arrow_glacier/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/berlin/transactions.py b/src/ethereum/berlin/transactions.py
index cb003c0..a8b77c7 100644
--- a/src/ethereum/berlin/transactions.py
+++ b/src/ethereum/berlin/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -234,6 +235,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] != 1:
             raise TransactionTypeError(tx[0])
         return rlp.decode_to(AccessListTransaction, tx[1:])
diff --git a/src/ethereum/cancun/transactions.py b/src/ethereum/cancun/transactions.py
index 98bb52b..f24e5fc 100644
--- a/src/ethereum/cancun/transactions.py
+++ b/src/ethereum/cancun/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -411,6 +412,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/gray_glacier/transactions.py b/src/ethereum/gray_glacier/transactions.py
index 3b0c34b..0d3ab8e 100644
--- a/src/ethereum/gray_glacier/transactions.py
+++ b/src/ethereum/gray_glacier/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/london/transactions.py b/src/ethereum/london/transactions.py
index 3b0c34b..0d3ab8e 100644
--- a/src/ethereum/london/transactions.py
+++ b/src/ethereum/london/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/osaka/transactions.py b/src/ethereum/osaka/transactions.py
index 1da03f8..1b75cbe 100644
--- a/src/ethereum/osaka/transactions.py
+++ b/src/ethereum/osaka/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -510,6 +511,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/paris/transactions.py b/src/ethereum/paris/transactions.py
index 3b0c34b..0d3ab8e 100644
--- a/src/ethereum/paris/transactions.py
+++ b/src/ethereum/paris/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/prague/transactions.py b/src/ethereum/prague/transactions.py
index 958c4c0..2031c37 100644
--- a/src/ethereum/prague/transactions.py
+++ b/src/ethereum/prague/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -504,6 +505,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/shanghai/transactions.py b/src/ethereum/shanghai/transactions.py
index 0ab09fa..d8aab13 100644
--- a/src/ethereum/shanghai/transactions.py
+++ b/src/ethereum/shanghai/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
-- 
2.43.0


From 3cdd93813d79d118260bdafd431df751a43c5c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:47 +0000
Subject: [PATCH 04/31] fix: carry excess blob gas over the Prague and Osaka
 fork blocks

calculate_excess_blob_gas treated the previous fork's header like a
pre-Cancun one, so the first block of Prague and of Osaka had to restart
from zero excess blob gas instead of continuing from its parent (EIP-4844).
---
 src/ethereum/osaka/vm/gas.py  | 11 +++++++----
 src/ethereum/prague/vm/gas.py | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ethereum/osaka/vm/gas.py b/src/ethereum/osaka/vm/gas.py
index deb0371..2e5a9b4 100644
--- a/src/ethereum/osaka/vm/gas.py
+++ b/src/ethereum/osaka/vm/gas.py
@@ -16,6 +16,7 @@ from typing import List, Tuple
 
 from ethereum_types.numeric import U64, U256, Uint
 
+from ethereum.prague.blocks import Header as PreviousHeader
 from ethereum.trace import GasAndRefund, evm_trace
 from ethereum.utils.numeric import ceil32, taylor_exponential
 
@@ -281,7 +282,9 @@ def init_code_cost(init_code_length: Uint) -> Uint:
     return GAS_INIT_CODE_WORD_COST * ceil32(init_code_length) // Uint(32)
 
 
-def calculate_excess_blob_gas(parent_header: Header) -> U64:
+def calculate_excess_blob_gas(
+    parent_header: Header | PreviousHeader,
+) -> U64:
     """
     Calculated the excess blob gas for the current block based
     on the gas used in the parent block.
@@ -296,13 +299,13 @@ def calculate_excess_blob_gas(parent_header: Header) -> U64:
     excess_blob_gas: `ethereum.base_types.U64`
         The excess blob gas for the current block.
     """
-    # At the fork block, these are defined as zero.
+    # Before blobs were introduced, these are defined as zero.
     excess_blob_gas = U64(0)
     blob_gas_used = U64(0)
     base_fee_per_gas = Uint(0)
 
-    if isinstance(parent_header, Header):
-        # After the fork block, read them from the parent header.
+    if isinstance(parent_header, (Header, PreviousHeader)):
+        # The parent of the fork block still has the previous fork's header.
         excess_blob_gas = parent_header.excess_blob_gas
         blob_gas_used = parent_header.blob_gas_used
         base_fee_per_gas = parent_header.base_fee_per_gas
diff --git a/src/ethereum/prague/vm/gas.py b/src/ethereum/prague/vm/gas.py
index 065c5b3..f45604d 100644
--- a/src/ethereum/prague/vm/gas.py
+++ b/src/ethereum/prague/vm/gas.py
@@ -16,6 +16,7 @@ from typing import List, Tuple
 
 from ethereum_types.numeric import U64, U256, Uint
 
+from ethereum.cancun.blocks import Header as PreviousHeader
 from ethereum.trace import GasAndRefund, evm_trace
 from ethereum.utils.numeric import ceil32, taylor_exponential
 
@@ -277,7 +278,9 @@ def init_code_cost(init_code_length: Uint) -> Uint:
     return GAS_INIT_CODE_WORD_COST * ceil32(init_code_length) // Uint(32)
 
 
-def calculate_excess_blob_gas(parent_header: Header) -> U64:
+def calculate_excess_blob_gas(
+    parent_header: Header | PreviousHeader,
+) -> U64:
     """
     Calculated the excess blob gas for the current block based
     on the gas used in the parent block.
@@ -292,12 +295,12 @@ def calculate_excess_blob_gas(parent_header: Header) -> U64:
     excess_blob_gas: `ethereum.base_types.U64`
         The excess blob gas for the current block.
     """
-    # At the fork block, these are defined as zero.
+    # Before blobs were introduced, these are defined as zero.
     excess_blob_gas = U64(0)
     blob_gas_used = U64(0)
 
-    if isinstance(parent_header, Header):
-        # After the fork block, read them from the parent header.
+    if isinstance(parent_header, (Header, PreviousHeader)):
+        # The parent of the fork block still has the previous fork's header.
         excess_blob_gas = parent_header.excess_blob_gas
         blob_gas_used = parent_header.blob_gas_used
 
-- 
2.43.0


From 71832f41b8107a2651fa28a88be55a9cb74765a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 05/31] fix: let in-memory state cross fork boundaries

Each fork had its own copy of Account, so after apply_fork the accounts of
the previous fork failed the isinstance check when computing the state root
(AssertionError) and never compared equal to EMPTY_ACCOUNT.
---
 src/ethereum/arrow_glacier/fork_types.py     | 17 ++---------------
 src/ethereum/berlin/fork_types.py            | 17 ++---------------
 src/ethereum/byzantium/fork_types.py         | 17 ++---------------
 src/ethereum/cancun/fork_types.py            | 17 ++---------------
 src/ethereum/constantinople/fork_types.py    | 17 ++---------------
 src/ethereum/dao_fork/fork_types.py          | 17 ++---------------
 src/ethereum/gray_glacier/fork_types.py      | 17 ++---------------
 src/ethereum/homestead/fork_types.py         | 17 ++---------------
 src/ethereum/istanbul/fork_types.py          | 17 ++---------------
 src/ethereum/london/fork_types.py            | 17 ++---------------
 src/ethereum/muir_glacier/fork_types.py      | 17 ++---------------
 src/ethereum/osaka/fork_types.py             | 14 ++------------
 src/ethereum/paris/fork_types.py             | 17 ++---------------
 src/ethereum/prague/fork_types.py            | 14 ++------------
 src/ethereum/shanghai/fork_types.py          | 17 ++---------------
 src/ethereum/spurious_dragon/fork_types.py   | 17 ++---------------
 src/ethereum/tangerine_whistle/fork_types.py | 17 ++---------------
 17 files changed, 34 insertions(+), 249 deletions(-)

diff --git a/src/ethereum/arrow_glacier/fork_types.py b/src/ethereum/arrow_glacier/fork_types.py
index 9ec9373..158d659 100644
--- a/src/ethereum/arrow_glacier/fork_types.py
+++ b/src/ethereum/arrow_glacier/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.london.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/berlin/fork_types.py b/src/ethereum/berlin/fork_types.py
index 9ec9373..b095b3d 100644
--- a/src/ethereum/berlin/fork_types.py
+++ b/src/ethereum/berlin/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.muir_glacier.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/byzantium/fork_types.py b/src/ethereum/byzantium/fork_types.py
index d2b8b2c..41c89ad 100644
--- a/src/ethereum/byzantium/fork_types.py
+++ b/src/ethereum/byzantium/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.spurious_dragon.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -26,18 +25,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/cancun/fork_types.py b/src/ethereum/cancun/fork_types.py
index ca107e4..ac52531 100644
--- a/src/ethereum/cancun/fork_types.py
+++ b/src/ethereum/cancun/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.shanghai.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -28,18 +27,6 @@ VersionedHash = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/constantinople/fork_types.py b/src/ethereum/constantinople/fork_types.py
index 9ec9373..ccd2b09 100644
--- a/src/ethereum/constantinople/fork_types.py
+++ b/src/ethereum/constantinople/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.byzantium.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/dao_fork/fork_types.py b/src/ethereum/dao_fork/fork_types.py
index 9ec9373..28e1fbb 100644
--- a/src/ethereum/dao_fork/fork_types.py
+++ b/src/ethereum/dao_fork/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.homestead.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/gray_glacier/fork_types.py b/src/ethereum/gray_glacier/fork_types.py
index 9ec9373..bb311f7 100644
--- a/src/ethereum/gray_glacier/fork_types.py
+++ b/src/ethereum/gray_glacier/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.arrow_glacier.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/homestead/fork_types.py b/src/ethereum/homestead/fork_types.py
index 9ec9373..57dcbcb 100644
--- a/src/ethereum/homestead/fork_types.py
+++ b/src/ethereum/homestead/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.frontier.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/istanbul/fork_types.py b/src/ethereum/istanbul/fork_types.py
index 9ec9373..ea373d3 100644
--- a/src/ethereum/istanbul/fork_types.py
+++ b/src/ethereum/istanbul/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.constantinople.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/london/fork_types.py b/src/ethereum/london/fork_types.py
index 9ec9373..231f656 100644
--- a/src/ethereum/london/fork_types.py
+++ b/src/ethereum/london/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.berlin.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/muir_glacier/fork_types.py b/src/ethereum/muir_glacier/fork_types.py
index 9ec9373..4b12880 100644
--- a/src/ethereum/muir_glacier/fork_types.py
+++ b/src/ethereum/muir_glacier/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.istanbul.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/osaka/fork_types.py b/src/ethereum/osaka/fork_types.py
index 56fa281..bcd1d01 100644
--- a/src/ethereum/osaka/fork_types.py
+++ b/src/ethereum/osaka/fork_types.py
@@ -19,6 +19,8 @@ from ethereum_types.bytes import Bytes, Bytes20, Bytes256
 from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U8, U64, U256, Uint
 
+from ethereum.prague.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -28,18 +30,6 @@ VersionedHash = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/paris/fork_types.py b/src/ethereum/paris/fork_types.py
index 9ec9373..a60758f 100644
--- a/src/ethereum/paris/fork_types.py
+++ b/src/ethereum/paris/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.gray_glacier.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/prague/fork_types.py b/src/ethereum/prague/fork_types.py
index 56fa281..5d56a85 100644
--- a/src/ethereum/prague/fork_types.py
+++ b/src/ethereum/prague/fork_types.py
@@ -19,6 +19,8 @@ from ethereum_types.bytes import Bytes, Bytes20, Bytes256
 from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U8, U64, U256, Uint
 
+from ethereum.cancun.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -28,18 +30,6 @@ VersionedHash = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/shanghai/fork_types.py b/src/ethereum/shanghai/fork_types.py
index 9ec9373..cce580e 100644
--- a/src/ethereum/shanghai/fork_types.py
+++ b/src/ethereum/shanghai/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.paris.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/spurious_dragon/fork_types.py b/src/ethereum/spurious_dragon/fork_types.py
index 9ec9373..a9f4baa 100644
--- a/src/ethereum/spurious_dragon/fork_types.py
+++ b/src/ethereum/spurious_dragon/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.tangerine_whistle.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
diff --git a/src/ethereum/tangerine_whistle/fork_types.py b/src/ethereum/tangerine_whistle/fork_types.py
index 9ec9373..b3ab133 100644
--- a/src/ethereum/tangerine_whistle/fork_types.py
+++ b/src/ethereum/tangerine_whistle/fork_types.py
@@ -12,13 +12,12 @@ Introduction
 Types re-used throughout the specification, which are specific to Ethereum.
 """
 
-from dataclasses import dataclass
-
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes, Bytes20, Bytes256
-from ethereum_types.frozen import slotted_freezable
 from ethereum_types.numeric import U256, Uint
 
+from ethereum.dao_fork.fork_types import Account
+
 from ..crypto.hash import Hash32, keccak256
 
 Address = Bytes20
@@ -27,18 +26,6 @@ Root = Hash32
 Bloom = Bytes256
 
 
-@slotted_freezable
-@dataclass
-class Account:
-    """
-    State associated with an address.
-    """
-
-    nonce: Uint
-    balance: U256
-    code: Bytes
-
-
 EMPTY_ACCOUNT = Account(
     nonce=Uint(0),
     balance=U256(0),
-- 
2.43.0


From 0fb9a35415ad89486c651782697a281409034d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 06/31] fix: give the state carried over into Istanbul its set
 of created accounts

State.created_accounts is new in Istanbul; without it the first Istanbul
transaction on an in-memory state from Constantinople raised AttributeError.
---
 src/ethereum/istanbul/fork.py     | 2 ++
 src/ethereum/muir_glacier/fork.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ethereum/istanbul/fork.py b/src/ethereum/istanbul/fork.py
index 404ff57..1e3f870 100644
--- a/src/ethereum/istanbul/fork.py
+++ b/src/ethereum/istanbul/fork.py
@@ -92,6 +92,8 @@ def apply_fork(old: BlockChain) -> BlockChain:
     new : `BlockChain`
         Upgraded block chain object for this hard fork.
     """
+    # State carried over from before Istanbul has no `created_accounts`.
+    old.state.created_accounts = set()
     return old
 
 
diff --git a/src/ethereum/muir_glacier/fork.py b/src/ethereum/muir_glacier/fork.py
index 39e6e1f..e5a7dcb 100644
--- a/src/ethereum/muir_glacier/fork.py
+++ b/src/ethereum/muir_glacier/fork.py
@@ -92,6 +92,8 @@ def apply_fork(old: BlockChain) -> BlockChain:
     new : `BlockChain`
         Upgraded block chain object for this hard fork.
     """
+    # State carried over from before Istanbul has no `created_accounts`.
+    old.state.created_accounts = set()
     return old
 
 
-- 
2.43.0


From c1f289cee5822338c493d4da5f5425c54428d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 07/31] fix: bound the gas limit of the London fork block

The first London block skipped calculate_base_fee_per_gas and with it the
gas limit check, so it could have any gas limit (EIP-1559 bounds it relative
to twice the parent's).
---
 src/ethereum/london/fork.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 0d2c06f..663b84e 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -316,7 +316,15 @@ def validate_header(chain: BlockChain, header: Header) -> None:
         raise InvalidBlock
 
     expected_base_fee_per_gas = INITIAL_BASE_FEE
-    if header.number != FORK_CRITERIA.block_number:
+    if header.number == FORK_CRITERIA.block_number:
+        # The gas limit of the first block is relative to the gas target of
+        # its parent, which becomes the elastic gas limit.
+        if not check_gas_limit(
+            header.gas_limit,
+            parent_header.gas_limit * ELASTICITY_MULTIPLIER,
+        ):
+            raise InvalidBlock
+    else:
         # For every block except the first, calculate the base fee per gas
         # based on the parent block.
         expected_base_fee_per_gas = calculate_base_fee_per_gas(
-- 
2.43.0


From 1a060dd55ecb1f7aa996378dfa411e807907acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 08/31] fix: reject proof-of-work blocks that do not extend the
 tip of the chain

validate_header looks the parent up by number (it also serves ommers), so
state_transition accepted a block whose parent is an older block, executed
it on the state of the tip and appended it after the tip.
---
 src/ethereum/arrow_glacier/fork.py     | 2 ++
 src/ethereum/berlin/fork.py            | 2 ++
 src/ethereum/byzantium/fork.py         | 2 ++
 src/ethereum/constantinople/fork.py    | 2 ++
 src/ethereum/dao_fork/fork.py          | 2 ++
 src/ethereum/frontier/fork.py          | 2 ++
 src/ethereum/gray_glacier/fork.py      | 2 ++
 src/ethereum/homestead/fork.py         | 2 ++
 src/ethereum/istanbul/fork.py          | 2 ++
 src/ethereum/london/fork.py            | 2 ++
 src/ethereum/muir_glacier/fork.py      | 2 ++
 src/ethereum/spurious_dragon/fork.py   | 2 ++
 src/ethereum/tangerine_whistle/fork.py | 2 ++
 13 files changed, 26 insertions(+)

diff --git a/src/ethereum/arrow_glacier/fork.py b/src/ethereum/arrow_glacier/fork.py
index ef4669a..88abf38 100644
--- a/src/ethereum/arrow_glacier/fork.py
+++ b/src/ethereum/arrow_glacier/fork.py
@@ -171,6 +171,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/berlin/fork.py b/src/ethereum/berlin/fork.py
index a2b59a5..4927852 100644
--- a/src/ethereum/berlin/fork.py
+++ b/src/ethereum/berlin/fork.py
@@ -163,6 +163,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/byzantium/fork.py b/src/ethereum/byzantium/fork.py
index 71b6ff1..fa81eb0 100644
--- a/src/ethereum/byzantium/fork.py
+++ b/src/ethereum/byzantium/fork.py
@@ -158,6 +158,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/constantinople/fork.py b/src/ethereum/constantinople/fork.py
index 404ff57..28eba34 100644
--- a/src/ethereum/constantinople/fork.py
+++ b/src/ethereum/constantinople/fork.py
@@ -158,6 +158,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/dao_fork/fork.py b/src/ethereum/dao_fork/fork.py
index 4b8fcf8..8a5c045 100644
--- a/src/ethereum/dao_fork/fork.py
+++ b/src/ethereum/dao_fork/fork.py
@@ -165,6 +165,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 95407d2..e4961dd 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -155,6 +155,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/gray_glacier/fork.py b/src/ethereum/gray_glacier/fork.py
index 479d457..b1c05f3 100644
--- a/src/ethereum/gray_glacier/fork.py
+++ b/src/ethereum/gray_glacier/fork.py
@@ -171,6 +171,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/homestead/fork.py b/src/ethereum/homestead/fork.py
index 088e418..b974017 100644
--- a/src/ethereum/homestead/fork.py
+++ b/src/ethereum/homestead/fork.py
@@ -155,6 +155,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/istanbul/fork.py b/src/ethereum/istanbul/fork.py
index 1e3f870..21b5537 100644
--- a/src/ethereum/istanbul/fork.py
+++ b/src/ethereum/istanbul/fork.py
@@ -160,6 +160,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 663b84e..fca794e 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -172,6 +172,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/muir_glacier/fork.py b/src/ethereum/muir_glacier/fork.py
index e5a7dcb..8c8f013 100644
--- a/src/ethereum/muir_glacier/fork.py
+++ b/src/ethereum/muir_glacier/fork.py
@@ -160,6 +160,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/spurious_dragon/fork.py b/src/ethereum/spurious_dragon/fork.py
index e3652c9..0c5b028 100644
--- a/src/ethereum/spurious_dragon/fork.py
+++ b/src/ethereum/spurious_dragon/fork.py
@@ -156,6 +156,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
diff --git a/src/ethereum/tangerine_whistle/fork.py b/src/ethereum/tangerine_whistle/fork.py
index 2489eb6..6b5eebd 100644
--- a/src/ethereum/tangerine_whistle/fork.py
+++ b/src/ethereum/tangerine_whistle/fork.py
@@ -154,6 +154,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
         Block to apply to `chain`.
     """
     validate_header(chain, block.header)
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_ommers(block.ommers, block.header, chain)
 
     block_env = vm.BlockEnvironment(
-- 
2.43.0


From e9cef4947e48bff586fd2a9bb808515b747631ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 09/31] fix: Frontier difficulty from block 200000 on raised a
 TypeError

The difficulty bomb term was a plain int, which cannot be added to a Uint.
---
 src/ethereum/frontier/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index e4961dd..4e1d621 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -770,7 +770,7 @@ def calculate_block_difficulty(
     # See https://github.com/ethereum/go-ethereum/pull/1588
     num_bomb_periods = (int(block_number) // 100000) - 2
     if num_bomb_periods >= 0:
-        difficulty += 2**num_bomb_periods
+        difficulty += Uint(2**num_bomb_periods)
 
     # Some clients raise the difficulty to `MINIMUM_DIFFICULTY` prior to adding
     # the bomb. This bug does not matter because the difficulty is always much
-- 
2.43.0


From 83d12b194e7fa0b285da4a231d2687f867077f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 10/31] fix: genesis accounts without a balance raised an
 AttributeError

The default was the integer 0 where a string is parsed.
---
 src/ethereum/genesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum/genesis.py b/src/ethereum/genesis.py
index 564d639..682b9f0 100644
--- a/src/ethereum/genesis.py
+++ b/src/ethereum/genesis.py
@@ -209,7 +209,7 @@ def add_genesis_block(
             address,
             hardfork.Account(
                 Uint(int(account.get("nonce", "0"))),
-                hex_or_base_10_str_to_u256(account.get("balance", 0)),
+                hex_or_base_10_str_to_u256(account.get("balance", "0")),
                 hex_to_bytes(account.get("code", "0x")),
             ),
         )
-- 
2.43.0


From 8c2dec20af0b514bf925ceb15a484c05d933bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 11/31] fix: Hardfork.iter_modules passed a string where a list
 of paths is needed

---
 src/ethereum_spec_tools/forks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/forks.py b/src/ethereum_spec_tools/forks.py
index eac1e63..55cf5b6 100644
--- a/src/ethereum_spec_tools/forks.py
+++ b/src/ethereum_spec_tools/forks.py
@@ -291,7 +291,7 @@ class Hardfork:
         if self.path is None:
             raise ValueError(f"cannot walk {self.name}, path is None")
 
-        return pkgutil.iter_modules(self.path, self.name + ".")
+        return pkgutil.iter_modules([self.path], self.name + ".")
 
     def walk_packages(self) -> Iterator[ModuleInfo]:
         """
-- 
2.43.0


From 9334ed5c5880cd8ab5986f5f86e89c776171d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 12/31] fix: optimized state lost storage written before a
 nested second destroy_storage

Rolling back a destroy_storage made after another one of the same account
dropped what had been written between the two.
---
 src/ethereum_optimized/state_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum_optimized/state_db.py b/src/ethereum_optimized/state_db.py
index b0ea25f..292f69e 100644
--- a/src/ethereum_optimized/state_db.py
+++ b/src/ethereum_optimized/state_db.py
@@ -295,8 +295,8 @@ def get_optimized_state_patches(fork: str) -> Dict[str, Any]:
                 # Restore storage that was destroyed by `destroy_storage()`
                 state.destroyed_accounts[item[0]] -= Uint(1)
                 if state.destroyed_accounts[item[0]] == 0:
-                    state.dirty_storage[item[0]] = item[1]
                     del state.destroyed_accounts[item[0]]
+                state.dirty_storage[item[0]] = item[1]
             else:
                 # Revert a change to an account
                 if item[1] is Unmodified:
-- 
2.43.0


From e8c2cd93a5f089641ee0ccac3f8c757c9b97c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 13/31] fix: t8n keeps rejected transactions out of the block's
 tries

---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 2fad681..11c5abf 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -9,7 +9,7 @@ import os
 from typing import Any, Final, TextIO, Type, TypeVar
 
 from ethereum_rlp import rlp
-from ethereum_types.numeric import U64, U256, Uint
+from ethereum_types.numeric import U64, U256, Uint, ulen
 
 from ethereum import trace
 from ethereum.exceptions import EthereumException, InvalidBlock
@@ -236,6 +236,9 @@ class T8N(Load):
         self.backup_state()
         if len(self.txs.transactions) > 0:
             tx = self.txs.transactions[0]
+            transactions_trie = self.fork.copy_trie(
+                block_output.transactions_trie
+            )
             try:
                 self.fork.process_transaction(
                     block_env=block_env,
@@ -246,6 +249,7 @@ class T8N(Load):
             except EthereumException as e:
                 self.txs.rejected_txs[0] = f"Failed transaction: {e!r}"
                 self.restore_state()
+                block_output.transactions_trie = transactions_trie
                 self.logger.warning(f"Transaction {0} failed: {str(e)}")
 
         self.result.update(self, block_env, block_output)
@@ -268,13 +272,19 @@ class T8N(Load):
 
         for i, tx in zip(self.txs.successfully_parsed, self.txs.transactions):
             self.backup_state()
+            transactions_trie = self.fork.copy_trie(
+                block_output.transactions_trie
+            )
+            # Rejected transactions do not occupy an index in the block.
+            index = ulen(block_output.receipt_keys)
             try:
                 self.fork.process_transaction(
-                    block_env, block_output, tx, Uint(i)
+                    block_env, block_output, tx, index
                 )
             except EthereumException as e:
                 self.txs.rejected_txs[i] = f"Failed transaction: {e!r}"
                 self.restore_state()
+                block_output.transactions_trie = transactions_trie
                 self.logger.warning(f"Transaction {i} failed: {e!r}")
 
         if not self.fork.is_after_fork("ethereum.paris"):
-- 
2.43.0


From 232bdd095d4036eb1c840711375e6fd27d4e5fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 14/31] fix: t8n body encodes typed transactions with their
 type

---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index d99b778..a6ca955 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -178,11 +178,12 @@ class Txs:
             self.sign_transaction(raw_tx)
 
         tx = TransactionLoad(raw_tx, t8n.fork).read()
-        self.all_txs.append(tx)
 
         if t8n.fork.is_after_fork("ethereum.berlin"):
+            self.all_txs.append(t8n.fork.encode_transaction(tx))
             transaction = t8n.fork.decode_transaction(tx)
         else:
+            self.all_txs.append(tx)
             transaction = tx
 
         return transaction
-- 
2.43.0


From 8fdd17a324decb91440f46a1d27b2db5af3450ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 15/31] fix: t8n pays ommer rewards

---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 11c5abf..283d2f3 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -218,12 +218,12 @@ class T8N(Load):
 
         for ommer in self.env.ommers:
             # Ommer age with respect to the current block.
-            ommer_age = U256(block_env.number - ommer.number)
+            ommer_age = parse_hex_or_int(ommer.delta, U256)
             ommer_miner_reward = (
                 (U256(8) - ommer_age) * block_reward
             ) // U256(8)
             self.fork.create_ether(
-                block_env.state, ommer.coinbase, ommer_miner_reward
+                block_env.state, ommer.address, ommer_miner_reward
             )
 
     def run_state_test(self) -> Any:
-- 
2.43.0


From a990456cba40686b4287b1b447fd3625065d8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 16/31] fix: t8n reports the blob gas used

---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index a6ca955..f5d770b 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -320,6 +320,9 @@ class Result:
         if hasattr(block_env, "excess_blob_gas"):
             self.excess_blob_gas = block_env.excess_blob_gas
 
+        if hasattr(block_output, "blob_gas_used"):
+            self.blob_gas_used = block_output.blob_gas_used
+
         if hasattr(block_output, "requests"):
             self.requests = block_output.requests
             self.requests_hash = t8n.fork.compute_requests_hash(self.requests)
-- 
2.43.0


From 93af59ecc193c7688bd5abb2b0c916eb304fd8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 17/31] fix: t8n honours the chain id of transactions

---
 .../evm_tools/loaders/transaction_loader.py                   | 2 +-
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py b/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
index 2c4e652..9b87e98 100644
--- a/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
+++ b/src/ethereum_spec_tools/evm_tools/loaders/transaction_loader.py
@@ -42,7 +42,7 @@ class TransactionLoad:
 
     def json_to_chain_id(self) -> U64:
         """Get chain ID for the transaction."""
-        return U64(1)
+        return parse_hex_or_int(self.raw.get("chainId", 1), U64)
 
     def json_to_nonce(self) -> U256:
         """Get the nonce for the transaction."""
diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index f5d770b..b14b42b 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -216,9 +216,9 @@ class Txs:
             if t8n.fork.is_after_fork("ethereum.spurious_dragon"):
                 if protected:
                     signing_hash = t8n.fork.signing_hash_155(
-                        tx_decoded, U64(1)
+                        tx_decoded, t8n.chain_id
                     )
-                    v_addend = U256(37)  # Assuming chain_id = 1
+                    v_addend = U256(35) + U256(2) * U256(t8n.chain_id)
                 else:
                     signing_hash = t8n.fork.signing_hash_pre155(tx_decoded)
                     v_addend = U256(27)
-- 
2.43.0


From abe7e6f53dd8df8704be23726aba583f4d015c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 18/31] fix: t8n removes its tracers at the end of a run

---
 .../evm_tools/t8n/__init__.py                 | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 283d2f3..d41e8ff 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -6,7 +6,8 @@ import argparse
 import fnmatch
 import json
 import os
-from typing import Any, Final, TextIO, Type, TypeVar
+from contextlib import contextmanager
+from typing import Any, Final, Iterator, TextIO, Type, TypeVar
 
 from ethereum_rlp import rlp
 from ethereum_types.numeric import U64, U256, Uint, ulen
@@ -128,7 +129,6 @@ class T8N(Load):
 
         maybe_tracers: GroupTracer | None
         if tracers.tracers:
-            trace.set_evm_trace(tracers)
             maybe_tracers = tracers
         else:
             maybe_tracers = None
@@ -150,6 +150,18 @@ class T8N(Load):
             self.env.block_difficulty, self.env.base_fee_per_gas
         )
 
+    @contextmanager
+    def _tracing(self) -> Iterator[None]:
+        """Trace with the configured tracers for the time of a run."""
+        if self.tracers is None:
+            yield
+            return
+        previous = trace.set_evm_trace(self.tracers)
+        try:
+            yield
+        finally:
+            trace.set_evm_trace(previous)
+
     def _tracer(self, type_: Type[T]) -> T:
         group = self.tracers
         if group is None:
@@ -240,12 +252,13 @@ class T8N(Load):
                 block_output.transactions_trie
             )
             try:
-                self.fork.process_transaction(
-                    block_env=block_env,
-                    block_output=block_output,
-                    tx=tx,
-                    index=Uint(0),
-                )
+                with self._tracing():
+                    self.fork.process_transaction(
+                        block_env=block_env,
+                        block_output=block_output,
+                        tx=tx,
+                        index=Uint(0),
+                    )
             except EthereumException as e:
                 self.txs.rejected_txs[0] = f"Failed transaction: {e!r}"
                 self.restore_state()
@@ -311,7 +324,8 @@ class T8N(Load):
         block_output = self.fork.BlockOutput()
 
         try:
-            self._run_blockchain_test(block_env, block_output)
+            with self._tracing():
+                self._run_blockchain_test(block_env, block_output)
         except InvalidBlock as e:
             self.result.block_exception = f"{e}"
 
-- 
2.43.0


From fd0f96bad9e797339441a24fe749ba5bef0c7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 19/31] fix: t8n runs the system transactions in the order of
 apply_body

---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index d41e8ff..758de90 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -269,18 +269,18 @@ class T8N(Load):
         self.result.rejected = self.txs.rejected_txs
 
     def _run_blockchain_test(self, block_env: Any, block_output: Any) -> None:
-        if self.fork.is_after_fork("ethereum.prague"):
+        if self.fork.is_after_fork("ethereum.cancun"):
             self.fork.process_unchecked_system_transaction(
                 block_env=block_env,
-                target_address=self.fork.HISTORY_STORAGE_ADDRESS,
-                data=block_env.block_hashes[-1],  # The parent hash
+                target_address=self.fork.BEACON_ROOTS_ADDRESS,
+                data=block_env.parent_beacon_block_root,
             )
 
-        if self.fork.is_after_fork("ethereum.cancun"):
+        if self.fork.is_after_fork("ethereum.prague"):
             self.fork.process_unchecked_system_transaction(
                 block_env=block_env,
-                target_address=self.fork.BEACON_ROOTS_ADDRESS,
-                data=block_env.parent_beacon_block_root,
+                target_address=self.fork.HISTORY_STORAGE_ADDRESS,
+                data=block_env.block_hashes[-1],  # The parent hash
             )
 
         for i, tx in zip(self.txs.successfully_parsed, self.txs.transactions):
-- 
2.43.0


From 4039667ac5660ae4084e94cfb3af806a23937f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 20/31] fix: b11r without --input.ommers or with only
 withdrawals on stdin

---
 src/ethereum_spec_tools/evm_tools/b11r/__init__.py   | 1 +
 src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/b11r/__init__.py b/src/ethereum_spec_tools/evm_tools/b11r/__init__.py
index e106af5..974802c 100644
--- a/src/ethereum_spec_tools/evm_tools/b11r/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/b11r/__init__.py
@@ -80,6 +80,7 @@ class B11R:
             options.input_header,
             options.input_ommers,
             options.input_txs,
+            options.input_withdrawals,
         ):
             stdin = json.load(in_file)
         else:
diff --git a/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py b/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
index b8b99b4..8e51c7f 100644
--- a/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
+++ b/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
@@ -44,7 +44,9 @@ class Body:
             self.transactions = rlp.decode(hex_to_bytes(txs_data))
 
         # Parse ommers
-        if options.input_ommers == "stdin":
+        if options.input_ommers is None:
+            ommers_data = []
+        elif options.input_ommers == "stdin":
             assert stdin is not None
             # The tests use "ommers" whereas the tf tool uses "uncles"
             try:
-- 
2.43.0


From bd850c0c5728009faed3827ac772ab3a0413b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 21/31] fix: b11r drops the header fields added by Cancun and
 Prague

---
 .../evm_tools/b11r/b11r_types.py               | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py b/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
index 8e51c7f..c4a44a8 100644
--- a/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
+++ b/src/ethereum_spec_tools/evm_tools/b11r/b11r_types.py
@@ -111,6 +111,10 @@ class Header:
     nonce: Bytes8
     base_fee_per_gas: Optional[Uint]
     withdrawals_root: Optional[Hash32]
+    blob_gas_used: Optional[U64]
+    excess_blob_gas: Optional[U64]
+    parent_beacon_block_root: Optional[Hash32]
+    requests_hash: Optional[Hash32]
 
     def __init__(self, options: Any, body: Body, stdin: Any = None):
         if options.input_header == "stdin":
@@ -172,3 +176,17 @@ class Header:
                 self.base_fee_per_gas = Uint(0)
         except KeyError:
             self.withdrawals_root = None
+
+        self.blob_gas_used = None
+        self.excess_blob_gas = None
+        self.parent_beacon_block_root = None
+        if "excessBlobGas" in data:
+            self.blob_gas_used = parse_hex_or_int(data["blobGasUsed"], U64)
+            self.excess_blob_gas = parse_hex_or_int(data["excessBlobGas"], U64)
+            self.parent_beacon_block_root = Hash32(
+                hex_to_bytes(data["parentBeaconBlockRoot"])
+            )
+
+        self.requests_hash = None
+        if "requestsHash" in data:
+            self.requests_hash = Hash32(hex_to_bytes(data["requestsHash"]))
-- 
2.43.0


From a77f2b327e5f9ebba4f1ae151a97f38218c14aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 22/31] fix: sync over the standard endpoints handles replies
 in any order and ommers at a fork

---
 src/ethereum_spec_tools/sync.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 78a62d8..0678ee0 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -429,7 +429,8 @@ class BlockDownloader(ForkTracking):
             ommers_needed: Dict[Uint, int] = {}
             blocks: Dict[Uint, Union[Any, RpcError]] = {}
 
-            for reply in replies:
+            # Replies to a batch may arrive in any order.
+            for reply in sorted(replies, key=lambda r: int(r["id"], 0)):
                 reply_id = Uint(int(reply["id"], 0))
 
                 if reply_id < first or reply_id >= first + count:
@@ -455,7 +456,9 @@ class BlockDownloader(ForkTracking):
             for id in block_jsons:
                 self.advance_block(hex_to_u256(block_jsons[id]["timestamp"]))
                 blocks[id] = self.make_block(
-                    block_jsons[id], ommers.get(id, ())
+                    block_jsons[id],
+                    # Ommers use the header format of the including block.
+                    tuple(self.make_header(x) for x in ommers.get(id, ())),
                 )
 
             self.log.info("blocks [%d, %d) fetched", first, first + count)
@@ -517,9 +520,9 @@ class BlockDownloader(ForkTracking):
                         reply["error"]["message"],
                     )
                 else:
-                    ommers[reply_id // twenty][
-                        reply_id % twenty
-                    ] = self.make_header(reply["result"])
+                    ommers[reply_id // twenty][reply_id % twenty] = reply[
+                        "result"
+                    ]
 
             self.log.info(
                 "ommers [%d, %d] fetched",
-- 
2.43.0


From aafbb4d9e40e6561e64490785bed36b4fce5e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 23/31] fix: sync over the standard endpoints understands
 Cancun and Prague blocks

---
 src/ethereum_spec_tools/sync.py | 64 ++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 0678ee0..ef62200 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -19,7 +19,7 @@ from urllib import request
 
 from ethereum_rlp import rlp
 from ethereum_types.bytes import Bytes0, Bytes256
-from ethereum_types.numeric import U64, U256, Uint
+from ethereum_types.numeric import U8, U64, U256, Uint
 
 from ethereum import genesis
 from ethereum.utils.hexadecimal import (
@@ -356,6 +356,62 @@ class BlockDownloader(ForkTracking):
                         hex_to_u256(t["s"]),
                     )
                 )
+            elif t["type"] == "0x3":
+                return b"\x03" + rlp.encode(
+                    self.module("transactions").BlobTransaction(
+                        hex_to_u64(t["chainId"]),
+                        hex_to_u256(t["nonce"]),
+                        hex_to_uint(t["maxPriorityFeePerGas"]),
+                        hex_to_uint(t["maxFeePerGas"]),
+                        hex_to_uint(t["gas"]),
+                        self.module("utils.hexadecimal").hex_to_address(
+                            t["to"]
+                        ),
+                        hex_to_u256(t["value"]),
+                        hex_to_bytes(t["input"]),
+                        access_list,
+                        hex_to_u256(t["maxFeePerBlobGas"]),
+                        [
+                            hex_to_bytes32(blob_hash)
+                            for blob_hash in t["blobVersionedHashes"]
+                        ],
+                        hex_to_u256(t["v"]),
+                        hex_to_u256(t["r"]),
+                        hex_to_u256(t["s"]),
+                    )
+                )
+            elif t["type"] == "0x4":
+                return b"\x04" + rlp.encode(
+                    self.module("transactions").SetCodeTransaction(
+                        hex_to_u64(t["chainId"]),
+                        hex_to_u64(t["nonce"]),
+                        hex_to_uint(t["maxPriorityFeePerGas"]),
+                        hex_to_uint(t["maxFeePerGas"]),
+                        hex_to_uint(t["gas"]),
+                        self.module("utils.hexadecimal").hex_to_address(
+                            t["to"]
+                        ),
+                        hex_to_u256(t["value"]),
+                        hex_to_bytes(t["input"]),
+                        access_list,
+                        [
+                            self.module("fork_types").Authorization(
+                                hex_to_u256(authorization["chainId"]),
+                                self.module(
+                                    "utils.hexadecimal"
+                                ).hex_to_address(authorization["address"]),
+                                hex_to_u64(authorization["nonce"]),
+                                U8(int(authorization["yParity"], 16)),
+                                hex_to_u256(authorization["r"]),
+                                hex_to_u256(authorization["s"]),
+                            )
+                            for authorization in t["authorizationList"]
+                        ],
+                        hex_to_u256(t["v"]),
+                        hex_to_u256(t["r"]),
+                        hex_to_u256(t["s"]),
+                    )
+                )
             else:
                 return self.module("transactions").LegacyTransaction(
                     hex_to_u256(t["nonce"]),
@@ -560,6 +616,12 @@ class BlockDownloader(ForkTracking):
             fields.append(hex_to_uint(json["baseFeePerGas"]))
         if hasattr(self.module("blocks").Header, "withdrawals_root"):
             fields.append(hex_to_bytes32(json["withdrawalsRoot"]))
+        if hasattr(self.module("blocks").Header, "excess_blob_gas"):
+            fields.append(hex_to_u64(json["blobGasUsed"]))
+            fields.append(hex_to_u64(json["excessBlobGas"]))
+            fields.append(hex_to_bytes32(json["parentBeaconBlockRoot"]))
+        if hasattr(self.module("blocks").Header, "requests_hash"):
+            fields.append(hex_to_bytes32(json["requestsHash"]))
         return self.module("blocks").Header(*fields)
 
     def make_block(self, json: Any, ommers: Any) -> Any:
-- 
2.43.0


From bcfd84fccde868a9a80205abbff37aba0502ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 24/31] fix: a resumed sync decodes blocks from before the last
 two forks

---
 src/ethereum_spec_tools/sync.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index ef62200..12dce6b 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -125,12 +125,11 @@ class BlockDownloader(ForkTracking):
         ForkTracking.__init__(self, forks, first_block, first_block_timestamp)
 
         # `first_block_timestamp` is the timestamp for the persisted block,
-        #  but the downloader starts 256 blocks earlier. Since this might be
-        #  the previous fork we step 1 fork backwards. In the case that there
-        #  wasn't a fork in the previous 256 blocks, `advance_block()` will
-        #  restore the correct fork before any blocks are processed.
-        if self.active_fork_index > 0:
-            self.active_fork_index -= 1
+        #  but the downloader starts 256 blocks earlier. Since any number of
+        #  forks might have activated in between, we step back to the first
+        #  fork. `advance_block()` will restore the correct fork before any
+        #  blocks are processed.
+        self.active_fork_index = 0
 
         self.queue = Queue(maxsize=512)
         self.log = log
-- 
2.43.0


From a79f5968278eb7864f574d0690771fe58c341df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 25/31] fix: sync over the standard endpoints builds legacy
 transactions that can be processed

---
 src/ethereum_spec_tools/sync.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 12dce6b..6fa0d1a 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -414,8 +414,8 @@ class BlockDownloader(ForkTracking):
             else:
                 return self.module("transactions").LegacyTransaction(
                     hex_to_u256(t["nonce"]),
-                    hex_to_u256(t["gasPrice"]),
-                    hex_to_u256(t["gas"]),
+                    hex_to_uint(t["gasPrice"]),
+                    hex_to_uint(t["gas"]),
                     self.module("utils.hexadecimal").hex_to_address(t["to"])
                     if t["to"]
                     else Bytes0(b""),
@@ -428,8 +428,8 @@ class BlockDownloader(ForkTracking):
         else:
             return self.module("transactions").Transaction(
                 hex_to_u256(t["nonce"]),
-                hex_to_u256(t["gasPrice"]),
-                hex_to_u256(t["gas"]),
+                hex_to_uint(t["gasPrice"]),
+                hex_to_uint(t["gas"]),
                 self.module("utils.hexadecimal").hex_to_address(t["to"])
                 if t["to"]
                 else Bytes0(b""),
-- 
2.43.0


From 68700f4e453710c3eebb882cdc411d3f264e58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 26/31] fix: documentation diffs rename the identifiers of the
 forks' own packages

The package of a fork (ethereum.frontier, say) kept its identifier inside
the diffs, so it was defined several times and its two versions were shown
as entirely unrelated.
---
 src/ethereum_spec_tools/docc.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/ethereum_spec_tools/docc.py b/src/ethereum_spec_tools/docc.py
index c066f35..72f9d31 100644
--- a/src/ethereum_spec_tools/docc.py
+++ b/src/ethereum_spec_tools/docc.py
@@ -404,27 +404,29 @@ class _FixIndexVisitor(Visitor):
         before_prefix = f"{before}."
         after_prefix = f"{after}."
 
+        # The names by themselves identify the forks' own packages.
+
         if isinstance(node, (Reference, Definition)):
             identifier: Optional[str] = None
 
-            if node.identifier.startswith(before_prefix):
-                identifier = node.identifier.removeprefix(before_prefix)
-            elif node.identifier.startswith(after_prefix):
-                identifier = node.identifier.removeprefix(after_prefix)
+            if f"{node.identifier}.".startswith(before_prefix):
+                identifier = node.identifier.removeprefix(before)
+            elif f"{node.identifier}.".startswith(after_prefix):
+                identifier = node.identifier.removeprefix(after)
 
             if identifier is not None:
-                node.identifier = f"diff({before},{after}).{identifier}"
+                node.identifier = f"diff({before},{after}){identifier}"
         elif isinstance(node, python.Name) and node.full_name:
             if node.full_name:
                 full_name: Optional[str] = None
 
-                if node.full_name.startswith(before_prefix):
-                    full_name = node.full_name.removeprefix(before_prefix)
-                elif node.full_name.startswith(after_prefix):
-                    full_name = node.full_name.removeprefix(after_prefix)
+                if f"{node.full_name}.".startswith(before_prefix):
+                    full_name = node.full_name.removeprefix(before)
+                elif f"{node.full_name}.".startswith(after_prefix):
+                    full_name = node.full_name.removeprefix(after)
 
                 if full_name is not None:
-                    node.full_name = f"diff({before},{after}).{full_name}"
+                    node.full_name = f"diff({before},{after}){full_name}"
 
         return Visit.TraverseChildren
 
-- 
2.43.0


From 5d5d26678876f0b2b474a7225ccd387e964683ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 27/31] fix: documentation diffs of docstrings with tables

The alignments of a table are lists, which cannot be hashed, so a table in
a docstring stopped the build; and a change to a table's header was lost.
---
 src/ethereum_spec_tools/docc.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ethereum_spec_tools/docc.py b/src/ethereum_spec_tools/docc.py
index 72f9d31..e0470f5 100644
--- a/src/ethereum_spec_tools/docc.py
+++ b/src/ethereum_spec_tools/docc.py
@@ -497,7 +497,10 @@ class _DoccAdapter(Adapter[Node]):
                     and lhs.prepend == rhs.prepend
                 )
             case blocks.Table:
-                return lhs.column_align == rhs.column_align
+                return (
+                    lhs.column_align == rhs.column_align
+                    and self._table_header_equals(lhs, rhs)
+                )
             case blocks.TableRow:
                 return lhs.row_align == rhs.row_align
             case blocks.TableCell:
@@ -513,6 +516,21 @@ class _DoccAdapter(Adapter[Node]):
                     f"markdown comparison for {lhs} not implemented"
                 )
 
+    def _table_header_equals(
+        self, lhs: blocks.Table, rhs: blocks.Table
+    ) -> bool:
+        # The header isn't one of the children of a table.
+        lhs_header = getattr(lhs, "header", None)
+        rhs_header = getattr(rhs, "header", None)
+
+        if lhs_header is None or rhs_header is None:
+            return lhs_header is rhs_header
+
+        return self.deep_equals(
+            mistletoe.MarkdownNode(lhs_header),
+            mistletoe.MarkdownNode(rhs_header),
+        )
+
     def _markdown_hash(self, node: mistletoe.MarkdownNode) -> int:
         token = node.token
 
@@ -548,9 +566,9 @@ class _DoccAdapter(Adapter[Node]):
             case blocks.ListItem:
                 result = (token.loose, token.leader, token.prepend)
             case blocks.Table:
-                result = (token.column_align,)
+                result = tuple(token.column_align)
             case blocks.TableRow:
-                result = (token.row_align,)
+                result = tuple(token.row_align)
             case blocks.TableCell:
                 result = (token.align,)
             case spans.LineBreak:
-- 
2.43.0


From 9c566a2f163e91379db0e108f3f0e03a4204a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 28/31] fix: documentation diffs of reordered annotations

When the operands of an annotation moved (A | B to C | A, say) or a
docstring appeared where a return type went, the children of the node no
longer lined up with its fields and the build stopped.
---
 src/ethereum_spec_tools/docc.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ethereum_spec_tools/docc.py b/src/ethereum_spec_tools/docc.py
index e0470f5..7669953 100644
--- a/src/ethereum_spec_tools/docc.py
+++ b/src/ethereum_spec_tools/docc.py
@@ -816,13 +816,15 @@ class _DoccApply(Apply[Node]):
             self.children = [new if x == old else x for x in self.children]
 
     class FlexNode(ApplyNode):
-        __slots__ = ("node",)
+        __slots__ = ("node", "before")
 
         node: Node
+        before: Node
 
-        def __init__(self, node: Node) -> None:
+        def __init__(self, node: Node, before: Node) -> None:
             super().__init__()
             self.node = node
+            self.before = before
 
         def __repr__(self) -> str:
             return f"FlexNode(node={self.node!r}, ...)"
@@ -938,12 +940,26 @@ class _DoccApply(Apply[Node]):
     @override
     def descend(self, before: Node, after: Node) -> None:
         parent = self.stack[-1]
-        node = _DoccApply.FlexNode(after)
+        node = _DoccApply.FlexNode(after, before)
         parent.add(node)
         self.stack.append(node)
 
     def ascend(self) -> None:
-        self.stack.pop()
+        flex = self.stack.pop()
+        assert isinstance(flex, _DoccApply.FlexNode)
+
+        if not isinstance(flex.node, python.PythonNode):
+            return
+
+        if len(flex.children) == len(list(flex.node.children)):
+            return
+
+        # The children of a python node are its fields. When they no longer
+        # line up with the fields, replace the node as a whole instead.
+        parent = self.stack[-1]
+        popped = parent.children.pop()
+        assert popped is flex
+        self.replace([flex.before], [flex.node])
 
     def output(self) -> Node:
         assert 1 == len(self.root.children)
-- 
2.43.0


From 78cafd7944f0dc0c27cac2dea6547d72b44d6337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 29/31] fix: documentation diffs show the targets of both
 versions of an autolink

---
 src/ethereum_spec_tools/docc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/docc.py b/src/ethereum_spec_tools/docc.py
index 7669953..dd26e1b 100644
--- a/src/ethereum_spec_tools/docc.py
+++ b/src/ethereum_spec_tools/docc.py
@@ -462,11 +462,12 @@ class _DoccAdapter(Adapter[Node]):
                 | blocks.Paragraph
                 | blocks.ThematicBreak
                 | blocks.HTMLBlock
-                | spans.AutoLink
             ):
                 return True
             case spans.RawText | spans.HTMLSpan:
                 return lhs.content == rhs.content
+            case spans.AutoLink:
+                return lhs.target == rhs.target
             case spans.Image:
                 return (
                     lhs.src == rhs.src
@@ -546,11 +547,12 @@ class _DoccAdapter(Adapter[Node]):
                 | blocks.Paragraph
                 | blocks.ThematicBreak
                 | blocks.HTMLBlock
-                | spans.AutoLink
             ):
                 result = ()
             case spans.RawText | spans.HTMLSpan:
                 result = (token.content,)
+            case spans.AutoLink:
+                result = (token.target,)
             case spans.Link:
                 result = (token.target, token.title, token.label)
             case spans.Image:
-- 
2.43.0


From 8bc9502b3b7d1dcb1a333f0e9b78c68fe0cb9ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 30/31] fix: the import lint sees every module an import names

---
 .../lint/lints/import_hygiene.py              | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/ethereum_spec_tools/lint/lints/import_hygiene.py b/src/ethereum_spec_tools/lint/lints/import_hygiene.py
index 648a6c2..7b349c6 100644
--- a/src/ethereum_spec_tools/lint/lints/import_hygiene.py
+++ b/src/ethereum_spec_tools/lint/lints/import_hygiene.py
@@ -47,20 +47,17 @@ class ImportHygiene(Lint):
         """
         diagnostics: List[Diagnostic] = []
 
-        active_fork = forks[position].name
-        future_forks = tuple(fork.name for fork in forks[position + 1 :])
-        ancient_forks = (
-            tuple(fork.name for fork in forks[: position - 1])
-            if position > 1
-            else tuple()
-        )
+        positions = {fork.name: idx for idx, fork in enumerate(forks)}
 
         current_imports = self._parse(source, _Visitor(), "item_imports")
 
         for item in current_imports:
-            if item is None:
+            # Modules belong to a fork only if the whole component matches.
+            imported = positions.get(".".join(item.split(".")[:2]))
+
+            if imported is None:
                 continue
-            elif item.startswith(active_fork):
+            elif imported == position:
                 diagnostic = Diagnostic(
                     message=(
                         f"The import `{item}` in `{name}` is "
@@ -69,7 +66,7 @@ class ImportHygiene(Lint):
                 )
                 diagnostics.append(diagnostic)
 
-            elif item.startswith(future_forks):
+            elif imported > position:
                 diagnostic = Diagnostic(
                     message=(
                         f"The import `{item}` in `{name}` "
@@ -77,7 +74,7 @@ class ImportHygiene(Lint):
                     )
                 )
                 diagnostics.append(diagnostic)
-            elif item.startswith(ancient_forks):
+            elif imported < position - 1:
                 diagnostic = Diagnostic(
                     message=(
                         f"The import `{item}` in `{name}` is from an "
@@ -105,10 +102,22 @@ class _Visitor(ast.NodeVisitor):
         """
         Visit an Import.
         """
-        self.item_imports.append(mod.names[0].name)
+        self.item_imports += [alias.name for alias in mod.names]
 
     def visit_ImportFrom(self, mod: ast.ImportFrom) -> None:
         """
         Visit an ImportFrom.
         """
-        self.item_imports.append(str(mod.module))
+        if mod.level > 0:
+            # Relative imports are always allowed.
+            return
+
+        assert mod.module is not None
+
+        if "." in mod.module:
+            self.item_imports.append(mod.module)
+        else:
+            # `from ethereum import frontier` imports `ethereum.frontier`.
+            self.item_imports += [
+                f"{mod.module}.{alias.name}" for alias in mod.names
+            ]
-- 
2.43.0


From 4e9b4db5ddfa6fcfd83e0e3f57dd56fe48e14e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 31/31] fix: new-fork copies forks without a test folder of
 their own

---
 src/ethereum_spec_tools/new_fork.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/new_fork.py b/src/ethereum_spec_tools/new_fork.py
index dc8c896..b811aac 100644
--- a/src/ethereum_spec_tools/new_fork.py
+++ b/src/ethereum_spec_tools/new_fork.py
@@ -115,7 +115,9 @@ class ForkCreator:
         Copy the relevant files/folders from the old fork
         """
         copytree(self.from_path, self.to_path)
-        copytree(self.from_test_path, self.to_test_path)
+        if os.path.isdir(self.from_test_path):
+            # Only some forks have a test folder of their own.
+            copytree(self.from_test_path, self.to_test_path)
 
     def update_new_fork_contents(self) -> None:
         """
-- 
2.43.0

