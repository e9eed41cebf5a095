From b15a2b5a38a8b38f7bbf45426b9a1c6ba9270c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 001/107] fix: use exact bit counts for integers instead of
 floating-point logarithms

---
 pgp/transferrable_keys.py | 3 +--
 pgp/utils.py              | 8 ++++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5d9b372..61627e9 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,6 @@
 
 import datetime
 import email.utils
-import math
 import time
 import weakref
 
@@ -323,7 +322,7 @@ class BasePublicKey(SignedMixin):
         elif self.public_key_algorithm in (16, 20):
             n = self.prime_p
 
-        return int(math.ceil(float(math.log(n, 2))))
+        return n.bit_length()
 
     @property
     def key_id(self):
diff --git a/pgp/utils.py b/pgp/utils.py
index 8378b9e..38c7024 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -113,7 +113,7 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
         return secret_key.sign(sig_string, k)
     elif pub_algorithm_type == 17:
         q = secret_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
+        qbits = q.bit_length()
         qbytes = int(math.ceil(qbits / 8.0))
         if k is None:
             k = random.StrongRandom().randint(1, q - 1)
@@ -139,7 +139,7 @@ def verify_hash(pub_algorithm_type, public_key, hash_, values):
     elif pub_algorithm_type == 17:
         # DSA
         q = public_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
+        qbits = q.bit_length()
         qbytes = int(math.ceil(qbits / 8.0))
 
         digest = hash_.digest()
@@ -560,7 +560,7 @@ def mpi_to_int(bytes_, offset):
 
 
 def int_to_bytes(i):
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+    bits_required = i.bit_length()
     bytes_required = int(math.ceil(bits_required / 8.0))
     result = bytearray(
         [(i >> (j * 8)) & 0xff
@@ -644,7 +644,7 @@ def int_to_mpi(i):
         raise ValueError(i)
     elif i == 0:
         return bytearray([0, 0])
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
+    bits_required = i.bit_length()
     bytes_required = int(math.ceil(bits_required / 8.0))
     result = bytearray() + int_to_2byte(bits_required)
     for b in range(bytes_required - 1, -1, -1):
-- 
2.43.0


From b509fe456bafc0b502d11bf48d239c60a3fcd141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 002/107] fix: write four-octet old-format lengths for bodies
 of 16 MiB and more

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 38c7024..42b1a1c 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -765,7 +765,7 @@ def old_packet_length_to_bytes(data_length):
         length_type = 1
         length_bytes = [data_length >> 8,
                         data_length & 0xff]
-    elif data_length < 16777216:
+    elif data_length <= MAX_PACKET_LENGTH:
         length_type = 2
         length_bytes = [data_length >> 24,
                         (data_length >> 16) & 0xff,
-- 
2.43.0


From 9be433ca6d1a4a6a214338c0b42d0fa360435484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 003/107] fix: write the length octet of empty new-format
 packets and split long bodies correctly

---
 pgp/packets/packets.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6fe02af..7527468 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -129,17 +129,19 @@ class Packet(object):
             offset = 0
             tag += 0x40 + packet_type
             result = bytearray([tag])
-            while remaining:
-                # "An implementation MAY use Partial Body Lengths for data
-                #  packets, be they literal, compressed, or encrypted."
-                allow_partial = self.type in constants.DATA_TYPES
+            # "An implementation MAY use Partial Body Lengths for data
+            #  packets, be they literal, compressed, or encrypted."
+            allow_partial = self.type in constants.DATA_TYPES
+            while True:
                 packet_length_bytes, remaining = \
                     utils.new_packet_length_to_bytes(
-                            data_length,
+                            remaining,
                             allow_partial)
                 result.extend(packet_length_bytes)
                 result.extend(data[offset:data_length - remaining])
                 offset = data_length - remaining
+                if not remaining:
+                    break
 
         else:
             tag += (packet_type << 2)
-- 
2.43.0


From d45277540c79a0a01839f9877609e5c9a752cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 004/107] fix: read partial and indeterminate length packets
 from streams as from buffers

---
 pgp/packets/packets.py | 33 ++++++++++++---------------------
 pgp/utils.py           |  8 ++++++--
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 7527468..99d19f0 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1624,31 +1624,22 @@ def packet_from_packet_stream(fh):
 
     packet_data = bytearray()
     incomplete = True
-    previous_tag = None
-    previous_header_type = None
+    first = ord(fh.read(1))
+    tag = first & 0x3f
+    header_type = (
+            constants.NEW_PACKET_HEADER_TYPE
+            if bool(first & 0x40)
+            else constants.OLD_PACKET_HEADER_TYPE
+        )
+    if header_type == constants.OLD_PACKET_HEADER_TYPE:
+        tag >>= 2
+        fh.seek(fh.tell() - 1)
+    # Only the first of a series of partial bodies has a tag.
     while incomplete:
-        first = ord(fh.read(1))
-        tag = first & 0x3f
-        if previous_tag is not None:
-            if tag != previous_tag:
-                # TODO: complete message
-                raise ValueError()
-        previous_tag = tag
-        header_type = (
-                constants.NEW_PACKET_HEADER_TYPE
-                if bool(first & 0x40)
-                else constants.OLD_PACKET_HEADER_TYPE
-            )
-        if previous_header_type is not None:
-            if header_type != previous_header_type:
-                # TODO: complete message
-                raise ValueError()
         if header_type == constants.NEW_PACKET_HEADER_TYPE:
             data_length, incomplete = \
                 utils.new_packet_length_from_stream(fh)
         else:
-            tag >>= 2
-            fh.seek(fh.tell() - 1)
             data_length = utils.old_packet_length_from_stream(fh)
             incomplete = False
 
@@ -1670,7 +1661,7 @@ def packet_from_packet_data(data, offset=0):
     incomplete = True
     tag = None
     while incomplete:
-        if not tag:
+        if tag is None:
             tag = data[offset] & 0x3f
             header_type = (
                     constants.NEW_PACKET_HEADER_TYPE
diff --git a/pgp/utils.py b/pgp/utils.py
index 42b1a1c..640006b 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -664,8 +664,12 @@ def old_packet_length_from_stream(fh):
     elif length_type == 2:
         length = long_to_int(bytearray(fh.read(4)), 0)
     else:
-        # with & 3 and the other cases, this has to be 3.
-        raise ValueError
+        # with & 3 and the other cases, this has to be 3: the packet
+        # extends to the end of the stream.
+        position = fh.tell()
+        fh.seek(0, 2)
+        length = fh.tell() - position
+        fh.seek(position)
     return length
 
 
-- 
2.43.0


From 7b358fa4a0a639a808f12ceadd8ae924051dde71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 005/107] fix: read and write the whole key ID of version 3
 signatures

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 99d19f0..347eaeb 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -331,7 +331,7 @@ class SignaturePacket(Packet):
             creation_time = utils.long_to_int(data, offset)
             offset += 4
 
-            key_id = utils.bytearray_to_hex(data, offset, 8)
+            key_id = utils.bytearray_to_hex(data, offset, 16)
             offset += 8
 
             public_key_algorithm = data[offset]
@@ -476,7 +476,7 @@ class SignaturePacket(Packet):
             data.append(0x05)
             data.append(self.signature_type)
             data.extend(utils.int_to_4byte(self.creation_time))
-            data.extend(self.key_id)
+            data.extend(utils.hex_to_bytes(self.key_id, 8))
             data.append(self.public_key_algorithm)
             data.append(self.hash_algorithm)
         else:
-- 
2.43.0


From eea077be0995d66e6d29a1efb6f53452c69bbe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 006/107] fix: compare signature packets of every version

---
 pgp/packets/packets.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 347eaeb..0bed1d5 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -439,16 +439,27 @@ class SignaturePacket(Packet):
             raise ValueError()
 
     def __eq__(self, other):
+        if not (super(SignaturePacket, self).__eq__(other)
+                and self.version == other.version):
+            return False
+        if self.version < 4:
+            version_specific = (
+                self.creation_time == other.creation_time
+                and self.key_id == other.key_id
+                )
+        else:
+            version_specific = (
+                set(self.hashed_subpackets) == set(other.hashed_subpackets)
+                and set(self.unhashed_subpackets) ==
+                set(other.unhashed_subpackets)
+                )
         return (
-            super(SignaturePacket, self).__eq__(other)
-            and self.version == other.version
+            version_specific
             and self.signature_type == other.signature_type
             and self.public_key_algorithm == other.public_key_algorithm
             and self.hash_algorithm == other.hash_algorithm
             and self.hash2 == other.hash2
             and self.signature_values == other.signature_values
-            and set(self.hashed_subpackets) == set(other.hashed_subpackets)
-            and set(self.unhashed_subpackets) == set(other.unhashed_subpackets)
             )
 
     @property
-- 
2.43.0


From 564b9d5773c7f3b3a14b7d7dc46ad52c5c4157ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 007/107] fix: read the whole key ID of one-pass signature
 packets

---
 pgp/packets/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0bed1d5..72950a1 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -654,7 +654,7 @@ class OnePassSignaturePacket(Packet):
         offset += 1
         public_key_algorithm = int(data[offset])
         offset += 1
-        key_id = utils.bytearray_to_hex(data, offset, 8)
+        key_id = utils.bytearray_to_hex(data, offset, 16)
         offset += 8
         nested = data[offset]
         offset += 1
@@ -677,6 +677,7 @@ class OnePassSignaturePacket(Packet):
     def __eq__(self, other):
         return (
             super(OnePassSignaturePacket, self).__eq__(other)
+            and self.version == other.version
             and self.signature_type == other.signature_type
             and self.hash_algorithm == other.hash_algorithm
             and self.public_key_algorithm == other.public_key_algorithm
-- 
2.43.0


From 22b34902366120662b363ac01c2a282bfffb19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 008/107] fix: recognise the wildcard key ID of encrypted
 session keys

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 72950a1..bbe6f61 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -167,7 +167,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         #  card" or "speculative" Key ID.  In this case, the receiving
         #  implementation would try all available private keys, checking for a
         #  valid decrypted session key."
-        if key_id == b'0' * 16:
+        if key_id == '0' * 16:
             key_id = None
         offset += 8
         public_key_algorithm = int(data[offset])
-- 
2.43.0


From cd1da4f21a3a9ea330f8b6c3154b586b2d2ea0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 009/107] fix: raise the documented exception for unknown
 public key algorithms

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index bbe6f61..7776cf4 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -811,7 +811,7 @@ class PublicKeyPacket(Packet):
             data.extend(utils.int_to_mpi(self.group_generator))
             data.extend(utils.int_to_mpi(self.key_value))
         else:
-            raise NotImplemented
+            raise NotImplementedError
 
         return data
 
-- 
2.43.0


From 2e3307f81bdd8f486485e0c4b6b583738e72c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 010/107] fix: keep the whole session key of symmetric-key
 encrypted session key packets

---
 pgp/packets/packets.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 7776cf4..94091af 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -547,11 +547,9 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         s2k_specification, offset = s2k.parse_s2k_bytes(symmetric_algorithm,
                                                         data,
                                                         offset)
-        encrypted_session_key_length = \
-            utils.symmetric_cipher_key_lengths.get(symmetric_algorithm)
-        # + 1 for the symmetric algorithm
-        encrypted_session_key = \
-            data[offset:offset + encrypted_session_key_length + 1]
+        # The session key may be for another, longer-keyed, algorithm than
+        # the one which encrypts it. It is absent if there is no more data.
+        encrypted_session_key = data[offset:] or None
         result = cls(header_format, version, symmetric_algorithm,
                      s2k_specification, encrypted_session_key)
         result._content = data
-- 
2.43.0


From 86d7d7e311c59d302ea4dffb407791222b342be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 011/107] fix: write literal data packets as they were read

---
 pgp/packets/packets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 94091af..d4c9085 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1256,7 +1256,7 @@ class LiteralDataPacket(Packet):
         filename = data[offset:offset + filename_length]
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = filename.decode('utf8', 'replace')
+        filename = filename.decode('utf8', 'surrogateescape')
         offset += filename_length
         time = utils.long_to_int(data, offset)
         offset += 4
@@ -1306,11 +1306,14 @@ class LiteralDataPacket(Packet):
         elif self.data_format not in (b'b', b't', b'u'):
             raise ValueError
         data = bytearray(self.data_format)
-        data.append(int(len(self.filename)))
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        data.extend(self.filename.encode('utf8', 'replace'))
-        timestamp = int(time.mktime(self.time.timetuple()))
+        filename = self.filename.encode('utf8', 'surrogateescape')
+        data.append(len(filename))
+        data.extend(filename)
+        timestamp = self.time
+        if hasattr(timestamp, 'timetuple'):
+            timestamp = int(time.mktime(timestamp.timetuple()))
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
         if self.data_format in (b't', b'u'):
-- 
2.43.0


From 46fa0ede3ebf8efc7d26a5f2799539ed8f0dbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 012/107] fix: let marker packets be created and parsed

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index d4c9085..455035a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1232,9 +1232,9 @@ class MarkerPacket(Packet):
         return result
 
     def __init__(self, header_format, content, old_literal=False):
-        Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE)
+        Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE,
+                        content)
         self.old_literal = old_literal
-        self.content = content
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From e08d85fe018f4564aae55e3fd661f62dcbe588a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 013/107] fix: keep the octets of trust packets which are not
 interpreted

---
 pgp/packets/packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 455035a..bb51c88 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1335,12 +1335,15 @@ class TrustPacket(Packet):
         # GnuPG
         trust_value = int(data[0])
         sig_cache = None
+        offset = 1
         if not trust_value and len(data) == 2:
             sig_cache = int(data[1])
+            offset += 1
             if sig_cache & 0x80:
                 raise ValueError
 
         result = cls(header_format, trust_value, sig_cache)
+        result.uninterpreted_data = data[offset:]
         result._content = data
         return result
 
@@ -1348,12 +1351,14 @@ class TrustPacket(Packet):
         Packet.__init__(self, header_format, constants.TRUST_PACKET_TYPE)
         self.trust_value = trust_value
         self.sig_cache = sig_cache
+        self.uninterpreted_data = bytearray()
 
     def __eq__(self, other):
         return (
             super(TrustPacket, self).__eq__(other)
             and self.trust_value == other.trust_value
             and self.sig_cache == other.sig_cache
+            and self.uninterpreted_data == other.uninterpreted_data
             )
 
     @property
@@ -1369,6 +1374,7 @@ class TrustPacket(Packet):
         data = bytearray([self.trust_value])
         if self.sig_cache is not None:
             data.append(self.sig_cache)
+        data.extend(self.uninterpreted_data)
         return data
 
 
-- 
2.43.0


From 69029935f01e6351323cc3f2c65916734ab6b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 014/107] fix: read unprotected and legacy protected secret
 keys

---
 pgp/packets/packets.py | 44 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index bb51c88..3b85eb3 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -861,6 +861,7 @@ class SecretKeyPacket(PublicKeyPacket):
         s2k_usage = int(data[offset])
         offset += 1
         s2k_specification = None
+        iv = None
         if s2k_usage == 0:
             # not encrypted
             symmetric_algorithm = 0
@@ -872,8 +873,8 @@ class SecretKeyPacket(PublicKeyPacket):
         else:
             symmetric_algorithm = s2k_usage
 
-        # 101 is GnuPG's dummy & smartcard mode
-        if s2k_usage not in (0, 101):
+        # GnuPG's dummy & smartcard modes have no secret material
+        if s2k_usage != 0 and not isinstance(s2k_specification, s2k.GnuPGS2K):
             block_length = utils.symmetric_cipher_block_lengths.get(
                                 symmetric_algorithm, None)
             if block_length is None:
@@ -882,20 +883,25 @@ class SecretKeyPacket(PublicKeyPacket):
             offset += block_length
 
         encrypted_portion = data[offset:]
-        if s2k_usage in (0, 255):
-            checksum = True
-            hash_ = False
-        elif s2k_usage == 254:
-            hash_ = True
-            checksum = False
-        else:
-            checksum = False
-            hash_ = False
+        # "If the string-to-key usage octet is zero or 255, then a two-octet
+        #  checksum of the plaintext of the algorithm-specific portion"
+        # and likewise if it is the identifier of a symmetric algorithm.
+        hash_ = s2k_usage == 254
+        checksum = not hash_
 
         values += (s2k_specification, symmetric_algorithm, iv,
                    encrypted_portion, checksum, hash_)
         return offset, values
 
+    @staticmethod
+    def _check_protection(s2k_specification, symmetric_algorithm, iv,
+                          encrypted_portion):
+        if encrypted_portion is None:
+            raise ValueError
+        if (iv is None and symmetric_algorithm != 0
+                and not isinstance(s2k_specification, s2k.GnuPGS2K)):
+            raise ValueError
+
     def __init__(self, header_type, version, creation_time,
                  public_key_algorithm, expiration_days=None, modulus=None,
                  exponent=None, prime=None, group_order=None,
@@ -905,8 +911,8 @@ class SecretKeyPacket(PublicKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
-            raise ValueError
+        self._check_protection(s2k_specification, symmetric_algorithm, iv,
+                               encrypted_portion)
         Packet.__init__(self, header_type, constants.SECRET_KEY_PACKET_TYPE)
         self.version = version
         self.creation_time = creation_time
@@ -1084,7 +1090,7 @@ class SecretKeyPacket(PublicKeyPacket):
         data.append(self.symmetric_algorithm)
         if self.s2k_specification is not None:
             data.extend(bytes(self.s2k_specification))
-        if self.symmetric_algorithm != 0:
+        if self.iv is not None:
             data.extend(self.iv)
         if self.encrypted_portion:
             data.extend(self.encrypted_portion)
@@ -1124,8 +1130,8 @@ class SecretSubkeyPacket(SecretKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
-            raise ValueError
+        self._check_protection(s2k_specification, symmetric_algorithm, iv,
+                               encrypted_portion)
         Packet.__init__(self, header_type,
                         constants.SECRET_SUBKEY_PACKET_TYPE)
         self.version = version
@@ -1144,6 +1150,12 @@ class SecretSubkeyPacket(SecretKeyPacket):
         self.encrypted_portion = encrypted_portion
         self.checksum = checksum
         self.hash = hash_
+        self.passphrase = passphrase
+        self.exponent_d = exponent_d
+        self.prime_p = prime_p
+        self.prime_q = prime_q
+        self.multiplicative_inverse_u = multiplicative_inverse_u
+        self.exponent_x = exponent_x
 
 
 class CompressedDataPacket(Packet):
-- 
2.43.0


From 055ef1b8dbe242e816f4cb9ba6ea403aa9f2ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 015/107] fix: encrypt and decrypt secret key material alike,
 for every protection

---
 pgp/packets/packets.py | 123 ++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 58 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 3b85eb3..aa59cc6 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -14,7 +14,6 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
-import math
 import os
 import time
 import warnings
@@ -973,71 +972,76 @@ class SecretKeyPacket(PublicKeyPacket):
     def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
                            iv, checksum=False, hash_=False):
 
-        cipher = utils.get_symmetric_cipher(
-                    symmetric_algorithm, key, utils.OPENPGP, iv,
-                    syncable=True)
-
         unencrypted_data = bytearray()
         for value in values:
             unencrypted_data.extend(utils.int_to_mpi(value))
 
-        if version >= 4:
-            encrypted_data = cipher.encrypt(unencrypted_data)
-        elif version in (2, 3):
-            encrypted_data = bytearray()
-            for i in values:
-                bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-                bytes_required = int(math.ceil(bits_required / 8.0))
-                encrypted_data.extend(utils.int_to_2byte(bytes_required))
-                cipher.sync()
-                mpi_value_bytes = utils.int_to_bytes(i)
-                if len(mpi_value_bytes) < bytes_required:
-                    mpi_value_bytes = bytearray(
-                            [0] * (bytes_required - len(mpi_value_bytes))
-                        ) + mpi_value_bytes
-                encrypted_data.extend(cipher.encrypt(mpi_value_bytes))
-
+        check = bytearray()
         if checksum:
-            checksum = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
-            if version >= 4:
-                encrypted_data.extend(cipher.encrypt(checksum))
-            else:
-                encrypted_data.extend(checksum)
+            check.extend(utils.int_to_2byte(sum(unencrypted_data) & 0xffff))
+        if hash_:
+            check.extend(SHA.new(bytes(unencrypted_data)).digest())
+
+        if version >= 4:
+            return cls._crypt_key_data(True, symmetric_algorithm, key, iv,
+                                       unencrypted_data + check)
+        elif version not in (2, 3):
+            raise ValueError
 
+        # As in decrypt_encrypted_key_portion, only the MPI non-prefix data
+        # is encrypted, and the checksum is stored in the clear.
+        feedback = bytearray(iv or b'')
+        encrypted_data = bytearray()
+        for value in values:
+            mpi = utils.int_to_mpi(value)
+            encrypted_mpi = cls._crypt_key_data(
+                True, symmetric_algorithm, key, feedback, mpi[2:])
+            feedback = (feedback + encrypted_mpi)[-len(feedback):]
+            encrypted_data.extend(mpi[:2])
+            encrypted_data.extend(encrypted_mpi)
         if hash_:
-            hash_ = SHA.new(unencrypted_data).digest()
-            encrypted_data.extend(cipher.encrypt(hash_))
+            check = cls._crypt_key_data(True, symmetric_algorithm, key,
+                                        feedback, check)
+        encrypted_data.extend(check)
         return encrypted_data
 
+    @classmethod
+    def _crypt_key_data(cls, encrypt, symmetric_algorithm, key, iv, data):
+        if symmetric_algorithm == 0:
+            return bytearray(data)
+        cipher = utils.get_symmetric_cipher(
+                    symmetric_algorithm, key, utils.CFB, iv)
+        # The ciphers take whole blocks only
+        block_length = utils.symmetric_cipher_block_lengths[
+            symmetric_algorithm]
+        padding = bytearray(-len(data) % block_length)
+        crypt = cipher.encrypt if encrypt else cipher.decrypt
+        return bytearray(crypt(bytes(data + padding)))[:len(data)]
+
     @classmethod
     def decrypt_encrypted_key_portion(cls, version, key, symmetric_algorithm,
                                       iv, encrypted_data, checksum=False,
                                       hash_=False):
 
-        sym_block_size = utils.symmetric_cipher_block_lengths.get(
-            symmetric_algorithm, 8)
+        check_length = 0
+        if checksum:
+            check_length = 2
+        elif hash_:
+            check_length = 20
+
         if version >= 4:
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv)
-            padding = bytearray([0x00] * (
-                sym_block_size - (len(encrypted_data) % sym_block_size)))
-            decrypted_data = cipher.decrypt(
-                bytes(encrypted_data + padding)
-                )[:-len(padding)]
+            decrypted_data = cls._crypt_key_data(
+                False, symmetric_algorithm, key, iv, encrypted_data)
         elif version in (2, 3):
             # "With V3 keys, the MPI bit count prefix (i.e., the first two
             #  octets) is not encrypted.  Only the MPI non-prefix data is
             #  encrypted.  Furthermore, the CFB state is resynchronized at the
             #  beginning of each new MPI value, so that the CFB block boundary
             #  is aligned with the start of the MPI data."
-
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv,
-                        syncable=True)
+            feedback = bytearray(iv or b'')
             offset = 0
             decrypted_data = bytearray()
-            while offset < len(encrypted_data):
-                cipher.sync()
+            while offset < len(encrypted_data) - check_length:
                 decrypted_data.extend(
                         encrypted_data[offset:offset + 2])
                 mpi_length = utils.mpi_length(encrypted_data, offset)
@@ -1045,28 +1049,31 @@ class SecretKeyPacket(PublicKeyPacket):
                 encrypted_mpi_content = \
                     encrypted_data[offset:offset + mpi_length]
                 offset += mpi_length
-                mpi_content = cipher.decrypt(encrypted_mpi_content)
-                decrypted_data.extend(mpi_content)
+                decrypted_data.extend(cls._crypt_key_data(
+                    False, symmetric_algorithm, key, feedback,
+                    encrypted_mpi_content))
+                feedback = (feedback +
+                            encrypted_mpi_content)[-len(feedback):]
+            check = encrypted_data[offset:]
+            if hash_:
+                check = cls._crypt_key_data(
+                    False, symmetric_algorithm, key, feedback, check)
+            # "With V3 keys, the checksum is stored in the clear."
+            decrypted_data.extend(check)
         else:
             raise ValueError
 
-        data_length = len(decrypted_data)
+        data_length = len(decrypted_data) - check_length
         if checksum:
-            data_length -= 2
-            if version >= 4:
-                # With V4 keys, the checksum is encrypted like the
-                # algorithm-specific data.
-                expected_checksum = utils.short_to_int(
-                        cipher.decrypt(utils.int_to_2byte(decrypted_data[-2:]))
-                    )
-            actual_checksum = sum(decrypted_data[:-2]) & 0xffff
+            expected_checksum = utils.short_to_int(decrypted_data,
+                                                   data_length)
+            actual_checksum = sum(decrypted_data[:data_length]) & 0xffff
             if actual_checksum != expected_checksum:
                 raise ValueError
 
         if hash_:
-            data_length -= 20
-            expected_hash = decrypted_data[-20:]
-            actual_hash = SHA.new(decrypted_data[:-20]).digest()
+            expected_hash = decrypted_data[data_length:]
+            actual_hash = SHA.new(bytes(decrypted_data[:data_length])).digest()
             if bytes(expected_hash) != actual_hash:
                 raise ValueError
 
@@ -1113,7 +1120,7 @@ class SecretKeyPacket(PublicKeyPacket):
                 key = self.passphrase
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
-                        self.iv, s2k_usage in (0, 255), s2k_usage == 254)
+                        self.iv, self.checksum, self.hash)
             data.extend(encrypted_data)
 
         return data
-- 
2.43.0


From 07ae3f4cf64dffd6af3b21514fb82e903092e8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 016/107] fix: derive the key of legacy protected secret keys
 from the passphrase

---
 pgp/packets/packets.py    | 11 +++++++++--
 pgp/transferrable_keys.py |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index aa59cc6..a83dc55 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -892,6 +892,12 @@ class SecretKeyPacket(PublicKeyPacket):
                    encrypted_portion, checksum, hash_)
         return offset, values
 
+    @staticmethod
+    def legacy_key(symmetric_algorithm, passphrase):
+        # Without a string-to-key specifier the key is the MD5 hash of the
+        # passphrase.
+        return s2k.SimpleS2K(1, symmetric_algorithm).to_key(passphrase)
+
     @staticmethod
     def _check_protection(s2k_specification, symmetric_algorithm, iv,
                           encrypted_portion):
@@ -951,7 +957,7 @@ class SecretKeyPacket(PublicKeyPacket):
         if self.s2k_specification is not None:
             key = self.s2k_specification.to_key(passphrase)
         else:
-            key = passphrase
+            key = self.legacy_key(self.symmetric_algorithm, passphrase)
         values = self.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
                     self.encrypted_portion, self.checksum, self.hash)
@@ -1117,7 +1123,8 @@ class SecretKeyPacket(PublicKeyPacket):
             if self.s2k_specification is not None:
                 key = self.s2k_specification.to_key(self.passphrase)
             else:
-                key = self.passphrase
+                key = self.legacy_key(self.symmetric_algorithm,
+                                      self.passphrase)
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
                         self.iv, self.checksum, self.hash)
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 61627e9..1b1bcc1 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -571,7 +571,8 @@ class BaseSecretKey(BasePublicKey):
             # TODO: Check encoding
             key = self.s2k_specification.to_key(passphrase.encode('utf8'))
         else:
-            key = passphrase
+            key = packets.SecretKeyPacket.legacy_key(
+                self.symmetric_algorithm, passphrase.encode('utf8'))
 
         values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
-- 
2.43.0


From a223a6472939f0a41b5c2189a92d28d706016f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 017/107] fix: parse and write GnuPG's string-to-key specifiers

---
 pgp/s2k.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index 9624abd..e10fc3b 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -161,7 +161,8 @@ class GnuPGS2K(SimpleS2K):
                         "Unexpected serial number length: %d" %
                         serial_len)
 
-            serial_number = utils.bytearray_to_hex(data, offset, serial_len)
+            serial_number = utils.bytearray_to_hex(data, offset,
+                                                   serial_len * 2)
             offset += serial_len
         else:
             raise ValueError(
@@ -191,11 +192,9 @@ class GnuPGS2K(SimpleS2K):
         pass
 
     def __bytes__(self):
-        result = bytearray(
-                [self.hash_algorithm] +
-                b'GNU' +
-                [self.mode - 1000]
-                )
+        result = bytearray([101, self.hash_algorithm])
+        result.extend(b'GNU')
+        result.append(self.mode - 1000)
         if self.mode == 1002 and self.serial_number is not None:
             result.append(self.serial_number_length)
             result.extend(utils.hex_to_bytes(self.serial_number,
-- 
2.43.0


From 82ab05e5997b01d09993c797968ce0f8a24dd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 018/107] fix: hash the hashed subpackets of a target signature

---
 pgp/packets/packets.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a83dc55..1b7ad1b 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -512,9 +512,7 @@ class SignaturePacket(Packet):
             result.append(self.public_key_algorithm)
             result.append(self.hash_algorithm)
             hashed_subpacket_data = bytearray()
-            for sp in self.subpackets:
-                if not sp.hashed:
-                    continue
+            for sp in self.hashed_subpackets:
                 hashed_subpacket_data.extend(bytes(sp))
 
             hashed_subpacket_length = len(hashed_subpacket_data)
-- 
2.43.0


From 5d3bb3745d3eb5569b50cc8a5f3a5bc8adc21d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 019/107] fix: keep the value of signature subpackets of
 unknown type

---
 pgp/packets/signature_subpackets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6c26b6c..7c1ba4e 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -25,11 +25,12 @@ class SignatureSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        return cls(type_, critical)
+        return cls(type_, critical, sub_data)
 
-    def __init__(self, type_, critical):
+    def __init__(self, type_, critical, sub_data=None):
         self.type = type_
         self.critical = critical
+        self._sub_data = sub_data
 
     def __eq__(self, other):
         return (
@@ -42,7 +43,7 @@ class SignatureSubpacket(object):
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._sub_data or b'')
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From d0f0ace7fb1079c8b50f5b6aa0bc5e8a5ba9b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 020/107] fix: write the terminating null of regular expression
 subpackets

---
 pgp/packets/signature_subpackets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 7c1ba4e..e7a8d77 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -132,7 +132,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         assert sub_data[-1] == 0
-        pattern = sub_data[:-1].decode('ascii', 'replace')
+        pattern = sub_data[:-1].decode('ascii', 'surrogateescape')
         return cls(critical, pattern)
 
     def __init__(self, critical, pattern):
@@ -142,7 +142,8 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace'))
+        return bytearray(
+            self.pattern.encode('ascii', 'surrogateescape') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
-- 
2.43.0


From eaa645a35fb45082b289c8d3338139acb331f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 021/107] fix: read whole fingerprints in additional recipient
 subpackets

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index e7a8d77..e843ebf 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -189,7 +189,7 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         strong_request = bool(sub_data[0] & 0x80)
         public_key_algorithm = sub_data[1]
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, strong_request, public_key_algorithm,
                    fingerprint)
 
-- 
2.43.0


From 37e5de5357d64218080670eda50bfb21885436f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 022/107] fix: parse and write revocation key subpackets

---
 pgp/packets/signature_subpackets.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index e843ebf..e8caeed 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -240,20 +240,22 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) == 22
-        tag = sub_data
+        tag = sub_data[0]
         assert tag & 0x80
         sensitive = bool(tag & 0x40)
         public_key_algorithm = int(sub_data[1])
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
-        return cls(critical, fingerprint, public_key_algorithm,
-                   sensitive=sensitive)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
+        result = cls(critical, fingerprint, public_key_algorithm,
+                     sensitive=sensitive)
+        result._other_bits = tag & 0x3f
+        return result
 
     def __init__(self, critical, fingerprint, public_key_algorithm,
                  sensitive=False):
 
         if isinstance(fingerprint, (bytes, bytearray)):
             assert len(fingerprint) == 20
-            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 20)
+            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 40)
         else:
             assert len(fingerprint) == 40
         SignatureSubpacket.__init__(
@@ -261,14 +263,13 @@ class RevocationKeySubpacket(SignatureSubpacket):
         self.fingerprint = fingerprint
         self.public_key_algorithm = public_key_algorithm
         self.sensitive = sensitive
+        self._other_bits = 0
 
     @property
     def content(self):
-        tag = 0x80 + (0x40 if self.sensitive else 0x00)
-        data = bytearray(
-                        [tag, int(self.public_key_algorithm)] +
-                        utils.bytearray_to_hex(self.fingerprint, 20)
-                    )
+        tag = 0x80 + (0x40 if self.sensitive else 0x00) + self._other_bits
+        data = bytearray([tag, int(self.public_key_algorithm)])
+        data.extend(utils.hex_to_bytes(self.fingerprint, 20))
         return data
 
 
-- 
2.43.0


From 691bcfeef6fb8a3160b4fc5efaa041daacc2ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 023/107] fix: keep notations as they were read

---
 pgp/packets/signature_subpackets.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index e8caeed..d9bae47 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -304,7 +304,7 @@ class NotationSubpacket(SignatureSubpacket):
         offset += 4
         assert not any(flags[1:])
         assert not flags[0] & 0x7f
-        human_readable = 0x80
+        human_readable = bool(flags[0] & 0x80)
         name_length = utils.short_to_int(sub_data, offset)
         offset += 2
         value_length = utils.short_to_int(sub_data, offset)
@@ -315,11 +315,11 @@ class NotationSubpacket(SignatureSubpacket):
         offset += value_length
         assert offset == len(sub_data)
 
-        name_and_namespace = raw_name.decode('utf8', 'replace')
+        name_and_namespace = raw_name.decode('utf8', 'surrogateescape')
         name, namespace = (name_and_namespace.split('@', 1) + [None])[:2]
 
         if human_readable:
-            value = value.decode('utf8', 'replace')
+            value = value.decode('utf8', 'surrogateescape')
 
         return cls(critical, name, namespace, human_readable, value)
 
@@ -333,12 +333,13 @@ class NotationSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        raw_name = self.name.encode('utf8', 'replace')
-        if self.namespace:
-            raw_name += b'@' + self.namespace.encode('utf8', 'replace')
+        raw_name = self.name.encode('utf8', 'surrogateescape')
+        if self.namespace is not None:
+            raw_name += b'@' + self.namespace.encode('utf8',
+                                                     'surrogateescape')
         raw_value = self.value
         if self.human_readable:
-            raw_value = raw_value.encode('utf8', 'replace')
+            raw_value = raw_value.encode('utf8', 'surrogateescape')
         data = bytearray([0x80 if self.human_readable else 0, 0, 0, 0])
         data.extend(utils.int_to_2byte(len(raw_name)))
         data.extend(utils.int_to_2byte(len(raw_value)))
-- 
2.43.0


From 58c22a9e8e90a5df03448ec5de721a0ab83d687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 024/107] fix: keep flags which are not understood

---
 pgp/packets/signature_subpackets.py | 53 +++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index d9bae47..f4f4509 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -58,6 +58,21 @@ class SignatureSubpacket(object):
         return bytes(result)
 
 
+def other_flags(sub_data, known_mask):
+    """The octets of a flags subpacket without the known flags, which are all
+    in the first octet.
+    """
+    result = bytearray(sub_data)
+    result[0] &= 0xff - known_mask
+    return result
+
+
+def with_other_flags(known_flags, other_flags):
+    result = bytearray(other_flags)
+    result[0] |= known_flags
+    return result
+
+
 class CreationTimeSubpacket(SignatureSubpacket):
 
     @classmethod
@@ -377,16 +392,20 @@ class KeyServerPreferencesSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         no_modify = bool(sub_data[0] & 0x80)
-        return cls(critical, no_modify)
+        result = cls(critical, no_modify)
+        result._other_flags = other_flags(sub_data, 0x80)
+        return result
 
     def __init__(self, critical, no_modify):
         SignatureSubpacket.__init__(self,
                 constants.KEY_SERVER_PREFERENCES_SUBPACKET_TYPE, critical)
         self.no_modify = no_modify
+        self._other_flags = bytearray(1)
 
     @property
     def content(self):
-        return bytearray([0x80 if self.no_modify else 0x00])
+        return with_other_flags(0x80 if self.no_modify else 0x00,
+                                self._other_flags)
 
 
 class PreferredKeyServerSubpacket(SignatureSubpacket):
@@ -446,10 +465,12 @@ class KeyFlagsSubpacket(SignatureSubpacket):
         may_be_used_for_auth = bool(known_flags & 0x20)
         may_have_been_split = bool(known_flags & 0x10)
         may_have_multiple_owners = bool(known_flags & 0x80)
-        return cls(critical, may_certify_others, may_sign_data,
-                   may_encrypt_comms, may_encrypt_storage,
-                   may_be_used_for_auth, may_have_been_split,
-                   may_have_multiple_owners)
+        result = cls(critical, may_certify_others, may_sign_data,
+                     may_encrypt_comms, may_encrypt_storage,
+                     may_be_used_for_auth, may_have_been_split,
+                     may_have_multiple_owners)
+        result._other_flags = other_flags(sub_data, 0xbf)
+        return result
 
     def __init__(self, critical, may_certify_others=True, may_sign_data=True,
                  may_encrypt_comms=True, may_encrypt_storage=True,
@@ -464,19 +485,19 @@ class KeyFlagsSubpacket(SignatureSubpacket):
         self.may_be_used_for_auth = may_be_used_for_auth
         self.may_have_been_split = may_have_been_split
         self.may_have_multiple_owners = may_have_multiple_owners
+        self._other_flags = bytearray(1)
 
     @property
     def content(self):
-        data = bytearray([
+        return with_other_flags(
             (0x01 if self.may_certify_others else 0x00) +
             (0x02 if self.may_sign_data else 0x00) +
             (0x04 if self.may_encrypt_comms else 0x00) +
             (0x08 if self.may_encrypt_storage else 0x00) +
             (0x10 if self.may_have_been_split else 0x00) +
             (0x20 if self.may_be_used_for_auth else 0x00) +
-            (0x80 if self.may_have_multiple_owners else 0x00)
-            ])
-        return data
+            (0x80 if self.may_have_multiple_owners else 0x00),
+            self._other_flags)
 
 
 class UserIDSubpacket(SignatureSubpacket):
@@ -526,19 +547,21 @@ class FeaturesSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         supports_modification_detection = sub_data[0] & 0x01
-        return cls(critical, supports_modification_detection)
+        result = cls(critical, supports_modification_detection)
+        result._other_flags = other_flags(sub_data, 0x01)
+        return result
 
     def __init__(self, critical, supports_modification_detection):
         SignatureSubpacket.__init__(
                 self, constants.FEATURES_SUBPACKET_TYPE, critical)
         self.supports_modification_detection = supports_modification_detection
+        self._other_flags = bytearray(1)
 
     @property
     def content(self):
-        data = bytearray([
-                        0x01 if self.supports_modification_detection else 0x00
-                        ])
-        return data
+        return with_other_flags(
+            0x01 if self.supports_modification_detection else 0x00,
+            self._other_flags)
 
 
 class TargetSubpacket(SignatureSubpacket):
-- 
2.43.0


From e3a37efd45c7fc9da72a26892717f7731388b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 025/107] fix: keep text in signature subpackets which is not
 valid UTF-8

---
 pgp/packets/signature_subpackets.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index f4f4509..8caa54b 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -413,7 +413,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
-        uri = sub_data.decode('utf8', 'replace')
+        uri = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, uri)
 
     def __init__(self, critical, uri):
@@ -423,7 +423,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.uri.encode('utf8', 'replace'))
+        return bytearray(self.uri.encode('utf8', 'surrogateescape'))
 
 
 class PrimaryUserIDSubpacket(SignatureSubpacket):
@@ -504,7 +504,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        user_id = sub_data.decode('utf8')
+        user_id = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, user_id)
 
     def __init__(self, critical, user_id):
@@ -514,7 +514,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.user_id.encode('utf8', 'replace'))
+        return bytearray(self.user_id.encode('utf8', 'surrogateescape'))
 
 
 class RevocationReasonSubpacket(SignatureSubpacket):
@@ -522,7 +522,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         revocation_code = sub_data[0]
-        revocation_reason = sub_data[1:].decode('utf8', 'replace')
+        revocation_reason = sub_data[1:].decode('utf8', 'surrogateescape')
         return cls(critical, revocation_code, revocation_reason)
 
     def __init__(self, critical, revocation_code, revocation_reason):
@@ -536,7 +536,8 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     def content(self):
         data = bytearray([self.revocation_code])
         data += bytearray(
-                        self.revocation_reason.encode('utf8', 'replace')
+                        self.revocation_reason.encode('utf8',
+                                                      'surrogateescape')
                     )
         return data
 
-- 
2.43.0


From cd146b53ba831c1962d0b203be8d17c2a20c108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 026/107] fix: parse and write signature target subpackets

---
 pgp/packets/signature_subpackets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 8caa54b..be86935 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -577,7 +577,7 @@ class TargetSubpacket(SignatureSubpacket):
             hash_length = len(sub_data) - 2
         else:
             assert hash_length == len(sub_data) - 2
-        hash_ = utils.bytearray_to_hex(sub_data, 2, len(sub_data) - 2)
+        hash_ = utils.bytearray_to_hex(sub_data, 2, 2 * (len(sub_data) - 2))
         return cls(critical, public_key_algorithm, hash_algorithm, hash_,
                    hash_length=hash_length)
 
@@ -603,8 +603,7 @@ class TargetSubpacket(SignatureSubpacket):
         return bytearray([
                             int(self.public_key_algorithm),
                             int(self.hash_algorithm),
-                        ] + utils.hex_to_bytes(self.hash, hash_length)
-                    )
+                        ]) + utils.hex_to_bytes(self.hash, hash_length)
 
 
 class EmbeddedSignatureSubpacket(SignatureSubpacket):
-- 
2.43.0


From a0b80c673115cb5c5ca169b826a616c7a8d485ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 027/107] fix: keep the value of user attribute subpackets of
 unknown type

---
 pgp/packets/user_attribute_subpackets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 8a9185a..0ad3e62 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -22,20 +22,22 @@ class UserAttributeSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, sub_type, sub_data):
-        return cls(sub_type)
+        return cls(sub_type, sub_data)
 
-    def __init__(self, sub_type):
+    def __init__(self, sub_type, sub_data=None):
         self.sub_type = sub_type
+        self._sub_data = sub_data
 
     def __eq__(self, other):
         return (
             self.__class__ == other.__class__
             and self.sub_type == other.sub_type
+            and self._sub_data == other._sub_data
             )
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._sub_data or b'')
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From f1577c4b84e4e48fb04a1dc1f1c0fbeb37021834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 028/107] fix: keep user IDs which are not valid UTF-8

---
 pgp/packets/packets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 1b7ad1b..3d93f1d 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1406,7 +1406,8 @@ class UserIDPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        result = cls(header_format, data.decode('utf8', 'replace'))
+        result = cls(header_format,
+                     data.decode('utf8', 'surrogateescape'))
         result._content = data
         return result
 
@@ -1427,7 +1428,7 @@ class UserIDPacket(Packet):
 
     @property
     def content(self):
-        return self.user_id.encode('utf8', 'replace')
+        return self.user_id.encode('utf8', 'surrogateescape')
 
     def get_content_for_signature_hash(self, signature_version):
         result = bytearray()
-- 
2.43.0


From aae0e95afd52261bf89b15baddf327e25363023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 029/107] fix: write secret keys which have no secret material

---
 pgp/packets/packets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 3d93f1d..25fee80 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1103,7 +1103,9 @@ class SecretKeyPacket(PublicKeyPacket):
             data.extend(bytes(self.s2k_specification))
         if self.iv is not None:
             data.extend(self.iv)
-        if self.encrypted_portion:
+        if (self.encrypted_portion
+                or isinstance(self.s2k_specification, s2k.GnuPGS2K)):
+            # GnuPG's dummy & smartcard modes have no secret material
             data.extend(self.encrypted_portion)
         else:
             if self.public_key_algorithm in (1, 2, 3):
-- 
2.43.0


From 72b7b42262c19e99ca4e80742276068a5b719afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 030/107] fix: write additional armor headers

---
 pgp/armor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 3ae3616..58337f5 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -232,7 +232,7 @@ class ASCIIArmor(object):
             result_lines.append(
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
-            for k, v in self.extra_headers:
+            for k, v in self.extra_headers.items():
                 result_lines.append('{0}: {1}'.format(k, v))
 
         result_lines.append('')
-- 
2.43.0


From 4ce4cd8c80d89796b778db09f0edbb8e8305a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 031/107] fix: keep additional armor headers when reading armor

---
 pgp/armor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 58337f5..b138dae 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -168,7 +168,7 @@ class ASCIIArmor(object):
                 repr(header_line), repr(tail_line)))
 
         return cls(data_type, data, part, total_parts, version, comment,
-                   message_id, hash_algorithms, charset)
+                   message_id, hash_algorithms, charset, extra_headers)
 
     def __init__(self, data_type, data, part=None, total_parts=None,
                  version=None, comment=None, message_id=None,
-- 
2.43.0


From 16832c153b699417ee76e008364e8774d7b06ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 032/107] fix: hash the whole salt and passphrase at least once

---
 pgp/s2k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index e10fc3b..d5fb194 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -49,7 +49,7 @@ class SimpleS2K(object):
         # Length of content hashed on each iteration
         len2 = len(passphrase) + 8
         count = self.count
-        if count is None:
+        if count is None or count < len2:
             count = len2
 
         while (pass_ * hash_length) < required_length:
-- 
2.43.0


From 0e6832c35abc2a5026f4828bfe4cdc3c116f25bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 033/107] fix: derive 256-bit keys for Twofish

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 640006b..6393da6 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -85,7 +85,7 @@ symmetric_cipher_key_lengths = {
     7: 16,  # AES-128
     8: 24,  # AES-192
     9: 32,  # AES-256
-    10: 16,  # Twofish-256
+    10: 32,  # Twofish-256
     11: 16,  # Camellia-128
     12: 24,  # Camellia-192
     13: 32,  # Camellia-256
-- 
2.43.0


From 9b457b5e15c572bb143da4ba5ad76c44ade125f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 034/107] fix: compress every piece of data fed to zlib

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 6393da6..f037ac5 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -326,7 +326,7 @@ class ZlibCompression(object):
         if self._obj is None:
             self._compress = True
             self._obj = zlib.compressobj(self.level)
-            self._result += self._obj.compress(data)
+        self._result += self._obj.compress(data)
         return b''
 
     def decompress(self, data):
-- 
2.43.0


From 38ff40b150e63f57b84cd6ca1e37a743029e84a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 035/107] fix: decompress BZip2 data

---
 pgp/utils.py | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index f037ac5..5cb3145 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -402,6 +402,49 @@ class DeflateCompression(object):
         return result
 
 
+class BZ2Compression(object):
+
+    def __init__(self, level):
+        self._obj = None
+        self._compress = None
+        self._result = b''
+        self.level = level
+
+    def compress(self, data):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        if self._compress is False:
+            raise ValueError
+        if self._obj is None:
+            self._compress = True
+            self._obj = bz2.BZ2Compressor(self.level)
+        self._result += self._obj.compress(data)
+        return b''
+
+    def decompress(self, data):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        if self._compress is True:
+            raise ValueError
+        if self._obj is None:
+            self._compress = False
+            self._obj = bz2.BZ2Decompressor()
+        self._result += self._obj.decompress(data)
+        return b''
+
+    def flush(self):
+        if self._result is None:
+            # already flushed
+            raise ValueError
+        result = self._result
+        if self._compress:
+            result += self._obj.flush()
+        self._result = None
+        return result
+
+
 def get_compression_instance(type_, level=None):
 
     instance = None
@@ -414,7 +457,7 @@ def get_compression_instance(type_, level=None):
         # ZLIB - RFC 1950
         instance = ZlibCompression(level)
     elif type_ == 3:
-        instance = bz2.BZ2Compressor(level)
+        instance = BZ2Compression(level)
 
     return instance
 
-- 
2.43.0


From 57323644b872b0b8e66c38762b78b46626fcc323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 036/107] fix: refuse unknown compression algorithms

---
 pgp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index 5cb3145..017653c 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -458,6 +458,9 @@ def get_compression_instance(type_, level=None):
         instance = ZlibCompression(level)
     elif type_ == 3:
         instance = BZ2Compression(level)
+    else:
+        raise ValueError(
+            'Unsupported compression algorithm {0}'.format(type_))
 
     return instance
 
-- 
2.43.0


From bf3d0c19ebc34c0a6fad15b849f585f34a09c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 037/107] fix: compress with the default level when none is
 given

---
 pgp/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 017653c..5400f62 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -315,7 +315,7 @@ class ZlibCompression(object):
         self._obj = None
         self._compress = None
         self._result = b''
-        self.level = level
+        self.level = zlib.Z_DEFAULT_COMPRESSION if level is None else level
 
     def compress(self, data):
         if self._result is None:
@@ -361,7 +361,7 @@ class DeflateCompression(object):
         self._obj = None
         self._compress = None
         self._result = b''
-        self.level = level
+        self.level = zlib.Z_DEFAULT_COMPRESSION if level is None else level
 
     def compress(self, data):
         if self._result is None:
@@ -408,7 +408,7 @@ class BZ2Compression(object):
         self._obj = None
         self._compress = None
         self._result = b''
-        self.level = level
+        self.level = 9 if level is None else level
 
     def compress(self, data):
         if self._result is None:
-- 
2.43.0


From b457fc60170c38c1ff64866aa0b4167f60fb268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 038/107] fix: pass only the cipher parameters that are given

---
 pgp/utils.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 5400f62..e18fc3e 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -277,24 +277,21 @@ def get_symmetric_cipher(type_, key, mode, iv=None, segment_size=None,
     if segment_size is None and mode == blockalgo.MODE_CFB:
         segment_size = cipher.block_size * 8
 
+    args = (mode,)
+    if iv is not None:
+        # PyCrypto does not use the same name for this in every mode
+        args = (mode, bytes(iv))
+    params = {}
+    if segment_size is not None:
+        params['segment_size'] = segment_size
+
     if syncable and cipher not in (aidea, twofish, camellia):
         # We need to wrap the PyCrypto implementation so we can re-sync
         # for OpenPGP's weird CFB mode.
-        try:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               IV=bytes(iv),
-                                               segment_size=segment_size)
-        except TypeError:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               iv=bytes(iv),
-                                               segment_size=segment_size)
-
-    try:
-        return cipher.new(bytes(key), mode, IV=bytes(iv),
-                          segment_size=segment_size)
-    except TypeError:
-        return cipher.new(bytes(key), mode, iv=bytes(iv),
-                          segment_size=segment_size)
+        return syncable_cipher_wrapper.new(cipher, bytes(key), *args,
+                                           **params)
+
+    return cipher.new(bytes(key), *args, **params)
 
 
 class NoopCompression(object):
-- 
2.43.0


From c311fc5cb0b8b6d5a970be5937b64a29ba2ace89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 039/107] fix: accept empty pieces after the end of BZip2 data

---
 pgp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index e18fc3e..b909fd2 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -428,7 +428,8 @@ class BZ2Compression(object):
         if self._obj is None:
             self._compress = False
             self._obj = bz2.BZ2Decompressor()
-        self._result += self._obj.decompress(data)
+        if data:
+            self._result += self._obj.decompress(data)
         return b''
 
     def flush(self):
-- 
2.43.0


From 85405a2d00288c4e33a96779880cebe0686596b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 040/107] fix: compute fingerprints of version 3 keys

---
 pgp/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index b909fd2..a24f319 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -940,11 +940,11 @@ def key_packet_fingerprint(packet):
         md5 = MD5.new()
         # Key type must be RSA for v2 and v3 public keys
         if packet.public_key_algorithm in (1, 2, 3):
-            md5.update(int_to_bytes(packet.modulus_n))
-            md5.update(int_to_bytes(packet.exponent_e))
+            md5.update(int_to_bytes(packet.modulus))
+            md5.update(int_to_bytes(packet.exponent))
         elif packet.public_key_algorithm in (16, 20):
-            md5.update(int_to_bytes(packet.prime_p))
-            md5.update(int_to_bytes(packet.group_generator_g))
+            md5.update(int_to_bytes(packet.prime))
+            md5.update(int_to_bytes(packet.group_generator))
         fingerprint = md5.hexdigest().upper()
     elif packet.version >= 4:
         sha1 = SHA.new()
-- 
2.43.0


From c2abccfb7bf9a032a68792edd711d2c6debaf0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 041/107] fix: take version 3 key IDs from the modulus

---
 pgp/packets/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 25fee80..58fe9ae 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -823,6 +823,8 @@ class PublicKeyPacket(Packet):
 
     @property
     def key_id(self):
+        if self.version < 4 and self.public_key_algorithm in (1, 2, 3):
+            return utils.int_to_hex(self.modulus, 16)
         return self.fingerprint[-16:]
 
     @property
-- 
2.43.0


From 8abba501f87a6c07f4883f8f55282f6bf1355b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 042/107] fix: keep the validity period of version 3 keys

---
 pgp/transferrable_keys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 1b1bcc1..80d3898 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -195,7 +195,7 @@ class BasePublicKey(SignedMixin):
         creation_time = datetime.datetime.fromtimestamp(packet.creation_time)
         public_key_algorithm = packet.public_key_algorithm
         expiration_days = packet.expiration_days
-        if version < 4 or expiration_days in (None, 0):
+        if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
             expiration_time = \
@@ -224,8 +224,9 @@ class BasePublicKey(SignedMixin):
         expiration_days = None
         if self.version < 4:
             expiration_time = self.expiration_time
+            expiration_days = 0
             if expiration_time is not None:
-                expiration_days = (expiration_time - creation_time).days
+                expiration_days = (expiration_time - self.creation_time).days
 
         return (
             header_format, self.version, creation_time,
-- 
2.43.0


From 53d026b4a49de65edd558f7dbdae73a37af65324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 043/107] fix: keep the creation time and issuer of version 3
 signatures

---
 pgp/signature.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 827a31f..ec7130c 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -135,8 +135,7 @@ class BaseSignature(object):
         hash2 = packet.hash2
         signature_values = packet.signature_values
         if version in (2, 3):
-            creation_time = datetime.datetime.fromtimestamp(
-                                packet.creation_time)
+            creation_time = packet.creation_time
             issuer_key_id = packet.key_id
             hashed_subpackets = []
             unhashed_subpackets = []
@@ -171,7 +170,7 @@ class BaseSignature(object):
                         hashed_subpackets=hashed_subpackets,
                         unhashed_subpackets=unhashed_subpackets)
         elif self.version in (2, 3):
-            creation_time = int(time.mktime(self.creation_time.timetuple()))
+            creation_time = int(self._creation_time)
             packet = packets.SignaturePacket(
                         header_format, self.version, self.signature_type,
                         self.public_key_algorithm, self.hash_algorithm,
@@ -185,9 +184,7 @@ class BaseSignature(object):
             result.append(self.version)
         result.append(self.signature_type)
         if self.version < 4:
-            result.extend(utils.int_to_4byte(
-                time.mktime(self.creation_time.timetuple())
-            ))
+            result.extend(utils.int_to_4byte(int(self._creation_time)))
         else:
             result.append(self.public_key_algorithm)
             result.append(self.hash_algorithm)
@@ -324,7 +321,7 @@ class BaseSignature(object):
 
     def _get_issuer_key_ids(self):
         if self.version in (2, 3):
-            return [self._issuer_key_ids]
+            return [self._issuer_key_id]
         elif self.version >= 4:
             return self._get_subpacket_values(
                 C.ISSUER_KEY_ID_SUBPACKET_TYPE,
@@ -332,8 +329,11 @@ class BaseSignature(object):
 
     def _set_issuer_key_ids(self, key_ids):
         existing = self.issuer_key_ids
-        if self.version in (2, 3) and len(key_ids) != 1:
-            raise ValueError
+        if self.version in (2, 3):
+            if len(key_ids) != 1:
+                raise ValueError
+            self._issuer_key_id = list(key_ids)[0]
+            return
 
         for k in set(key_ids) | set(existing):
             if k in existing and key_ids:
-- 
2.43.0


From 1f22029fbcc29f5587d8d403c701b1c9f2d86e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 044/107] fix: store the creation time and issuer given to
 version 4 signatures

---
 pgp/signature.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index ec7130c..ce494f6 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -224,16 +224,18 @@ class BaseSignature(object):
         self.hash_algorithm = hash_algorithm
         self.hash2 = hash2
         self.signature_values = signature_values
+        self.hashed_subpackets = hashed_subpackets or []
+        self.unhashed_subpackets = unhashed_subpackets or []
         if version in (2, 3):
             self._creation_time = creation_time
             self._issuer_key_id = issuer_key_id
         elif version >= 4:
             if creation_time is not None:
-                self._creation_time = creation_time
+                self._update_subpacket_values(
+                    C.CREATION_TIME_SUBPACKET_TYPE,
+                    'time', int(creation_time))
             if issuer_key_id is not None:
                 self.issuer_key_ids = [issuer_key_id]
-        self.hashed_subpackets = hashed_subpackets or []
-        self.unhashed_subpackets = unhashed_subpackets or []
         if current_time_fn is None:
             current_time_fn = datetime.datetime.now
         self.get_current_time = current_time_fn
-- 
2.43.0


From 8bdc12c02de6a8c741d902ce95ce6fcf136a729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 045/107] fix: set creation and expiration times of signatures

---
 pgp/signature.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index ce494f6..d294483 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -304,20 +304,25 @@ class BaseSignature(object):
             value = self._get_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time')
+        if value is None:
+            return None
         return datetime.datetime.fromtimestamp(value)
 
     def _set_creation_time(self, dt):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
-        exp_time = self.signature__expiration_time
-        value = time.mktime(dt.timetuple())
+        exp_time = self.signature_expiration_time
+        if exp_time is not None and exp_time < dt:
+            raise ValueError
+        value = int(time.mktime(dt.timetuple()))
         if self.version in (2, 3):
             self._creation_time = value
         elif self.version >= 4:
             self._update_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time', value)
-        self.signature__expiration_time = exp_time
+        if exp_time is not None:
+            self.signature_expiration_time = exp_time
 
     creation_time = property(_get_creation_time, _set_creation_time)
 
@@ -373,9 +378,9 @@ class BaseSignature(object):
         else:
             td = dt - self.creation_time
             value = td.seconds + td.days * 86400
-            self._update_subpacket_values(
-                C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
-                'time', value)
+        self._update_subpacket_values(
+            C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
+            'time', value)
 
     signature_expiration_time = property(
         _get_signature_expiration_time,
-- 
2.43.0


From d7c3525991fc42b298f89f2ba42407a76e44fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 046/107] fix: report signatures expired when their validity
 period has passed

---
 pgp/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index d294483..04b67cf 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -842,7 +842,7 @@ class BaseSignature(object):
     @property
     def expired(self):
         if self.signature_expiration_time:
-            return self.get_current_time() > self.signature_expiration_time
+            return self.get_current_time() >= self.signature_expiration_time
         return False
 
     @property
-- 
2.43.0


From fb435894aa85c625b1bca8a84100a190525a214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 047/107] fix: take the expiration time of a key from its own
 creation time

---
 pgp/signature.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 04b67cf..8382366 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -561,12 +561,15 @@ class BaseSignature(object):
         # "If this is not present or has a value of zero, the key never
         #  expires."
         if not seconds:  # 0 or None
-            return seconds
-        return self.target.creation_time + datetime.timedelta(seconds=seconds)
+            return None
+        return (self._parent_key.creation_time +
+                datetime.timedelta(seconds=seconds))
 
     def _set_key_expiration_time(self, value):
-        delta = value - self.target.creation_time
-        seconds = delta.days * 86400 + delta.seconds
+        seconds = 0
+        if value is not None:
+            delta = value - self._parent_key.creation_time
+            seconds = delta.days * 86400 + delta.seconds
         self._update_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
             'time', seconds)
@@ -802,6 +805,14 @@ class BaseSignature(object):
     def parent(self):
         return self._target_ref()
 
+    @property
+    def _parent_key(self):
+        """The key, or the key of the user ID or attribute, signed."""
+        parent = self.parent
+        if hasattr(parent, 'public_key_algorithm'):
+            return parent
+        return parent.primary_public_key
+
     @property
     def revocation(self):
         return self.signature_type in (
-- 
2.43.0


From 63960cb2f97f8c2dd1ae1e7aff234f09b3e59466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 048/107] fix: remove the values left out of signature
 attributes

---
 pgp/signature.py | 129 ++++++++++++++++++++++-------------------------
 1 file changed, 60 insertions(+), 69 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 8382366..2064b91 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -34,6 +34,17 @@ from pgp.user_id import parse_user_id
 _marker = object()
 
 
+def _changes(existing, values):
+    """The values to remove from and to add to the existing ones."""
+
+    removed = [k for k in existing if k not in values]
+    added = []
+    for k in values:
+        if k not in existing and k not in added:
+            added.append(k)
+    return removed, added
+
+
 @implementer(interfaces.INotation)
 class Notation(object):
 
@@ -342,21 +353,17 @@ class BaseSignature(object):
             self._issuer_key_id = list(key_ids)[0]
             return
 
-        for k in set(key_ids) | set(existing):
-            if k in existing and key_ids:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket_values(
-                    C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-                    'key_id', k
-                    )
-            else:
-                # Add
-                self._add_subpacket_values(
-                    C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-                    'key_id', k
-                    )
+        removed, added = _changes(existing, key_ids)
+        for k in removed:
+            self._remove_subpacket_values(
+                C.ISSUER_KEY_ID_SUBPACKET_TYPE,
+                'key_id', k
+                )
+        for k in added:
+            self._add_subpacket_values(
+                C.ISSUER_KEY_ID_SUBPACKET_TYPE,
+                'key_id', k
+                )
 
     issuer_key_ids = property(_get_issuer_key_ids, _set_issuer_key_ids)
 
@@ -433,21 +440,17 @@ class BaseSignature(object):
         existing = [regex.pattern for regex in self.regular_expressions]
         regexes = [regex.pattern for regex in regexes]
 
-        for k in set(regexes) | set(existing):
-            if k in existing and regexes:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket_values(
-                    C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
-                    'pattern', k
-                    )
-            else:
-                # Add
-                self._add_subpacket_values(
-                    C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
-                    'pattern', k
-                    )
+        removed, added = _changes(existing, regexes)
+        for k in removed:
+            self._remove_subpacket_values(
+                C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
+                'pattern', k
+                )
+        for k in added:
+            self._add_subpacket_values(
+                C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
+                'pattern', k
+                )
 
     regular_expressions = property(_get_regular_expressions,
                                    _set_regular_expressions)
@@ -474,19 +477,15 @@ class BaseSignature(object):
     def _set_notations(self, notations):
         existing = self.notations
 
-        for k in set(notations) | set(existing):
-            if k in existing and notations:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_subpacket()
-                    )
+        removed, added = _changes(existing, notations)
+        for k in removed:
+            self._remove_subpacket(
+                k.to_subpacket()
+                )
+        for k in added:
+            self._add_subpacket(
+                k.to_subpacket()
+                )
 
     notations = property(_get_notations, _set_notations)
 
@@ -537,19 +536,15 @@ class BaseSignature(object):
     def _set_embedded_signatures(self, embedded_signatures):
         existing = self.embedded_signatures
 
-        for k in set(embedded_signatures) | set(existing):
-            if k in existing and embedded_signatures:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
+        removed, added = _changes(existing, embedded_signatures)
+        for k in removed:
+            self._remove_subpacket(
+                k.to_packet().to_embedded_subpacket()
+                )
+        for k in added:
+            self._add_subpacket(
+                k.to_packet().to_embedded_subpacket()
+                )
 
     embedded_signatures = property(_get_embedded_signatures,
                                    _set_embedded_signatures)
@@ -629,19 +624,15 @@ class BaseSignature(object):
     def _set_revocation_keys(self, revocation_keys):
         existing = self.revocation_keys
 
-        for k in set(revocation_keys) | set(existing):
-            if k in existing and revocation_keys:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_subpacket()
-                    )
+        removed, added = _changes(existing, revocation_keys)
+        for k in removed:
+            self._remove_subpacket(
+                k.to_subpacket()
+                )
+        for k in added:
+            self._add_subpacket(
+                k.to_subpacket()
+                )
 
     revocation_keys = property(_get_revocation_keys, _set_revocation_keys)
 
-- 
2.43.0


From b4190728a5b093dbaa5398fabc7dc67abf2f71f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 049/107] fix: read and write trust, revocation and
 revocability attributes

---
 pgp/signature.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 2064b91..e625f44 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -408,24 +408,24 @@ class BaseSignature(object):
     def _get_trust_amount(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount')
+            'amount')
 
     def _set_trust_amount(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            'amount', value)
 
     trust_amount = property(_get_trust_amount, _set_trust_amount)
 
     def _get_trust_depth(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth')
+            'depth')
 
     def _set_trust_depth(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth', value)
+            'depth', value)
 
     trust_depth = property(_get_trust_depth, _set_trust_depth)
 
@@ -465,7 +465,7 @@ class BaseSignature(object):
             C.REVOCABLE_SUBPACKET_TYPE,
             'revocable', value)
 
-    revocable = property(_get_exportable, _set_exportable)
+    revocable = property(_get_revocable, _set_revocable)
 
     def _get_notations(self):
         subpackets = self._get_subpackets(C.NOTATION_SUBPACKET_TYPE)
@@ -503,13 +503,13 @@ class BaseSignature(object):
 
     def _get_revocation_reason(self):
         return self._get_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
             'revocation_reason')
 
     def _set_revocation_reason(self, value):
         self._update_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
+            'revocation_reason', value)
 
     revocation_reason = property(_get_revocation_reason,
                                  _set_revocation_reason)
-- 
2.43.0


From 30560112617473f8b045f5787c5797e926eb0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 050/107] fix: leave other flags off when one signature flag is
 set

---
 pgp/signature.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index e625f44..22c9798 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -134,6 +134,23 @@ class BaseSignature(object):
     issuer_key_expired = None
     issuer_key_revoked = None
 
+    # What else a subpacket made for a single attribute contains
+    _new_subpacket_values = {
+        C.REVOCATION_REASON_SUBPACKET_TYPE: {
+            'revocation_code': 0,
+            'revocation_reason': u'',
+            },
+        C.KEY_FLAGS_SUBPACKET_TYPE: {
+            'may_certify_others': False,
+            'may_sign_data': False,
+            'may_encrypt_comms': False,
+            'may_encrypt_storage': False,
+            'may_be_used_for_auth': False,
+            'may_have_been_split': False,
+            'may_have_multiple_owners': False,
+            },
+        }
+
     # Packet level options
     packet_header_type = C.NEW_PACKET_HEADER_TYPE
 
@@ -298,9 +315,11 @@ class BaseSignature(object):
 
     def _add_subpacket_values(self, type_, attr, value, hashed=True,
                               critical=False):
+        values = dict(self._new_subpacket_values.get(type_, {}))
+        values[attr] = value
         sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](
-                **{attr: value, 'critical': critical})
-        self._add_subpacket(sub)
+                critical=critical, **values)
+        self._add_subpacket(sub, hashed)
 
     def _remove_subpacket_values(self, type_, attr, value):
         subpackets = self._get_subpackets(type_)
-- 
2.43.0


From 9a0dc1c22d25c0f7dc9f03861be47ff64d990177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 051/107] fix: let signatures have no target

---
 pgp/signature.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/signature.py b/pgp/signature.py
index 22c9798..6b96283 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -131,6 +131,7 @@ class BaseSignature(object):
     hash2 = None
     signature_values = None
     validated = None
+    _target_ref = None
     issuer_key_expired = None
     issuer_key_revoked = None
 
@@ -813,6 +814,8 @@ class BaseSignature(object):
 
     @property
     def parent(self):
+        if self._target_ref is None:
+            return None
         return self._target_ref()
 
     @property
-- 
2.43.0


From b402807e78c71eb6b183ef2953f69ac92e83c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 052/107] fix: find the most recent self-signature

---
 pgp/transferrable_keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 80d3898..cdb51b2 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -108,6 +108,7 @@ class SignedMixin(object):
                     ):
                 continue
             if last_signature_created < signature.creation_time:
+                last_signature_created = signature.creation_time
                 most_recent_selfsig = signature
 
         return most_recent_selfsig
-- 
2.43.0


From 60b96c357ed16f27f43f175ad903db9b910ecb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 053/107] fix: read self-signature attributes of version 3 keys
 as their defaults

---
 pgp/transferrable_keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index cdb51b2..4e185e2 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -116,6 +116,7 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
+            result = default
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
                 result = getattr(most_recent_selfsig, name, default)
-- 
2.43.0


From 4dd48ef6cacd82ab1724404febae12d3dc1188cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 054/107] fix: read each self-signature attribute from its own
 signature attribute

---
 pgp/transferrable_keys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 4e185e2..e731df2 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -154,13 +154,13 @@ class SignedMixin(object):
     may_certify_others = __selfsig_attribute('may_certify_others')
     may_sign_data = __selfsig_attribute('may_sign_data')
     may_encrypt_comms = __selfsig_attribute('may_encrypt_comms')
-    may_encrypt_storage = __selfsig_attribute('may_encrypt_comms')
-    may_be_used_for_auth = __selfsig_attribute('may_encrypt_comms')
+    may_encrypt_storage = __selfsig_attribute('may_encrypt_storage')
+    may_be_used_for_auth = __selfsig_attribute('may_be_used_for_auth')
     may_have_been_split = __selfsig_attribute('may_have_been_split')
     may_have_multiple_owners = \
         __selfsig_attribute('may_have_multiple_owners')
     supports_modification_detection = \
-        __selfsig_attribute('may_have_multiple_owners')
+        __selfsig_attribute('supports_modification_detection')
 
     del __selfsig_attribute
 
-- 
2.43.0


From d7510feb3daf2e7f0c1102a711dc69699b9c42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 055/107] fix: set the expiration time of version 4 keys

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index e731df2..456a03f 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -298,7 +298,7 @@ class BasePublicKey(SignedMixin):
         if self.version in (2, 3):
             self._expiration_time = value
         elif self.version >= 4:
-            super(BasePublicKey, self).expiration_time = value
+            SignedMixin.expiration_time.fset(self, value)
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
-- 
2.43.0


From f384bc1264ee5259c4b7f297a56ac3853e4153f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 056/107] fix: hash the primary key once for signatures of
 secret subkeys

---
 pgp/transferrable_keys.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 456a03f..cd3ab34 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -244,7 +244,7 @@ class BasePublicKey(SignedMixin):
         return self._PacketClass(*args)
 
     def to_signable_data(self, signature_type, signature_version=3):
-        key_packet_data = self.to_packet().content
+        key_packet_data = self.to_packet().public_content
         key_length = len(key_packet_data)
         result = bytearray([0x99])
         result.extend(utils.int_to_2byte(key_length))
@@ -458,10 +458,6 @@ class BaseSecretKey(BasePublicKey):
         self.checksum = checksum
         self.hash = hash_
 
-    def to_signable_data(self, signature_type, signature_version=3):
-        return self.to_public_key().to_signable_data(signature_type,
-                                                     signature_version)
-
     def to_public_key(self):
         key = self._PublicClass(
             self.version, self.public_key_algorithm, self.creation_time,
-- 
2.43.0


From fd1ab890297bf1418a508dc921feb154359ec17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 057/107] fix: keep the character before a line feed in
 canonical text

---
 pgp/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 0ad1295..eec100e 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -30,7 +30,7 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-INCOMPLETE_CRLF = re.compile(b'(\r[^\n]|[^\r]\n)', re.M)
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
 
 
 class MessageSignature(BaseSignature):
@@ -184,7 +184,7 @@ class TextMessage(LiteralMessage):
     def to_signable_data(self, signature_type, signature_version=3):
         data = self.data.encode('utf8')
         if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return INCOMPLETE_CRLF.sub(b'\r\n', data)
+            return LINE_ENDING.sub(b'\r\n', data)
         return data
 
 
-- 
2.43.0


From 3301efdcd1cc9aeec7bad4a8eabab97a1ab2f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 058/107] fix: keep the encoding of text messages

---
 pgp/message.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index eec100e..88188de 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -148,7 +148,10 @@ class LiteralMessage(BaseMessage):
         filename = packet.filename
         timestamp = datetime.datetime.fromtimestamp(packet.time)
         data = packet.data
-        return class_(data, filename, timestamp)
+        result = class_(data, filename, timestamp)
+        if class_ is TextMessage:
+            result.data_format = data_format
+        return result
 
     @abc.abstractmethod
     def __init__(self, data, filename, timestamp):
@@ -169,11 +172,14 @@ class LiteralMessage(BaseMessage):
 
 class TextMessage(LiteralMessage):
 
+    data_format = b'u'
+
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
         return packets.LiteralDataPacket(
-                    header_format, b'u', self.filename, self.timestamp,
+                    header_format, self.data_format, self.filename,
+                    self.timestamp,
                     self.data)
 
     def __init__(self, data, filename, timestamp):
@@ -182,7 +188,10 @@ class TextMessage(LiteralMessage):
         self.timestamp = timestamp
 
     def to_signable_data(self, signature_type, signature_version=3):
-        data = self.data.encode('utf8')
+        if self.data_format == b't':
+            data = self.data.encode('latin-1', 'replace')
+        else:
+            data = self.data.encode('utf8')
         if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
             return LINE_ENDING.sub(b'\r\n', data)
         return data
-- 
2.43.0


From 98f64d9b9b2e2858819d61436cb444d8efcbe2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 059/107] fix: hash all documents signed as text with canonical
 line endings

---
 pgp/message.py            | 10 ++--------
 pgp/transferrable_keys.py |  5 +++--
 pgp/utils.py              | 12 ++++++++++++
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 88188de..468ecc4 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -17,7 +17,6 @@
 import abc
 import collections
 import datetime
-import re
 import six
 
 from Crypto import Random
@@ -30,9 +29,6 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-LINE_ENDING = re.compile(b'\r\n|\r|\n')
-
-
 class MessageSignature(BaseSignature):
 
     one_pass = None
@@ -167,7 +163,7 @@ class LiteralMessage(BaseMessage):
         return [self.to_packet(header_format)]
 
     def to_signable_data(self, signature_type, signature_version=3):
-        return self.data
+        return utils.canonical_document(signature_type, self.data)
 
 
 class TextMessage(LiteralMessage):
@@ -192,9 +188,7 @@ class TextMessage(LiteralMessage):
             data = self.data.encode('latin-1', 'replace')
         else:
             data = self.data.encode('utf8')
-        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return LINE_ENDING.sub(b'\r\n', data)
-        return data
+        return utils.canonical_document(signature_type, data)
 
 
 class BinaryMessage(LiteralMessage):
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index cd3ab34..7ae7f43 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -520,9 +520,10 @@ class BaseSecretKey(BasePublicKey):
 
         hash_ = utils.get_hash_instance(hash_algorithm)
         if isinstance(item, str):
-            hash_.update(item.encode('utf8'))
+            item = item.encode('utf8')
+            hash_.update(utils.canonical_document(signature_type, item))
         elif isinstance(item, bytes):
-            hash_.update(item)
+            hash_.update(utils.canonical_document(signature_type, item))
 
         else:
             hash_.update(item.to_signable_data(signature_type, version))
diff --git a/pgp/utils.py b/pgp/utils.py
index a24f319..e8229bc 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -16,6 +16,7 @@
 
 import bz2
 import math
+import re
 import zlib
 
 from Crypto.Cipher import blockalgo
@@ -463,6 +464,17 @@ def get_compression_instance(type_, level=None):
     return instance
 
 
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
+
+
+def canonical_document(signature_type, data):
+    """The octets of a document to hash for a signature."""
+
+    if signature_type == constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
+        return LINE_ENDING.sub(b'\r\n', bytes(data))
+    return data
+
+
 def hash_key(data_to_hash, key_packet_data):
     """Adds key data to a hash for signature comparison."""
 
-- 
2.43.0


From 7ef796e379ee328f8d76ae67c4598bfc978621dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 060/107] fix: hash the body of a signature that is signed

---
 pgp/packets/packets.py | 12 +++++++++---
 pgp/utils.py           | 10 ++++------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 58fe9ae..16b56ae 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -463,6 +463,9 @@ class SignaturePacket(Packet):
 
     @property
     def content(self):
+        return self._get_content(getattr(self, 'unhashed_subpackets', []))
+
+    def _get_content(self, unhashed_subpackets):
         data = bytearray()
         sig_version = self.version
         data.append(sig_version)
@@ -474,7 +477,7 @@ class SignaturePacket(Packet):
             unhashed_subpacket_data = bytearray()
             for sp in self.hashed_subpackets:
                 hashed_subpacket_data.extend(bytes(sp))
-            for sp in self.unhashed_subpackets:
+            for sp in unhashed_subpackets:
                 unhashed_subpacket_data.extend(bytes(sp))
 
             data.extend(utils.int_to_2byte(len(hashed_subpacket_data)))
@@ -525,9 +528,12 @@ class SignaturePacket(Packet):
         return result
 
     def get_content_for_signature_hash(self, signature_version):
+        # "The unhashed subpacket data of the Signature packet being hashed is
+        #  not included in the hash, and the unhashed subpacket data length
+        #  value is set to zero."
+        sig_hash_data = self._get_content([])
         result = bytearray([0x88])
-        sig_hash_data = self.get_signature_hash_trailer()
-        result.extend(utils.int_to_2byte(len(sig_hash_data)))
+        result.extend(utils.int_to_4byte(len(sig_hash_data)))
         result.extend(sig_hash_data)
         return result
 
diff --git a/pgp/utils.py b/pgp/utils.py
index e8229bc..93d873a 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -532,9 +532,8 @@ def hash_packet_for_signature(packet_for_hash,
         hash_key(data_to_hash, public_key_packet_data)
         hash_key(data_to_hash, packet_data_for_hash)
     elif signature_type == constants.THIRD_PARTY_CONFIRMATION_SIGNATURE:
-        data_to_hash.append(0x88)
-        data_to_hash.append(len(packet_data_for_hash))
-        data_to_hash.extend(packet_data_for_hash)
+        data_to_hash.extend(
+            packet_for_hash.get_content_for_signature_hash(signature_version))
     elif signature_type in (constants.SIGNATURE_OF_A_BINARY_DOCUMENT,
                             constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT):
         data_to_hash.extend(packet_data_for_hash)
@@ -558,9 +557,8 @@ def hash_packet_for_signature(packet_for_hash,
         # https://tools.ietf.org/html/rfc1991
         # http://www.imc.org/ietf-openpgp/mail-archive/msg04966.html
         # http://www.imc.org/ietf-openpgp/mail-archive/msg04970.html
-        data_to_hash.append(0x88)
-        data_to_hash.append(len(packet_data_for_hash))
-        data_to_hash.extend(packet_data_for_hash)
+        data_to_hash.extend(
+            packet_for_hash.get_content_for_signature_hash(signature_version))
 
     if signature_version >= 4:
         data_to_hash.append(signature_version)
-- 
2.43.0


From 5ac8b93ac1273e4945a1f552176d3e4f1bbffea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 061/107] fix: hash only the public part of key packets

---
 pgp/packets/packets.py | 2 +-
 pgp/utils.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 16b56ae..73d6f13 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -821,7 +821,7 @@ class PublicKeyPacket(Packet):
         return self.public_content
 
     def get_content_for_signature_hash(self, signature_version):
-        key_data = self.content
+        key_data = self.public_content
         result = bytearray([0x99])
         result.extend(utils.int_to_2byte(len(key_data)))
         result.extend(key_data)
diff --git a/pgp/utils.py b/pgp/utils.py
index 93d873a..890abc8 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -519,7 +519,7 @@ def hash_packet_for_signature(packet_for_hash,
     data_to_hash = bytearray()
     public_key_packet_data = None
     if public_key_packet is not None:
-        public_key_packet_data = public_key_packet.content
+        public_key_packet_data = public_key_packet.public_content
     packet_data_for_hash = packet_for_hash.content
     if signature_type in (constants.SIGNATURE_DIRECTLY_ON_A_KEY,
                           constants.KEY_REVOCATION_SIGNATURE):
@@ -530,7 +530,7 @@ def hash_packet_for_signature(packet_for_hash,
                             constants.SUBKEY_REVOCATION_SIGNATURE):
         assert public_key_packet_data is not None
         hash_key(data_to_hash, public_key_packet_data)
-        hash_key(data_to_hash, packet_data_for_hash)
+        hash_key(data_to_hash, packet_for_hash.public_content)
     elif signature_type == constants.THIRD_PARTY_CONFIRMATION_SIGNATURE:
         data_to_hash.extend(
             packet_for_hash.get_content_for_signature_hash(signature_version))
-- 
2.43.0


From 76cf20928a92bab23a97e746a358f09fa3b9b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 062/107] fix: hash only the data of literal data packets

---
 pgp/packets/packets.py | 8 ++++++--
 pgp/utils.py           | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 73d6f13..8d78d0d 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1349,6 +1349,11 @@ class LiteralDataPacket(Packet):
         if hasattr(timestamp, 'timetuple'):
             timestamp = int(time.mktime(timestamp.timetuple()))
         data.extend(utils.int_to_4byte(timestamp))
+        data.extend(self.data_octets)
+        return data
+
+    @property
+    def data_octets(self):
         content = self.data
         if self.data_format in (b't', b'u'):
             content.replace(os.linesep, '\r\n')
@@ -1356,8 +1361,7 @@ class LiteralDataPacket(Packet):
             content = content.encode('latin-1', 'replace')
         elif self.data_format == b'u':
             content = content.encode('utf8', 'replace')
-        data.extend(content)
-        return data
+        return content
 
 
 class TrustPacket(Packet):
diff --git a/pgp/utils.py b/pgp/utils.py
index 890abc8..fbdb3b4 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -536,7 +536,10 @@ def hash_packet_for_signature(packet_for_hash,
             packet_for_hash.get_content_for_signature_hash(signature_version))
     elif signature_type in (constants.SIGNATURE_OF_A_BINARY_DOCUMENT,
                             constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT):
-        data_to_hash.extend(packet_data_for_hash)
+        if packet_for_hash.type == constants.LITERAL_DATA_PACKET_TYPE:
+            packet_data_for_hash = packet_for_hash.data_octets
+        data_to_hash.extend(canonical_document(signature_type,
+                                               packet_data_for_hash))
     elif signature_type == constants.STANDALONE_SIGNATURE:
         pass
     elif signature_type in (constants.GENERIC_CERTIFICATION,
-- 
2.43.0


From c9b93ae688c765739fe174752c660d0bee2b278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 063/107] fix: sign and verify the body of signatures

---
 pgp/transferrable_keys.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 7ae7f43..6bfe6e9 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -41,6 +41,13 @@ except NameError:
     long = int
 
 
+def _get_signable_data(item, signature_type, version):
+    if isinstance(item, BaseSignature):
+        # not its own trailer
+        return item.to_packet().get_content_for_signature_hash(version)
+    return item.to_signable_data(signature_type, version)
+
+
 class SignedMixin(object):
 
     @property
@@ -400,8 +407,8 @@ class BasePublicKey(SignedMixin):
 
         key_obj = self._get_key_obj()
         hash_ = utils.get_hash_instance(signature.hash_algorithm)
-        hash_.update(item.to_signable_data(signature.signature_type,
-                                           signature.version))
+        hash_.update(_get_signable_data(item, signature.signature_type,
+                                        signature.version))
         hash_.update(signature.to_signable_data(signature.signature_type,
                                                 signature.version))
         if hash_.digest()[:2] != signature.hash2:
@@ -526,7 +533,7 @@ class BaseSecretKey(BasePublicKey):
             hash_.update(utils.canonical_document(signature_type, item))
 
         else:
-            hash_.update(item.to_signable_data(signature_type, version))
+            hash_.update(_get_signable_data(item, signature_type, version))
         if isinstance(item, (BasePublicKey, UserID, UserAttribute)):
             SigClass = KeySignature
         else:
-- 
2.43.0


From 369d0ebf07ba225c763b0f6fa9e55f33f0714198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 064/107] fix: leave the subpackets given to sign alone

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 6bfe6e9..1f7c29a 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -540,7 +540,7 @@ class BaseSecretKey(BasePublicKey):
             SigClass = BaseSignature
         creation_time = int(time.time())
         issuer_key_id = self.key_id
-        hashed_subpackets = hashed_subpackets or []
+        hashed_subpackets = list(hashed_subpackets or [])
         unhashed_subpackets = []
         creation_time_arg = None
         issuer_key_id_arg = None
-- 
2.43.0


From 67cc8615f7ad8876065f0beff6bfd287bae56535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 065/107] fix: verify RSA signatures whose value has leading
 zeros

---
 pgp/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index fbdb3b4..06626aa 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -129,7 +129,9 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
 def verify_hash(pub_algorithm_type, public_key, hash_, values):
     if pub_algorithm_type in (1, 3):
         # RSA
-        s = long_to_bytes(values[0])
+        # "the length k in octets of the RSA modulus" - RFC 3447, 8.2.2
+        k = (public_key.n.bit_length() + 7) // 8
+        s = long_to_bytes(values[0], k)
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
     elif pub_algorithm_type == 20:
         # ELG
-- 
2.43.0


From bd45595f2d5ef19c993abca8d2d94435faa512b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 066/107] fix: sign and verify documents given as octets or
 text

---
 pgp/signature.py          |  5 ++++-
 pgp/transferrable_keys.py | 13 +++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 6b96283..fa9ded7 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -245,7 +245,10 @@ class BaseSignature(object):
                  issuer_key_id=None, hashed_subpackets=None,
                  unhashed_subpackets=None, current_time_fn=None):
 
-        if target:
+        if isinstance(target, (bytes, type(u''))):
+            # These cannot be referred to weakly
+            self._target_ref = lambda: target
+        elif target:
             self._target_ref = weakref.ref(target)
         self.version = version
         self.signature_type = signature_type
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 1f7c29a..51740da 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -45,6 +45,10 @@ def _get_signable_data(item, signature_type, version):
     if isinstance(item, BaseSignature):
         # not its own trailer
         return item.to_packet().get_content_for_signature_hash(version)
+    if isinstance(item, type(u'')):
+        item = item.encode('utf8')
+    if isinstance(item, bytes):
+        return utils.canonical_document(signature_type, item)
     return item.to_signable_data(signature_type, version)
 
 
@@ -526,14 +530,7 @@ class BaseSecretKey(BasePublicKey):
         key_obj = self._get_key_obj()
 
         hash_ = utils.get_hash_instance(hash_algorithm)
-        if isinstance(item, str):
-            item = item.encode('utf8')
-            hash_.update(utils.canonical_document(signature_type, item))
-        elif isinstance(item, bytes):
-            hash_.update(utils.canonical_document(signature_type, item))
-
-        else:
-            hash_.update(_get_signable_data(item, signature_type, version))
+        hash_.update(_get_signable_data(item, signature_type, version))
         if isinstance(item, (BasePublicKey, UserID, UserAttribute)):
             SigClass = KeySignature
         else:
-- 
2.43.0


From fd56a1a3f78ea2ed196407cba9bc95f4657b4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 067/107] fix: keep the secret number of ElGamal signatures
 secret

---
 pgp/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 06626aa..e60fd34 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -107,7 +107,6 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
                 k = random.StrongRandom().randint(1, secret_key.p - 1)
                 if GCD(k, secret_key.p - 1) == 1:
                     break
-            print(k)
         # TODO: Remove dependence on undocumented method
         sig_string = PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
                             hash_, secret_key.size())
-- 
2.43.0


From d65fb6f011984b2c5af6fdf30c3f2dd90cae85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 068/107] fix: keep user attributes of every type as they were
 read

---
 pgp/transferrable_keys.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 51740da..1f83d79 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -753,24 +753,34 @@ class UserAttributeContentItem(object):
 
     mime_type = None
     data = None
+    _read = None
 
     @classmethod
     def from_subpacket(cls, subpacket):
-        if subpacket.image_format == C.JPEG_IMAGE_FORMAT:
+        image_format = getattr(subpacket, 'image_format', None)
+        # Other types of attribute only have content
+        data = getattr(subpacket, 'data', subpacket.content)
+        if image_format == C.JPEG_IMAGE_FORMAT:
             mime_type = 'image/jpeg'
         else:
-            mime_type = magic.from_buffer(subpacket.data[:1024],
-                                          mime=True).decode('ascii')
-        return cls(mime_type, subpacket.data)
+            mime_type = magic.from_buffer(bytes(data[:1024]), mime=True)
+            if isinstance(mime_type, bytes):
+                mime_type = mime_type.decode('ascii')
+        result = cls(mime_type, data)
+        result._read = (mime_type, data, subpacket)
+        return result
 
     def __init__(self, mime_type, data):
         self.mime_type = mime_type
         self.data = data
 
     def __repr__(self):
-        return '<{0} at 0x{2:x}>'.format(self.__class__.__name__, id(self))
+        return '<{0} at 0x{1:x}>'.format(self.__class__.__name__, id(self))
 
     def to_subpacket(self):
+        if (self._read is not None
+                and (self.mime_type, self.data) == self._read[:2]):
+            return self._read[2]
         if self.mime_type.split('/', 1)[0] != 'image':
             return None
         header_version = 1
-- 
2.43.0


From c7f3085e8511870320f62d3e06bdcfacf5830ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 069/107] fix: count keys as expired from their expiration time
 on

---
 pgp/signature_verification.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 51764bf..6a5e20a 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -122,7 +122,8 @@ def check_signature_values(key, signature, current_time=None, strict=False):
         raise SignatureCreatedInTheFuture()
 
     key_expiration_time = key.expiration_time
-    if key_expiration_time is not None and key_expiration_time < current_time:
+    if (key_expiration_time is not None
+            and key_expiration_time <= current_time):
         if strict:
             raise SigningKeyHasExpired(key_expiration_time)
         key_expired = True
-- 
2.43.0


From 4690ce1bc98b03485817179160c9dd254f5eb0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 070/107] fix: refuse protected secret keys shorter than their
 checksum

---
 pgp/packets/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 8d78d0d..0ef0e0f 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1076,6 +1076,8 @@ class SecretKeyPacket(PublicKeyPacket):
             raise ValueError
 
         data_length = len(decrypted_data) - check_length
+        if data_length < 0:
+            raise ValueError
         if checksum:
             expected_checksum = utils.short_to_int(decrypted_data,
                                                    data_length)
-- 
2.43.0


From 0933e067928985b06a1f844b9a161544b13e58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 071/107] fix: decrypt RSA session keys whose value has leading
 zeros

---
 pgp/packets/packets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0ef0e0f..fb1ce4a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -218,8 +218,9 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             ems.append(bytes(em))
 
         if len(ems) == 1:
-            # RSA takes a single argument.
-            em = ems[0]
+            # RSA takes a single argument, as long as the modulus. MPIs have
+            # no leading zeros.
+            em = ems[0].rjust((secret_key_obj.size() + 8) // 8, b'\x00')
         else:
             # ElGamal takes a 2-tuple.
             em = tuple(ems)
-- 
2.43.0


From b7c6bf1c4ff8121387e640e3188f21f63660cecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 072/107] fix: use a random secret number for ElGamal
 encryption

---
 pgp/packets/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index fb1ce4a..9268349 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -21,6 +21,7 @@ import warnings
 from Crypto import Random
 from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
 from Crypto.Hash import SHA
+from Crypto.Random import random
 
 from pgp.packets import constants
 from pgp.packets.signature_subpackets import signature_subpacket_from_data
@@ -61,7 +62,7 @@ class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
         # Step 2b
         em = b'\x00\x02' + ps + b'\x00' + message
         # Step 3a (OS2IP), step 3b (RSAEP), part of step 3c (I2OSP)
-        m = self._key.encrypt(em, 0)
+        m = self._key.encrypt(em, random.randint(1, int(self._key.p) - 2))
         # Skip step 3c (I2OSP)
         # ...
         return m
-- 
2.43.0


From 722654bc5e65728a4743e38b8d5db607645cb0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 073/107] fix: refuse decrypted session keys too short for a
 checksum

---
 pgp/packets/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9268349..a83ce44 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -242,6 +242,8 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             raise NotImplementedError()
             m = decrypted_values[1]
 
+        if len(m) < 3:
+            raise ValueError
         symmetric_algorithm = int(m[0])
         expected_checksum = (
                 (m[-2] << 8) +
-- 
2.43.0


From e5dc2676b7ee4a83b1c7e79b2d07b26a32152462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 074/107] fix: build key objects for RSA encrypt-only keys

---
 pgp/transferrable_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 1f83d79..e8ab28c 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -388,7 +388,7 @@ class BasePublicKey(SignedMixin):
                                        long(self.group_generator_g),
                                        long(self.key_value_y)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e)
                                        ))
@@ -503,7 +503,7 @@ class BaseSecretKey(BasePublicKey):
                                        long(self.key_value_y),
                                        long(self.exponent_x)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e),
                                        long(self.exponent_d),
-- 
2.43.0


From b7ad26ce52d6723707542b01d8dd176aa3798204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 075/107] fix: encrypt for hidden recipients

---
 pgp/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index 468ecc4..caa748e 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -63,6 +63,8 @@ class BaseMessage(object):
                 '`public_keys`.')
         elif public_key is not None:
             public_keys = [public_key]
+        elif public_keys is None:
+            public_keys = []
         if hidden_public_keys is None:
             hidden_public_keys = []
         if session_key is None:
@@ -342,7 +344,7 @@ class PublicKeySessionKey(object):
         self.key_id = key_id
         if public_key:
             self.public_key_algorithm = public_key.public_key_algorithm
-            self.key_id = public_key.key_id
+            self.key_id = None if hide_key_id else public_key.key_id
         if encrypted_key:
             self.encrypted_key = encrypted_key
         if session_key:
-- 
2.43.0


From 91d7e1171c8ab6bb427457362bb266794ebde154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 076/107] fix: name the algorithm which encrypts a session key
 in its packet

---
 pgp/message.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index caa748e..199fd51 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -290,6 +290,10 @@ class SymmetricSessionKey(object):
             self.encrypted_key = PacketCls._get_encrypted_key(
                 self.s2k_specification, self.symmetric_algorithm, passphrase,
                 session_key)
+            # The algorithm of the session key is encrypted with it, the
+            # packet has the one which encrypts it.
+            self.symmetric_algorithm = \
+                self.s2k_specification.symmetric_algorithm
 
     def to_packet(self, header_format=None):
         if header_format is None:
-- 
2.43.0


From 29614c8fa662eb6dd54963a91ce58c5bcbdd8646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 077/107] fix: keep the header format of passphrase session
 keys

---
 pgp/message.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 199fd51..a9dac23 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -249,8 +249,10 @@ class SymmetricSessionKey(object):
 
     @classmethod
     def from_packet(cls, packet):
-        return cls(packet.symmetric_algorithm, packet.s2k_specification,
-                   encrypted_key=packet.encrypted_session_key)
+        result = cls(packet.symmetric_algorithm, packet.s2k_specification,
+                     encrypted_key=packet.encrypted_session_key)
+        result.packet_header_type = packet.header_format
+        return result
 
     def __init__(self, symmetric_algorithm, s2k_specification,
                  passphrase=None, session_key=None, encrypted_key=None):
-- 
2.43.0


From 47e9089082f3d690b201fcd4e4b6840527c1568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 078/107] fix: read symmetrically encrypted data without
 integrity protection

---
 pgp/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index a9dac23..071ef39 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -412,8 +412,11 @@ class SymmetricallyEncryptedMessageData(object):
         version = None
         if integrity_protected:
             version = packet.version
+            encrypted_data = packet.encrypted_data
+        else:
+            encrypted_data = packet.data
         return cls(
-            encrypted_data=packet.encrypted_data,
+            encrypted_data=encrypted_data,
             integrity_protected=integrity_protected,
             version=version
             )
-- 
2.43.0


From f5372e94e7e2dfebd4b7c19172c2317251bf1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 079/107] fix: encrypt and decrypt data without integrity
 protection

---
 pgp/message.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 071ef39..cbac1ef 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -441,16 +441,21 @@ class SymmetricallyEncryptedMessageData(object):
             )
         padding = 0
         if not self.integrity_protected:
-            padding = block_len - len(message) % block_len
-            message = message + b'\x00' * padding
-            data.extend(cipher.encrypt(iv + iv[-2:]))
+            padding = block_len - 2
+            prefix = cipher.encrypt(iv + iv[-2:] + b'\x00' * padding)
+            data.extend(prefix[:block_len + 2])
+            # "After encrypting the first block-size-plus-two octets, the CFB
+            #  state is resynchronized. The last block-size octets of
+            #  ciphertext are passed through the cipher and the block boundary
+            #  is reset."
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
                 utils.CFB,
-                iv
+                prefix[2:block_len + 2]
                 )
-            data.extend(cipher.encrypt(message))
+            padding = block_len - len(message) % block_len
+            data.extend(cipher.encrypt(message + b'\x00' * padding)[:-padding])
         else:
             padding = block_len - (len(message) + 2 + 22) % block_len
             data.extend(cipher.encrypt(iv))
@@ -494,11 +499,16 @@ class SymmetricallyEncryptedMessageData(object):
             padding = block_len - (len(encrypted_data) - offset) % block_len
             encrypted_data += b'\x00' * padding
         else:
+            # The CFB state is resynchronized, see `encrypt`.
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
-                utils.OPENPGP,
-                encrypted_iv)
+                utils.CFB,
+                encrypted_iv[2:])
+            offset += block_len + 2
+
+            padding = block_len - (len(encrypted_data) - offset) % block_len
+            encrypted_data += b'\x00' * padding
 
         decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
         decrypted_data = decrypted_data[:-padding]
-- 
2.43.0


From 79cdd5b177837d3ba4f021d8e20f0fb5053b23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 080/107] fix: take nothing but integrity protected data to end
 in an MDC

---
 pgp/message.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index cbac1ef..05af135 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -512,40 +512,28 @@ class SymmetricallyEncryptedMessageData(object):
 
         decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
         decrypted_data = decrypted_data[:-padding]
-        # We run into trouble here with partial body lengths and the MDC.
-        # Let's make pretend.
-        mdc_data = bytearray()
         main_data = decrypted_data
-        if decrypted_data[-22:-20] == b'\xd3\x14':
-            # It's there. Hold it back.
-            mdc_data = decrypted_data[-22:]
-            main_data = decrypted_data[:-22]
-        data_len = len(main_data)
-        offset = 0
-        decrypted_packets = []
-        while offset < data_len:
-            offset, packet = packets.packet_from_packet_data(main_data, offset)
-            decrypted_packets.append(packet)
-
-        if mdc_data:
-            # One more for the MDC
-            offset, packet = packets.packet_from_packet_data(mdc_data, 0)
-            decrypted_packets.append(packet)
-
         if self.integrity_protected:
-            if (decrypted_packets[-1].type !=
-                    C.MODIFICATION_DETECTION_CODE_PACKET_TYPE):
+            # "The Modification Detection Code packet [...] MUST be the last
+            #  packet in the plaintext data [...] MUST be exactly 22 octets."
+            if decrypted_data[-22:-20] != b'\xd3\x14':
                 raise ValueError(
                     'Integrity protected message is missing modification '
                     'detection code.')
-            mdc = decrypted_packets.pop()
             hash_ = SHA.new(decrypted_iv)
             hash_.update(decrypted_iv[-2:])
-            hash_.update(decrypted_data[:-20])
-            if mdc.data != hash_.digest():
+            hash_.update(bytes(decrypted_data[:-20]))
+            if decrypted_data[-20:] != hash_.digest():
                 raise ValueError(
                     'Integrity protected message does not match modification '
                     'detection code.')
+            main_data = decrypted_data[:-22]
+        data_len = len(main_data)
+        offset = 0
+        decrypted_packets = []
+        while offset < data_len:
+            offset, packet = packets.packet_from_packet_data(main_data, offset)
+            decrypted_packets.append(packet)
 
         return open_pgp_message_from_packets(decrypted_packets)
 
-- 
2.43.0


From 3806d21ecb51dacf5467e2f4ae78ae58bebb2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 081/107] fix: write and read messages signed without one-pass
 signatures

---
 pgp/message.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 05af135..46524d9 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -652,6 +652,7 @@ class SignedMessageWrapper(BaseMessage):
     def from_packets(cls, packets):
         one_pass = False
         signatures = []
+        prefixed = []
         message = None
         for packet in packets:
             if packet.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
@@ -661,10 +662,15 @@ class SignedMessageWrapper(BaseMessage):
                     signature = parse_signature_from_packet(packet, message,
                                                             one_pass=one_pass)
                     signatures.append(signature)
+                elif not one_pass:
+                    prefixed.append(packet)
                 else:
                     raise TypeError()
             elif message is None:
                 message = open_pgp_message_from_packets([packet])
+                for signature_packet in prefixed:
+                    signatures.append(parse_signature_from_packet(
+                        signature_packet, message))
             else:
                 raise TypeError()
         return cls(signatures, message, one_pass)
@@ -696,9 +702,13 @@ class SignedMessageWrapper(BaseMessage):
                         sig.issuer_key_ids[0],
                         nested=(i != len(self.signatures))
                     ))
+        else:
+            for sig in self.signatures:
+                pkts.append(sig.to_packet(header_format))
         pkts.extend(self.message.to_packets(header_format))
-        for sig in self.signatures:
-            pkts.append(sig.to_packet(header_format))
+        if self.one_pass:
+            for sig in self.signatures:
+                pkts.append(sig.to_packet(header_format))
         return pkts
 
 
-- 
2.43.0


From ccb60636f4b5e8a9b677b1adc4a9e01aadc5aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 082/107] fix: try each session key which is for the given
 secret

---
 pgp/message.py | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 46524d9..eb18d09 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -262,6 +262,10 @@ class SymmetricSessionKey(object):
         if passphrase is not None:
             self.set_session_key(passphrase, session_key)
 
+    def is_for(self, secret):
+        """Whether the secret is a passphrase."""
+        return isinstance(secret, (str, bytes, bytearray))
+
     def get_algorithm_and_session_key(self, passphrase):
         PacketCls = packets.SymmetricKeyEncryptedSessionKeyPacket
         if isinstance(passphrase, str):
@@ -358,6 +362,14 @@ class PublicKeySessionKey(object):
                                                symmetric_algorithm,
                                                session_key)
 
+    def is_for(self, secret):
+        """Whether the secret is a key which may decrypt the session key."""
+        return (
+            getattr(secret, 'public_key_algorithm', None)
+            == self.public_key_algorithm
+            and self.key_id in (None, secret.key_id)
+            )
+
     def get_algorithm_and_session_key(self, secret_key):
         if secret_key.is_locked():
             raise RuntimeError('Key must be unlocked.')
@@ -385,7 +397,13 @@ class DefaultSessionKey(object):
     symmetric_algorithm = 1  # IDEA
     key_hash_algorithm = 1  # MD5
 
+    def is_for(self, secret):
+        """Whether the secret is a passphrase."""
+        return isinstance(secret, (str, bytes, bytearray))
+
     def get_algorithm_and_session_key(self, passphrase):
+        if isinstance(passphrase, str):
+            passphrase = passphrase.encode('utf8')
         hash_ = utils.get_hash_instance(self.key_hash_algorithm)
         hash_.update(passphrase)
         key = hash_.digest()
@@ -601,31 +619,21 @@ class EncryptedMessageWrapper(BaseMessage):
         #  Symmetrically Encrypted Integrity Protected Data packet as well as
         #  decompressing a Compressed Data packet must yield a valid OpenPGP
         #  Message."
-        sym_algo = None
-        sess_key = None
+        # TODO: raise a better error
+        error = ValueError()
         for sess_key_obj in self.session_keys:
-            if isinstance(sess_key_obj, PublicKeySessionKey):
-                try:
-                    sym_algo, sess_key = \
-                        sess_key_obj.get_algorithm_and_session_key(
-                            secret_key_or_passphrase)
-                except ValueError:
-                    continue
-            elif isinstance(sess_key_obj, SymmetricSessionKey):
-                sym_algo, sess_key = \
-                    sess_key_obj.get_algorithm_and_session_key(
-                        secret_key_or_passphrase)
-            elif isinstance(sess_key_obj, DefaultSessionKey):
+            if not sess_key_obj.is_for(secret_key_or_passphrase):
+                continue
+            try:
                 sym_algo, sess_key = \
                     sess_key_obj.get_algorithm_and_session_key(
                         secret_key_or_passphrase)
-            else:
-                # TODO: consider raising an error
-                continue
-            return self.message_data_obj.decrypt(sym_algo, sess_key)
+                return self.message_data_obj.decrypt(sym_algo, sess_key)
+            except ValueError as e:
+                # It may be for another key or passphrase.
+                error = e
 
-        # TODO: raise a better error
-        raise ValueError()
+        raise error
 
     def to_packets(self, header_format=None):
         packets = []
-- 
2.43.0


From ccdf7c0205c42f3f78903f38f725742919c58c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 083/107] fix: refuse session keys of another length than their
 algorithm has

---
 pgp/packets/packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a83ce44..2f5202a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -617,6 +617,9 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
                 cipher.decrypt(bytes(encrypted_data))[:-padding])
             symmetric_algorithm = decrypted_data[0]
             key = bytes(decrypted_data[1:])
+            if len(key) != utils.symmetric_cipher_key_lengths.get(
+                    symmetric_algorithm):
+                raise ValueError
 
         return symmetric_algorithm, key
 
-- 
2.43.0


From 9d58422f5053a1d967ac083709bdacce07c25c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:35 +0000
Subject: [PATCH 084/107] fix: leave keys locked when they cannot be unlocked

---
 pgp/transferrable_keys.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index e8ab28c..4748adb 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -584,13 +584,11 @@ class BaseSecretKey(BasePublicKey):
 
         if self.public_key_algorithm in (1, 2, 3):
             # RSA
-            self.exponent_d = values[0]
-            self.prime_p = values[1]
-            self.prime_q = values[2]
-            self.multiplicative_inverse_u = values[3]
+            (self.exponent_d, self.prime_p, self.prime_q,
+             self.multiplicative_inverse_u) = values
         elif self.public_key_algorithm in (16, 17, 20):
             # DSA & Elg
-            self.exponent_x = values[0]
+            (self.exponent_x,) = values
         else:
             raise ValueError
 
@@ -1109,9 +1107,13 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         return key
 
     def unlock(self, passphrase):
-        super(TransferableSecretKey, self).unlock(passphrase)
-        for sk in self.subkeys:
-            sk.unlock(passphrase)
+        try:
+            super(TransferableSecretKey, self).unlock(passphrase)
+            for sk in self.subkeys:
+                sk.unlock(passphrase)
+        except Exception:
+            self.lock()
+            raise
 
     def lock(self):
         super(TransferableSecretKey, self).lock()
-- 
2.43.0


From e863a7d561fb198ef8f0e7f9da244a077ae14814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:35 +0000
Subject: [PATCH 085/107] fix: lock keys of every algorithm

---
 pgp/transferrable_keys.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 4748adb..1f27ca6 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -605,8 +605,6 @@ class BaseSecretKey(BasePublicKey):
         elif self.public_key_algorithm in (16, 17, 20):
             # DSA & Elg
             self.exponent_x = None
-        else:
-            raise ValueError
 
         self._locked = True
         return
-- 
2.43.0


From d34cd500ac199a5fae99e888fbaba9950fbc18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:53 +0000
Subject: [PATCH 086/107] fix: keep the secret primes out of public keys

---
 pgp/transferrable_keys.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 1f27ca6..b1e038e 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -473,11 +473,17 @@ class BaseSecretKey(BasePublicKey):
         key = self._PublicClass(
             self.version, self.public_key_algorithm, self.creation_time,
             self.expiration_time, self.modulus_n, self.exponent_e,
-            self.prime_p, self.group_generator_g, self.group_order_q,
-            self.key_value_y, self.signatures)
+            self._public_prime_p(), self.group_generator_g,
+            self.group_order_q, self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
 
+    def _public_prime_p(self):
+        # The prime p of an RSA key is secret.
+        if self.public_key_algorithm in (1, 2, 3):
+            return None
+        return self.prime_p
+
     def _to_packet_args(self, header_format=None):
         args = BasePublicKey._to_packet_args(self, header_format)
         args += (self.s2k_specification, self.symmetric_algorithm, self.iv,
@@ -656,7 +662,7 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         key = self._PublicClass(
             self.primary_public_key, self.version, self.public_key_algorithm,
             self.creation_time, self.expiration_time, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_generator_g,
+            self.exponent_e, self._public_prime_p(), self.group_generator_g,
             self.group_order_q, self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
-- 
2.43.0


From 453f4212dc2969426f5a6741e80fc12458d7a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 087/107] fix: a standalone signature covers no document

---
 pgp/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index e60fd34..fb85b28 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -471,6 +471,8 @@ LINE_ENDING = re.compile(b'\r\n|\r|\n')
 def canonical_document(signature_type, data):
     """The octets of a document to hash for a signature."""
 
+    if signature_type == constants.STANDALONE_SIGNATURE:
+        return b''
     if signature_type == constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
         return LINE_ENDING.sub(b'\r\n', bytes(data))
     return data
-- 
2.43.0


From 0b9ddfafc483ce64462a0e278a24f88628b7c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 088/107] fix: refuse key packet sequences which end early as
 invalid keys

---
 pgp/transferrable_keys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b1e038e..fdb0449 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -862,7 +862,7 @@ def validate_transferrable_key(packets, secret=False):
     else:
         key_packet_type = C.SECRET_KEY_PACKET_TYPE
         subkey_packet_type = C.SECRET_SUBKEY_PACKET_TYPE
-    if packets[0].type != key_packet_type:
+    if not packets or packets[0].type != key_packet_type:
         raise exceptions.InvalidKeyPacketOrder(
                 "The first packet must be a Key Packet")
     pubkey_version = packets[0].version
@@ -960,7 +960,8 @@ def validate_transferrable_key(packets, secret=False):
             if pubkey_version < 4:
                 raise exceptions.InvalidKeyPacketType(
                             "V3 keys may not contain subkeys")
-            if (type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
+            if (i + 1 == len(packets)
+                    or type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
                     or packets[i + 1].signature_type !=
                         C.SUBKEY_BINDING_SIGNATURE):
 
-- 
2.43.0


From d0b2373e14b01bc058baff228d33c936496b035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 089/107] fix: accept subkey revocations after binding
 signatures

---
 pgp/transferrable_keys.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index fdb0449..2a2c4d1 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -919,9 +919,11 @@ def validate_transferrable_key(packets, secret=False):
                                     "Packet and other Signatures Directly On "
                                     "Key")
             elif sig_type == C.SUBKEY_REVOCATION_SIGNATURE:
-                if (previous != C.SIGNATURE_PACKET_TYPE
-                        or packets[j].signature_type !=
-                        C.SUBKEY_REVOCATION_SIGNATURE):
+                if (previous_non_sig != subkey_packet_type
+                        or previous != C.SIGNATURE_PACKET_TYPE
+                        or packets[j].signature_type not in (
+                            C.SUBKEY_BINDING_SIGNATURE,
+                            C.SUBKEY_REVOCATION_SIGNATURE)):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
                                 "after a Subkey Binding Signature")
-- 
2.43.0


From e3a828c2b591bffd34204f512be7e97706d9e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 090/107] fix: accept signatures on a key after trust packets

---
 pgp/transferrable_keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 2a2c4d1..3737422 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -888,7 +888,8 @@ def validate_transferrable_key(packets, secret=False):
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
                 for t in type_order[:i]:
                     if t not in (key_packet_type,
-                                 C.SIGNATURE_PACKET_TYPE):
+                                 C.SIGNATURE_PACKET_TYPE,
+                                 C.TRUST_PACKET_TYPE):
                         raise exceptions.InvalidKeyPacketOrder(
                                     "Signature Directly On Key may only "
                                     "appear immediately after the Public Key "
-- 
2.43.0


From aeed5977aba804b97b5e89a1999002aa3549c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 091/107] fix: read the rest of a key after trust packets

---
 pgp/transferrable_keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 3737422..d1c9339 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -987,9 +987,10 @@ class TransferablePublicKey(BasePublicKey):
 
     @classmethod
     def from_packets(cls, packets):
-        # TODO: HANDLE TRUST PACKETS
         packets = list(packets)
         validate_transferrable_key(packets, cls._secret)
+        # Trust packets are local to a keyring and not part of the key.
+        packets = [p for p in packets if p.type != C.TRUST_PACKET_TYPE]
         i = 0
         primary_public_key = cls.from_packet(packets[i])
         primary_public_key_signatures = []
-- 
2.43.0


From c0246ed630ab9efa56e54146db5be1c66e5ca436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 092/107] fix: create key databases which do not exist yet

---
 pgp/db/gpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3c7bc67..1d9cb8f 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -189,7 +189,7 @@ class BaseResource(object):
     def _maybe_create(self, force):
         if not os.path.exists(self.filename):
             if force:
-                self.create_db(self.filename)
+                self.create_db()
             else:
                 raise RuntimeError(
                     'Database {0} does not exist.'.format(self.filename))
-- 
2.43.0


From 1446f2c229d24c7d24ec76f2aa7685c247a20bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 093/107] fix: leave the keys after an updated or deleted key
 in the keyring

---
 pgp/db/gpg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 1d9cb8f..4ad4dff 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -421,6 +421,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
@@ -455,6 +456,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
-- 
2.43.0


From ac45531552ff964bce5b288ccddc63db82ebc2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 094/107] fix: tell the keys of a keyring apart by their
 fingerprints

---
 pgp/db/gpg.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 4ad4dff..6634e62 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -310,7 +310,8 @@ class Keyring(BaseResource):
         return self._offset_table.keys()
 
     def _update_offset_table(self):
-        offset_table = {}
+        offset_table = OrderedDict()
+        key_ids = {}
         self.lock_db()
         try:
             with open(self.filename, 'rb') as fh:
@@ -323,12 +324,14 @@ class Keyring(BaseResource):
                             constants.PUBLIC_KEY_PACKET_TYPE,
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
-                        offset_table[packet.key_id[-8:]] = last_offset
+                        offset_table[packet.fingerprint] = last_offset
+                        key_ids[packet.fingerprint] = packet.key_id
                     last_offset = fh.tell()
         finally:
             self.unlock_db()
 
         self._offset_table = offset_table
+        self._key_ids = key_ids
 
     def _get_key(self, offset):
         self.lock_db()
@@ -371,7 +374,14 @@ class Keyring(BaseResource):
             self.unlock_db()
 
     def get_transferrable_key(self, fingerprint):
-        offset = self._offset_table[fingerprint[-8:]]
+        if fingerprint not in self._offset_table:
+            # Maybe a key ID - find the fingerprint first.
+            for k in self._offset_table:
+                if self._key_ids[k][-8:] == fingerprint[-8:] and (
+                        self._key_ids[k].endswith(fingerprint)):
+                    fingerprint = k
+                    break
+        offset = self._offset_table[fingerprint]
         return self._get_key(offset)
 
     def add_transferrable_key(self, key):
-- 
2.43.0


From 35d7a7e10e0316aefbc935fb93ce6eb5a22cf772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 095/107] fix: tell the keys of a keyring apart by their
 fingerprints

---
 pgp/db/gpg.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 6634e62..21c50c8 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -377,8 +377,7 @@ class Keyring(BaseResource):
         if fingerprint not in self._offset_table:
             # Maybe a key ID - find the fingerprint first.
             for k in self._offset_table:
-                if self._key_ids[k][-8:] == fingerprint[-8:] and (
-                        self._key_ids[k].endswith(fingerprint)):
+                if fingerprint and self._key_ids[k].endswith(fingerprint):
                     fingerprint = k
                     break
         offset = self._offset_table[fingerprint]
@@ -411,10 +410,10 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
+        if key.fingerprint not in self._offset_table:
             raise KeyError
 
-        offset = self._offset_table[key.fingerprint[-8:]]
+        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
             data = b''
@@ -446,10 +445,10 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
+        if key.fingerprint not in self._offset_table:
             raise KeyError
 
-        offset = self._offset_table[key.fingerprint[-8:]]
+        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
             data = b''
-- 
2.43.0


From 51f72726e16963a9a019378da92d96e5dad1f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 096/107] fix: open keyrings named by resource prefixes, and
 empty ones

---
 pgp/db/gpg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 21c50c8..cefde9e 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -39,8 +39,8 @@ from pgp.transferrable_keys import TransferableSecretKey
 
 
 GDBM_MAGIC = (
-    b'\x13\x57\x9a\xce'
-    b'\xce\x9a\x57\x13'
+    b'\x13\x57\x9a\xce',
+    b'\xce\x9a\x57\x13',
 )
 
 
@@ -482,10 +482,10 @@ def get_resource(filename, force=False, secret=False, read_only=False,
     type_ = ResourceTypes.NONE
     if filename.startswith('gnupg-keyring:'):
         type_ = ResourceTypes.KEYRING
-        filename = filename[12:]
+        filename = filename[len('gnupg-keyring:'):]
     elif filename.startswith('gnupg-kbx:'):
         type_ = ResourceTypes.KEYBOX
-        filename = filename[11:]
+        filename = filename[len('gnupg-kbx:'):]
     filename = os.path.abspath(filename)
 
     if type_ == ResourceTypes.NONE:
-- 
2.43.0


From 73c1c2d40f78929c04b9000072ab6c527a417dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 097/107] fix: store secret keys in secret keyrings

---
 pgp/db/gpg.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index cefde9e..3f37142 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -537,42 +537,45 @@ class GPGDatabase(object):
         return resource
 
     def add_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # Secret keys are public keys too.
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.add_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.add_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def delete_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # Secret keys are public keys too.
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.delete_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.delete_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def update_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # Secret keys are public keys too.
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.update_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.update_transferrable_key(key)
                     break
         else:
-- 
2.43.0


From 33ce5a4997d90f8db0e85750840160a4b16a382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 098/107] fix: remove the lock files of key databases

---
 pgp/db/gpg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3f37142..ed8de6a 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -70,7 +70,7 @@ def _clean_up_locks():
         except:
             pass
         try:
-            os.unlink(l.lock_template_name)
+            os.unlink(l.template_name)
         except:
             pass
 
@@ -102,7 +102,7 @@ class Lock(object):
     def __del__(self):
         try:
             self.release()
-            os.unlink(self.lock_template_name)
+            os.unlink(self.template_name)
         except:
             # TODO: log an error
             pass
-- 
2.43.0


From 579ec3b7c92e4c4983269bab22d0663d7d4cbd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 099/107] fix: recognise GDBM databases of every format

---
 pgp/db/gpg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index ed8de6a..0b6069a 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -39,8 +39,12 @@ from pgp.transferrable_keys import TransferableSecretKey
 
 
 GDBM_MAGIC = (
+    b'\x13\x57\x9a\xcd',
+    b'\xcd\x9a\x57\x13',
     b'\x13\x57\x9a\xce',
     b'\xce\x9a\x57\x13',
+    b'\x13\x57\x9a\xcf',
+    b'\xcf\x9a\x57\x13',
 )
 
 
-- 
2.43.0


From c743d81af872050298c889e4f8431dd0bb3212d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 100/107] fix: read and change the keys of GDBM databases

---
 pgp/db/gpg.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 0b6069a..947ef12 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -203,23 +203,25 @@ class GDBM(BaseResource):
 
     def __init__(self, *args, **kwargs):
         super(GDBM, self).__init__(*args, **kwargs)
-        first_key = self.firstkey()
+        first_key = next(iter(self.keys()), None)
         if first_key is not None:
-            packet = next(parse_binary_packet_data(self[first_key]))
-            self._preferred_header_format = packet.header_format
+            self._preferred_header_format = \
+                self.get_transferrable_key(first_key).packet_header_type
         else:
             self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
 
     def keys(self):
+        result = []
         self.lock_db()
         try:
             with gdbm.open(self.filename, 'r') as db:
                 key = db.firstkey()
                 while key is not None:
-                    yield key
+                    result.append(key.decode('ascii'))
                     key = db.nextkey(key)
         finally:
             self.unlock_db()
+        return result
 
     def create_db(self):
         self.lock_db()
@@ -239,7 +241,7 @@ class GDBM(BaseResource):
                 )[0]
 
         if fingerprint is None:
-            return None
+            raise KeyError()
 
         self.lock_db()
         try:
@@ -294,8 +296,8 @@ class GDBM(BaseResource):
             with gdbm.open(self.filename, 'w') as db:
                 if key.fingerprint not in db:
                     raise KeyError(key.fingerprint)
-                gdbm.reorganize()
                 del db[key.fingerprint]
+                db.reorganize()
         finally:
             self.unlock_db()
 
-- 
2.43.0


From 224f4ff056b129cfb93646d44f7f5144089bf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:35 +0000
Subject: [PATCH 101/107] fix: iterate over the keys of key databases

---
 pgp/db/gpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 947ef12..2496da1 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -179,7 +179,7 @@ class BaseResource(object):
             yield self.get_transferrable_key(k)
 
     def __iter__(self):
-        return self.keys()
+        return iter(self.keys())
 
     def __contains__(self, fingerprint):
         return fingerprint in self.keys()
-- 
2.43.0


From e1fdd97df367c96b15735aeacddca01f36e42369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 102/107] fix: write packets of types above 15 with new headers

---
 pgp/packets/packets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 2f5202a..46fcd03 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -124,7 +124,9 @@ class Packet(object):
         packet_type = self.type
         tag = 0x80
         result = bytearray()
-        if self.header_format == constants.NEW_PACKET_HEADER_TYPE:
+        if (self.header_format == constants.NEW_PACKET_HEADER_TYPE
+                or packet_type > 15):
+            # Old headers have no room for larger types.
             remaining = data_length
             offset = 0
             tag += 0x40 + packet_type
-- 
2.43.0


From ebd255645b5d856e7c5fd21c9c7ca683f03e0527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:29 +0000
Subject: [PATCH 103/107] fix: write one-pass signature packets in the reverse
 order of the signatures, marking the last

---
 pgp/message.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index eb18d09..7ab2438 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -695,8 +695,10 @@ class SignedMessageWrapper(BaseMessage):
         pkts = []
         op_header_format = header_format
         if self.one_pass:
+            # The signatures bracket the message, only the flag of the last
+            # packet before it is set.
             i = 0
-            for sig in self.signatures:
+            for sig in reversed(self.signatures):
                 i += 1
                 if not header_format:
                     op_header_format = sig.packet_header_type
@@ -708,7 +710,7 @@ class SignedMessageWrapper(BaseMessage):
                         sig.hash_algorithm,
                         sig.public_key_algorithm,
                         sig.issuer_key_ids[0],
-                        nested=(i != len(self.signatures))
+                        nested=(i == len(self.signatures))
                     ))
         else:
             for sig in self.signatures:
-- 
2.43.0


From 0c998295812d86549841207bd5b45e19772cbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:29 +0000
Subject: [PATCH 104/107] fix: armor secret keys as private key blocks

---
 pgp/shortcuts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 5f968f2..f9f1e39 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -74,10 +74,10 @@ def serialize_key(key, armored=False, header_format=None):
         header_format = constants.OLD_PACKET_HEADER_TYPE
     data = b''.join(map(bytes, key.to_packets(header_format)))
     if armored:
-        if isinstance(key, TransferablePublicKey):
-            data_type = armor.PGP_PUBLIC_KEY_BLOCK
-        elif isinstance(key, TransferableSecretKey):
+        if isinstance(key, TransferableSecretKey):
             data_type = armor.PGP_PRIVATE_KEY_BLOCK
+        elif isinstance(key, TransferablePublicKey):
+            data_type = armor.PGP_PUBLIC_KEY_BLOCK
 
         data = str(armor.ASCIIArmor(
                 data_type, data,
-- 
2.43.0


From e6b176fbfce9b53825daf2266812e5e5bcd4c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:37 +0000
Subject: [PATCH 105/107] fix: find no key of a GDBM database by an empty key
 ID

---
 pgp/db/gpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 2496da1..0785716 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -236,7 +236,7 @@ class GDBM(BaseResource):
             # Actually a key ID - find the fingerprint first.
             fingerprint = ([
                 k for k in self.keys()
-                if k.endswith(fingerprint)
+                if fingerprint and k.endswith(fingerprint)
                 ] + [None]
                 )[0]
 
-- 
2.43.0


From 908259bc4b523925122cddfce1d72b2a7454ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:26 +0000
Subject: [PATCH 106/107] fix: write and read unprotected secret keys without a
 passphrase

---
 pgp/packets/packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 46fcd03..1a94180 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -909,6 +909,9 @@ class SecretKeyPacket(PublicKeyPacket):
 
     @staticmethod
     def legacy_key(symmetric_algorithm, passphrase):
+        if symmetric_algorithm == 0:
+            # not encrypted
+            return b''
         # Without a string-to-key specifier the key is the MD5 hash of the
         # passphrase.
         return s2k.SimpleS2K(1, symmetric_algorithm).to_key(passphrase)
-- 
2.43.0


From 6c72e6f01b16853b290ffa130db0e77bbbd4df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:24 +0000
Subject: [PATCH 107/107] fix: write messages which have no session key packet

---
 pgp/message.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index 7ab2438..a89ccf7 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -412,6 +412,10 @@ class DefaultSessionKey(object):
     def set_algorithm_and_session_key(self, *args, **kwargs):
         raise TypeError()
 
+    def to_packet(self, header_format=None):
+        # There is no packet.
+        return None
+
 
 EncryptedSessionKey.register(DefaultSessionKey)
 SymEncAndIPDPacket = \
-- 
2.43.0

