From 2e5a980f05e57605f5ba502f5e59764f62e82b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:08 +0000
Subject: [PATCH 01/49] fix: ChaCha: an empty nonce is refused, not replaced by
 a random one

---
 cipher/chacha_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 7ec1698..5e674bc 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -228,7 +228,7 @@ class ChaCha(object):
 
     def __init__(self, key, counter=0, nonce=None):
         """ Random nonce if not provided. """
-        if not nonce:
+        if nonce is None:
             nonce = urandom(12)
         
         self.initialize( key, counter, nonce )
-- 
2.43.0


From c081f13a97836ae4befb69b710f189e3b7417775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:08 +0000
Subject: [PATCH 02/49] fix: ChaCha: refuse to run the 32 bit block counter
 past its end

---
 cipher/chacha_poly.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 5e674bc..820ed4f 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -177,6 +177,7 @@ class ChaCha(object):
 
         # Word 12 is a block counter.  Since each block is 64-byte, a 32-bit
         # word is enough for 256 gigabytes of data.
+        assert 0 <= block_counter < 2**32
         self.state[12] = block_counter
 
         # Words 13-15 are a nonce, which should not be
@@ -207,6 +208,8 @@ class ChaCha(object):
             blocks += 1
 
         counter = self.state[12]
+        if counter + blocks > 2**32:
+            raise ValueError('ChaCha 32 bit block counter is exhausted')
         encrypted_message = []
 
         for j in range(blocks):
-- 
2.43.0


From 1a3cefb4d166d54bf052bd7d77d49920f354ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:08 +0000
Subject: [PATCH 03/49] fix: ChaCha20_AEAD.decrypt: authenticate the received
 cipher text

---
 cipher/chacha_poly.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 820ed4f..dfff6ae 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -545,19 +545,27 @@ class ChaCha20_AEAD(object):
 
     def encrypt(self, aad, iv, plain_text):
         nonce = self.constant + iv
-        otk = poly1305_key_gen(self.__key, nonce)
         chacha20 = ChaCha(self.__key, counter=1, nonce=nonce)
         cipher_text = chacha20.encrypt( plain_text )
+        return (cipher_text, self._tag(aad, nonce, cipher_text))
+
+    def decrypt(self, aad, iv, cipher_text):
+        """ Returns the plain text and the tag calculated over the
+            received cipher text, to be compared with the received tag.
+        """
+        nonce = self.constant + iv
+        chacha20 = ChaCha(self.__key, counter=1, nonce=nonce)
+        plain_text = chacha20.encrypt( cipher_text )
+        return (plain_text, self._tag(aad, nonce, cipher_text))
+
+    def _tag(self, aad, nonce, cipher_text):
+        """ Poly1305 tag of the aad and the cipher text """
+        otk = poly1305_key_gen(self.__key, nonce)
         mac_data = aad + pad16(aad)
         mac_data += cipher_text + pad16(cipher_text)
         mac_data += num_to_8_le_bytes( len(aad) )
         mac_data += num_to_8_le_bytes( len(cipher_text) )
-        tag = poly1305_mac(mac_data, otk)
-        return (cipher_text, tag)
-    
-    def decrypt(self, aad, iv, cipher_text):
-        """ decrypt is same as encrypt """
-        return self.encrypt(aad, iv, cipher_text)
+        return poly1305_mac(mac_data, otk)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
     """ """
-- 
2.43.0


From d7f1e27d122586ec470403aaee24f486b738ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:08 +0000
Subject: [PATCH 04/49] fix: ChaCha_Poly_AEAD: make encrypt and decrypt work

---
 cipher/chacha_poly.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index dfff6ae..a757f3c 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -570,14 +570,21 @@ class ChaCha20_AEAD(object):
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
     """ """
     def encrypt(self, aad, iv, plain_text):
-        cipher_text, tag = super().encrypt(aad, iv, plain_text)
+        cipher_text, tag = super(ChaCha_Poly_AEAD, self).encrypt(aad, iv, plain_text)
         return iv + cipher_text + tag
-    
+
     def decrypt(self, aad, iv_cipher_text_tag):
-        iv = iv_cipher_text_tag[0:]
+        iv_length = 12 - len(self.constant)
+        tag_length = 16
+        if len(iv_cipher_text_tag) < iv_length + tag_length:
+            raise ValueError('AEAD Integrity Check Error')
+        iv = iv_cipher_text_tag[:iv_length]
+        cipher_text = iv_cipher_text_tag[iv_length:-tag_length]
         tag = iv_cipher_text_tag[-tag_length:]
-        plain_text, calculated_tag = super().encrypt(aad, iv, plain_text)
-        assert tag == calculated_tag
+        plain_text, calculated_tag = super(ChaCha_Poly_AEAD, self).decrypt(aad, iv, cipher_text)
+        if tag != calculated_tag:
+            raise ValueError('AEAD Integrity Check Error')
+        return plain_text
 
 
     """
-- 
2.43.0


From 46a149616fd739a64a122597f1756037103be18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:08 +0000
Subject: [PATCH 05/49] fix: aes_cmac: subkeys with leading zero octets are 16
 octets long

---
 cipher/aes_cmac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cipher/aes_cmac.py b/cipher/aes_cmac.py
index 55b1610..99e0817 100644
--- a/cipher/aes_cmac.py
+++ b/cipher/aes_cmac.py
@@ -54,8 +54,8 @@ def subkey(key, CIPH=AES):
     else:      # xor only if high bit set
         k2 = ((k1<<1) & 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF) ^ 0x87 
 
-    k1 = int_to_string(k1)
-    k2 = int_to_string(k2)
+    k1 = int_to_string(k1, padto=block_size)
+    k2 = int_to_string(k2, padto=block_size)
     return k1, k2
 
 def pad(octet_string, block_size=16):
-- 
2.43.0


From c41ddcbdb00e1f38b4bb1ea85c37f48bc053a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:08 +0000
Subject: [PATCH 06/49] fix: aes_siv: raise an exception, not a string, on
 integrity errors

---
 cipher/aes_siv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/aes_siv.py b/cipher/aes_siv.py
index e9d1775..358d5c4 100755
--- a/cipher/aes_siv.py
+++ b/cipher/aes_siv.py
@@ -94,7 +94,7 @@ def siv_decrypt(key, encrypted_string, ad_list):
     if t == iv:
         return pt
     else:
-        raise 'SIV Integrity Check Error'
+        raise ValueError('SIV Integrity Check Error')
 
 class AES_SIV(object):
     """ An object wrapper for AES-SIV """
-- 
2.43.0


From 8ed74075c7fe640c7b63e70b47372bf6e6bb7f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:08 +0000
Subject: [PATCH 07/49] fix: encoding: b27, b85 and b94 decode honour padto

---
 cipher/encoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cipher/encoding.py b/cipher/encoding.py
index 01e50a8..a580f3a 100644
--- a/cipher/encoding.py
+++ b/cipher/encoding.py
@@ -68,7 +68,7 @@ def b27encode(octet_string):
     
 def b27decode(text_string, padto=None):
     """Decode a text string 's' using 27 characters. """
-    return base_N_decode(text_string, _b27chars )
+    return base_N_decode(text_string, _b27chars, padto )
 
 _b85chars = "0123456789" \
             "ABCDEFGHIJKLMNOPQRSTUVWXYZ" \
@@ -85,7 +85,7 @@ def b85encode(octet_string):
 
 def b85decode(text_string, padto=None):
     """Decode a text string 's' using 85 character alphabet. """
-    return base_N_decode(text_string, _b85chars )
+    return base_N_decode(text_string, _b85chars, padto )
     
 ascii_printable = ''.join( [chr(i) for i in range(33,127)] )    
 def b94encode(octet_string):
@@ -94,7 +94,7 @@ def b94encode(octet_string):
 
 def b94decode(text_string, padto=None):
     """Decode a text string using all ASCII non-space printable characters. """
-    return base_N_decode(text_string, ascii_printable )    
+    return base_N_decode(text_string, ascii_printable, padto )    
     
 if __name__ == '__main__':
     """ Examples of text encodings for 128 bit and 48 bits (USID and SID)
-- 
2.43.0


From bd343564e07b1874fb9eb2c2838384ca2fe959a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:32 +0000
Subject: [PATCH 08/49] fix: hmac: zero pad the hash of an over-long key to the
 block size

---
 hash/hmac.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/hmac.py b/hash/hmac.py
index d13b4ac..1b4832f 100755
--- a/hash/hmac.py
+++ b/hash/hmac.py
@@ -45,9 +45,9 @@ class HMAC(Hash):
     def setKey(self,key):
         """ setKey(key) ... key is binary string """
         if len(key) > self.B:   # if key is too long then hash it
-            key = self.H(key)   # humm... this is odd, hash can be smaller than B
-        else:                   # should raise error on short key, but breaks tests :-(
-            key =key + (self.B-len(key)) * chr(0)
+            key = self.H(key)   # hash can be smaller than B, so it is padded below
+        # should raise error on short key, but breaks tests :-(
+        key =key + (self.B-len(key)) * chr(0)
         self.k_xor_ipad = ''.join([chr(ord(bchar)^0x36) for bchar in key])
         self.k_xor_opad = ''.join([chr(ord(bchar)^0x5C) for bchar in key])
         self.keyed = 1
-- 
2.43.0


From 694aa4bbd728373b44601f56ae7a417520f33052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:32 +0000
Subject: [PATCH 09/49] fix: pbkdf2: number of blocks is an integer

---
 hash/pbkdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/pbkdf2.py b/hash/pbkdf2.py
index 848d325..4661d41 100755
--- a/hash/pbkdf2.py
+++ b/hash/pbkdf2.py
@@ -22,7 +22,7 @@ def pbkdf2(password, salt, iterations, keySize, PRF=HMAC_SHA1):
 		raise 'keySize too long for PBKDF2'
 
 	prf = PRF(key=password)  # HMAC_SHA1
-	numBlocks = ceil(1.*keySize/prf.digest_size) # ceiling function
+	numBlocks = int(ceil(1.*keySize/prf.digest_size)) # ceiling function
 	key = ''
 	for block in range(1,numBlocks+1):
 		# Calculate F(P, salt, iterations, i)
-- 
2.43.0


From 3686391f208cd80a3a3b4b1191637b0584c88c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:33 +0000
Subject: [PATCH 10/49] fix: prf_dot11: import the standard hmac module, not
 its sibling

---
 hash/prf_dot11.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/prf_dot11.py b/hash/prf_dot11.py
index c5c5c66..99dabb2 100755
--- a/hash/prf_dot11.py
+++ b/hash/prf_dot11.py
@@ -7,6 +7,7 @@ The parameter 'prefix' is a string that shall be a unique label for each
 different purpose of the PRF.
 """
 
+from __future__ import absolute_import  # the standard hmac, not hash/hmac.py
 import hmac, sha        # available in any Python 2.x
 
 def PRF( key, prefix, data, number_of_bits):
-- 
2.43.0


From 5db7e8ecbe66bfc44cde94684f03ae09565ef197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:33 +0000
Subject: [PATCH 11/49] fix: tkip_key_mixing: WEP seed starts with TSC1 then
 TSC0

---
 hash/tkip_key_mixing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index 3a748b1..fa9b168 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -122,9 +122,9 @@ def phase2KeyMixing(tk,p1k,pn):
     ppk[5] = (ppk[5] + rotR1(ppk[4])) & 0xFFFF
 
     rc4Key = range(16)
-    rc4Key[0] =  pn[0]
-    rc4Key[1] = (pn[0] | 0x20) & 0x7F
-    rc4Key[2] =  pn[1]
+    rc4Key[0] =  pn[1]
+    rc4Key[1] = (pn[1] | 0x20) & 0x7F
+    rc4Key[2] =  pn[0]
     rc4Key[3] = 0xFF &((ppk[5]^(tk[1]*256+tk[0]))>>1)
     for i in range(6):
         rc4Key[4+2*i] = ppk[i] & 0xff
-- 
2.43.0


From 625bb9160e62ec45c3eb118751abd039575dbb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:33 +0000
Subject: [PATCH 12/49] fix: TKIP_Mixer: setKey and setTA record which TSC
 phase 1 was run for

---
 hash/tkip_key_mixing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index fa9b168..4f57933 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -56,6 +56,7 @@ class TKIP_Mixer:
         # for readability of subroutines, make tk a list of 1 octet ints
         self.tk = [ord(byte) for byte in key]
         if self.ta != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn)
 
     def setTA(self, taBytes):
@@ -63,6 +64,7 @@ class TKIP_Mixer:
         if len(taBytes) != 6: raise 'Bad size for transmitterAddress'
         self.ta = [ord(byte) for byte in taBytes]
         if self.tk != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn )
 
     def setPnBytes(self, pnBytes):
-- 
2.43.0


From e07b68b105b2ceba5c5fb507f8091b6e6a629255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:02 +0000
Subject: [PATCH 13/49] fix: hmac: re-keying with an over-long key hashes that
 key alone

---
 hash/hmac.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/hmac.py b/hash/hmac.py
index 1b4832f..42dc918 100755
--- a/hash/hmac.py
+++ b/hash/hmac.py
@@ -45,6 +45,7 @@ class HMAC(Hash):
     def setKey(self,key):
         """ setKey(key) ... key is binary string """
         if len(key) > self.B:   # if key is too long then hash it
+            self.H.reset()      # discard what an earlier key left in H
             key = self.H(key)   # hash can be smaller than B, so it is padded below
         # should raise error on short key, but breaks tests :-(
         key =key + (self.B-len(key)) * chr(0)
-- 
2.43.0


From e87cd49750446fd6bbb867fc4d37d4754369e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:02 +0000
Subject: [PATCH 14/49] fix: galoisfield: is_element uses the field's prime and
 accepts zero

---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 9abfa2a..fec6c0b 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -26,7 +26,7 @@ class GFp:
         return Element_of_GFp(self, value)
         
     def is_element(self, x):
-        return (p > x > 0)
+        return (self.p > x >= 0)
         
     def inverse(self, x):
         return inverse_mod(x, self.p)
-- 
2.43.0


From 7387c2049488ffbdc50874767f11c525b406448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:02 +0000
Subject: [PATCH 15/49] fix: galoisfield: inverses of negative integers and in
 large fields

---
 fmath/galoisfield.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index fec6c0b..8d7260c 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -86,14 +86,15 @@ class Element_of_GFp:
          
 
 def egcd(a, b):
-    if a == 0:
-        return (b, 0, 1)
-    else:
-        g, y, x = egcd(b % a, a)
-        return (g, x - (b // a) * y, y)
+    """ returns (g, x, y) with  a*x + b*y == g == gcd(a,b) """
+    x, y, u, v = 0, 1, 1, 0
+    while a != 0:
+        q, r = b // a, b % a
+        b, a, x, y, u, v = a, r, u, v, x - u*q, y - v*q
+    return (b, x, y)
 
 def inverse_mod(a, m):
-    g, x, y = egcd(a, m)
+    g, x, y = egcd(a % m, m)
     if g != 1:
         raise Exception('modular inverse does not exist')
     else:
-- 
2.43.0


From e4ed375c854d74cea41782d716f4d40a7b4e01fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:02 +0000
Subject: [PATCH 16/49] fix: galoisfield: exponentiation is modular, '**' works
 as documented

---
 fmath/galoisfield.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 8d7260c..063d4a1 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -67,10 +67,15 @@ class Element_of_GFp:
         return self.gf(int(other) * self.gf.inverse(self.value))
     
     def __xor__(self, other):
-        return self.gf(self.value ** int(other))
-    
+        base = self.value; exponent = int(other)
+        if exponent < 0:
+            base = self.gf.inverse(base); exponent = -exponent
+        return self.gf(pow(base, exponent, self.gf.p))
+
+    __pow__ = __xor__
+
     def __rxor__(self, other):
-        return self.gf(int(other) ** self.value)
+        return self.gf(other) ^ self.value
     
     def __cmp__(self, other):
         if self.value == int(other) :
-- 
2.43.0


From d2adb456522f1244b78e49629c25b26a1ae9da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:02 +0000
Subject: [PATCH 17/49] fix: polynomial_reduce_mod: leave the caller's
 polynomial unchanged

---
 ecc/numbertheory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 3b9fc68..bd5726a 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -55,6 +55,7 @@ def polynomial_reduce_mod( poly, polymod, p ):
     
     assert len( polymod ) > 1
     
+    poly = list( poly )   # the caller's list is left as it was
     while len( poly ) >= len( polymod ):
         if poly[-1] != 0:
             for i in range( 2, len( polymod ) + 1 ):
-- 
2.43.0


From accf617c924a82e8a8563d557f2de2c567461c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:02 +0000
Subject: [PATCH 18/49] fix: order_mod: reduce x first, so x >= m and negative
 x terminate

---
 ecc/numbertheory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index bd5726a..71b56b5 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -447,6 +447,7 @@ def order_mod( x, m ):
     
     assert gcd( x, m ) == 1
     
+    x = x % m
     z = x
     result = 1
     while z != 1:
-- 
2.43.0


From 893342bf9f7d6b3c17f88497db26b431889d20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 19/49] fix: ecc.int_to_string: honour padto for zero

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index e51ac1a..bc902dc 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -309,8 +309,8 @@ def int_to_string( x, padto=None ):
         If 'padto' defined, result is zero padded to this length.
     """
     assert x >= 0
-    if x == 0: return chr(0)
     result = ""
+    if x == 0: result = chr(0)
     while x > 0:
         q, r = divmod( x, 256 )
         result = chr( r ) + result
-- 
2.43.0


From f73accaa5e00085fbd20829cca32d8b04f9a4f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 20/49] fix: Point encodings: reachable int_to_string, fixed
 length coordinates

---
 ecc/ecc.py           | 27 +--------------------------
 ecc/ellipticcurve.py | 28 +++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index bc902dc..4927c72 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -21,7 +21,7 @@
 
     Copyright Paul A. Lambert 2017
 """
-from ellipticcurve import EllipticCurveFp
+from ellipticcurve import EllipticCurveFp, int_to_string, string_to_int
 from numbertheory import square_root_mod_prime
 from os import urandom
 
@@ -303,28 +303,3 @@ def cswap(x2, x3, bit):
     x2 = x2 - dummy
     x3 = x3 + dummy
     return (x2, x3)
-
-def int_to_string( x, padto=None ):
-    """ Convert integer x into a string of bytes, as per X9.62.
-        If 'padto' defined, result is zero padded to this length.
-    """
-    assert x >= 0
-    result = ""
-    if x == 0: result = chr(0)
-    while x > 0:
-        q, r = divmod( x, 256 )
-        result = chr( r ) + result
-        x = q
-    if padto:
-        padlen = padto - len(result)
-        assert padlen >= 0
-        result = padlen*chr(0) + result
-    return result
-
-def string_to_int( octet_string ):
-    """ Convert a string of bytes into an integer, as per X9.62. """
-    long_int = 0L
-    for c in octet_string:
-        long_int = 256 * long_int + ord( c )
-    return long_int
-
diff --git a/ecc/ellipticcurve.py b/ecc/ellipticcurve.py
index eb6d2fc..aba6384 100755
--- a/ecc/ellipticcurve.py
+++ b/ecc/ellipticcurve.py
@@ -105,12 +105,11 @@ class Point(object):
 
     def toOctets(self):
         """ Encode point as x coordinate """
-        return int_to_string(self.x)
+        return int_to_string(self.x, padto=self.curve.coord_size)
 
     def to_octetstring(self): # Used???
         """ Encode point as x and y octetstring """
-        octetstring = int_to_string(self.x) + int_to_string(self.y)
-        return octetstring
+        return self.encode()
 
     def from_octetstring(self,octetstring):
         """
@@ -123,3 +122,26 @@ class Point(object):
         return "(%d,%d)" % ( self.x, self.y )
 
 
+def int_to_string( x, padto=None ):
+    """ Convert integer x into a string of bytes, as per X9.62.
+        If 'padto' defined, result is zero padded to this length.
+    """
+    assert x >= 0
+    result = ""
+    if x == 0: result = chr(0)
+    while x > 0:
+        q, r = divmod( x, 256 )
+        result = chr( r ) + result
+        x = q
+    if padto:
+        padlen = padto - len(result)
+        assert padlen >= 0
+        result = padlen*chr(0) + result
+    return result
+
+def string_to_int( octet_string ):
+    """ Convert a string of bytes into an integer, as per X9.62. """
+    long_int = 0L
+    for c in octet_string:
+        long_int = 256 * long_int + ord( c )
+    return long_int
-- 
2.43.0


From 46a614eb06e391399d777aef886e6ef69f47b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 21/49] fix: points have coordinates in GF(p), so equal points
 compare equal

---
 ecc/ellipticcurve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecc/ellipticcurve.py b/ecc/ellipticcurve.py
index aba6384..a6dcbf4 100755
--- a/ecc/ellipticcurve.py
+++ b/ecc/ellipticcurve.py
@@ -48,6 +48,12 @@ class EllipticCurveFp(EllipticCurve):
         self.coord_size = size # in bytes
         self.IDENTITY = self.identity() # defined in subclass
 
+    def point(self, x, y, validate=True):
+        """ Factory method to make points, coordinates are reduced mod p """
+        if x is not None: x = x % self.p
+        if y is not None: y = y % self.p
+        return EllipticCurve.point(self, x, y, validate=validate)
+
     def inverse(self, a):
         """ scalar inversion in Fp, overload for 'p' specific optimizations """
         # this is a generic inverse_mod 7 times faster
-- 
2.43.0


From 2d4bf33390a161c494f81ab2d2ec3989a8c7da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 22/49] fix: Weierstrass curves: negate and double the identity
 and order 2 points

---
 ecc/ecc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 4927c72..9ea65cb 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -62,6 +62,8 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
 
     def negate(curve, point):
         """ Negate a point """
+        if point == curve.IDENTITY:
+            return point
         return curve.point( point.x, -point.y )
 
     def double_point(curve, point):
@@ -69,6 +71,8 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         p = curve.p; a = curve.a; inv = curve.inverse
         x = point.x; y = point.y
 
+        if point == curve.IDENTITY or y == 0:   # y == 0 is a point of order 2
+            return curve.IDENTITY
         l = ( (3*x*x + a) * inv(2*y) ) % p
         x3 = (l*l - 2*x) % p
         y3 = (l * (x - x3) - y) % p
-- 
2.43.0


From e273afdf250c73368c5a51cee2dcaed5a6e105c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 23/49] fix: Weierstrass scalar_multiple: no reduction mod n,
 the point may have another order

---
 ecc/ecc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 9ea65cb..52e1b86 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -88,11 +88,12 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
             return result / 2
 
         e = scalar
-        e = e % point.curve.n
         if e == 0:
             return INFINITY
         if point == INFINITY:
             return INFINITY
+        if e < 0:
+            return curve.scalar_multiple(-point, -e)
         assert e > 0
 
         e3 = 3 * e
-- 
2.43.0


From 141b3ac651634c2089f6293a4041871d51b25c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 24/49] fix: new_private_key: uniform in the range 1 to n-1

---
 ecc/ecc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 52e1b86..466f968 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -128,7 +128,8 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         return y
 
     def new_private_key(self):
-        return string_to_int( urandom(self.coord_size) )
+        # 8 more octets than needed make the bias of the reduction negligible
+        return 1 + string_to_int( urandom(self.coord_size + 8) ) % (self.n - 1)
 
 
 class KoblitzCurveFp( SmallWeierstrassCurveFp ):
-- 
2.43.0


From b2f16e3e9547c66e7c1fa7972931495e26587f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 25/49] fix: TwistedEdwardsCurveFp.on_curve: the curve equation

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 466f968..8b8cddc 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -149,7 +149,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
         #return  (a*x**2 + y*y - 1 - d*x*x*y*y)  % p == 0
         xx = x*x
-        return  (a*xx - 1 + y*(1 - d*xx*y))  % p == 0
+        return  (a*xx - 1 + y*y*(1 - d*xx))  % p == 0
 
     def add_points(curve, p1, p2):
         """ Add two points on the curve """
-- 
2.43.0


From 263e82ed76eca722a41599eeada25d3986d1da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 26/49] fix: TwistedEdwardsCurveFp.identity is (0,1)

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 8b8cddc..26db91e 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -188,7 +188,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def identity(curve):
         """ The additive identity """
-        return curve.point(0,-1)
+        return curve.point(0, 1)
 
 class EdwardsCurveFp( TwistedEdwardsCurveFp ):
     """ An Edwards curve is a Twisted Edwards curve with a = 1
-- 
2.43.0


From a4af9b67edfbf5589e4c45b8ee8ab690b20bec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 27/49] fix: TwistedEdwardsCurveFp.scalar_multiple: any integer
 scalar

---
 ecc/ecc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 26db91e..11db9fa 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -178,12 +178,13 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
         return curve.point(x2, y2)
 
     def scalar_multiple(curve, point, scalar):
-        if scalar == 0:
-            return curve.IDENTITY
-        q = curve.scalarmult(point, scalar/2)
-        q = q + q
-        if scalar & 1:
-            q = q + point
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
+        q = curve.IDENTITY
+        for bit in bin(scalar)[2:]:
+            q = q + q
+            if bit == '1':
+                q = q + point
         return q
 
     def identity(curve):
-- 
2.43.0


From 6361934d5e42e0b26d303467a563c293fb522c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 28/49] fix: MontgomeryCurveFp: the group law, with the point
 at infinity as identity

---
 ecc/ecc.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 11db9fa..9691a23 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -205,6 +205,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
     """
     def on_curve(curve, g):
         """ Is the point 'g' on the curve? """
+        if g == curve.IDENTITY: # point at infinity
+            return True
         x = g.x; y = g.y; a = curve.a; p = curve.p; x_sqrd = x*x
 
         return (y*y) % p == (x*x_sqrd + a*x_sqrd + x) % p
@@ -220,11 +222,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         a = curve.a; p = curve.p; inv = curve.inverse
 
         if x1 == x2:
-            if y1 == y2:
-                return p1.double()
+            if (y1 + y2) % p == 0:
+                return curve.IDENTITY
             else:
-                assert y1 + y2 == 0
-                return p1
+                return p1.double()
         l = (y2-y1)*inv(x2-x1)
         x3 = l**2 - a - x1 - x2
         y3 = l*(x1 - x3) - y1
@@ -232,7 +233,9 @@ class MontgomeryCurveFp( EllipticCurveFp ):
 
     def negate(curve, p1):
         """ Negate a point """
-        return curve.point(-p1.x % p, p1.y)
+        if p1 == curve.IDENTITY:
+            return p1
+        return curve.point(p1.x, -p1.y)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old
@@ -240,6 +243,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         x1 = point.x; y1 = point.y; a = curve.a; inv = curve.inverse
         p = curve.p
 
+        if point == curve.IDENTITY or y1 == 0:  # y1 == 0 is a point of order 2
+            return curve.IDENTITY
         l = (3*x1*x1 + 2*a*x1 + 1)*inv(2*y1)
         x3 = l*l - a - 2*x1
         y3 = l*(x1 - x3) - y1
@@ -255,8 +260,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         return q
 
     def identity(curve):
-        """ The additive identity """
-        return curve.point(0,-1)
+        """ The additive identity. Special values for 'infinity'
+            as for Small Weierstrass curves.
+        """
+        return curve.point(None, None, validate=False)
 
     def montgomery_ladder(curve, scalar, point):
         """ Scalar multiplication on a Montgomery curve
-- 
2.43.0


From 32d04ecb4bb6cbc68b0bdbfa374d99ffe0cae193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 29/49] fix: MontgomeryCurveFp.scalar_multiple: any integer
 scalar

---
 ecc/ecc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 9691a23..507c4a8 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -251,12 +251,13 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         return curve.point(x3 % p, y3 % p)
 
     def scalar_multiple(curve, point, scalar):
-        if scalar == 0:
-            return curve.IDENTITY
-        q = curve.scalar_multiple(point, scalar/2)
-        q = q + q
-        if scalar & 1:
-            q = q + point
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
+        q = curve.IDENTITY
+        for bit in bin(scalar)[2:]:
+            q = q + q
+            if bit == '1':
+                q = q + point
         return q
 
     def identity(curve):
-- 
2.43.0


From 00acd9e318d346995876dc3f92c994d5aced47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 30/49] fix: montgomery_ladder: reduce mod p and use every bit
 of the scalar

---
 ecc/ecc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 507c4a8..62448d7 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -272,15 +272,16 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         x1 = point.x; a = curve.a; p = curve.p
 
         x2,z2,x3,z3 = 1, 0, point.x, 1
-        for i in reversed(range(255)):
+        scalar = abs(scalar)    # x(-k*P) == x(k*P)
+        for i in reversed(range(scalar.bit_length())):
             bit = 1 & (scalar >> i)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-            x3, z3 = ((x2*x3 - z2*z3)**2,  x1*(x2*z3 - z2*x3)**2)
-            x2, z2 = ((x2**2 - z2**2)**2,  4*x2*z2*(x2**2 + a*x2*z2+z2**2))
+            x3, z3 = ((x2*x3 - z2*z3)**2 % p,  x1*(x2*z3 - z2*x3)**2 % p)
+            x2, z2 = ((x2**2 - z2**2)**2 % p,  4*x2*z2*(x2**2 + a*x2*z2+z2**2) % p)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-        return ( x2*z2**(p-2) ) % p
+        return ( x2*pow(z2, p-2, p) ) % p
 
     def montgomery_ladder2(curve, scalar, point):
         """
-- 
2.43.0


From 825c9215a225684fdc1884ff3683375139d235a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:36 +0000
Subject: [PATCH 31/49] fix: montgomery_ladder2: initial state, reduction mod
 p, a24 and final inversion

---
 ecc/ecc.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 62448d7..10a8722 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -289,10 +289,11 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             methods of factorization", page 261, fifth and sixth displays,
             plus common-subexpression elimination, plus assumption Z1=1.
         """
-        x1 = point.x; a = curve.a; p = curve.p
-        a24 = (a - 2) / 4
-        x_2, z_2, x_3, z_3 = 0, 1, x_1, 1
-        for t in reversed(range(255)):
+        x_1 = point.x; a = curve.a; p = curve.p
+        a24 = (a - 2) * curve.inverse(4) % p
+        x_2, z_2, x_3, z_3 = 1, 0, x_1, 1
+        scalar = abs(scalar)    # x(-k*P) == x(k*P)
+        for t in reversed(range(scalar.bit_length())):
             s_t = 1 & (scalar >> t)
             (x_2, x_3) = cswap(x_2, x_3, s_t)
             (z_2, z_3) = cswap(z_2, z_3, s_t)
@@ -305,13 +306,13 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             D = x_3 - z_3
             DA = D * A
             CB = C * B
-            x_3 = (DA + CB)**2
-            z_3 = x_1 * (DA - CB)**2
-            x_2 = AA * BB
-            z_2 = E * (AA + a24 * E)   #BB?
+            x_3 = (DA + CB)**2 % p
+            z_3 = x_1 * (DA - CB)**2 % p
+            x_2 = AA * BB % p
+            z_2 = E * (AA + a24 * E) % p
             (x_2, x_3) = cswap (x_2, x_3, s_t)
             (z_2, z_3) = cswap (z_2, z_3, s_t)
-        return (x_2 * (z_2**(p - 1))) % p
+        return (x_2 * pow(z_2, p - 2, p)) % p
 
 def cswap(x2, x3, bit):
     """ Swap routine used by Montgomery Ladder """
-- 
2.43.0


From 5379e513ef6f9fe5796b827c41e1da4560c723be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 32/49] fix: curves: the curveId of SECP_521r1 is secp521r1

---
 ecc/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index f5b4746..abb4371 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -405,7 +405,7 @@ class NIST_P384(SECP_384r1): # NIST renamed secp384r1
   
 class SECP_521r1( SmallWeierstrassCurveFp ):
     """ Suite B curve for 256 bit security """
-    curveId = 'secp256r1'
+    curveId = 'secp521r1'
     strength = 256
     oid = (1,3,132,0,35)  # {iso(1) identified-organization(3) certicom(132) curve(0) 35}
     # p = 2**251 - 1   #  a Mersenne prime
-- 
2.43.0


From f94b1ba64ec3fa1ebdf71f63c12eebced4a5e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 33/49] fix: curves: Brainpool object identifiers are below
 1.3.36.3.3.2.8.1.1

---
 ecc/curves.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index abb4371..e951705 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -434,7 +434,7 @@ class NIST_P521(SECP_521r1):
 class BrainPoolP160r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP160r1'
     strength = 80
-    oid = (1,3,36,3,2,8,1,1,1)
+    oid = (1,3,36,3,3,2,8,1,1,1)
     p  = 0xE95E4A5F737059DC60DFC7AD95B3D8139515620F
     a  = 0x340E7BE2A280EB74E2BE61BADA745D97E8F7C300
     b  = 0x1E589A8595423412134FAA2DBDEC95C8D8675E58
@@ -450,7 +450,7 @@ class BrainPoolP160r1( SmallWeierstrassCurveFp ):
 class BrainPoolP160t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP160t1'    # Twisted version of brainpoolP160r1
     strength = 80
-    oid = (1,3,36,3,2,8,1,1,2)
+    oid = (1,3,36,3,3,2,8,1,1,2)
     p  = 0xE95E4A5F737059DC60DFC7AD95B3D8139515620F
     a  = p - 3 # for twistd version of brainpoolP160r1 Brainpool curve
     b  = 0x7A556B6DAE535B7B51ED2C4D7DAA7A0B5C55F380
@@ -467,7 +467,7 @@ class BrainPoolP160t1( SmallWeierstrassCurveFp ):
 class BrainPoolP192r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP192r1'
     strength = 96
-    oid = (1,3,36,3,2,8,1,1,3)
+    oid = (1,3,36,3,3,2,8,1,1,3)
     p  = 0xC302F41D932A36CDA7A3463093D18DB78FCE476DE1A86297
     a  = 0x6A91174076B1E0E19C39C031FE8685C1CAE040E5C69A28EF
     b  = 0x469A28EF7C28CCA3DC721D044F4496BCCA7EF4146FBF25C9
@@ -483,7 +483,7 @@ class BrainPoolP192r1( SmallWeierstrassCurveFp ):
 class BrainPoolP192t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP192t1'    # Twisted version of brainpoolP192r1
     strength = 96
-    oid = (1,3,36,3,2,8,1,1,4)
+    oid = (1,3,36,3,3,2,8,1,1,4)
     p  = 0xC302F41D932A36CDA7A3463093D18DB78FCE476DE1A86297
     a  = p - 3 # twisted version of brainpoolP192r1 so a = p-3
     b  = 0x13D56FFAEC78681E68F9DEB43B35BEC2FB68542E27897B79
@@ -498,7 +498,7 @@ class BrainPoolP192t1( SmallWeierstrassCurveFp ):
 class BrainPoolP224r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP224r1'
     strength = 112
-    oid = (1,3,36,3,2,8,1,1,5)
+    oid = (1,3,36,3,3,2,8,1,1,5)
     p  = 0xD7C134AA264366862A18302575D1D787B09F075797DA89F57EC8C0FF
     a  = 0x68A5E62CA9CE6C1C299803A6C1530B514E182AD8B0042A59CAD29F43
     b  = 0x2580F63CCFE44138870713B1A92369E33E2135D266DBB372386C400B
@@ -514,7 +514,7 @@ class BrainPoolP224r1( SmallWeierstrassCurveFp ):
 class BrainPoolP224t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP224t1'    # Twisted version of brainpoolP224r1
     strength = 112
-    oid = (1,3,36,3,2,8,1,1,6)
+    oid = (1,3,36,3,3,2,8,1,1,6)
     p  = 0xD7C134AA264366862A18302575D1D787B09F075797DA89F57EC8C0FF
     a  = p - 3 # twisted version of brainpoolP224r1 so a = p-3
     b  = 0x4B337D934104CD7BEF271BF60CED1ED20DA14C08B3BB64F18A60888D
@@ -529,7 +529,7 @@ class BrainPoolP224t1( SmallWeierstrassCurveFp ):
 class BrainPoolP256r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP256r1'
     strength = 128
-    oid = (1,3,36,3,2,8,1,1,7)
+    oid = (1,3,36,3,3,2,8,1,1,7)
     p  = 0xA9FB57DBA1EEA9BC3E660A909D838D726E3BF623D52620282013481D1F6E5377
     a  = 0x7D5A0975FC2C3057EEF67530417AFFE7FB8055C126DC5C6CE94A4B44F330B5D9
     b  = 0x26DC5C6CE94A4B44F330B5D9BBD77CBF958416295CF7E1CE6BCCDC18FF8C07B6
@@ -545,7 +545,7 @@ class BrainPoolP256r1( SmallWeierstrassCurveFp ):
 class BrainPoolP256t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP256t1'    # Twisted 
     strength = 128
-    oid = (1,3,36,3,2,8,1,1,8)
+    oid = (1,3,36,3,3,2,8,1,1,8)
     p  = 0xA9FB57DBA1EEA9BC3E660A909D838D726E3BF623D52620282013481D1F6E5377
     a  = p - 3  # twisted version of brainpoolP256r1 so that a = p-3
     b  = 0x662C61C430D84EA4FE66A7733D0B76B7BF93EBC4AF2F49256AE58101FEE92B04
@@ -558,7 +558,7 @@ class BrainPoolP256t1( SmallWeierstrassCurveFp ):
 class BrainPoolP320r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP320r1'
     strength = 160
-    oid = (1,3,36,3,2,8,1,1,9)
+    oid = (1,3,36,3,3,2,8,1,1,9)
     p  = 0xD35E472036BC4FB7E13C785ED201E065F98FCFA6F6F40DEF4F92B9EC7893EC28FCD412B1F1B32E27
     a  = 0x3EE30B568FBAB0F883CCEBD46D3F3BB8A2A73513F5EB79DA66190EB085FFA9F492F375A97D860EB4
     b  = 0x520883949DFDBC42D3AD198640688A6FE13F41349554B49ACC31DCCD884539816F5EB4AC8FB1F1A6
@@ -574,7 +574,7 @@ class BrainPoolP320r1( SmallWeierstrassCurveFp ):
 class BrainPoolP320t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP320t1'    # 't' for Twisted 
     strength = 160
-    oid = (1,3,36,3,2,8,1,1,10)
+    oid = (1,3,36,3,3,2,8,1,1,10)
     p  = 0xD35E472036BC4FB7E13C785ED201E065F98FCFA6F6F40DEF4F92B9EC7893EC28FCD412B1F1B32E27
     a  = p - 3  # twisted version of brainpoolP320r1 so that a = p-3
     b  = 0xA7F561E038EB1ED560B3D147DB782013064C19F27ED27C6780AAF77FB8A547CEB5B4FEF422340353
@@ -589,7 +589,7 @@ class BrainPoolP320t1( SmallWeierstrassCurveFp ):
 class BrainPoolP384r1( SmallWeierstrassCurveFp ):  
     curveId = 'brainpoolP384r1'
     strength = 192
-    oid = (1,3,36,3,2,8,1,1,11)
+    oid = (1,3,36,3,3,2,8,1,1,11)
     p  = 0x8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B412B1DA197FB71123ACD3A729901D1A71874700133107EC53
     a  = 0x7BC382C63D8C150C3C72080ACE05AFA0C2BEA28E4FB22787139165EFBA91F90F8AA5814A503AD4EB04A8C7DD22CE2826
     b  = 0x04A8C7DD22CE28268B39B55416F0447C2FB77DE107DCD2A62E880EA53EEB62D57CB4390295DBC9943AB78696FA504C11
@@ -605,7 +605,7 @@ class BrainPoolP384r1( SmallWeierstrassCurveFp ):
 class BrainPoolP384t1( SmallWeierstrassCurveFp ):  
     curveId = 'brainpoolP384t1'    # Twisted 
     strength = 192
-    oid = (1,3,36,3,2,8,1,1,12)
+    oid = (1,3,36,3,3,2,8,1,1,12)
     p  = 0x8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B412B1DA197FB71123ACD3A729901D1A71874700133107EC53
     a  = p - 3  # twisted version of brainpoolP384r1 so that a = p-3
     b  = 0x7F519EADA7BDA81BD826DBA647910F8C4B9346ED8CCDC64E4B1ABD11756DCE1D2074AA263B88805CED70355A33B471EE
@@ -620,7 +620,7 @@ class BrainPoolP384t1( SmallWeierstrassCurveFp ):
 class BrainPoolP512r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP512r1'
     strength = 256
-    oid = (1,3,36,3,2,8,1,1,13)
+    oid = (1,3,36,3,3,2,8,1,1,13)
     p  = 0xAADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA703308717D4D9B009BC66842AECDA12AE6A380E62881FF2F2D82C68528AA6056583A48F3
     a  = 0x7830A3318B603B89E2327145AC234CC594CBDD8D3DF91610A83441CAEA9863BC2DED5D5AA8253AA10A2EF1C98B9AC8B57F1117A72BF2C7B9E7C1AC4D77FC94CA
     b  = 0x3DF91610A83441CAEA9863BC2DED5D5AA8253AA10A2EF1C98B9AC8B57F1117A72BF2C7B9E7C1AC4D77FC94CADC083E67984050B75EBAE5DD2809BD638016F723
@@ -635,7 +635,7 @@ class BrainPoolP512r1( SmallWeierstrassCurveFp ):
 class BrainPoolP512t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP512t1'
     strength = 256
-    oid = (1,3,36,3,2,8,1,1,14)
+    oid = (1,3,36,3,3,2,8,1,1,14)
     p  = 0xAADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA703308717D4D9B009BC66842AECDA12AE6A380E62881FF2F2D82C68528AA6056583A48F3
     a  = p - 3  # twisted version of brainpoolP512r1 so that a = p-3 
     b  = 0x7CBBBCF9441CFAB76E1890E46884EAE321F70C0BCB4981527897504BEC3E36A62BCDFA2304976540F6450085F2DAE145C22553B465763689180EA2571867423E
-- 
2.43.0


From 07271097a59b487e2a5045079333c1d11787ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 34/49] fix: curves: strength of a 512 bit curve is 256

---
 ecc/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index e951705..9688550 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -289,7 +289,7 @@ class GOST2012_test( SmallWeierstrassCurveFp ):
 
 class GOST2012_tc26_A( SmallWeierstrassCurveFp ):
     curveId = 'GOST2012-tc26-A'
-    strength = 512
+    strength = 256
     # { iso(1) member-body(2) ru(643) ...
     oid = (1,2,643,7,1,2,1,2,1)
     p = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7
@@ -303,7 +303,7 @@ class GOST2012_tc26_A( SmallWeierstrassCurveFp ):
 
 class GOST2012_tc26_B( SmallWeierstrassCurveFp ):
     curveId = 'GOST2012-tc26-B'
-    strength = 512
+    strength = 256
     oid = (1,2,643,7,1,2,1,2,2)
     p = 0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006f
     a = 0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006c
-- 
2.43.0


From 329eccc5200ecddae49bcba1a12690caa80db866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 35/49] fix: curves: n of the GOSTmsg05975 curves is the order
 of the generator

---
 ecc/curves.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 9688550..d794dc2 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -335,11 +335,10 @@ class GOSTmsg05975te( TwistedEdwardsCurveFp ):
     a = 1  # was e in msg
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
-    #???
-    n  = 0x40000000000000000000000000000000000000000000000000000000000000003673245b9af954ffb3cc5600aeb8afd33712561858965ed96b9dc310b80fdaf7
+    n  = q      # the order of G,  4*q is the order of the curve
     xG = 0x12
     yG = 0x469AF79D1FB1F5E16B99592B77A01E2A0FDFB0D01794368D9A56117F7B38669522DD4B650CF789EEBF068C5D139732F0905622C04B2BAAE7600303EE73001A3D
-    h = 4  # n = h*q
+    h = 4
     
     # The curve parameters have been generated using random nonce W in such way
     # that a = 1, d = hash(W), where hash() is Russian national standard
@@ -363,6 +362,7 @@ class GOSTmsg05975sw( SmallWeierstrassCurveFp ):
     yG = 0xF5CE40D95B5EB899ABBCCFF5911CB8577939804D6527378B8C108C3D2090FF9BE18E2D33E3021ED2EF32D85822423B6304F726AA854BAE07D0396E9A9ADDC40F
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
+    n  = q      # the order of G,  4*q is the order of the curve
     h = 4
 
     
-- 
2.43.0


From b97dca86596a1423576b7efa369c2c0b392e78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 36/49] fix: curves: M511 has a = 530438

---
 ecc/curves.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index d794dc2..3bfd5c3 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -718,6 +718,7 @@ class M511( MontgomeryCurveFp ):
     strength = 254
     oid = None
     p  = 2**511-187
+    a  = 530438
     xG = 5
     yG = 2500410645565072423368981149139213252211568685173608590070979264248275228603899706950518127817176591878667784247582124505430745177116625808811349787373477
     n  = 2**508 + 10724754759635747624044531514068121842070756627434833028965540808827675062043
-- 
2.43.0


From e2fa0319b785ac4d66cd50d386ec2891266073df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 37/49] fix: curves: M383 has an oid attribute like every other
 curve

---
 ecc/curves.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index 3bfd5c3..64d725d 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -693,6 +693,7 @@ class M383( MontgomeryCurveFp ):
     """ y**2 == x**3+2065150*x**2+x mod 2**383-187 """
     curveId = 'm383'
     strength = 190
+    oid = None
     p = 2**383-187
     a = 2065150
     xG = 0xc  #  12
-- 
2.43.0


From 71de72048dd8952b226c550fab2ec6c17fedfcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:45 +0000
Subject: [PATCH 38/49] fix: curves: Ed25519 has the parameters of RFC 8032

---
 ecc/curves.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 64d725d..149382c 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -662,16 +662,16 @@ class Curve25519( MontgomeryCurveFp ):
     h  = 8
     
     
-class Ed25519( EdwardsCurveFp ):
-    """ (x**2 + y**2) % p == (1 + 121665/121666)*x**2 * y**2) % p """
+class Ed25519( TwistedEdwardsCurveFp ):
+    """ (-x**2 + y**2) % p == (1 - (121665/121666)*x**2 * y**2) % p   RFC 8032 """
     curveId = 'Ed25519'
     strength = 126
     oid = None
     p  = 2**255 - 19
-    d =  1      #  d = (121665/121666) % p
-    xG = 9
-    yG = 14781619447589544791020593568409986887264606134616475288964881837755586237401
-    yG = 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9
+    a  = -1
+    d  = 0x52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3  # (-121665/121666) % p
+    xG = 15112221349535400772501151409588531511454012693041857206046113283949847762202
+    yG = 46316835694926478169428394003475163141307993866256225615783033603165251855960  # (4/5) % p
     n  = 2**252 + 27742317777372353535851937790883648493 
     h  = 8     
        
-- 
2.43.0


From a03efae73dca1794d6fe6ea88aa7906efe5b1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:15 +0000
Subject: [PATCH 39/49] fix: permutation: orbit functions are usable module
 functions, as main() calls them

---
 analysis/permutation.py | 56 ++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/analysis/permutation.py b/analysis/permutation.py
index 3b01743..fa5a714 100644
--- a/analysis/permutation.py
+++ b/analysis/permutation.py
@@ -5,36 +5,34 @@
     Copyright (c) 2017 by Paul A. Lambert
 """
 
-class permutation(object):
+def map_orbits_of_permutation(permutation):
+    """ Creates a dictionary of permutation orbits indexed by the first element of the cycle/orbit """
+    gdict = {}     # a dictionary of the orbits indexed by the first orbit element
+    touched = [0 for i in range(len(permutation))]
+    for i in range(len(permutation)):
+        touched.append(0)
+    for i in range(len(permutation)):
+        element = i
+        cycle = []
+        if not touched[element]:
+            for j in range (i,len(permutation)):
+                touched[element] = 1
+                cycle.append(element)
+                element = permutation[element]
+                if element == i:
+                    break
+            gdict[cycle[0]]=cycle
+        else:
+            pass
+    return gdict
 
-    def map_orbits_of_permutation(permutation):
-        """ Creates a dictionary of permutation orbits indexed by the first element of the cycle/orbit """
-        gdict = {}     # a dictionary of the orbits indexed by the first orbit element
-        touched = [0 for i in range(len(permutation))]
-        for i in range(len(permutation)):
-            touched.append(0)
-        for i in range(len(permutation)):
-            element = i
-            cycle = []
-            if not touched[element]:
-                for j in range (i,len(permutation)):
-                    touched[element] = 1
-                    cycle.append(element)
-                    element = permutation[element]
-                    if element == i:
-                        break
-                gdict[cycle[0]]=cycle
-            else:
-                pass
-        return gdict
-
-    def orbit_start_and_length(permutation):
-        """ Returns a list of tuples (orbit start, orbit size) """
-        v=[]
-        z=map_orbits_of_permutation(permutation)
-        for i in z.keys():
-            v.append( [i, len(z[i])] )
-        return v
+def orbit_start_and_length(permutation):
+    """ Returns a list of tuples (orbit start, orbit size) """
+    v=[]
+    z=map_orbits_of_permutation(permutation)
+    for i in z.keys():
+        v.append( [i, len(z[i])] )
+    return v
 
 
 
-- 
2.43.0


From e4c013ea742615b77bdea21400177ae26add3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:21 +0000
Subject: [PATCH 40/49] fix: square_root_mod_prime: works for large p of 1 mod
 8

---
 ecc/numbertheory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 71b56b5..1df21df 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -173,12 +173,14 @@ def square_root_mod_prime( a, p ):
         if d == p-1: return ( 2 * a * modular_exp( 4*a, (p-5)/8, p ) ) % p
         raise RuntimeError, "Shouldn't get here."
     
-    for b in range( 2, p ):
+    b = 2
+    while b < p:    # range( 2, p ) is only for small p
         if jacobi( b*b-4*a, p ) == -1:
             f = ( a, -b, 1 )
             ff = polynomial_exp_mod( ( 0, 1 ), (p+1)/2, f, p )
             assert ff[1] == 0
             return ff[0]
+        b = b + 1
     raise RuntimeError, "No b found."
 
 def modular_sqrt(a, p):
-- 
2.43.0


From b48351fae4bf41c1ca7f7b6d903156470074e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:15 +0000
Subject: [PATCH 41/49] fix: order_mod: reduce x before the coprimality check,
 for negative x

---
 ecc/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 1df21df..5e2fc00 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -447,9 +447,9 @@ def order_mod( x, m ):
     
     if m <= 1: return 0
     
+    x = x % m
     assert gcd( x, m ) == 1
     
-    x = x % m
     z = x
     result = 1
     while z != 1:
-- 
2.43.0


From 76504b917e94b1c57a48161355618c7ae23953ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:22 +0000
Subject: [PATCH 42/49] fix: aes_cmac: subkeys come from the cipher that was
 asked for

---
 cipher/aes_cmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/aes_cmac.py b/cipher/aes_cmac.py
index 99e0817..d92f462 100644
--- a/cipher/aes_cmac.py
+++ b/cipher/aes_cmac.py
@@ -22,7 +22,7 @@ def aes_cmac(key, M, CIPH=AES):
     block_size = ciph.block_size
     assert block_size == 16 # only 128 bit (16 octet) blocks supported!!
     
-    k1, k2 = subkey(key)
+    k1, k2 = subkey(key, CIPH)
     blocks, leftover = divmod(len(M), block_size)
   
     if leftover == 0 and blocks > 0:         # if last block is a complete block
-- 
2.43.0


From fbe4bbac339d2d1a4013193d7f6810c2e05331b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:13:27 +0000
Subject: [PATCH 43/49] fix: polynomial_exp_mod returned a base of higher
 degree than the modulus unreduced for exponent 1

---
 ecc/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 5e2fc00..64e147e 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -107,7 +107,7 @@ def polynomial_exp_mod( base, exponent, polymod, p ):
     
     if exponent == 0: return [ 1 ]
     
-    G = base
+    G = polynomial_reduce_mod( base, polymod, p )
     k = exponent
     if k%2 == 1: s = G
     else:        s = [ 1 ]
-- 
2.43.0


From 8d672eb3829b06defa0eaf4126b2b910d97af97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:41 +0000
Subject: [PATCH 44/49] fix: int_to_string honours a padding of 0 octets, so
 that empty octet strings survive decoding

---
 cipher/common.py     | 4 ++--
 cipher/encoding.py   | 4 ++--
 ecc/ellipticcurve.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cipher/common.py b/cipher/common.py
index c5b6175..005fd98 100644
--- a/cipher/common.py
+++ b/cipher/common.py
@@ -33,11 +33,11 @@ def int_to_string( long_int, padto=None ):
             long_int, r = divmod( long_int, 256 )
             octet_string = chr( r ) + octet_string
     elif long_int == 0:
-        octet_string = chr(0)
+        octet_string = '' if padto == 0 else chr(0)
     else:
         raise ValueError('int_to-string unable to convert negative numbers')
     
-    if padto:
+    if padto is not None:
         padlen = padto - len(octet_string)
         assert padlen >= 0
         octet_string = padlen*chr(0) + octet_string
diff --git a/cipher/encoding.py b/cipher/encoding.py
index a580f3a..54fc7b1 100644
--- a/cipher/encoding.py
+++ b/cipher/encoding.py
@@ -21,11 +21,11 @@ def int_to_string( long_int, padto=None ):
             long_int, r = divmod( long_int, 256 )
             octet_string = chr( r ) + octet_string
     elif long_int == 0:
-        octet_string = chr(0)
+        octet_string = '' if padto == 0 else chr(0)
     else:
         raise ValueError('int_to-string unable to convert negative numbers')
         
-    if padto:
+    if padto is not None:
         padlen = padto - len(octet_string)
         assert padlen >= 0
         octet_string = padlen*chr(0) + octet_string
diff --git a/ecc/ellipticcurve.py b/ecc/ellipticcurve.py
index a6dcbf4..4f071d0 100755
--- a/ecc/ellipticcurve.py
+++ b/ecc/ellipticcurve.py
@@ -134,12 +134,12 @@ def int_to_string( x, padto=None ):
     """
     assert x >= 0
     result = ""
-    if x == 0: result = chr(0)
+    if x == 0 and padto != 0: result = chr(0)
     while x > 0:
         q, r = divmod( x, 256 )
         result = chr( r ) + result
         x = q
-    if padto:
+    if padto is not None:
         padlen = padto - len(result)
         assert padlen >= 0
         result = padlen*chr(0) + result
-- 
2.43.0


From 5908aa071d6254df3d2c8ff452215be6a21d8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:41 +0000
Subject: [PATCH 45/49] fix: refuse negative output sizes in PRF and pbkdf2

---
 hash/pbkdf2.py    | 3 +++
 hash/prf_dot11.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hash/pbkdf2.py b/hash/pbkdf2.py
index 4661d41..eb1f878 100755
--- a/hash/pbkdf2.py
+++ b/hash/pbkdf2.py
@@ -21,6 +21,9 @@ def pbkdf2(password, salt, iterations, keySize, PRF=HMAC_SHA1):
 	if (keySize > 10000):		  # spec says >4294967295L*digestSize
 		raise 'keySize too long for PBKDF2'
 
+	if keySize < 0:
+		raise ValueError('keySize of PBKDF2 is negative')
+
 	prf = PRF(key=password)  # HMAC_SHA1
 	numBlocks = int(ceil(1.*keySize/prf.digest_size)) # ceiling function
 	key = ''
diff --git a/hash/prf_dot11.py b/hash/prf_dot11.py
index 99dabb2..11664ef 100755
--- a/hash/prf_dot11.py
+++ b/hash/prf_dot11.py
@@ -17,7 +17,7 @@ def PRF( key, prefix, data, number_of_bits):
         requested number of octets and the reslut is truncated to the requested size.
     """
     number_of_octets, remainder = divmod(number_of_bits,8)
-    if remainder != 0:
+    if remainder != 0 or number_of_bits < 0:
         raise ValueError, 'requested bits not multiple of 8'
     R = ''
     i = 0
-- 
2.43.0


From 770452f52805a108df7d56c806d66075df63d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:19:41 +0000
Subject: [PATCH 46/49] fix: AES-SIV ignored the middle octet of keys of an odd
 length

---
 cipher/aes_siv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cipher/aes_siv.py b/cipher/aes_siv.py
index 358d5c4..025ce23 100755
--- a/cipher/aes_siv.py
+++ b/cipher/aes_siv.py
@@ -58,6 +58,7 @@ def s2v(key, ad_list, block_size=16):
 def siv_encrypt(key, pt, ad_list):
     """ """
     blksize=16 # AES block size
+    assert len(key) in (32, 48, 64) # an odd octet in the middle would be ignored
     keysize = len(key)/2  # SIV key is two keys of equal size for CMAC and CTR
     key1 = key[0:keysize]      # leftmost half of key
     key2 = key[-keysize:]      # rightmost half of key
@@ -78,6 +79,7 @@ def siv_decrypt(key, encrypted_string, ad_list):
     blksize = 16 # AES block size
     iv = encrypted_string[:16]    # leftmost 128 bits (16 octets)
     ct = encrypted_string[16:]
+    assert len(key) in (32, 48, 64) # an odd octet in the middle would be ignored
     keysize = len(key)/2  # SIV key is two keys of equal size for CMAC and CTR
     key1 = key[0:keysize]      # leftmost half of key
     key2 = key[-keysize:]      # rightmost half of key
-- 
2.43.0


From f2f197f9ab3cc323dae6150261e152d5613d3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:26:09 +0000
Subject: [PATCH 47/49] fix: lcm of zeros is zero, not a division by zero

---
 ecc/numbertheory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 64e147e..d7c69b9 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -321,6 +321,7 @@ def gcd( *a ):
 def lcm2(a,b):
     """Least common multiple of two integers."""
     
+    if a == 0 or b == 0: return 0   # gcd(0,0) is 0
     return (a*b)/gcd(a,b)
 
 
-- 
2.43.0


From c48173bd6b543d032fdd9cfb3d0006b1eef7b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:26:09 +0000
Subject: [PATCH 48/49] fix: inverse_mod modulo 1 is 0, in range

---
 ecc/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index d7c69b9..a8bc654 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -295,7 +295,7 @@ def inverse_mod( a, m ):
     # If d == 1, this means that ud is a inverse.
     
     assert d == 1
-    if ud > 0: return ud
+    if ud >= 0: return ud
     else: return ud + m
 
 
-- 
2.43.0


From 34675c129977237a6dbfdc613fa1ae7405bd9b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:40 +0000
Subject: [PATCH 49/49] fix: a refused re-keying leaves a ChaCha object as it
 was

---
 cipher/chacha_poly.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index a757f3c..59b64f4 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -166,23 +166,25 @@ class ChaCha(object):
 
             c=constant k=key b=block_counter n=nonce
         """
+        # refused sizes leave the state as it was
+        assert len(key) == 32
+        assert 0 <= block_counter < 2**32
+        assert len(nonce) == 12
+
         self.state = 16*[0]
         # The first four words (0-3) are constants:
         self.state[0:4] = 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574
 
         # The next eight words (4-11) are taken from the 256-bit key by
         # reading the bytes in little-endian order, in 4-byte chunks.
-        assert len(key) == 32
         self.state[4:12] = unpack('<IIIIIIII', key)
 
         # Word 12 is a block counter.  Since each block is 64-byte, a 32-bit
         # word is enough for 256 gigabytes of data.
-        assert 0 <= block_counter < 2**32
         self.state[12] = block_counter
 
         # Words 13-15 are a nonce, which should not be
         # repeated for the same key.
-        assert len(nonce) == 12
         self.state[13:16] = unpack('<III', nonce)
 
     def chacha20_block(self):
-- 
2.43.0

