From c27cac33a89ab4ee2be3d3989dddcaf30a3e1df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 01/34] fix: MurmurHash3 ignored most of the trailing bytes of
 its input

The reference algorithm falls through the cases of the tail switch; every
case ended with a break, so only one trailing byte was read and, except for
lengths 1 and 9 modulo 16, even that one was dropped from the digest.
---
 src/libeopsi/murmurhash3.cpp | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 7f0f670..68c7716 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -117,10 +117,10 @@ void MurmurHash3::murmurHash3_x86_32 (const void * key, int len, void * out) {
   switch(len & 3) {
     case 3:
       k1 ^= tail[2] << 16;
-      break;
+      /* FALLTHRU */
     case 2:
       k1 ^= tail[1] << 8;
-      break;
+      /* FALLTHRU */
     case 1:
       k1 ^= tail[0];
       k1 *= c1;
@@ -210,58 +210,58 @@ void MurmurHash3::murmurHash3_x86_128 (const void * key, const int len, void * o
   switch(len & 15) {
     case 15:
       k4 ^= tail[14] << 16;
-      break;
+      /* FALLTHRU */
     case 14:
       k4 ^= tail[13] << 8;
-      break;
+      /* FALLTHRU */
     case 13:
       k4 ^= tail[12] << 0;
       k4 *= c4;
       k4  = ROTL32(k4,18);
       k4 *= c1;
       h4 ^= k4;
-      break;
+      /* FALLTHRU */
     case 12:
       k3 ^= tail[11] << 24;
-      break;
+      /* FALLTHRU */
     case 11:
       k3 ^= tail[10] << 16;
-      break;
+      /* FALLTHRU */
     case 10:
       k3 ^= tail[ 9] << 8;
-      break;
+      /* FALLTHRU */
     case  9:
       k3 ^= tail[ 8] << 0;
       k3 *= c3;
       k3  = ROTL32(k3,17);
       k3 *= c4;
       h3 ^= k3;
-      break;
+      /* FALLTHRU */
     case  8:
       k2 ^= tail[ 7] << 24;
-      break;
+      /* FALLTHRU */
     case  7:
       k2 ^= tail[ 6] << 16;
-      break;
+      /* FALLTHRU */
     case  6:
       k2 ^= tail[ 5] << 8;
-      break;
+      /* FALLTHRU */
     case  5:
       k2 ^= tail[ 4] << 0;
       k2 *= c2;
       k2  = ROTL32(k2,16);
       k2 *= c3;
       h2 ^= k2;
-      break;
+      /* FALLTHRU */
     case  4:
       k1 ^= tail[ 3] << 24;
-      break;
+      /* FALLTHRU */
     case  3:
       k1 ^= tail[ 2] << 16;
-      break;
+      /* FALLTHRU */
     case  2:
       k1 ^= tail[ 1] << 8;
-      break;
+      /* FALLTHRU */
     case  1:
       k1 ^= tail[ 0] << 0;
       k1 *= c1;
@@ -351,50 +351,50 @@ void MurmurHash3::murmurHash3_x64_128 (const void * key, const int len, void * o
   switch(len & 15) {
     case 15:
       k2 ^= ((uint64_t)tail[14]) << 48;
-      break;
+      /* FALLTHRU */
     case 14:
       k2 ^= ((uint64_t)tail[13]) << 40;
-      break;
+      /* FALLTHRU */
     case 13:
       k2 ^= ((uint64_t)tail[12]) << 32;
-      break;
+      /* FALLTHRU */
     case 12:
       k2 ^= ((uint64_t)tail[11]) << 24;
-      break;
+      /* FALLTHRU */
     case 11:
       k2 ^= ((uint64_t)tail[10]) << 16;
-      break;
+      /* FALLTHRU */
     case 10:
       k2 ^= ((uint64_t)tail[ 9]) << 8;
-      break;
+      /* FALLTHRU */
     case  9:
       k2 ^= ((uint64_t)tail[ 8]) << 0;
       k2 *= c2;
       k2  = ROTL64(k2,33);
       k2 *= c1;
       h2 ^= k2;
-      break;
+      /* FALLTHRU */
     case  8:
       k1 ^= ((uint64_t)tail[ 7]) << 56;
-      break;
+      /* FALLTHRU */
     case  7:
       k1 ^= ((uint64_t)tail[ 6]) << 48;
-      break;
+      /* FALLTHRU */
     case  6:
       k1 ^= ((uint64_t)tail[ 5]) << 40;
-      break;
+      /* FALLTHRU */
     case  5:
       k1 ^= ((uint64_t)tail[ 4]) << 32;
-      break;
+      /* FALLTHRU */
     case  4:
       k1 ^= ((uint64_t)tail[ 3]) << 24;
-      break;
+      /* FALLTHRU */
     case  3:
       k1 ^= ((uint64_t)tail[ 2]) << 16;
-      break;
+      /* FALLTHRU */
     case  2:
       k1 ^= ((uint64_t)tail[ 1]) << 8;
-      break;
+      /* FALLTHRU */
     case  1:
       k1 ^= ((uint64_t)tail[ 0]) << 0;
       k1 *= c1;
-- 
2.43.0


From a0d1c6fb851562b9ca060d5186adeaf1b47d3195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 02/34] fix: MurmurHash3 hashed bytes beyond the end of the
 number's digits

The length given to the hash was four times the number of digits, so the
digest depended on whatever followed the string in memory: equal elements of
two clients fell into different buckets and were lost from the intersection.
---
 src/libeopsi/murmurhash3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 68c7716..e1de550 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -457,7 +457,7 @@ byte* MurmurHash3::hash(const NTL::ZZ_p n, const size_t len) {
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
-  murmurHash3_x64_128((const void *) zzString.c_str(), 4*truncLen, (void *) this->hash128);
+  murmurHash3_x64_128((const void *) zzString.c_str(), truncLen, (void *) this->hash128);
   return this->hash128;
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From c509f3cfd8f47d79d836492b11268b6fd8d9a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 03/34] fix: a client crashed on messages from parties it does
 not know

isAuthorised() dereferenced the null pointer given back by getPartyById();
the server already checks it.
---
 src/libeopsi/eopsiclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 8ab2795..e975faa 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -222,7 +222,7 @@ bool EOPSIClient::isAuthorised(const EOPSIMessage *msg) const {
   }
   
   sender = getPartyById(msg->getPartyId());
-  if (!hasAuthenticated(*sender)) {
+  if (sender == nullptr || !hasAuthenticated(*sender)) {
     return false;
   }
   
-- 
2.43.0


From 1b18ec820f458743f0b3a552670a5d19e1ee805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 04/34] fix: the delegate read exactly 3 bytes of the
 requester's secret

The message carries the id, the secret (of any length) and a terminator, each
of the first and the last ended by a null byte. Longer secrets were cut, so
that the masks did not cancel out, and shorter ones were read out of bounds.
---
 src/libeopsi/eopsiclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index e975faa..02b5bf9 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -144,7 +144,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       
       // Reception feedback
       otherSecretBytes = &((byte *) msg->getData())[msgClaimedId.length() + 1];
-      otherSecret = NTL::ZZFromBytes(otherSecretBytes, 3);
+      otherSecret = NTL::ZZFromBytes(otherSecretBytes, msg->length() - msgClaimedId.length() - 2);
       std::cout << id << ". Received \"" << otherSecret << "\" from " << sender->getId() << "." << std::endl;
       
       // Send the message to cloud
-- 
2.43.0


From 3a2ed36c12ef8b847da1522145be47166d06ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 05/34] fix: a client used freed memory in its second protocol
 run

After the intersection both t and q were deleted but still looked set, so the
first message of the next run was combined with a dangling pointer and both
were deleted again. The delegate too kept the q which its receiver deletes.
---
 src/libeopsi/eopsiclient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 02b5bf9..8d83f29 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -161,8 +161,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       /*
        * 2. Send q to client
        */
-      q = delegationOutput(otherSecret, tmpKey);
-      msgToClient.setData((void *) q, 1);
+      // (the receiver owns it, this must not be taken for a polynomial received)
+      msgToClient.setData((void *) delegationOutput(otherSecret, tmpKey), 1);
       msgToClient.setType(EOPSI_MESSAGE_POLYNOMIAL);
       msgToClient.setPartyId(this->getId());
       
@@ -183,6 +183,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_OUTPUT_COMPUTATION << ". Receiving partial intersection data \"t\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       
@@ -199,6 +200,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_POLYNOMIAL << ". Receiving partial intersection data \"q\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       break;
-- 
2.43.0


From 7538e7ce765c0debd3cefbb48e6c129272060906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 06/34] fix: the server crashed on requests it has no data or
 no partner for

It dereferenced the null pointer of the missing data, or of the unknown
partner, instead of refusing the request.
---
 src/libeopsi/eopsiserver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 3ff7d0a..4302356 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -54,6 +54,14 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       }
       partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
       
+      // The computation needs the partner, and the data of both
+      if (getPartyById(partnerId) == nullptr) {
+        throw ProtocolException("Party \"" + partnerId + "\" is not known by " + this->getId() + ".");
+      }
+      if (storedData.find(msgClaimedId) == storedData.end() || storedData.find(partnerId) == storedData.end()) {
+        throw ProtocolException("Both \"" + msgClaimedId + "\" and \"" + partnerId + "\" must have outsourced their data to " + this->getId() + ".");
+      }
+      
       // Prepare message for the partner client
       tmpKeyBytes = (&((byte *) msg->getData())[msgClaimedId.length() + 1 + partnerId.length() + 1]);
       tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE));
-- 
2.43.0


From c5cc685e496b1e2b44dfec7bbf80aa39beac2972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 07/34] fix: truncated computation requests were read out of
 bounds

Client and server looked for the ids and the key of a computation request
without regard to the length of the message.
---
 src/libeopsi/eopsiclient.cpp |  6 +++++-
 src/libeopsi/eopsiserver.cpp | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 8d83f29..828bc0e 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <iostream>
+#include <cstring>
 #include <NTL/ZZ_pXFactoring.h>
 #include "eopsiclient.h"
 #include "ntlmiss.h"
@@ -89,10 +90,13 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       bm.start();
       
       // Check sender and message content
-      msgClaimedId = (char *) msg->getData();
+      msgClaimedId.assign((char *) msg->getData(), strnlen((char *) msg->getData(), msg->length()));
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
+      if (msg->length() < msgClaimedId.length() + 2) {
+        throw ProtocolException("Truncated computation request");
+      }
       
       /*
        * 1. Send outsourcing request to the cloud
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 4302356..6a23e2c 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <iostream>
+#include <cstring>
 #include <NTL/ZZ_pX.h>
 #include "eopsiserver.h"
 //-----------------------------------------------------------------------------
@@ -48,11 +49,17 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       }
       
       // Check sender and message content
-      msgClaimedId = (char *) msg->getData();
+      msgClaimedId.assign((char *) msg->getData(), strnlen((char *) msg->getData(), msg->length()));
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
-      partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
+      if (msg->length() < msgClaimedId.length() + 1) {
+        throw ProtocolException("Truncated computation request");
+      }
+      partnerId.assign(&((char *) msg->getData())[msgClaimedId.length() + 1], strnlen(&((char *) msg->getData())[msgClaimedId.length() + 1], msg->length() - msgClaimedId.length() - 1));
+      if (msg->length() < msgClaimedId.length() + 1 + partnerId.length() + 1 + NTL::bytes(DEFAULT_KEY_BITSIZE)) {
+        throw ProtocolException("Truncated computation request");
+      }
       
       // The computation needs the partner, and the data of both
       if (getPartyById(partnerId) == nullptr) {
-- 
2.43.0


From 1b6b60e562148670ce954213e55059507c8c8ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 08/34] fix: null messages and messages without data crashed
 the receiver

They are refused as any other message breaking the protocol.
---
 src/libeopsi/eopsiclient.cpp | 8 ++++++++
 src/libeopsi/eopsiserver.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 828bc0e..768e8eb 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -73,6 +73,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   std::map<std::string, EOPSIParty*>::const_iterator mi;
   NTL::vec_ZZ_p setcap;
   
+  if (msg == nullptr) {
+    throw ProtocolException("receiving null messages is not allowed.");
+  }
+  
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EO-PSI protocol");
   }
@@ -82,6 +86,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
     throw ProtocolException("Party \"" + msg->getPartyId() + "\" is not authorised by " + this->getId() + ".");
   }
   
+  if (msg->getData() == nullptr) {
+    throw ProtocolException("Messages without data are not allowed in EO-PSI protocol");
+  }
+  
   // Get the sender
   sender = getPartyById(msg->getPartyId());
   
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 6a23e2c..fbdbaf0 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -29,6 +29,10 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
   byte *tmpKeyBytes;
   NTL::vec_ZZ_p *t;
   
+  if (msg == nullptr) {
+    throw ProtocolException("receiving null messages is not allowed.");
+  }
+  
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EOPSI protocol");
   }
@@ -38,6 +42,10 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
     throw ProtocolException("Party \"" + msg->getPartyId() + "\" is not authorised by " + this->getId() + ".");
   }
   
+  if (msg->getData() == nullptr) {
+    throw ProtocolException("Messages without data are not allowed in EO-PSI protocol");
+  }
+  
   // Get the sender
   sender = getPartyById(msg->getPartyId());
   
-- 
2.43.0


From aebe47bf9c26b39ddd9d3c7a8a6cc3478a11dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 09/34] fix: the size of a hash table was always zero

The number of elements added was never counted.
---
 src/libeopsi/hashbuckets.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 2acac0a..d31825a 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -141,6 +141,7 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
 //     if (index == 0)
 //     std::cerr << "HashBuckets<T>::add()" << ". Index of " << element << " is " << index << "." << std::endl; // Debug purposes
     this->buckets[index].push_back(element);
+    this->n++;
 }
 //-----------------------------------------------------------------------------
 
@@ -148,6 +149,7 @@ template <typename T> void HashBuckets<T>::addToBucket(const T& element, const s
   size_t index = i;
   if (index < this->k) {
     this->buckets[index].push_back(element);
+    this->n++;
   } else {
     throw OutOfBoundException("HashBuckets<T>::addToBucket(). Index out of bound.", OutOfBoundException::FATAL);
   }
-- 
2.43.0


From 24d5bed138e41e49fcdff9589e6f00441e763d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 10/34] fix: the variance of the bucket sizes was computed on
 truncated differences

The distance of each size from the average was stored as an integer.
---
 src/libeopsi/hashbuckets.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index d31825a..f5dc15a 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -184,8 +184,8 @@ template <typename T> size_t HashBuckets<T>::getMaxLoad() const {
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::printStats(bool full) const {
-  size_t minSize, minBucket, maxSize, maxBucket, total, diff, nshow;
-  double avgSize, varSize;
+  size_t minSize, minBucket, maxSize, maxBucket, total, nshow;
+  double avgSize, varSize, diff;
   
   // Integer stuff
   total = minSize = maxSize = this->buckets[0].size();
-- 
2.43.0


From 8c6474984f2b00022e466493d4c294da74413d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 11/34] fix: buckets could exceed their maximum load

The load was checked only when the index came from the hash algorithm; a
bucket filled otherwise could grow beyond it, and then even add() did not
stop it any more.
---
 src/libeopsi/hashbuckets.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index f5dc15a..4a71eea 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -127,12 +127,6 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     this->hashStrInt->set(this->hashAlgorithm->hash(element), this->hashAlgorithm->hashSize());
     index = this->hashStrInt->rem(this->k);
 //     std::cerr << element << " hashed to "<< *this->hashStrInt << " mod " << this->k << " = " << index << std::endl;
-    
-    if (this->buckets[index].size() == this->maxLoad) {
-      std::stringstream msg;
-      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
-      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
-    }
   } else {
     index = 0;
     std::cerr << "HashBuckets<T>::add()" << ". Element index completely invented (you did not set a hash algorithm)." << std::endl;
@@ -140,14 +134,18 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     
 //     if (index == 0)
 //     std::cerr << "HashBuckets<T>::add()" << ". Index of " << element << " is " << index << "." << std::endl; // Debug purposes
-    this->buckets[index].push_back(element);
-    this->n++;
+    this->addToBucket(element, index);
 }
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::addToBucket(const T& element, const size_t i) {
   size_t index = i;
   if (index < this->k) {
+    if (this->buckets[index].size() >= this->maxLoad) {
+      std::stringstream msg;
+      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
+      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
+    }
     this->buckets[index].push_back(element);
     this->n++;
   } else {
-- 
2.43.0


From 148fcf31d54fb6e36ce255732d53a0a2b56048d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 12/34] fix: changing the hash algorithm of a hash table leaked
 memory

---
 src/libeopsi/hashbuckets.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 4a71eea..8fa2edf 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -110,6 +110,10 @@ template <typename T> void HashBuckets<T>::setHashAlgorithm(const HashAlgorithm<
     return;
   }
   
+  if (hashStrInt != nullptr) {
+    delete hashStrInt;
+  }
+  
   try {
     hashStrInt = new StrInt(hashAlgorithm->hashSize());
   } catch (std::bad_alloc&) {
-- 
2.43.0


From d1eb33535070939db079dba5245e63397c4a4267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 13/34] fix: StrInt::lsb() did not give the least significant
 bits

It gave the remainder modulo 2^64 - 1 instead of 2^64, and of a temporary
which does not follow the number after inc(), add() and set(unsigned long).
---
 src/libeopsi/strint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index e3c2761..bb074cd 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -113,7 +113,7 @@ unsigned long StrInt::rem(const unsigned long divisor) const {
 //-----------------------------------------------------------------------------
 
 unsigned long StrInt::lsb() const {
-  return mpz_fdiv_ui(b[0], (unsigned long) (-1L));
+  return mpz_get_ui(z);
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From cca8161af95d6e2d0651bb97fbeac475f30be1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 14/34] fix: setting a StrInt to an empty string kept an old
 number

---
 src/libeopsi/strint.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index bb074cd..4f870a5 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -103,7 +103,11 @@ void StrInt::set(const byte *n, const size_t len) {
   }
   
   // Save to z
-  mpz_set(z, b[0]);
+  if (dim > 0) {
+    mpz_set(z, b[0]);
+  } else {
+    mpz_set_ui(z, 0);
+  }
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 898432adeb0d5379f80383bcbacab956a3146aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 15/34] fix: StrInt::toBytes() exited for any number greater
 than one

getByteSize() gave the number of bits, which never matched the bytes written,
and a null destination was not allocated by toBytes().
---
 src/libeopsi/strint.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index 4f870a5..73b6752 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -144,7 +144,7 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
   const int BIG_ENDIANNESS = 1;
   const size_t LEN = this->getByteSize();
   
-  if ((barr != NULL) && (bytelen != NULL) && (*bytelen != LEN)) {
+  if ((barr == NULL) || (*bytelen < LEN)) {
     try {
       barr = new byte[LEN];
     } catch (std::bad_alloc&) {
@@ -156,8 +156,7 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
   
   /*
    * If this->z is zero then the count returned will be zero and nothing 
-   * written to barr. If barr is NULL in this case, no block is allocated, 
-   * just NULL is returned. 
+   * written to barr.
    */
   if (*bytelen == 0 && LEN == 1) {
     barr[0] = '\0';
@@ -174,7 +173,7 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
 //-----------------------------------------------------------------------------
 
 size_t StrInt::getByteSize() const {
-  return (mpz_sizeinbase(this->z, 2) + sizeof(byte) - 1)/sizeof(byte);
+  return (mpz_sizeinbase(this->z, 2) + 8*sizeof(byte) - 1)/(8*sizeof(byte));
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 93d49b61c083611a6740bfb855fa37e3f7fe5011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 16/34] fix: the name of a SHA algorithm was read from beyond a
 string literal

The flavour was added to the pointer instead of being appended.
---
 src/libeopsi/sha.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index f2c0fc8..11ff6e8 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -99,7 +99,7 @@ public:
   }
   
   virtual std::string name() const {
-    return "SHA" + this->flavour;
+    return "SHA" + std::to_string(this->flavour);
   }
 };
 //-----------------------------------------------------------------------------
-- 
2.43.0


From ebe80fcee6b08032588169cee590a83ff781b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 17/34] fix: the element 0 was never found in an intersection

The number zero has no trailing one, so it was taken as not padded.
---
 src/libeopsi/zzppoly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index f0100a2..af57719 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -149,7 +149,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection() {
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
@@ -224,7 +224,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
         z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
         
 //         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
-        if (NTL::countLeadingZeros(z) >= this->padsize) {
+        if (NTL::IsZero(z) || NTL::countLeadingZeros(z) >= this->padsize) {
           NTL::append(this->roots, z >> this->padsize);
         }
       }
-- 
2.43.0


From 384c9be136eda62b6f551183352572a9ab7fed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 18/34] fix: mixing the ways to find an intersection accessed
 invalid memory

After interpolate(), the one-step findIntersection() of as many polynomials
found no factors allocated. After interpolating more polynomials than those
factorised before, the other findIntersection() read beyond their factors.
---
 src/libeopsi/zzppoly.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index af57719..623b624 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -76,6 +76,12 @@ void ZZpPolynomials::interpolate(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y, const size_
     }
   }
   
+  // Any factorisation belongs to the previous polynomials
+  if (this->factorPairs != nullptr) {
+    delete [] this->factorPairs;
+    this->factorPairs = nullptr;
+  }
+  
   this->n = n;
   for (size_t j = 0; j < n; j++) {
 //     std::cout << "\t------------" << std::endl;
@@ -178,7 +184,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
       break;
   }
   
-  if (this->n != n) {
+  if (this->n != n || this->polynomials == nullptr || this->factorPairs == nullptr) {
     try {
       if (this->polynomials != nullptr) {
         delete [] this->polynomials;
-- 
2.43.0


From 17151ba5f2aa3d1e5bc24d4621e7d15adabd91c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 19/34] fix: shift beyond the width of its type without a
 number of bits

The default for bits, zero, means any length: there is nothing to cut.
---
 src/libeopsi/zzprf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/zzprf.cpp b/src/libeopsi/zzprf.cpp
index a87346c..b5c541d 100644
--- a/src/libeopsi/zzprf.cpp
+++ b/src/libeopsi/zzprf.cpp
@@ -100,7 +100,7 @@ NTL::ZZ ZZPRF::generate(const NTL::ZZ seed, const size_t index, const size_t bit
   } while (r > 0);
   
   // Cut bits
-  rbits = n*8 - bits;
+  rbits = (bits == 0) ? 0 : n*8 - bits;
 //   std::cerr << (int) (gen[0]) << " -> ";
 //   gen[n - 1] = (gen[n - 1] << rbits) >> rbits; // This does not work --- bug?
   // [[WARNING]] the right order of these might be endian dependend
-- 
2.43.0


From 2af1688b3c34ae9eb933ee30282d6bc45000e6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 20/34] fix: benchmark() of a just started chronometer read out
 of bounds

---
 src/libeopsi/simplebm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index 370c493..b182908 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -209,7 +209,7 @@ bool SimpleBenchmark::isStopped() const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::benchmark(const size_t cursor) const {
-  if (cursor >= this->times.size()) {
+  if (cursor >= this->times.size() || this->times.size() < 2) {
     return SimpleBenchmark::ZEROMS;
   }
   
-- 
2.43.0


From 9f54ac63d1dd9293c3a1e9824178101290e3d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 21/34] fix: statistics of a chronometer including the pauses
 were always zero

They counted the intervals of an empty range. The average also left the
pauses out of the sum, and the variance did not divide the sum of the
intervals that it takes into account by their number.
---
 src/libeopsi/simplebm.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index b182908..fea379d 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -83,7 +83,7 @@ std::chrono::microseconds SimpleBenchmark::minOrMax(const bool giveMax, const bo
   
   min = max = currentInterval = ZEROMS;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "minOrMax(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -252,14 +252,14 @@ std::chrono::microseconds SimpleBenchmark::cumulativeBenchmark(const std::string
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::average(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "average(). Not enough points to average." << std::endl;
     return 0.;
   }
   if (noPauses) {
     return this->cumulativeBenchmark(false).count() / (double) this->countNotPausedTimes(1, this->times.size());
   } else {
-    return this->cumulativeBenchmark().count() / (double) (this->times.size() - 1);
+    return this->cumulativeBenchmark((size_t) 0, false).count() / (double) (this->times.size() - 1);
   }
 }
 //-----------------------------------------------------------------------------
@@ -269,16 +269,16 @@ double SimpleBenchmark::variance(const bool noPauses) const {
   size_t n;
   unsigned long x;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "variance(). Not enough points to compute variance." << std::endl;
     return 0.;
   }
   
   avg = this->average(noPauses);
-  n = this->times.size() - 1;
+  n = noPauses ? this->countNotPausedTimes(1, this->times.size()) : this->times.size() - 1;
   var = 0.;
   for (size_t i = 1; i < this->times.size(); i++) {
-    if (noPauses && !this->pauses[i]) {
+    if (!noPauses || !this->pauses[i]) {
       x = std::chrono::duration_cast<std::chrono::microseconds>(this->times[i] - this->times[i - 1]).count();
       diff = x > avg ? x - avg : avg - x;
       var += diff/n*diff;
@@ -290,7 +290,7 @@ double SimpleBenchmark::variance(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::standardDeviation(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "standardDeviation(). Not enough points to compute standard deviation." << std::endl;
     return 0.;
   }
@@ -300,7 +300,7 @@ double SimpleBenchmark::standardDeviation(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "max(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -310,7 +310,7 @@ std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::min(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "min(). No intervals taken." << std::endl;
     return ZEROMS;
   }
-- 
2.43.0


From 9dc04ffc524e3c532d96495b1cb19d94e6da173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 22/34] fix: a copied pseudo-random generator freed the buffers
 of the original

ZZpPRF copies the generator it is given: the copy shared the buffers and the
hash transformation of the original, and both deleted them.
---
 src/libeopsi/prf.hpp   | 16 ++++++++++++++++
 src/libeopsi/sha.hpp   | 16 ++++++++++++++++
 src/libeopsi/zzprf.cpp | 16 ++++++++++++++++
 src/libeopsi/zzprf.h   |  2 ++
 4 files changed, 50 insertions(+)

diff --git a/src/libeopsi/prf.hpp b/src/libeopsi/prf.hpp
index 7e5b22d..cb6b1af 100644
--- a/src/libeopsi/prf.hpp
+++ b/src/libeopsi/prf.hpp
@@ -35,6 +35,22 @@ public:
     this->autoSeedPtr = nullptr;
   };
   
+  /**
+   * Copies continue with the same automatic seed and index, if any.
+   */
+  PseudoRandom(const PseudoRandom& other) {
+    this->autoSeedPtr = nullptr;
+    *this = other;
+  }
+  
+  PseudoRandom& operator=(const PseudoRandom& other) {
+    this->hashAlgorithm = other.hashAlgorithm;
+    this->autoIndex = other.autoIndex;
+    this->autoSeed = other.autoSeed;
+    this->autoSeedPtr = (other.autoSeedPtr == nullptr) ? nullptr : &this->autoSeed;
+    return *this;
+  }
+  
   /**
    * Destructor.
    */
diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index 11ff6e8..47a5a66 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -78,6 +78,22 @@ public:
     this->setFlavour(flavour);
   }
   
+  /**
+   * Each instance has its own transformation and its own last hash.
+   */
+  SHA(const SHA& other) : HashAlgorithm<T>(other) {
+    this->sha = nullptr;
+    this->lastHash = nullptr;
+    this->setFlavour(other.flavour);
+  }
+  
+  SHA& operator=(const SHA& other) {
+    if (this != &other) {
+      this->setFlavour(other.flavour);
+    }
+    return *this;
+  }
+  
   ~SHA() {
     if (this->sha != nullptr) {
       delete this->sha;
diff --git a/src/libeopsi/zzprf.cpp b/src/libeopsi/zzprf.cpp
index b5c541d..d3f1366 100644
--- a/src/libeopsi/zzprf.cpp
+++ b/src/libeopsi/zzprf.cpp
@@ -19,6 +19,22 @@ ZZPRF::ZZPRF() : PseudoRandom() {
 }
 //-----------------------------------------------------------------------------
 
+ZZPRF::ZZPRF(const ZZPRF& other) : PseudoRandom(other), hashAlgorithm(other.hashAlgorithm) {
+  // Buffers are not shared
+  hashInputSize = 0;
+  genLength = 0;
+  gen = nullptr;
+  hashInput = nullptr;
+}
+//-----------------------------------------------------------------------------
+
+ZZPRF& ZZPRF::operator=(const ZZPRF& other) {
+  PseudoRandom::operator=(other);
+  this->hashAlgorithm = other.hashAlgorithm;
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 ZZPRF::~ZZPRF() {
   if (gen != nullptr) {
     delete [] gen;
diff --git a/src/libeopsi/zzprf.h b/src/libeopsi/zzprf.h
index 46629cb..30a7e3e 100644
--- a/src/libeopsi/zzprf.h
+++ b/src/libeopsi/zzprf.h
@@ -32,6 +32,8 @@ protected:
   
 public:
   ZZPRF();
+  ZZPRF(const ZZPRF& other);
+  ZZPRF& operator=(const ZZPRF& other);
   virtual ~ZZPRF();
   
   virtual NTL::ZZ generate(const NTL::ZZ seed, const size_t index, const size_t bits = 0);
-- 
2.43.0


From 46826f99189fe3bffef90c7b57817d39b8211cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 23/34] fix: MurmurHash3 stored its digest with misaligned
 writes

---
 src/libeopsi/murmurhash3.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index e1de550..b9f4fb6 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -419,8 +419,9 @@ void MurmurHash3::murmurHash3_x64_128 (const void * key, const int len, void * o
   h1 += h2;
   h2 += h1;
 
-  ((uint64_t*)out)[0] = h1;
-  ((uint64_t*)out)[1] = h2;
+  // "out" may not be aligned to 64 bits
+  memcpy(out, &h1, sizeof(h1));
+  memcpy((uint8_t*)out + sizeof(h1), &h2, sizeof(h2));
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From ce4aa2b0f2f7869178cf4253f4445f51b582ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 24/34] fix: copies of StrInt shared their number and freed it
 twice

---
 src/libeopsi/strint.cpp | 18 ++++++++++++++++++
 src/libeopsi/strint.h   |  6 ++++++
 2 files changed, 24 insertions(+)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index 73b6752..3dda8b9 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -6,6 +6,7 @@
 
 #include <iostream>
 #include <sstream>
+#include <utility>
 #include "strint.h"
 //-----------------------------------------------------------------------------
 
@@ -59,6 +60,23 @@ StrInt::StrInt(const size_t bytes, const byte *n, const size_t len) {
 }
 //-----------------------------------------------------------------------------
 
+StrInt::StrInt(const StrInt& other) : StrInt(other.length) {
+  mpz_set(z, other.z);
+}
+//-----------------------------------------------------------------------------
+
+StrInt& StrInt::operator=(const StrInt& other) {
+  if (this != &other) {
+    StrInt copy(other);
+    std::swap(this->b, copy.b);
+    std::swap(this->pow2, copy.pow2);
+    std::swap(this->length, copy.length);
+    mpz_swap(this->z, copy.z);
+  }
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 StrInt::~StrInt() {
   size_t i;
   
diff --git a/src/libeopsi/strint.h b/src/libeopsi/strint.h
index 17f7d74..c60391c 100644
--- a/src/libeopsi/strint.h
+++ b/src/libeopsi/strint.h
@@ -42,6 +42,12 @@ public:
    * @param dim The number of bytes in the string to read.
    */
   StrInt(const size_t bytes, const byte *n = nullptr, const size_t dim = 0);
+  
+  /**
+   * Copies have their own number, and the size of the original.
+   */
+  StrInt(const StrInt& other);
+  StrInt& operator=(const StrInt& other);
   virtual ~StrInt();
   
   /**
-- 
2.43.0


From bca88d39f9ecc6ba21f3fd6137cacf6ce3033e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 25/34] fix: copies of hash tables shared their buckets and
 freed them twice

---
 src/libeopsi/hashbuckets.hpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 8fa2edf..158f83d 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -10,6 +10,7 @@
 
 #include <iostream>
 #include <sstream>
+#include <utility>
 #include "hashtable.hpp"
 
 #include "markedvector.hpp"
@@ -41,6 +42,12 @@ public:
    * @param maxLoad The maximum number of elements for each bucket.
    */
   HashBuckets(size_t length, size_t maxLoad, const HashAlgorithm<T>* hashAlgorithm = nullptr);
+  
+  /**
+   * Copies have their own buckets, and use the same hash algorithm.
+   */
+  HashBuckets(const HashBuckets<T>& other);
+  HashBuckets<T>& operator=(const HashBuckets<T>& other);
   virtual ~HashBuckets();
   
   /**
@@ -96,6 +103,31 @@ template <typename T> HashBuckets<T>::HashBuckets(size_t length, size_t maxLoad,
 }
 //-----------------------------------------------------------------------------
 
+template <typename T> HashBuckets<T>::HashBuckets(const HashBuckets<T>& other) : HashBuckets<T>(other.k, other.maxLoad) {
+  if (other.hashStrInt != nullptr) {
+    this->setHashAlgorithm(other.hashAlgorithm);
+  }
+  for (size_t i = 0; i < this->k; i++) {
+    this->buckets[i] = other.buckets[i];
+  }
+  this->n = other.n;
+}
+//-----------------------------------------------------------------------------
+
+template <typename T> HashBuckets<T>& HashBuckets<T>::operator=(const HashBuckets<T>& other) {
+  if (this != &other) {
+    HashBuckets<T> copy(other);
+    std::swap(this->buckets, copy.buckets);
+    std::swap(this->hashStrInt, copy.hashStrInt);
+    std::swap(this->hashAlgorithm, copy.hashAlgorithm);
+    std::swap(this->k, copy.k);
+    std::swap(this->n, copy.n);
+    std::swap(this->maxLoad, copy.maxLoad);
+  }
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 template <typename T> HashBuckets<T>::~HashBuckets() {
   delete [] this->buckets;
   if (this->hashStrInt != nullptr) {
-- 
2.43.0


From 3b15921946f8260a6f000b97edaede98668fb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 26/34] fix: copies of polynomial batches shared their
 polynomials and freed them twice

---
 src/libeopsi/zzppoly.cpp | 48 ++++++++++++++++++++++++++++++++++++++++
 src/libeopsi/zzppoly.h   |  6 +++++
 2 files changed, 54 insertions(+)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index 623b624..4d73d61 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -4,6 +4,7 @@
  * Copyright (C) 2016  Roberto Metere, Glasgow <roberto.metere@strath.ac.uk>
  */
 
+#include <algorithm>
 #include <iostream>
 #include <sstream>
 #include <thread>
@@ -20,6 +21,53 @@ ZZpPolynomials::ZZpPolynomials(const size_t padsize) {
 }
 //-----------------------------------------------------------------------------
 
+ZZpPolynomials::ZZpPolynomials(const ZZpPolynomials& other) {
+  this->polynomials = nullptr;
+  this->factorPairs = nullptr;
+  *this = other;
+}
+//-----------------------------------------------------------------------------
+
+ZZpPolynomials& ZZpPolynomials::operator=(const ZZpPolynomials& other) {
+  if (this == &other) {
+    return *this;
+  }
+  
+  if (this->polynomials != nullptr) {
+    delete [] this->polynomials;
+    this->polynomials = nullptr;
+  }
+  if (this->factorPairs != nullptr) {
+    delete [] this->factorPairs;
+    this->factorPairs = nullptr;
+  }
+  
+  this->n = other.n;
+  this->padsize = other.padsize;
+  this->roots = other.roots;
+  this->nThreads = other.nThreads;
+  this->bmInt = other.bmInt;
+  this->bmMon = other.bmMon;
+  this->bmFac = other.bmFac;
+  this->bmCap = other.bmCap;
+  
+  try {
+    if (other.polynomials != nullptr) {
+      this->polynomials = new NTL::ZZ_pX[this->n];
+      std::copy(other.polynomials, other.polynomials + this->n, this->polynomials);
+    }
+    if (other.factorPairs != nullptr) {
+      this->factorPairs = new NTL::vec_pair_ZZ_pX_long[this->n];
+      std::copy(other.factorPairs, other.factorPairs + this->n, this->factorPairs);
+    }
+  } catch (std::bad_alloc &) {
+    std::cerr << "ZZpPolynomials(). Error allocating memory." << std::endl;
+    exit(2);
+  }
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 ZZpPolynomials::~ZZpPolynomials() {
   if (this->polynomials != nullptr) {
     delete [] this->polynomials;
diff --git a/src/libeopsi/zzppoly.h b/src/libeopsi/zzppoly.h
index c3d1198..26b25a9 100644
--- a/src/libeopsi/zzppoly.h
+++ b/src/libeopsi/zzppoly.h
@@ -54,6 +54,12 @@ public:
    */
   ZZpPolynomials(const size_t padsize);
   
+  /**
+   * Copies have their own polynomials and factors.
+   */
+  ZZpPolynomials(const ZZpPolynomials& other);
+  ZZpPolynomials& operator=(const ZZpPolynomials& other);
+  
   /**
    * Destructor.
    */
-- 
2.43.0


From ee61e28609050388047a987a6411563f664105bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 27/34] fix: copies of clients shared their blinded data and
 generator and freed them twice

---
 src/libeopsi/eopsiclient.cpp | 48 ++++++++++++++++++++++++++++++++++++
 src/libeopsi/eopsiclient.h   |  7 ++++++
 2 files changed, 55 insertions(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 768e8eb..5c919a1 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -5,6 +5,7 @@
  * Copyright (C) 2016  Roberto Metere, Glasgow <roberto.metere@strath.ac.uk>
  */
 
+#include <algorithm>
 #include <iostream>
 #include <cstring>
 #include <NTL/ZZ_pXFactoring.h>
@@ -52,6 +53,53 @@ EOPSIClient::EOPSIClient(HashBuckets<NTL::ZZ_p>& hashBuckets, const NTL::ZZ fiel
 }
 //-----------------------------------------------------------------------------
 
+EOPSIClient::EOPSIClient(const EOPSIClient& other) : EOPSIParty(other) {
+  this->blindedData = nullptr;
+  this->zzpprf = nullptr;
+  this->q = nullptr;
+  this->t = nullptr;
+  *this = other;
+}
+//-----------------------------------------------------------------------------
+
+EOPSIClient& EOPSIClient::operator=(const EOPSIClient& other) {
+  NTL::vec_ZZ_p *blindedCopy = nullptr;
+  ZZpPRF *zzpprfCopy;
+  
+  if (this == &other) {
+    return *this;
+  }
+  
+  try {
+    zzpprfCopy = new ZZpPRF(*other.zzpprf);
+    if (other.blindedData != nullptr) {
+      blindedCopy = new NTL::vec_ZZ_p[other.length];
+      std::copy(other.blindedData, other.blindedData + other.length, blindedCopy);
+    }
+  } catch(std::bad_alloc&) {
+    std::cerr << "EOPSIClient(). Error allocating memory." << std::endl;
+    exit(2);
+  }
+  
+  delete this->zzpprf;
+  delete [] this->blindedData;
+  
+  EOPSIParty::operator=(other);
+  this->rawData = other.rawData;
+  this->rawDataSize = other.rawDataSize;
+  this->rawDataBits = other.rawDataBits;
+  this->blindedData = blindedCopy;
+  this->secret = other.secret;
+  this->hashBuckets = other.hashBuckets;
+  this->zzpprf = zzpprfCopy;
+  this->msgToCloud = other.msgToCloud;
+  this->msgToClient = other.msgToClient;
+  this->setcap = other.setcap;
+  
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 EOPSIClient::~EOPSIClient() {
   delete this->zzpprf;
   
diff --git a/src/libeopsi/eopsiclient.h b/src/libeopsi/eopsiclient.h
index e974a1d..d720fff 100644
--- a/src/libeopsi/eopsiclient.h
+++ b/src/libeopsi/eopsiclient.h
@@ -40,6 +40,13 @@ protected:
 public:
   EOPSIClient(HashBuckets<NTL::ZZ_p>& hashBuckets, const NTL::ZZ fieldsize, const size_t length, const size_t height, const size_t degree, const std::string id = "", const NTL::ZZ secret = NTL::ZZFromBytes((byte *)"Topsy Kretts", 12L));
   EOPSIClient(HashBuckets<NTL::ZZ_p>& hashBuckets, const NTL::ZZ fieldsize, const size_t length, const size_t height, const size_t degree, const std::string id = "", const byte *secret = nullptr, const size_t secretLen = 0);
+  
+  /**
+   * Copies have their own blinded data and generator; they use the same table
+   * and raw data, and no answer is pending for them.
+   */
+  EOPSIClient(const EOPSIClient& other);
+  EOPSIClient& operator=(const EOPSIClient& other);
   virtual ~EOPSIClient();
   
   virtual void receive(EOPSIMessage* msg);
-- 
2.43.0


From 516d7fcee57cff4d37422bcc65afbb9de4189c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 28/34] fix: a client without data read an uninitialised size
 when it got both answers

---
 src/libeopsi/eopsiclient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 5c919a1..6b81c67 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -34,6 +34,7 @@ static void polEval(NTL::vec_ZZ_p *evaluations, NTL::ZZ_pX *polynomials, NTL::ve
 EOPSIClient::EOPSIClient(HashBuckets<NTL::ZZ_p>& hashBuckets, const NTL::ZZ fieldsize, const size_t length, const size_t height, const size_t degree, const std::string id, const NTL::ZZ secret) : EOPSIParty(EOPSI_PARTY_CLIENT, fieldsize, length, height, degree, id) {
   this->rawData = nullptr;
   this->rawDataSize = 0;
+  this->rawDataBits = 0;
   this->blindedData = nullptr;
   this->hashBuckets = &hashBuckets;
   this->setSecret(secret);
-- 
2.43.0


From 25c823330e4e8e2ff542ab9ca57cd17258ef29a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 29/34] fix: refused or replaced answers of the protocol were
 never freed

---
 src/libeopsi/eopsiclient.cpp | 19 ++++++++++++++++++-
 src/libeopsi/eopsiserver.cpp |  8 +++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 6b81c67..79b56c8 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -107,6 +107,9 @@ EOPSIClient::~EOPSIClient() {
   if (this->blindedData != nullptr) {
     delete [] this->blindedData;
   }
+  
+  delete [] this->t;
+  delete [] this->q;
 }
 //-----------------------------------------------------------------------------
 
@@ -230,11 +233,21 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       bm.stop("client");
       std::cout << EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST << ". Client computation request step required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
       
-      this->send(*sender, &msgToClient);
+      try {
+        this->send(*sender, &msgToClient);
+      } catch (ProtocolException &e) {
+        // Nobody owns a refused answer
+        delete [] (NTL::vec_ZZ_p *) msgToClient.getData();
+        throw;
+      }
       break;
       
     case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
       bm.start();
+      // (this replaces an answer which is still waiting for its counterpart)
+      if (t != msg->getData()) {
+        delete [] t;
+      }
       t = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
       std::cout << "I, " << id << ", received \"" << t[0][0] << ", ...\" from " << sender->getId() << "." << std::endl;
@@ -252,6 +265,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       
     case EOPSI_MESSAGE_POLYNOMIAL:
       bm.start();
+      // (this replaces an answer which is still waiting for its counterpart)
+      if (q != msg->getData()) {
+        delete [] q;
+      }
       q = (NTL::vec_ZZ_p *) msg->getData();
       // Reception feedback
       std::cout << "I, " << id << ", received \"" << q[0][0] << ", ...\" from " << sender->getId() << "." << std::endl;
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index fbdbaf0..9cb5dfc 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -90,7 +90,13 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       bm.stop();
       std::cout << EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST << ". Cloud computation request required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
       
-      this->send(*getPartyById(partnerId), &msgToClient);
+      try {
+        this->send(*getPartyById(partnerId), &msgToClient);
+      } catch (ProtocolException &e) {
+        // Nobody owns a refused answer
+        delete [] t;
+        throw;
+      }
       delete [] (byte *) msg->getData();
       break;
       
-- 
2.43.0


From 7cd731b02feab1095289a364d344bc99690c3cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 30/34] fix: a client without data aborted the program when it
 got both answers

---
 src/libeopsi/eopsiclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 79b56c8..de091c9 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -599,7 +599,7 @@ bool EOPSIClient::intersect(const bool showStats) {
   }
   
   // Not secret unknowns
-  unknowns = this->getUnknowns();
+  unknowns = this->getUnknowns(this->degree);
   
 //   std::cout << "length: " << this->length << std::endl;
     
-- 
2.43.0


From 06bd813f43f85659a60f4972ff87402c6cf52431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:45 +0000
Subject: [PATCH 31/34] fix: readableDigest() went on with an uninitialised
 pointer when out of memory

---
 src/libeopsi/hashalgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopsi/hashalgorithm.hpp b/src/libeopsi/hashalgorithm.hpp
index ef8df6b..7f509f6 100644
--- a/src/libeopsi/hashalgorithm.hpp
+++ b/src/libeopsi/hashalgorithm.hpp
@@ -52,6 +52,7 @@ public:
       stringSink = new CryptoPP::StringSink(output);
     } catch(std::bad_alloc&) {
       std::cerr << "readableHash(). Unable to allocate memory." << std::endl;
+      exit(2);
     }
     
     encoder.Attach(stringSink);
-- 
2.43.0


From 4715f96ae3900e48ac7c2ff6c1fa23e3d7e3208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:45 +0000
Subject: [PATCH 32/34] fix: after an allocation failed, the hash algorithms
 hashed truncated or empty strings

---
 src/libeopsi/murmurhash3.cpp | 2 ++
 src/libeopsi/shazzp.cpp      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index b9f4fb6..a989b17 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -453,6 +453,8 @@ size_t MurmurHash3::hashSize() const {
 byte* MurmurHash3::hash(const NTL::ZZ_p n, const size_t len) {
   size_t truncLen;
   
+  zzStreamString.clear();
+  zzStreamString.exceptions(std::ios_base::badbit); // Do not hash truncated strings when out of memory
   zzStreamString.str(std::string()); // Clear stream string
   zzStreamString << n;
   zzString = zzStreamString.str();
diff --git a/src/libeopsi/shazzp.cpp b/src/libeopsi/shazzp.cpp
index 5e1915c..be0aa8b 100644
--- a/src/libeopsi/shazzp.cpp
+++ b/src/libeopsi/shazzp.cpp
@@ -19,6 +19,8 @@ SHAZZp::~SHAZZp() {
 
 byte* SHAZZp::hash(NTL::ZZ_p n, const size_t len) {
   size_t truncLen;
+  zzStreamString.clear();
+  zzStreamString.exceptions(std::ios_base::badbit); // Do not hash truncated strings when out of memory
   zzStreamString.str(std::string()); // Clear stream string
   zzStreamString << n;
   zzString = zzStreamString.str();
-- 
2.43.0


From e30f5e6b9d3a9ec614fdaa95299ebbbc8912e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:45 +0000
Subject: [PATCH 33/34] fix: StrInt::toString() gave truncated numbers when out
 of memory

---
 src/libeopsi/strint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index 3dda8b9..379a2c9 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -152,6 +152,7 @@ void StrInt::add(const unsigned long n) {
 
 std::string StrInt::toString() const {
   std::stringstream sstr;
+  sstr.exceptions(std::ios_base::badbit); // Do not give truncated strings when out of memory
   sstr << this->z;
   return sstr.str();
 }
-- 
2.43.0


From a07e8b39457ed21b7bc0fb083944bdfb459be6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:37 +0000
Subject: [PATCH 34/34] fix: the name of a SHA algorithm was truncated when out
 of memory

---
 src/libeopsi/shazzp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libeopsi/shazzp.cpp b/src/libeopsi/shazzp.cpp
index be0aa8b..01197c6 100644
--- a/src/libeopsi/shazzp.cpp
+++ b/src/libeopsi/shazzp.cpp
@@ -33,6 +33,7 @@ byte* SHAZZp::hash(NTL::ZZ_p n, const size_t len) {
 
 std::string SHAZZp::name() const {
   std::ostringstream sstr;
+  sstr.exceptions(std::ios_base::badbit); // Do not give truncated names when out of memory
   sstr << "SHA" << (this->flavour) << " for integers modulo p";
   return sstr.str();
 }
-- 
2.43.0

