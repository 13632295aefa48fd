From 0750e03e0cdc4981317c3ea0ffd870027d5df058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/45] fix: UTF-8 string length prefix counts bytes, not
 characters

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 +++-
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 57a518d..a85d13d 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -170,7 +170,9 @@ def readInt16(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  if type(data) != type(b""):
+    data = bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6bc45aa..d966bf1 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -382,7 +382,9 @@ def readInt32(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  if type(data) != type(b""):
+    data = bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
-- 
2.43.0


From 289e6a24193ab51fcac63b2ac0db8deb01f84e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/45] fix: CONNECT user name and password flags are bits 7
 and 6

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 +-
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index a85d13d..a739a54 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -245,7 +245,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanSession << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.usernameFlag << 7) | (self.passwordFlag << 6)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += writeUTF(self.ClientIdentifier)
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index d966bf1..6fb9bdb 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -700,7 +700,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanStart << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.usernameFlag << 7) | (self.passwordFlag << 6)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += self.properties.pack()
-- 
2.43.0


From e3c7f0d6592c9f5715b531847f480f9124be21ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 03/45] fix: MQTT 3.1.1 packets containing non-ASCII strings
 are parsed correctly

---
 .../mqtt/formats/MQTTV311/MQTTV311.py          | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index a739a54..960974f 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -195,6 +195,10 @@ def readUTF(buffer, maxlen):
     logger.info("[MQTT-1.5.3-3] U+FEFF in UTF string")
   return buf
 
+def lenUTF(data):
+  # the number of bytes a UTF-8 string takes up in a packet, including its length prefix
+  return len(bytes(data, "utf-8")) + 2
+
 def writeBytes(buffer):
   return writeInt16(len(buffer)) + buffer
 
@@ -273,7 +277,7 @@ class Connects(Packets):
       assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
 
       self.ProtocolName = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ProtocolName) + 2
+      curlen += lenUTF(self.ProtocolName)
       assert self.ProtocolName == "MQTT", "Wrong protocol name %s" % self.ProtocolName
 
       self.ProtocolVersion = buffer[curlen]
@@ -300,11 +304,11 @@ class Connects(Packets):
       logger.info("[MQTT-3.1.3-3] Clientid must be present, and first field")
       logger.info("[MQTT-3.1.3-4] Clientid must be Unicode, and between 0 and 65535 bytes long")
       self.ClientIdentifier = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ClientIdentifier) + 2
+      curlen += lenUTF(self.ClientIdentifier)
 
       if self.WillFlag:
         self.WillTopic = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.WillTopic) + 2
+        curlen += lenUTF(self.WillTopic)
         self.WillMessage = readBytes(buffer[curlen:])
         curlen += len(self.WillMessage) + 2
         logger.info("[MQTT-3.1.2-9] will topic and will message fields must be present")
@@ -314,7 +318,7 @@ class Connects(Packets):
       if self.usernameFlag:
         assert len(buffer) > curlen+2, "Buffer too short to read username length"
         self.username = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.username) + 2
+        curlen += lenUTF(self.username)
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
       else:
         logger.info("[MQTT-3.1.2-18] username must not be in payload if user name flag is 0")
@@ -469,7 +473,7 @@ class Publishes(Packets):
     except UnicodeDecodeError:
       logger.info("[MQTT-3.3.2-1] topic name in publish must be utf-8")
       raise
-    curlen += len(self.topicName) + 2
+    curlen += lenUTF(self.topicName)
     if self.fh.QoS != 0:
       self.messageIdentifier = readInt16(buffer[curlen:])
       logger.info("[MQTT-2.3.1-1] packet indentifier must be in publish if QoS is 1 or 2")
@@ -681,7 +685,7 @@ class Subscribes(Packets):
     self.data = []
     while leftlen > 0:
       topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      leftlen -= lenUTF(topic)
       qos = buffer[-leftlen]
       assert qos in [0, 1, 2], "[MQTT-3-8.3-2] reserved bits must be zero"
       leftlen -= 1
@@ -786,7 +790,7 @@ class Unsubscribes(Packets):
     self.data = []
     while leftlen > 0:
       topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      leftlen -= lenUTF(topic)
       self.data.append(topic)
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
-- 
2.43.0


From ecbcbeecabf7d0e2619903ad86f5d3261ee1561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 04/45] fix: MQTT 5 acknowledgements which have properties are
 accepted

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6fb9bdb..a7d54e1 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1107,7 +1107,7 @@ class Acks(Packets):
     assert len(buffer) >= 2
     assert PacketType(buffer) == self.ackType
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
-    assert self.fh.remainingLength in [2, 3, 4], \
+    assert self.fh.remainingLength >= 2, \
         "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     assert len(buffer) >= fhlen + self.fh.remainingLength
     self.packetIdentifier = readInt16(buffer[fhlen:])
@@ -1126,7 +1126,9 @@ class Acks(Packets):
       self.reasonCode.unpack(buffer[curlen:])
       curlen += 1
     if self.fh.remainingLength > 3:
-      self.properties.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == fhlen + self.fh.remainingLength, \
+        "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     return fhlen + self.fh.remainingLength
 
   def __str__(self):
-- 
2.43.0


From 3dee936fa8ad1e3b7af8b1b5808c2bba813f4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 05/45] fix: MQTT 5 SUBACK and UNSUBACK accept all their reason
 codes

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index a7d54e1..29ee172 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1338,8 +1338,7 @@ class UnsubSubacks(Packets):
         reasonCode = ReasonCodes(self.packetType, "Granted QoS 0")
       else:
         reasonCode = ReasonCodes(self.packetType, "Success")
-      reasonCode.unpack(buffer[-leftlen:])
-      assert reasonCode.value in [0, 1, 2, 0x80], "[MQTT5-3.9.3-2] return code in QoS must be 0, 1, 2 or 0x80"
+      reasonCode.unpack(buffer[-leftlen:]) # raises an error if not valid for this packet type
       leftlen -= 1
       self.reasonCodes.append(reasonCode)
     assert leftlen == 0
-- 
2.43.0


From 8214f91afe8268a5ad548197e2ceefff8fd202a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 06/45] fix: import traceback, used when a CONNECT packet is
 malformed

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 29ee172..8a67674 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -24,7 +24,7 @@ so that the tests that use this package can send invalid data for error testing.
 
 """
 
-import logging, struct
+import logging, struct, traceback
 
 logger = logging.getLogger('MQTT broker')
 
-- 
2.43.0


From b6e94d9df68dea06db6edef2461775d1faa9c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 07/45] fix: equality of MQTT 5 packets compares the contents
 of their properties, reason codes and options

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 8a67674..819c8b7 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -135,6 +135,10 @@ class ReasonCodes:
   def getName(self):
     return self.__getName__(self.packetType, self.value)
 
+  def __eq__(self, other):
+    return isinstance(other, ReasonCodes) and \
+           self.packetType == other.packetType and self.value == other.value
+
   def __str__(self):
     return self.getName()
 
@@ -556,6 +560,10 @@ class Properties(object):
           data[compressedName] = str(data[compressedName])
     return data
 
+  def __eq__(self, other):
+    return isinstance(other, Properties) and self.packetType == other.packetType and \
+           self.pack() == other.pack()
+
   def isEmpty(self):
     rc = True
     for name in self.names.keys():
@@ -1190,6 +1198,9 @@ class SubscribeOptions(object):
       raise MQTTException(name + " Attribute name must be one of "+str(self.names))
     object.__setattr__(self, name, value)
 
+  def __eq__(self, other):
+    return isinstance(other, SubscribeOptions) and self.json() == other.json()
+
   def pack(self):
     assert self.QoS in [0, 1, 2]
     assert self.retainHandling in [0, 1, 2], "Retain handling should be 0, 1 or 2"
@@ -1365,7 +1376,7 @@ class UnsubSubacks(Packets):
   def __eq__(self, packet):
     return Packets.__eq__(self, packet) and \
            self.packetIdentifier == packet.packetIdentifier and \
-           self.data == packet.data
+           self.reasonCodes == packet.reasonCodes
 
 
 class Subacks(UnsubSubacks):
-- 
2.43.0


From 8f3981fc41734bff9827648e60e2ae0a94dee3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 08/45] fix: a zero length user name or password at the end of
 a CONNECT is accepted

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 ++--
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 960974f..7ef5db8 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -316,7 +316,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username = readUTF(buffer[curlen:], packlen - curlen)
         curlen += lenUTF(self.username)
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
@@ -325,7 +325,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password = readBytes(buffer[curlen:])
         curlen += len(self.password) + 2
         logger.info("[MQTT-3.1.2-21] password must be in payload if password flag is 0")
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 819c8b7..f2f8d65 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -788,7 +788,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-17] username must be in payload if user name flag is 1")
@@ -798,7 +798,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password, valuelen = readBytes(buffer[curlen:])
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-19] password must be in payload if password flag is 1")
-- 
2.43.0


From 956eaadb69b9e310ad3cc3080ecaa318b80737ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 09/45] fix: MQTT 5 allows a password without a user name

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index f2f8d65..8ef0d14 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -795,7 +795,6 @@ class Connects(Packets):
         logger.info("[MQTT5-3.1.3-12] username must be next and UTF-8 encoded string")
       else:
         logger.info("[MQTT5-3.1.2-16] username must not be in payload if user name flag is 0")
-        assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
         assert len(buffer) >= curlen+2, "Buffer too short to read password length"
-- 
2.43.0


From 5d16ffd1cb14289c48422233bd2a5ea8ac350486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 10/45] fix: MQTT 5 property lengths of 128 or more are parsed
 correctly

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 8ef0d14..506f47a 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -651,8 +651,8 @@ class Properties(object):
   def unpack(self, buffer):
     self.clear()
     # deserialize properties into attributes from buffer received from network
-    propslen, VBIlen = VBIs.decode(buffer)
-    buffer = buffer[VBIlen:] # strip the bytes used by the VBI
+    propslen, propslenVBIlen = VBIs.decode(buffer)
+    buffer = buffer[propslenVBIlen:] # strip the bytes used by the VBI
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
       identifier, VBIlen = VBIs.decode(buffer) # property identifier
@@ -667,7 +667,7 @@ class Properties(object):
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
         raise MQTTException("Property '%s' must not exist more than once" % property)
       setattr(self, propname, value)
-    return self, propslen + VBIlen
+    return self, propslen + propslenVBIlen
 
 
 class Connects(Packets):
-- 
2.43.0


From 13dbf3ce429d7d0f3007616dc43a28d0eff21a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 11/45] fix: variable byte integers longer than 4 bytes are
 rejected when parsing packets

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 ++
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 7ef5db8..b62b4e4 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -158,6 +158,8 @@ class FixedHeaders:
       value += (digit & 127) * multiplier
       if digit & 128 == 0:
         break
+      if bytes == 4:
+        raise MQTTException("Remaining length is longer than 4 bytes")
       multiplier *= 128
     return (value, bytes)
 
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 506f47a..9c56351 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -269,6 +269,8 @@ class VBIs:  # Variable Byte Integer
       value += (digit & 127) * multiplier
       if digit & 128 == 0:
         break
+      if bytes == 4:
+        raise MalformedPacket("Variable byte integer is longer than 4 bytes")
       multiplier *= 128
     assert len(VBIs.encode(value)) == bytes, "[MQTT5-1.5.5-1] The encoded value MUST use the minimum number of bytes necessary"
     return (value, bytes)
-- 
2.43.0


From b8eac11259d006a8f25c999127fdbc7da4ce57fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 12/45] fix: binary data which is longer than the packet
 holding it is rejected

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 ++
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index b62b4e4..b36ea0c 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -206,6 +206,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if length > len(buffer) - 2:
+    raise MQTTException("Length delimited data too long")
   return buffer[2:2+length]
 
 
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 9c56351..e88b3c8 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -418,6 +418,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if length > len(buffer) - 2:
+    raise MalformedPacket("Length delimited data too long")
   return buffer[2:2+length], length+2
 
 
-- 
2.43.0


From 99cdeaf77e20aa8a80388add5baeaf58655949ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 13/45] fix: properties which are unknown or extend beyond
 their property length are rejected as malformed

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index e88b3c8..b8140ea 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -657,11 +657,16 @@ class Properties(object):
     # deserialize properties into attributes from buffer received from network
     propslen, propslenVBIlen = VBIs.decode(buffer)
     buffer = buffer[propslenVBIlen:] # strip the bytes used by the VBI
+    if propslen > len(buffer):
+      raise MalformedPacket("Property length %d is too long" % propslen)
+    buffer = buffer[:propslen] # properties must not extend beyond the property length
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
       identifier, VBIlen = VBIs.decode(buffer) # property identifier
       buffer = buffer[VBIlen:] # strip the bytes used by the VBI
       propslenleft -= VBIlen
+      if identifier not in self.properties:
+        raise MalformedPacket("Unknown property identifier %d" % identifier)
       attr_type = self.properties[identifier][0]
       value, valuelen = self.readProperty(buffer, attr_type, propslenleft)
       buffer = buffer[valuelen:] # strip the bytes used by the value
@@ -669,7 +674,7 @@ class Properties(object):
       propname = self.getNameFromIdent(identifier)
       compressedName = propname.replace(' ', '')
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
-        raise MQTTException("Property '%s' must not exist more than once" % property)
+        raise ProtocolError("Property '%s' must not exist more than once" % propname)
       setattr(self, propname, value)
     return self, propslen + propslenVBIlen
 
-- 
2.43.0


From d29e7452ba4f531cccacf540da57195185935199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 14/45] fix: the error for a property which does not apply to a
 will message can be raised

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index b8140ea..f15559e 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -533,7 +533,7 @@ class Properties(object):
       # check that this attribute applies to the packet type
       if self.packetType not in self.properties[self.getIdentFromName(name)][1]:
         raise MQTTException("Property %s does not apply to packet type %s"
-            % (name, Packets.Names[self.packetType]) )
+            % (name, Packets.Names[self.packetType] if self.packetType in PacketTypes.indexes else "Will message") )
       if self.allowsMultiple(name):
         if type(value) != type([]):
           value = [value]
-- 
2.43.0


From f3ecad72713d85581a43714ef71f17081ba80055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 15/45] fix: fields are not read from beyond the end of a
 packet

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 ++
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index b36ea0c..8e8c143 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -905,6 +905,8 @@ classes = [None, Connects, Connacks, Publishes, Pubacks, Pubrecs,
 def unpackPacket(buffer):
   if MessageType(buffer) != None:
     packet = classes[MessageType(buffer)]()
+    remainingLength, lengthLen = packet.fh.decode(buffer[1:])
+    buffer = buffer[:1 + lengthLen + remainingLength] # don't read beyond the end of the packet
     packet.unpack(buffer)
   else:
     packet = None
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index f15559e..de29053 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1652,6 +1652,8 @@ classes = [Connects, Connacks, Publishes, Pubacks, Pubrecs,
 def unpackPacket(buffer, maximumPacketSize=MAX_PACKET_SIZE):
   if PacketType(buffer) != None:
     packet = classes[PacketType(buffer)-1]()
+    remainingLength, lengthLen = VBIs.decode(buffer[1:])
+    buffer = buffer[:1 + lengthLen + remainingLength] # don't read beyond the end of the packet
     packet.unpack(buffer, maximumPacketSize=maximumPacketSize)
   else:
     packet = None
-- 
2.43.0


From 882ab73eaf7fead298acd6137053c159119d3b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 16/45] fix: malformed CONNACK, SUBSCRIBE, UNSUBSCRIBE and
 UNSUBACK packets are rejected

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 ++
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 8e8c143..78bdd5f 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -796,6 +796,7 @@ class Unsubscribes(Packets):
       topic = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= lenUTF(topic)
       self.data.append(topic)
+    assert len(self.data) > 0, "[MQTT-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
     assert self.fh.QoS == 1, "[MQTT-2.1.2-1]"
@@ -835,6 +836,7 @@ class Unsubacks(Packets):
     assert MessageType(buffer) == UNSUBACK
     fhlen = self.fh.unpack(buffer)
     assert len(buffer) >= fhlen + self.fh.remainingLength
+    assert self.fh.remainingLength == 2, "Unsuback packet is wrong length %d" % self.fh.remainingLength
     self.messageIdentifier = readInt16(buffer[fhlen:])
     assert self.messageIdentifier > 0, "[MQTT-2.3.1-1] packet indentifier must be > 0"
     self.messageIdentifier = readInt16(buffer[fhlen:])
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index de29053..f45c62b 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -917,6 +917,7 @@ class Connacks(Packets):
     curlen += 1
     curlen += self.reasonCode.unpack(buffer[curlen:])
     curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == len(buffer), "CONNACK packet is wrong length %d" % self.fh.remainingLength
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1]"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1]"
@@ -1220,6 +1221,7 @@ class SubscribeOptions(object):
 
   def unpack(self, buffer):
     b0 = buffer[0]
+    assert b0 & 0xC0 == 0, "[MQTT5-3.8.3-5] reserved bits in subscribe options must be zero"
     self.retainHandling = ((b0 >> 4) & 0x03)
     self.retainAsPublished = True if ((b0 >> 3) & 0x01) == 1 else False
     self.noLocal = True if ((b0 >> 2) & 0x01) == 1 else False
@@ -1433,6 +1435,7 @@ class Unsubscribes(Packets):
       topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= topiclen
       self.topicFilters.append(topic)
+    assert len(self.topicFilters) > 0, "[MQTT5-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 1, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From ee614c6f54db525e06bdd916ea97af7d47305dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 17/45] fix: an AUTH packet without a reason code is accepted

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index f45c62b..99d770b 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1625,8 +1625,9 @@ class Auths(Packets):
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1] AUTH reserved bits must be 0"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1] AUTH reserved bits must be 0"
     curlen = fhlen
-    curlen += self.reasonCode.unpack(buffer[curlen:])
-    curlen += self.properties.unpack(buffer[curlen:])[1]
+    if self.fh.remainingLength > 0: # the reason code and properties can be omitted
+      curlen += self.reasonCode.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
     assert curlen == fhlen + self.fh.remainingLength, \
             "AUTH packet is wrong length %d %d" % (self.fh.remainingLength, curlen)
     return fhlen + self.fh.remainingLength
-- 
2.43.0


From 5c866e8eb66922d0cf72dfe2c72db754b3ea6f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 18/45] fix: truncated CONNACK packets are rejected

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 8 ++++----
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 78bdd5f..6050cac 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -400,11 +400,11 @@ class Connacks(Packets):
   def unpack(self, buffer):
     assert len(buffer) >= 4
     assert MessageType(buffer) == CONNACK
-    self.fh.unpack(buffer)
+    fhlen = self.fh.unpack(buffer)
     assert self.fh.remainingLength == 2, "Connack packet is wrong length %d" % self.fh.remainingLength
-    assert buffer[2] in  [0, 1], "Connect Acknowledge Flags"
-    self.flags = buffer[2]
-    self.returnCode = buffer[3]
+    assert buffer[fhlen] in  [0, 1], "Connect Acknowledge Flags"
+    self.flags = buffer[fhlen]
+    self.returnCode = buffer[fhlen + 1]
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
     assert self.fh.QoS == 0, "[MQTT-2.1.2-1]"
     assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 99d770b..e9f41d2 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -911,13 +911,14 @@ class Connacks(Packets):
   def unpack(self, buffer, maximumPacketSize):
     assert len(buffer) >= 4
     assert PacketType(buffer) == PacketTypes.CONNACK
-    curlen = self.fh.unpack(buffer, maximumPacketSize)
+    fhlen = curlen = self.fh.unpack(buffer, maximumPacketSize)
+    assert len(buffer) >= fhlen + self.fh.remainingLength
     assert buffer[curlen] in [0, 1], "Connect Acknowledge Flags"
     self.sessionPresent = (buffer[curlen] == 0x01)
     curlen += 1
     curlen += self.reasonCode.unpack(buffer[curlen:])
     curlen += self.properties.unpack(buffer[curlen:])[1]
-    assert curlen == len(buffer), "CONNACK packet is wrong length %d" % self.fh.remainingLength
+    assert curlen == fhlen + self.fh.remainingLength, "CONNACK packet is wrong length %d" % self.fh.remainingLength
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1]"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From 2d20057366d3bff6d691776ebc7626fa2d583a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 19/45] fix: the + wildcard matches empty topic levels, and
 topics can contain line ends

---
 interoperability/mqtt/brokers/V311/Topics.py | 4 ++--
 interoperability/mqtt/brokers/V5/Topics.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Topics.py b/interoperability/mqtt/brokers/V311/Topics.py
index 396c51f..004e4d8 100644
--- a/interoperability/mqtt/brokers/V311/Topics.py
+++ b/interoperability/mqtt/brokers/V311/Topics.py
@@ -85,8 +85,8 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    wild = wild.replace('+', '[^/]*') # + matches one level, which can be empty
+    if re.compile(wild, re.DOTALL).fullmatch(nonwild) != None:
       rc = True
   return rc
 
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 3ca6b9d..5166736 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -90,8 +90,8 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    wild = wild.replace('+', '[^/]*') # + matches one level, which can be empty
+    if re.compile(wild, re.DOTALL).fullmatch(nonwild) != None:
       rc = True
   return rc
 
-- 
2.43.0


From 3e17e5fa1bf3daafacfbf3a7e906758a07d8bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 20/45] fix: invalid MQTT 5 shared subscription filters and
 subscription identifiers are rejected

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 18 +++++++++++++-
 .../mqtt/brokers/V5/SubscriptionEngines.py    |  5 ++--
 interoperability/mqtt/brokers/V5/Topics.py    | 24 +++++++++++++++----
 3 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index a75c9a0..de5a291 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -21,6 +21,7 @@ import traceback, random, sys, string, copy, threading, logging, socket, time, u
 
 from mqtt.formats import MQTTV5
 
+from . import Topics
 from .Brokers import Brokers
 
 logger = logging.getLogger('MQTT broker')
@@ -550,6 +551,16 @@ class MQTTBrokers:
     topics = []
     optionss = []
     respqoss = []
+    for topicFilter, subsoption in packet.data:
+      try:
+        Topics.isValidTopicFilter(topicFilter)
+      except:
+        raise MQTTV5.ProtocolError("Topic filter invalid")
+      if subsoption.noLocal and topicFilter.startswith("$share/"):
+        raise MQTTV5.ProtocolError("[MQTT-3.8.3-4] no local must not be set on a shared subscription")
+    for subsid in getattr(packet.properties, "SubscriptionIdentifier", []):
+      if subsid == 0:
+        raise MQTTV5.ProtocolError("[MQTT-3.8.2.1.2] subscription identifier must not be 0")
     for topicFilter, subsoption in packet.data:
       QoS = subsoption.QoS
       if topicFilter == "test/nosubscribe":
@@ -579,6 +590,11 @@ class MQTTBrokers:
     respond(sock, resp)
 
   def unsubscribe(self, sock, packet):
+    for topicFilter in packet.topicFilters:
+      try:
+        Topics.isValidTopicFilter(topicFilter)
+      except:
+        raise MQTTV5.ProtocolError("Topic filter invalid")
     reasonCodes = self.broker.unsubscribe(self.clients[sock].id, packet.topicFilters)
     resp = MQTTV5.Unsubacks()
     logger.info("[MQTT5-2.2.1-6-unsuback] Unsuback has same message id as unsubscribe")
@@ -596,7 +612,7 @@ class MQTTBrokers:
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
-      raise MQTTV5.AcksProtocolError("Topic name invalid %s" % packet.topicName)
+      raise MQTTV5.ProtocolError("Topic name invalid")
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index a4a1db1..d6367b0 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -26,7 +26,7 @@ from .Subscriptions import *
 logger = logging.getLogger('MQTT broker')
 
 def isDollarTopic(name):
-  return name[0] == '$' and not name.startswith('$share/')
+  return Topics.unshared(name).startswith('$')
 
 class SubscriptionEngines:
 
@@ -92,7 +92,8 @@ class SubscriptionEngines:
            matchedAny = matched
      else:
        matchedAny = self.__unsubscribe(aClientid, aTopic)
-       rc.append(ReasonCodes(UNSUBACK, "Success") if matched else ReasonCodes(UNSUBACK, "No subscription found"))
+       rc.append(MQTTV5.ReasonCodes(MQTTV5.PacketTypes.UNSUBACK, "Success") if matchedAny else
+                 MQTTV5.ReasonCodes(MQTTV5.PacketTypes.UNSUBACK, "No subscription found"))
      if not matchedAny:
        logger.info("[MQTT-3.10.4-5] Unsuback must be sent even if no topics are matched")
      return rc
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 5166736..6c35a28 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -23,6 +23,24 @@ from mqtt.formats import MQTTV311 as MQTTV3
 logger = logging.getLogger('MQTT broker')
 
  
+def unshared(aFilter):
+  "returns the topic filter part of a shared subscription filter: $share/sharename/filter"
+  if aFilter.startswith('$share/') and aFilter.count('/') >= 2:
+    aFilter = aFilter.split('/', 2)[2]
+  return aFilter
+
+
+def isValidTopicFilter(aName):
+  rc = isValidTopicName(aName)
+  if aName.startswith('$share/'):
+    sharename = aName.split('/')[1]
+    if len(sharename) == 0 or sharename.find('+') != -1 or sharename.find('#') != -1:
+      raise MQTTV3.MQTTException("[MQTT-4.8.2-1] [MQTT-4.8.2-2] share name must be at least 1 char and have no wildcards")
+    if aName.count('/') < 2 or len(unshared(aName)) == 0:
+      raise MQTTV3.MQTTException("[MQTT-4.8.2-2] share name must be followed by / and a topic filter")
+  return rc
+
+
 def isValidTopicName(aName):
   logger.info("[MQTT-4.7.3-1] all topic names and filters must be at least 1 char")
   if len(aName) < 1:
@@ -65,10 +83,8 @@ def topicMatches(wild, nonwild, wildCheck=True):
     assert nonwild.find('+') == nonwild.find('#') == -1
   assert isValidTopicName(wild) and isValidTopicName(nonwild)
 
-  if wild.startswith('$share'):
-    # strip shared prefix $share/sharename/
-    assert wild.count('/') >= 2
-    wild = wild.split('/', 2)[2]
+  # strip shared prefix $share/sharename/
+  wild = unshared(wild)
 
   rc = False
   if wild.find('+') == wild.find('#') == -1:
-- 
2.43.0


From 8e81df857bc6ebb9bc1abcc2ad757d415dacbc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 21/45] fix: messages are delivered according to all the
 matching MQTT 5 subscriptions, including from MQTT 3 publishers

Each subscriber gets its own copy of the properties, no local, retain as published and
subscription identifiers are evaluated over the matching subscriptions, shared and non-shared
subscriptions are delivered separately.
---
 interoperability/mqtt/brokers/V311/Brokers.py |  33 +++--
 interoperability/mqtt/brokers/V5/Brokers.py   | 132 ++++++++----------
 .../mqtt/brokers/V5/MQTTBrokers.py            |  13 +-
 3 files changed, 87 insertions(+), 91 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 143fb78..965b952 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -106,25 +106,34 @@ class Brokers:
     else:
       logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
 
+    self.deliver(topic, message, qos, retained)
+    if self.__broker5:
+      self.__broker5.deliver(aClientid, topic, message, qos, retained, None, receivedTime)
+
+  def deliver(self, topic, message, qos, retained=False):
+    """deliver a message to the MQTT V3 subscribers of a topic
+       returns the ids of the clients it has been delivered to
+    """
+    subscribed_clients = []
     for subscriber in self.se.subscribers(topic):  # all subscribed clients
+      # V5 subscriptions have options, they are dealt with by the V5 broker
+      subscriptions = [s for s in self.se.getSubscriptions(topic, subscriber) if not hasattr(s, "getOptions")]
+      if len(subscriptions) == 0 or subscriber not in self.__clients.keys():
+        continue
+      subscribed_clients.append(subscriber)
       # qos is lower of publication and subscription
-      if len(self.se.getSubscriptions(topic, subscriber)) > 1:
+      if len(subscriptions) > 1:
         logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
       if retained:
         logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
-      if self.overlapping_single:   
-        out_qos = min(self.se.qosOf(subscriber, topic), qos)
-        if subscriber in self.__clients.keys(): 
-          self.__clients[subscriber].publishArrived(topic, message, out_qos)
-        else:
-          self.__broker5.getClient(subscriber).publishArrived(topic, message, out_qos, None, None)
+      if self.overlapping_single:
+        out_qos = min(max([s.getQoS() for s in subscriptions]), qos)
+        self.__clients[subscriber].publishArrived(topic, message, out_qos)
       else:
-        for subscription in self.se.getSubscriptions(topic, subscriber):
+        for subscription in subscriptions:
           out_qos = min(subscription.getQoS(), qos)
-          if subscriber in self.__clients.keys():         
-            self.__clients[subscriber].publishArrived(topic, message, out_qos)
-          else:
-            self.__broker5.getClient(subscriber).publishArrived(topic, message, out_qos, None, None)
+          self.__clients[subscriber].publishArrived(topic, message, out_qos)
+    return subscribed_clients
 
   def __doRetained__(self, aClientid, topic, qos):
     # topic can be single, or a list
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 831c6a8..8e39382 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -16,7 +16,7 @@
 *******************************************************************
 """
 
-import types, time, logging, random
+import types, time, logging, random, copy
 
 from . import Topics
 from .SubscriptionEngines import SubscriptionEngines
@@ -121,19 +121,6 @@ class Brokers:
        also to any disconnected non-cleanstart clients with qos in [1,2]
     """
 
-    def publishAction(options, subsprops, subsids=None):
-      if hasattr(properties, "SubscriptionIdentifier"):
-        delattr(properties, "SubscriptionIdentifier")
-      if subsids or hasattr(subsprops, "SubscriptionIdentifier"):
-        if subsids:
-          for subsid in subsids:
-            properties.SubscriptionIdentifier = subsid
-        else:
-          properties.SubscriptionIdentifier = subsprops.SubscriptionIdentifier[0]
-      out_qos = min(options.QoS, qos)
-      outretain = retained if options.retainAsPublished else False
-      self.__clients[subscriber].publishArrived(topic, message, out_qos, properties, receivedTime, outretain)
-
     # topic alias
     if hasattr(properties, "TopicAlias"):
       if properties.TopicAlias == 0:
@@ -150,71 +137,65 @@ class Brokers:
 
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
-      self.se.setRetained(topic, message, qos, receivedTime, properties)
+      self.se.setRetained(topic, message, qos, receivedTime, copy.deepcopy(properties))
     else:
       logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
 
-    subscriptions = self.se.subscriptions(topic)
-    # For shared subscriptions, there is only one recipient
-    nonshared = [s for s in list(subscriptions) if not s.getTopic().startswith('$share/')]
-    shared = [s for s in list(subscriptions) if s.getTopic().startswith('$share/')]
+    subscribed_clients = self.deliver(aClientid, topic, message, qos, retained, properties, receivedTime)
+    if self.__broker3:
+      subscribed_clients += self.__broker3.deliver(topic, message, qos, retained)
+    return subscribed_clients if len(subscribed_clients) > 0 else None
+
+  def deliver(self, aClientid, topic, message, qos, retained, properties, receivedTime):
+    """deliver a message to the MQTT V5 subscribers of a topic
+       returns the ids of the clients it has been delivered to
+    """
     subscriptions = []
-    clientids = set()
-    for n in nonshared:
-      if n.getClientid() not in clientids:
-        clientids.add(n.getClientid())
-        subscriptions.append(n)
-    sharenames = set()  # set of shared topic names
-    for s in shared:
-      sharenames.add(s.getTopic())
-    for sname in list(sharenames):
-      subscriptions.append(random.choice([s for s in shared if s.getTopic() == sname]))
-    
-    subscribed_clients = [s.getClientid() for s in subscriptions]
-    for subscriber in subscribed_clients:  # all subscribed clients
-      # qos is lower of publication and subscription
-      overlapping = False
-      subscriptions = self.se.getSubscriptions(topic, subscriber)
-      if len(subscriptions) > 1:
+    for subscription in self.se.getSubscriptions(topic):
+      # V3 subscriptions have no options, they are dealt with by the V3 broker
+      if hasattr(subscription, "getOptions") and subscription.getClientid() in self.__clients.keys():
+        if not subscription.getOptions()[0].noLocal or subscription.getClientid() != aClientid: # noLocal
+          subscriptions.append(subscription)
+    nonshared = {} # clientid -> subscriptions
+    shared = {} # shared subscription topic filter -> subscriptions
+    for s in subscriptions:
+      if s.getTopic().startswith('$share/'):
+        shared.setdefault(s.getTopic(), []).append(s)
+      else:
+        nonshared.setdefault(s.getClientid(), []).append(s)
+
+    deliveries = [] # the subscriptions which result in one message
+    for clientid in nonshared.keys():
+      if len(nonshared[clientid]) > 1:
         logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
-        overlapping = True
-      if retained:
-        logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
       if self.overlapping_single:
-        if subscriber in self.__clients.keys():
-          options, subsprops = self.se.optionsOf(subscriber, topic)
-          # any other subscription ids?
-          subsids = []
-          nolocalfilter = []
-          if overlapping:
-            for subscription in subscriptions:
-              subopts, subprops = subscription.getOptions()
-              if not subopts.noLocal or subscriber != aClientid: # noLocal
-                nolocalfilter.append(subscription)
-                if hasattr(subprops, "SubscriptionIdentifier"):
-                  subsids += subprops.SubscriptionIdentifier
-          else:
-            if not options.noLocal or subscriber != aClientid: # noLocal
-              nolocalfilter = subscriptions
-          if len(nolocalfilter) > 0:
-            publishAction(options, subsprops, subsids=subsids)
-        else:
-          # MQTT V3 subscription
-          out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
-          self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
+        deliveries.append(nonshared[clientid])
       else:
-        for subscription in subscriptions:
-          if subscriber in self.__clients.keys():
-            options, subsprops = subscription.getOptions()
-            if not options.noLocal or subscriber != aClientid: # noLocal
-              publishAction(options, subsprops)
-          else:
-            # MQTT V3 subscription
-            out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
-            self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
-    return subscribed_clients if len(subscribed_clients) > 0 else None
+        deliveries += [[s] for s in nonshared[clientid]]
+    # For shared subscriptions, there is only one recipient
+    for sharedTopic in shared.keys():
+      deliveries.append([random.choice(shared[sharedTopic])])
+
+    if retained:
+      logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
+    for delivery in deliveries:
+      # qos is lower of publication and subscription. If there are overlapping subscriptions, choose maximum QoS
+      options = delivery[0].getOptions()[0]
+      subsids = []
+      for subscription in delivery:
+        subopts, subprops = subscription.getOptions()
+        if subopts.QoS > options.QoS:
+          logger.info("[MQTT-3.3.5-1] Overlapping subscriptions max QoS")
+          options = subopts
+        if hasattr(subprops, "SubscriptionIdentifier"):
+          subsids += subprops.SubscriptionIdentifier
+      out_qos = min(options.QoS, qos)
+      outretain = retained if options.retainAsPublished else False
+      self.__clients[delivery[0].getClientid()].publishArrived(topic, message, out_qos, properties,
+              receivedTime, outretain, subsids)
+    return [delivery[0].getClientid() for delivery in deliveries]
 
-  def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds):
+  def __doRetained__(self, aClientid, topic, subsoptions, subsprops, resubscribeds):
     # topic can be single, or a list
     if type(topic) != type([]):
       topic = [topic]
@@ -222,7 +203,8 @@ class Brokers:
     i = 0
     for t in topic: # t is a wildcard subscription topic
       if subsoptions[i].retainHandling == 2 or \
-        (subsoptions[i].retainHandling == 1 and resubscribeds[i]):
+        (subsoptions[i].retainHandling == 1 and resubscribeds[i]) or \
+        t.startswith('$share/'): # retained messages are not sent for shared subscriptions
         i += 1
         continue
       topicsUsed = []
@@ -237,13 +219,15 @@ class Brokers:
           else:
             (ret_msg, ret_qos, receivedTime, properties) = retained_message
           thisqos = min(ret_qos, subsoptions[i].QoS)
-          self.__clients[aClientid].publishArrived(s, ret_msg, thisqos, properties, receivedTime, True)
+          self.__clients[aClientid].publishArrived(s, ret_msg, thisqos, properties, receivedTime, True,
+               getattr(subsprops[i], "SubscriptionIdentifier", []))
       i += 1
 
   def subscribe(self, aClientid, topic, optionsprops):
     rc = self.se.subscribe(aClientid, topic, optionsprops)
     resubscribeds = [resubscribed for (x, resubscribed) in rc]
-    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops], resubscribeds)
+    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops],
+            [props for (options, props) in optionsprops], resubscribeds)
     return rc
 
   def unsubscribe(self, aClientid, topic):
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index de5a291..9099568 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -167,12 +167,15 @@ class MQTTClients:
       self.outbound.append(self.queued.pop(0))
       self.sendFirst(self.outbound[-1])
 
-  def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False):
+  def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False, subsids=[]):
     pub = MQTTV5.Publishes()
-    if properties:
-      if hasattr(properties, 'TopicAlias'):
-        del properties.TopicAlias
-      pub.properties = properties
+    if properties: # each client has its own copy of the properties
+      for name in ["PayloadFormatIndicator", "MessageExpiryInterval", "ContentType",
+                   "ResponseTopic", "CorrelationData", "UserProperty"]:
+        if hasattr(properties, name):
+          setattr(pub.properties, name, copy.copy(getattr(properties, name)))
+    for subsid in subsids:
+      pub.properties.SubscriptionIdentifier = subsid
     logger.info("[MQTT-3.2.3-3] topic name must match the subscription's topic filter")
     # Topic alias
     if self.topicAliasMaximum == 0:
-- 
2.43.0


From 254822271e8a0092761d188dd63514424e80b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 22/45] fix: MQTT 5 outbound messages: aliases and expiry at
 sending time, receive maximum on resend, discarded messages

Topic aliases are assigned when a message is sent on the current connection, not when it is queued.
Discarded (expired or too big) messages don't use up the receive maximum, resending respects it.
Packet ids in use are not reused. An error PUBREC ends the exchange. Messages sent from the queue are not
added to the outbound list twice.
---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 150 ++++++++++++------
 1 file changed, 98 insertions(+), 52 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 9099568..d24494e 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -28,27 +28,38 @@ logger = logging.getLogger('MQTT broker')
 
 mybroker = None
 
-def respond(sock, packet, maximumPacketSize=500):
+def respond(sock, packet, maximumPacketSize=None):
+  "returns whether the packet was sent, rather than discarded"
+  if maximumPacketSize == None:
+    maximumPacketSize = mybroker.clients[sock].maximumPacketSize if sock in mybroker.clients.keys() else MQTTV5.MAX_PACKET_SIZE
   # deal with expiry
   if packet.fh.PacketType == MQTTV5.PacketTypes.PUBLISH:
     if hasattr(packet.properties, "MessageExpiryInterval"):
       timespent = int(time.monotonic() - packet.receivedTime)
       if timespent >= packet.properties.MessageExpiryInterval:
         logger.info("[MQTT-3.3.2-5] Delete expired message")
-        return
+        return False
       else:
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
           packet.properties.MessageExpiryInterval -= timespent
+          packet.receivedTime += timespent # in case this message is sent again
         except:
           traceback.print_exc()
   packed = packet.pack()
   # deal with packet size
   packlen = len(packed)
+  if packlen > maximumPacketSize and packet.fh.PacketType != MQTTV5.PacketTypes.PUBLISH and hasattr(packet, "properties"):
+    logger.info("[MQTT-3.14.2-3] reason string and user properties must not be sent if they make the packet too big")
+    for name in ["ReasonString", "UserProperty"]:
+      if hasattr(packet.properties, name):
+        delattr(packet.properties, name)
+    packed = packet.pack()
+    packlen = len(packed)
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
     logger.info("[MQTT5-3.1.2-25] message must be discarded and behave as if it had been sent")
-    return
+    return False
   if hasattr(sock, "fileno"):
     packet_string = str(packet)
     if len(packet_string) > 256:
@@ -78,6 +89,7 @@ def respond(sock, packet, maximumPacketSize=500):
         assert bytes_sent == len(packed)
     except:
       traceback.print_exc()
+  return True
 
 class MQTTClients:
 
@@ -99,6 +111,7 @@ class MQTTClients:
     self.queued = [] # queued message objects
     self.outbound = [] # message objects - for ordering
     self.outmsgs = {} # msgids to message objects
+    self.resending = [] # outbound message objects still to be sent again on this connection
     # inbound messages
     if broker.options["publish_on_pubrel"]:
       self.inbound = {} # stored inbound QoS 2 publications
@@ -115,57 +128,95 @@ class MQTTClients:
     self.topicAliasMaximum = 0 # for server topic aliases
     self.outgoingTopicNamesToAliases = []
 
+  def sendPub(self, pub):
+    "send a publish, returning whether it was sent, rather than discarded"
+    topic = pub.topicName
+    aliases = self.outgoingTopicNamesToAliases
+    # Topic alias
+    if self.topicAliasMaximum == 0:
+      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent")
+    newalias = False
+    if len(aliases) < self.topicAliasMaximum and not topic in aliases:
+      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max")
+      aliases.append(topic) # add alias - include topic name as well as alias first time
+      newalias = True
+    if topic in aliases:
+      pub.properties.TopicAlias = aliases.index(topic) + 1 # Topic aliases start at 1
+      if not newalias:
+        pub.topicName = ""
+    sent = respond(self.socket, pub, self.maximumPacketSize)
+    # an alias is only valid for this connection, and if the client gets the message which sets it
+    pub.topicName = topic
+    if hasattr(pub.properties, "TopicAlias"):
+      del pub.properties.TopicAlias
+    if newalias and not sent:
+      aliases.remove(topic)
+    return sent
+
   def resendPub(self, pub):
     logger.debug("resending %s", str(pub))
     logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
-    if pub.fh.QoS == 0:
-      respond(self.socket, pub, self.maximumPacketSize)
-    elif pub.fh.QoS == 1:
-      logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.packetIdentifier)
-      logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
+    logger.info("[MQTT-2.1.2-3] Dup when resending QoS %d publish id %d", pub.fh.QoS, pub.packetIdentifier)
+    logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
+    if pub.fh.QoS == 1:
       logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
-      respond(self.socket, pub, self.maximumPacketSize)
-      pub.fh.DUP = 1
-    elif pub.fh.QoS == 2:
-      if pub.qos2state == "PUBREC":
-        logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.packetIdentifier)
-        logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
-        logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
-        respond(self.socket, pub, self.maximumPacketSize)
-        pub.fh.DUP = 1
-      else:
-        resp = MQTTV5.Pubrels()
-        logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
-        resp.packetIdentifier = pub.packetIdentifier
-        respond(self.socket, resp, self.maximumPacketSize)
+    else:
+      logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
+    if not self.sendPub(pub):
+      self.removeOutbound(pub)
 
   def resend(self):
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
-      self.resendPub(pub)
+    self.resending = [pub for pub in self.outbound if pub.fh.QoS == 1 or pub.qos2state == "PUBREC"]
+    for pub in self.outbound[:]:
+      if pub.fh.QoS == 2 and pub.qos2state == "PUBCOMP":
+        resp = MQTTV5.Pubrels()
+        logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
+        resp.packetIdentifier = pub.packetIdentifier
+        respond(self.socket, resp, self.maximumPacketSize)
+      elif self.canSend():
+        self.resendPub(self.resending.pop(0))
     self.sendQueued()
 
+  def canSend(self):
+    "does the client's receive maximum allow another QoS 1 or 2 publish to be sent"
+    return len(self.outbound) - len(self.resending) < self.receiveMaximum
+
+  def removeOutbound(self, pub):
+    self.outbound.remove(pub)
+    if pub in self.resending:
+      self.resending.remove(pub)
+    del self.outmsgs[pub.packetIdentifier]
+
   def sendFirst(self, pub):
     if pub.fh.QoS in [1, 2]:
+      while self.msgid in self.outmsgs.keys():
+        self.nextMsgid()
       pub.packetIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
-      if self.msgid == MQTTV5.MAX_PACKETID:
-        self.msgid = 1
-      else:
-        self.msgid += 1
+      self.nextMsgid()
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-    respond(self.socket, pub, self.maximumPacketSize)
+    sent = self.sendPub(pub)
     if pub.fh.QoS > 0:
       pub.fh.DUP = 1
+      if not sent:
+        self.removeOutbound(pub)
+
+  def nextMsgid(self):
+    if self.msgid == MQTTV5.MAX_PACKETID:
+      self.msgid = 1
+    else:
+      self.msgid += 1
 
   def sendQueued(self):
-    while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
-      self.outbound.append(self.queued.pop(0))
-      self.sendFirst(self.outbound[-1])
+    while len(self.resending) > 0 and self.canSend():
+      self.resendPub(self.resending.pop(0))
+    while len(self.queued) > 0 and self.canSend():
+      self.sendFirst(self.queued.pop(0))
 
   def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False, subsids=[]):
     pub = MQTTV5.Publishes()
@@ -177,17 +228,7 @@ class MQTTClients:
     for subsid in subsids:
       pub.properties.SubscriptionIdentifier = subsid
     logger.info("[MQTT-3.2.3-3] topic name must match the subscription's topic filter")
-    # Topic alias
-    if self.topicAliasMaximum == 0:
-      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent") 
-    if len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum and not topic in self.outgoingTopicNamesToAliases:
-      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max") 
-      self.outgoingTopicNamesToAliases.append(topic)       # add alias
-      pub.topicName = topic # include topic name as well as alias first time
-    if topic in self.outgoingTopicNamesToAliases:
-      pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
-    else:
-      pub.topicName = topic
+    pub.topicName = topic
     pub.data = msg
     pub.fh.QoS = qos
     pub.fh.RETAIN = retained
@@ -198,7 +239,7 @@ class MQTTClients:
       logger.info("[MQTT-2.1.2-9] Set retained flag on retained messages")
     if qos == 2:
       pub.qos2state = "PUBREC"
-    if len(self.outbound) >= self.receiveMaximum or not self.connected:
+    if not self.connected or not self.canSend():
       if qos > 0 or not self.broker.options["dropQoS0"]:
         self.queued.append(pub) # this should never be infinite in reality
       if qos > 0 and not self.connected:
@@ -210,22 +251,28 @@ class MQTTClients:
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 1:
-        self.outbound.remove(pub)
-        del self.outmsgs[msgid]
+        self.removeOutbound(pub)
         self.sendQueued()
       else:
         logger.error("%s: Puback received for msgid %d, but QoS is %d", self.id, msgid, pub.fh.QoS)
     else:
       logger.error("%s: Puback received for msgid %d, but no message found", self.id, msgid)
 
-  def pubrec(self, msgid):
+  def pubrec(self, msgid, reasonCode=0):
     rc = False
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
         if pub.qos2state == "PUBREC":
-          pub.qos2state = "PUBCOMP"
-          rc = True
+          if reasonCode >= 128:
+            logger.info("[MQTT-4.3.3-4] a pubrel must not be sent after an error pubrec")
+            self.removeOutbound(pub)
+            self.sendQueued()
+          else:
+            pub.qos2state = "PUBCOMP"
+            if pub in self.resending:
+              self.resending.remove(pub)
+            rc = True
         else:
           logger.error("%s: Pubrec received for msgid %d, but message in wrong state", self.id, msgid)
       else:
@@ -239,8 +286,7 @@ class MQTTClients:
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
         if pub.qos2state == "PUBCOMP":
-          self.outbound.remove(pub)
-          del self.outmsgs[msgid]
+          self.removeOutbound(pub)
           self.sendQueued()
         else:
           logger.error("Pubcomp received for msgid %d, but message in wrong state", msgid)
@@ -751,7 +797,7 @@ class MQTTBrokers:
   def pubrec(self, sock, packet):
     "confirmed reception of qos 2"
     myclient = self.clients[sock]
-    if myclient.pubrec(packet.packetIdentifier):
+    if myclient.pubrec(packet.packetIdentifier, packet.reasonCode.value):
       logger.info("[MQTT-3.5.4-1] must reply with pubrel in response to pubrec")
       resp = MQTTV5.Pubrels()
       logger.info("[MQTT5-2.2.1-5-pubrel] pubrel message id same as publish")
-- 
2.43.0


From 73af75519eaef729dc3fb113df557664054825ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 23/45] fix: all errors in packets from MQTT 5 clients result
 in the client being disconnected, with its will message

Includes clients which have not connected yet, disconnect with will message, and retries of QoS 2 messages
when the receive maximum has been reached.
---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 61 ++++++++++---------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index d24494e..c8e930f 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -396,6 +396,7 @@ class MQTTBrokers:
           self.disconnect(sock, None, sendWillMessage=True)
         terminate = True
       else:
+        packet = None
         try:
           packet = MQTTV5.unpackPacket(raw_packet, self.options["maximumPacketSize"])
           if self.options["visual"]:
@@ -415,18 +416,17 @@ class MQTTBrokers:
           else:
             self.disconnect(sock, reasonCode="Malformed packet", sendWillMessage=True)
             terminate = True
-        except MQTTV5.MalformedPacket as error:
-          traceback.print_exc()
-          disconnect_properties = MQTTV5.Properties(MQTTV5.PacketTypes.DISCONNECT)
-          disconnect_properties.ReasonString = error.args[0]
-          self.disconnect(sock, reasonCode="Malformed packet", sendWillMessage=True)
-          terminate = True
         except MQTTV5.ProtocolError as error:
           disconnect_properties = MQTTV5.Properties(MQTTV5.PacketTypes.DISCONNECT)
-          disconnect_properties.ReasonString = error.args[0]
+          disconnect_properties.ReasonString = str(error.args[0])
           self.disconnect(sock, reasonCode=error.args[0], properties=disconnect_properties,
                           sendWillMessage=True)
           terminate = True
+        except Exception as error:
+          traceback.print_exc()
+          # was there an error reading the packet, or processing it?
+          self.disconnect(sock, reasonCode="Protocol error" if packet else "Malformed packet", sendWillMessage=True)
+          terminate = True
     finally:
       self.lock.release()
     return terminate
@@ -441,7 +441,6 @@ class MQTTBrokers:
     if self.mscfile != None:
       self.mscfile.write("client%d=>broker[label=%s];\n" % (sock.fileno(), str(packet).split("(")[0]))
     if sock not in self.clients.keys() and packet.fh.PacketType != MQTTV5.PacketTypes.CONNECT:
-      self.disconnect(sock, packet)
       raise MQTTV5.MQTTException("[MQTT5-3.1.0-1-error] Connect was not first packet on socket")
     else:
       if packet.fh.PacketType == MQTTV5.PacketTypes.CONNECT:
@@ -456,7 +455,6 @@ class MQTTBrokers:
   def connect(self, sock, packet):
     resp = MQTTV5.Connacks()
     if packet.ProtocolName != "MQTT":
-      self.disconnect(sock, None)
       raise MQTTV5.MQTTException("[MQTT5-3.1.2-1-error] Wrong protocol name %s" % packet.ProtocolName)
     logger.info("[MQTT5-3.1.2-1] Protocol name must be MQTT")
     if packet.ProtocolVersion != 5:
@@ -470,7 +468,6 @@ class MQTTBrokers:
       return
     logger.info("[MQTT5-3.1.2-2] Protocol version must be 5")
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
       logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
       raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
@@ -566,20 +563,25 @@ class MQTTBrokers:
 
   def disconnect(self, sock, packet=None, sendWillMessage=False, reasonCode=None, properties=None):
     logger.info("[MQTT-3.14.4-2] Client must not send any more packets after disconnect")
-    me = self.clients[sock]
-    me.clearTopicAliases()
-    # Session expiry
-    if packet and hasattr(packet.properties, "SessionExpiryInterval"):
-      if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
-        raise MQTTV5.ProtocolError("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
-      else:
-        me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
-    if reasonCode:
-      resp = MQTTV5.Disconnects(reasonCode=reasonCode) # reasonCode is text
-      if properties:
-        resp.properties = properties
-      respond(sock, resp)
-    if sock in self.clients.keys():
+    if sock in self.clients.keys(): # otherwise the client never connected successfully
+      me = self.clients[sock]
+      # Session expiry
+      if packet and hasattr(packet.properties, "SessionExpiryInterval"):
+        if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
+          raise MQTTV5.ProtocolError("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
+        else:
+          me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
+      if packet and packet.reasonCode.getName() == "Disconnect with will message":
+        sendWillMessage = True
+      me.clearTopicAliases()
+      if reasonCode:
+        try:
+          resp = MQTTV5.Disconnects(reasonCode=reasonCode) # reasonCode is text
+        except AssertionError: # not the name of a reason code
+          resp = MQTTV5.Disconnects(reasonCode="Protocol error")
+        if properties:
+          resp.properties = properties
+        respond(sock, resp)
       self.broker.disconnect(me.id, willMessage=sendWillMessage,
           sessionExpiryInterval=me.sessionExpiryInterval)
       del self.clients[sock]
@@ -666,10 +668,9 @@ class MQTTBrokers:
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
     else:
-        if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
-          self.disconnect(sock, reasonCode="Receive maximum of %d exceeded: %d" % 
-             (self.options["receiveMaximum"], len(self.clients[sock].inbound)+1), sendWillMessage=True)
-          return
+        if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"] and \
+            not (packet.fh.QoS == 2 and packet.packetIdentifier in self.clients[sock].inbound):
+          raise MQTTV5.ProtocolError("Receive maximum exceeded")
         if hasattr(packet.properties, "UserProperty") and len(packet.properties.UserProperty) > 1:
           logger.info("[MQTT-3.1.3-10] Must maintain order of user properties")
         if packet.fh.QoS == 0:
@@ -751,11 +752,11 @@ class MQTTBrokers:
         props = MQTTV5.Properties(MQTTV5.PacketTypes.DISCONNECT)
         props.ReasonString = "This is a custom Reason String"
         props.ServerReference = "tcp://localhost:1883"
-        props.UserPropertyList = [("key", "value")]
+        props.UserProperty = [("key", "value")]
         self.disconnect(sock,
                         None,
                         sendWillMessage=False,
-                        reasonCode=returnCode,
+                        reasonCode=MQTTV5.ReasonCodes(MQTTV5.PacketTypes.DISCONNECT, identifier=returnCode).getName(),
                         properties=props)
 
 
-- 
2.43.0


From 5b94db31c21b4d8e4a8b053c5992638ab074b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 24/45] fix: MQTT 5 session expiry, delayed wills and keep
 alive processing

The will delay is limited by the session expiry interval in force when the connection is closed, a delayed will
is sent when the session is ended early by clean start. Expired sessions are discarded. The background thread
and the keep alive check take the broker lock. Reinitializing keeps the subscription data shared.
---
 .../mqtt/brokers/V311/SubscriptionEngines.py  |  4 +-
 interoperability/mqtt/brokers/V5/Brokers.py   | 69 ++++++++++++-------
 .../mqtt/brokers/V5/MQTTBrokers.py            | 61 +++++++++-------
 .../mqtt/brokers/V5/SubscriptionEngines.py    |  4 +-
 4 files changed, 86 insertions(+), 52 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index e6939f8..91ecef3 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -44,7 +44,9 @@ class SubscriptionEngines:
      self.__dollar_retained = self.sharedData["dollar_retained"]  
 
    def reinitialize(self):
-     self.__init__()
+     # clear the shared data, rather than replace it, so that it stays shared with the other brokers
+     for data in [self.__subscriptions, self.__dollar_subscriptions, self.__retained, self.__dollar_retained]:
+       data.clear()
 
    def subscribe(self, aClientid, topic, qos):
      if type(topic) == type([]):
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 8e39382..cc77726 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -40,6 +40,7 @@ class Brokers:
 
   def reinitialize(self):
     self.__clients = {}
+    self.willMessageClients.clear()
     self.se.reinitialize()
 
   def getClients(self):
@@ -66,46 +67,63 @@ class Brokers:
 
   def sendWillMessage(self, aClientid):
     "Sends the will message, if any, for a client"
-    self.__clients[aClientid].delayedWillTime = None
-    if aClientid in self.willMessageClients:
-      self.willMessageClients.remove(aClientid)
+    client = self.__clients[aClientid]
+    client.delayedWillTime = None
+    self.willMessageClients.discard(aClientid)
     logger.info("[MQTT5-3.1.2-8] sending will message for client %s", aClientid)
-    willtopic, willQoS, willmsg, willRetain, willProperties = self.__clients[aClientid].will
+    willtopic, willQoS, willmsg, willRetain, willProperties = client.will
+    logger.info("[MQTT5-3.1.2-10] will message is deleted after use or disconnect, for client %s", aClientid)
+    client.will = None
     if willRetain:
       logger.info("[MQTT5-3.1.2-15] sending will message retained for client %s", aClientid)
     else:
       logger.info("[MQTT5-3.1.2-14] sending will message non-retained for client %s", aClientid)
     self.publish(aClientid, willtopic, willmsg, willQoS, willRetain, willProperties, time.monotonic())
-    logger.info("[MQTT5-3.1.2-10] will message is deleted after use or disconnect, for client %s", aClientid)
-    logger.info("[MQTT-3.14.4-3] on receipt of disconnect, will message is deleted")
-    self.__clients[aClientid].will = None
 
   def setupWillMessage(self, aClientid):
-    "Sends the will message, if any, for a client"
-    if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
-      if self.__clients[aClientid].will != None:
-        if self.__clients[aClientid].willDelayInterval > 0:
-          self.__clients[aClientid].delayedWillTime = time.monotonic() + self.__clients[aClientid].willDelayInterval
-          self.__clients[aClientid].willDelayInterval = 0 # will be changed on next connect
-          self.willMessageClients.add(aClientid)
-        else:
-          self.sendWillMessage(aClientid)
+    "Sends the will message, if any, for a client - now or after the will delay"
+    client = self.__clients[aClientid]
+    if client.will != None:
+      willDelayInterval = min(client.willDelayInterval, client.sessionExpiryInterval)
+      client.willDelayInterval = 0 # will be changed on next connect
+      if willDelayInterval > 0:
+        client.delayedWillTime = time.monotonic() + willDelayInterval
+        self.willMessageClients.add(aClientid)
+      else:
+        self.sendWillMessage(aClientid)
 
-  def disconnect(self, aClientid, willMessage=False, sessionExpiryInterval=-1):
-    if willMessage:
-      self.setupWillMessage(aClientid)
+  def endSession(self, aClientid):
+    "discard the state of a disconnected client"
+    if aClientid in self.willMessageClients:
+      logger.info("[MQTT5-3.1.3-9] a delayed will is sent when the session ends, even if the delay has not passed")
+      self.sendWillMessage(aClientid)
+    self.cleanSession(aClientid)
     if aClientid in self.__clients.keys():
-      self.__clients[aClientid].connected = False
+      del self.__clients[aClientid]
+
+  def expireSessions(self):
+    "discard the state of disconnected clients whose session expiry interval has passed"
+    for client in list(self.__clients.values()):
+      if not client.connected and time.monotonic() - client.sessionEndedTime > client.sessionExpiryInterval:
+        self.endSession(client.id)
+
+  def disconnect(self, aClientid, willMessage=False, sessionExpiryInterval=-1):
+    if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+      client = self.__clients[aClientid]
+      client.connected = False
+      client.sessionEndedTime = time.monotonic()
+      if willMessage:
+        self.setupWillMessage(aClientid)
+      else:
+        logger.info("[MQTT-3.14.4-3] on receipt of disconnect, will message is deleted")
+        client.will = None
       if sessionExpiryInterval == 0:
-        self.cleanSession(aClientid)
-        del self.__clients[aClientid]
+        self.endSession(aClientid)
       else:
         logger.info("[MQTT5-3.1.2-23] broker must store the session data for client %s", aClientid)
-        self.__clients[aClientid].sessionEndedTime = time.monotonic()
-        self.__clients[aClientid].connected = False
 
   def disconnectAll(self):
-    for c in self.__clients.keys()[:]: # copy the array because disconnect will remove an element
+    for c in list(self.__clients.keys()): # copy the array because disconnect will remove an element
       self.disconnect(c)
 
   def getAliasTopic(self, aClientid, topicAlias):
@@ -150,6 +168,7 @@ class Brokers:
     """deliver a message to the MQTT V5 subscribers of a topic
        returns the ids of the clients it has been delivered to
     """
+    self.expireSessions()
     subscriptions = []
     for subscription in self.se.getSubscriptions(topic):
       # V3 subscriptions have no options, they are dealt with by the V3 broker
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index c8e930f..785f79b 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -328,15 +328,20 @@ class cleanupThreads(threading.Thread):
     self.running = True
     while self.running:
       time.sleep(1)
-      # will delay
       if self.lock:
         self.lock.acquire()
-      for clientid in self.broker.willMessageClients.copy():
-        client = self.broker.getClient(clientid)
-        if client and time.monotonic() >= client.delayedWillTime:
-          self.broker.sendWillMessage(clientid)
-      if self.lock:
-        self.lock.release()
+      try:
+        # will delay
+        for clientid in self.broker.willMessageClients.copy():
+          client = self.broker.getClient(clientid)
+          if client and time.monotonic() >= client.delayedWillTime:
+            self.broker.sendWillMessage(clientid)
+        self.broker.expireSessions()
+      except:
+        traceback.print_exc()
+      finally:
+        if self.lock:
+          self.lock.release()
 
   def stop(self):
     self.running = False
@@ -358,7 +363,7 @@ class MQTTBrokers:
     else:
       self.lock = threading.RLock()
 
-    self.cleanupThread = cleanupThreads(self.broker)
+    self.cleanupThread = cleanupThreads(self.broker, self.lock)
 
     logger.info("MQTT 5.0 Paho Test Broker")
     logger.info("Options %s", self.options)
@@ -453,6 +458,9 @@ class MQTTBrokers:
     return terminate
 
   def connect(self, sock, packet):
+    if sock in self.clients.keys():    # is socket is already connected?
+      logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
+      raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
     resp = MQTTV5.Connacks()
     if packet.ProtocolName != "MQTT":
       raise MQTTV5.MQTTException("[MQTT5-3.1.2-1-error] Wrong protocol name %s" % packet.ProtocolName)
@@ -467,9 +475,13 @@ class MQTTBrokers:
       logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
       return
     logger.info("[MQTT5-3.1.2-2] Protocol version must be 5")
-    if sock in self.clients.keys():    # is socket is already connected?
-      logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
-      raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
+    for name in ["ReceiveMaximum", "MaximumPacketSize"]:
+      if hasattr(packet.properties, name) and getattr(packet.properties, name) == 0:
+        raise MQTTV5.ProtocolError("[MQTT-3.1.2.11] %s must not be 0" % name)
+    if packet.WillFlag:
+      Topics.isValidTopicName(packet.WillTopic)
+      if packet.WillTopic.find("+") != -1 or packet.WillTopic.find("#") != -1:
+        raise MQTTV5.ProtocolError("Topic name invalid")
     if len(packet.ClientIdentifier) == 0:
       packet.ClientIdentifier = str(uuid.uuid4()) # give the client a unique clientid
       logger.info("[MQTT5-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientIdentifier)
@@ -485,9 +497,11 @@ class MQTTBrokers:
           logger.info("[MQTT5-3.1.4-3] Disconnecting old client %s", packet.ClientIdentifier)
           self.disconnect(cursock, reasonCode="Session taken over", sendWillMessage=True)
           break
+    self.broker.expireSessions()
     me = None
     clean = False
     if packet.CleanStart:
+      self.broker.endSession(packet.ClientIdentifier)
       logger.info("[MQTT5-3.1.2-4] discard existing session when cleanstart set to 1")
       logger.info("[MQTT5-3.1.4-4] server must perform clean start processing")
       clean = True
@@ -496,11 +510,7 @@ class MQTTBrokers:
       me = self.broker.getClient(packet.ClientIdentifier) # find existing state, if there is any
       if not me:
         logger.info("[MQTT5-3.1.2-6] no existing session and cleanstart set to 0")
-      # has that state expired?
-      if me and me.sessionExpiryInterval >= 0 and time.monotonic() - me.sessionEndedTime > me.sessionExpiryInterval:
-        me = None
-        clean = True
-      else:
+      if me:
         logger.info("[MQTT5-3.1.2-5] resume an existing session when cleanstart set to 0")
       if me:
         logger.info("[MQTT5-3.1.3-2] clientid used to retrieve client state")
@@ -528,8 +538,6 @@ class MQTTBrokers:
     if hasattr(packet.WillProperties, "WillDelayInterval"):
       willDelayInterval = packet.WillProperties.WillDelayInterval
       delattr(packet.WillProperties, "WillDelayInterval") # must not be sent with will message
-    if willDelayInterval > sessionExpiryInterval:
-      willDelayInterval = sessionExpiryInterval
     if me == None:
       me = MQTTClients(packet.ClientIdentifier, packet.CleanStart, sessionExpiryInterval, willDelayInterval, keepalive, sock, self)
     else:
@@ -546,7 +554,6 @@ class MQTTBrokers:
     # the topic alias maximum in the connect properties sets the maximum outgoing topic aliases for a client
     me.topicAliasMaximum = packet.properties.TopicAliasMaximum if hasattr(packet.properties, "TopicAliasMaximum") else 0
     me.maximumPacketSize = packet.properties.MaximumPacketSize if hasattr(packet.properties, "MaximumPacketSize") else MQTTV5.MAX_PACKET_SIZE
-    assert me.maximumPacketSize <= MQTTV5.MAX_PACKET_SIZE # is this the correct value?
     me.receiveMaximum = packet.properties.ReceiveMaximum if hasattr(packet.properties, "ReceiveMaximum") else MQTTV5.MAX_PACKETID
     assert me.receiveMaximum <= MQTTV5.MAX_PACKETID
     logger.info("[MQTT-4.1.0-1] server must store data for at least as long as the network connection lasts")
@@ -810,9 +817,13 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.packetIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, sendWillMessage=True)
+    self.lock.acquire()
+    try:
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, sendWillMessage=True)
+    finally:
+      self.lock.release()
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index d6367b0..20aa54b 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -48,7 +48,9 @@ class SubscriptionEngines:
      self.__dollar_retained = self.sharedData["dollar_retained"] 
 
    def reinitialize(self):
-     self.__init__()
+     # clear the shared data, rather than replace it, so that it stays shared with the other brokers
+     for data in [self.__subscriptions, self.__dollar_subscriptions, self.__retained, self.__dollar_retained]:
+       data.clear()
 
    def subscribe(self, aClientid, topic, options):
      if type(topic) == type([]):
-- 
2.43.0


From 52ecbde9b4f2bbd123ea2a2a8f67aee3c706fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 25/45] fix: incoming topic aliases are resolved when the
 publish arrives

---
 interoperability/mqtt/brokers/V5/Brokers.py   | 27 ++++++++++---------
 .../mqtt/brokers/V5/MQTTBrokers.py            |  9 ++++---
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index cc77726..73193a5 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -129,28 +129,29 @@ class Brokers:
   def getAliasTopic(self, aClientid, topicAlias):
     mytopic = None
     if topicAlias > 0 and topicAlias in self.__clients[aClientid].topicAliasToNames.keys():
-      mytopic = self.__clients[aClientid].topicAliasToNames[topicAlias]  
+      mytopic = self.__clients[aClientid].topicAliasToNames[topicAlias]
     else:
       raise ProtocolError("Topic alias invalid", topicAlias)
     return mytopic
 
+  def useTopicAlias(self, aClientid, topic, topicAlias):
+    "returns the topic name for an incoming publish with a topic alias"
+    if topicAlias == 0:
+      raise ProtocolError("Topic alias invalid", topicAlias)
+    if len(topic) == 0:
+      topic = self.getAliasTopic(aClientid, topicAlias)
+    else: # set incoming topic alias
+      if topicAlias <= self.topicAliasMaximum:
+        self.__clients[aClientid].topicAliasToNames[topicAlias] = topic
+      else:
+        raise ProtocolError("Topic alias invalid", topicAlias)
+    return topic
+
   def publish(self, aClientid, topic, message, qos, retained, properties, receivedTime):
     """publish to all subscribed connected clients
        also to any disconnected non-cleanstart clients with qos in [1,2]
     """
 
-    # topic alias
-    if hasattr(properties, "TopicAlias"):
-      if properties.TopicAlias == 0:
-        raise ProtocolError("Topic alias invalid", properties.TopicAlias)
-      if len(topic) == 0:
-        topic = self.getAliasTopic(aClientid, properties.TopicAlias)
-      else: # set incoming topic alias
-        if properties.TopicAlias in self.__clients[aClientid].topicAliasToNames.keys() or \
-            properties.TopicAlias <= self.topicAliasMaximum:
-          self.__clients[aClientid].topicAliasToNames[properties.TopicAlias] = topic
-        else:
-          raise ProtocolError("Topic alias invalid", self.__clients[aClientid].topicAliasMaximum)
     assert len(topic) > 0
 
     if retained:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 785f79b..c74b1b0 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -680,6 +680,11 @@ class MQTTBrokers:
           raise MQTTV5.ProtocolError("Receive maximum exceeded")
         if hasattr(packet.properties, "UserProperty") and len(packet.properties.UserProperty) > 1:
           logger.info("[MQTT-3.1.3-10] Must maintain order of user properties")
+        # topic alias
+        if hasattr(packet.properties, "TopicAlias"):
+          packet.topicName = self.broker.useTopicAlias(self.clients[sock].id, packet.topicName, packet.properties.TopicAlias)
+        if len(packet.topicName) == 0:
+          raise MQTTV5.ProtocolError("Topic name invalid")
         if packet.fh.QoS == 0:
           self.broker.publish(self.clients[sock].id, packet.topicName,
                  packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.properties,
@@ -712,8 +717,6 @@ class MQTTBrokers:
                 logger.info("[MQTT-3.3.1-2] DUP flag is 1 on redelivery")
             else:
               myclient.inbound[packet.packetIdentifier] = packet
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.se.getSubscriptions(packet.topicName)
           else:
             if packet.packetIdentifier in myclient.inbound:
@@ -724,8 +727,6 @@ class MQTTBrokers:
             else:
               myclient.inbound.append(packet.packetIdentifier)
               logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.publish(self.clients[sock].id, packet.topicName,
                    packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.properties,
                    packet.receivedTime)
-- 
2.43.0


From 4c6be30cc4458edcda4c0e190aefb16e2e741d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 26/45] fix: MQTT 3.1.1 unsubscribe of several topics, granted
 QoS for test topics, client ids, keep alive clock and lock

---
 .../mqtt/brokers/V311/MQTTBrokers.py          | 26 +++++++++++--------
 .../mqtt/brokers/V311/SubscriptionEngines.py  |  4 +--
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 4375afa..575ae74 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -252,7 +252,7 @@ class MQTTBrokers:
     else:
       getattr(self, MQTTV3.packetNames[packet.fh.MessageType].lower())(sock, packet)
       if sock in self.clients.keys():
-        self.clients[sock].lastPacket = time.time()
+        self.clients[sock].lastPacket = time.monotonic()
     if packet.fh.MessageType == MQTTV3.DISCONNECT:
       terminate = True
     return terminate
@@ -288,7 +288,7 @@ class MQTTBrokers:
         return
       else:
         logger.info("[MQTT-3.1.3-7] 0-length clientid must have cleansession true")
-        packet.ClientIdentifier = uuid.uuid4() # give the client a unique clientid
+        packet.ClientIdentifier = str(uuid.uuid4()) # give the client a unique clientid
         logger.info("[MQTT-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientIdentifier)
     logger.info("[MQTT-3.1.3-5] Clientids of 1 to 23 chars and ascii alphanumeric must be allowed")
     if packet.ClientIdentifier in [client.id for client in self.clients.values()]: # is this client already connected on a different socket?
@@ -352,9 +352,9 @@ class MQTTBrokers:
         respqoss.append(0x80)
       else:
         if p[0] == "test/QoS 1 only":
-          respqoss.append(min(1), p[1])
+          respqoss.append(min(1, p[1]))
         elif p[0] == "test/QoS 0 only":
-          respqoss.append(min(0), p[1])
+          respqoss.append(min(0, p[1]))
         else:
           respqoss.append(p[1])
         topics.append(p[0])
@@ -417,7 +417,7 @@ class MQTTBrokers:
         else:
           myclient.inbound.append(packet.messageIdentifier)
           logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-          self.broker.publish(myclient, packet.topicName, packet.data, packet.fh.QoS, packet.fh.RETAIN,
+          self.broker.publish(myclient.id, packet.topicName, packet.data, packet.fh.QoS, packet.fh.RETAIN,
                       packet.receivedTime)
       resp = MQTTV3.Pubrecs()
       logger.info("[MQTT-2.3.1-6] pubrec messge id same as publish")
@@ -461,9 +461,13 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.messageIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.time() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, terminate=True)
+    self.lock.acquire()
+    try:
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, terminate=True)
+    finally:
+      self.lock.release()
diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index 91ecef3..bbc197c 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -81,8 +81,8 @@ class SubscriptionEngines:
        if len(aTopic) > 1:
          logger.info("[MQTT-3.10.4-6] each topic must be processed in sequence")
        for t in aTopic:
-         if not matched:
-           matched = self.__unsubscribe(aClientid, t)
+         if self.__unsubscribe(aClientid, t):
+           matched = True
      else:
        matched = self.__unsubscribe(aClientid, aTopic)
      if not matched:
-- 
2.43.0


From d8f7c8fa9cda83f0bf76cea77cc256dd2f71facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 27/45] fix: MQTT 3.1.1 errors disconnect the client with its
 will message, DUP is only set when a message is sent again

Messages queued while a client was disconnected are sent without DUP the first time, queued QoS 0 messages are sent
only once, packet ids in use are not reused, topics in packets are validated, a client is disconnected before its will message is sent.
---
 interoperability/mqtt/brokers/V311/Brokers.py |  3 +-
 .../mqtt/brokers/V311/MQTTBrokers.py          | 87 +++++++++++--------
 2 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 965b952..e5e075f 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -64,6 +64,7 @@ class Brokers:
   def terminate(self, aClientid):
     "Abrupt disconnect which also causes a will msg to be sent out"
     if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+      self.__clients[aClientid].connected = False
       if self.__clients[aClientid].will != None:
         logger.info("[MQTT-3.1.2-8] sending will message for client %s", aClientid)
         willtopic, willQoS, willmsg, willRetain = self.__clients[aClientid].will
@@ -93,7 +94,7 @@ class Brokers:
         self.__clients[aClientid].will = None
 
   def disconnectAll(self):
-    for c in self.__clients.keys()[:]: # copy the array because disconnect will remove an element
+    for c in list(self.__clients.keys()): # copy the array because disconnect will remove an element
       self.disconnect(c)
 
   def publish(self, aClientid, topic, message, qos, retained, receivedTime):
diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 575ae74..5a61c87 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -21,6 +21,7 @@ import traceback, random, sys, string, copy, threading, logging, socket, time, u
 
 from mqtt.formats import MQTTV311 as MQTTV3
 
+from . import Topics
 from .Brokers import Brokers
 
 logger = logging.getLogger('MQTT broker')
@@ -61,29 +62,27 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
+    for pub in self.outbound[:]:
       logger.debug("resending "+str(pub))
-      logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
       if pub.fh.QoS == 0:
+        self.outbound.remove(pub)
         respond(self.socket, pub)
-      elif pub.fh.QoS == 1:
-        pub.fh.DUP = 1
-        logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.messageIdentifier)
+      elif pub.fh.QoS == 2 and pub.qos2state == "PUBCOMP":
+        resp = MQTTV3.Pubrels()
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
-        logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
-        respond(self.socket, pub)
-      elif pub.fh.QoS == 2:
-        if pub.qos2state == "PUBREC":
-          logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.messageIdentifier)
-          pub.fh.DUP = 1
-          logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
-          logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
-          respond(self.socket, pub)
-        else:
-          resp = MQTTV3.Pubrels()
+        resp.messageIdentifier = pub.messageIdentifier
+        respond(self.socket, resp)
+      else:
+        if pub.fh.DUP: # not set if the message was queued while the client was disconnected
+          logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
+          logger.info("[MQTT-2.1.2-3] Dup when resending QoS %d publish id %d", pub.fh.QoS, pub.messageIdentifier)
           logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
-          resp.messageIdentifier = pub.messageIdentifier
-          respond(self.socket, resp)
+          if pub.fh.QoS == 1:
+            logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
+          else:
+            logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
+        respond(self.socket, pub)
+        pub.fh.DUP = 1
 
   def publishArrived(self, topic, msg, qos, retained=False):
     pub = MQTTV3.Publishes()
@@ -99,23 +98,30 @@ class MQTTClients:
     if qos == 2:
       pub.qos2state = "PUBREC"
     if qos in [1, 2]:
+      while self.msgid in self.outmsgs.keys() and len(self.outmsgs) < 65535:
+        self.nextMsgid()
       pub.messageIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
-      if self.msgid == 65535:
-        self.msgid = 1
-      else:
-        self.msgid += 1
+      self.nextMsgid()
       self.outbound.append(pub)
       self.outmsgs[pub.messageIdentifier] = pub
     logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
     if self.connected:
       respond(self.socket, pub)
+      if qos in [1, 2]:
+        pub.fh.DUP = 1 # from now on
     else:
       if qos == 0 and not self.broker.dropQoS0:
         self.outbound.append(pub)
       if qos in [1, 2]:
         logger.info("[MQTT-3.1.2-5] storing of QoS 1 and 2 messages for disconnected client %s", self.id)
 
+  def nextMsgid(self):
+    if self.msgid == 65535:
+      self.msgid = 1
+    else:
+      self.msgid += 1
+
   def puback(self, msgid):
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
@@ -231,11 +237,18 @@ class MQTTBrokers:
         self.disconnect(sock, None, terminate=True)
         terminate = True
       else:
-        packet = MQTTV3.unpackPacket(raw_packet)
-        if packet:
-          terminate = self.handlePacket(packet, sock)
-        else:
-          raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        try:
+          packet = MQTTV3.unpackPacket(raw_packet)
+          if packet:
+            terminate = self.handlePacket(packet, sock)
+          else:
+            raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        except Exception:
+          logger.info("[MQTT-4.8.0-2] protocol error, closing connection")
+          traceback.print_exc()
+          # will message
+          self.disconnect(sock, None, terminate=True)
+          terminate = True
     finally:
       self.lock.release()
     return terminate
@@ -247,7 +260,6 @@ class MQTTBrokers:
       packet_string = packet_string[:255] + '...' + (' payload length:' + str(len(packet.data)) if hasattr(packet, "data") else "")
     logger.debug("in: (%d) %s", sock.fileno(), packet_string)
     if sock not in self.clients.keys() and packet.fh.MessageType != MQTTV3.CONNECT:
-      self.disconnect(sock, packet)
       raise MQTTV3.MQTTException("[MQTT-3.1.0-1] Connect was not first packet on socket")
     else:
       getattr(self, MQTTV3.packetNames[packet.fh.MessageType].lower())(sock, packet)
@@ -258,8 +270,10 @@ class MQTTBrokers:
     return terminate
 
   def connect(self, sock, packet):
+    if sock in self.clients.keys():    # is socket is already connected?
+      logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
+      raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
     if packet.ProtocolName != "MQTT":
-      self.disconnect(sock, None)
       raise MQTTV3.MQTTException("[MQTT-3.1.2-1] Wrong protocol name %s" % packet.ProtocolName)
     if packet.ProtocolVersion != 4:
       logger.error("[MQTT-3.1.2-2] Wrong protocol version %d", packet.ProtocolVersion)
@@ -270,10 +284,10 @@ class MQTTBrokers:
       self.disconnect(sock, None)
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       return
-    if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
-      logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
-      raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
+    if packet.WillFlag:
+      Topics.isValidTopicName(packet.WillTopic)
+      if packet.WillTopic.find("+") != -1 or packet.WillTopic.find("#") != -1:
+        raise MQTTV3.MQTTException("[MQTT-4.7.1-1] wildcards not allowed in topic name")
     if len(packet.ClientIdentifier) == 0:
       if self.zero_length_clientids == False or packet.CleanSession == False:
         if self.zero_length_clientids:
@@ -339,14 +353,14 @@ class MQTTBrokers:
   def disconnectAll(self):
     while len(self.clients.keys()) > 0:
       sock = list(self.clients.keys())[0]
-      print("disconnecting", sock)
       self.disconnect(sock, None)
-      print("disconnected", sock)
 
   def subscribe(self, sock, packet):
     topics = []
     qoss = []
     respqoss = []
+    for p in packet.data:
+      Topics.isValidTopicName(p[0])
     for p in packet.data:
       if p[0] == "test/nosubscribe":
         respqoss.append(0x80)
@@ -371,6 +385,8 @@ class MQTTBrokers:
     respond(sock, resp)
 
   def unsubscribe(self, sock, packet):
+    for t in packet.data:
+      Topics.isValidTopicName(t)
     self.broker.unsubscribe(self.clients[sock].id, packet.data)
     resp = MQTTV3.Unsubacks()
     logger.info("[MQTT-2.3.1-7] Unsuback has same message id as unsubscribe")
@@ -383,6 +399,7 @@ class MQTTBrokers:
 
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
+    Topics.isValidTopicName(packet.topicName)
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
       raise MQTTV3.MQTTException("[MQTT-3.3.2-2][MQTT-4.7.1-1] wildcards not allowed in topic name")
     if packet.fh.QoS == 0:
-- 
2.43.0


From 9035d2ae90859ae1ba0baa14aedeb1b97e2fd812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 28/45] fix: reading an incomplete or over long packet does not
 hold up the broker

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py  | 1 +
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 ++
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 5a61c87..5041642 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -228,6 +228,7 @@ class MQTTBrokers:
     raw_packet = None
     try:
       try:
+        sock.settimeout(.3) # don't let an incomplete packet from one client stop the others
         raw_packet = MQTTV3.getPacket(sock)
       except:
         pass # handled by raw_packet == None
diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 6050cac..4491d40 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -81,6 +81,8 @@ def getPacket(aSocket):
     remlength += (digit & 127) * multiplier
     if digit & 128 == 0:
       break
+    if len(buf) == 5:
+      raise MQTTException("remaining length is longer than 4 bytes")
     multiplier *= 128
   # receive the remaining length if there is any
   rest = bytes([])
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index e9f41d2..67d2ed4 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -299,6 +299,8 @@ def getPacket(aSocket):
     remlength += (digit & 127) * multiplier
     if digit & 128 == 0:
       break
+    if len(buf) == 5:
+      raise MalformedPacket("remaining length is longer than 4 bytes")
     multiplier *= 128
   # receive the remaining length if there is any
   rest = bytes([])
-- 
2.43.0


From 048a7f4bc4009672e8d93f59985c67ee6912230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 29/45] fix: the TCP listener deals with the end of a
 connection before CONNECT, buffered TLS data, and failing sends

---
 .../mqtt/brokers/listeners/TCPListeners.py    | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 35a9d83..07670eb 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -39,6 +39,12 @@ class BufferedSockets:
   def rebuffer(self, data):
     self.buffer = data + self.buffer
 
+  def pending(self):
+    "is there data to be read which select on the socket does not know about?"
+    if len(self.buffer) > 0:
+      return True
+    return hasattr(self.socket, "pending") and self.socket.pending() > 0 # TLS
+
   def wsrecv(self):
     header1 = ord(self.socket.recv(1))
     header2 = ord(self.socket.recv(1))
@@ -113,9 +119,17 @@ class BufferedSockets:
         header += bytearray(mybytes)
     totaldata = header + data
     # Ensure the entire packet is sent by calling send again if necessary
-    sent = self.socket.send(totaldata)
-    while sent < len(totaldata):
-      sent += self.socket.send(totaldata[sent:])
+    sent = 0
+    try:
+      while sent < len(totaldata):
+        sent += self.socket.send(totaldata[sent:])
+    except:
+      # don't send anything after part of a packet
+      try:
+        self.socket.shutdown(socket.SHUT_RDWR)
+      except:
+        pass # the connection is closed already
+      raise
     return sent
 
 
@@ -155,7 +169,10 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
       try:
         if not keptalive:
           logger.debug("Waiting for request")
-        (i, o, e) = select.select([sock], [], [], 1)
+        if sock.pending():
+          (i, o, e) = ([sock], [], [])
+        else:
+          (i, o, e) = select.select([sock], [], [], 1)
         if i == [sock]:
           if first:
             char = sock.recv(1)
@@ -170,8 +187,11 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
             if broker == None:
               connbuf = sock.recv(1)
               if connbuf == b'\x10': # connect packet
-                while connbuf[-4:] != b"MQTT" and len(connbuf) < 10:
-                  connbuf += sock.recv(1)
+                while connbuf[-4:] != b"MQTT" and len(connbuf) < 11:
+                  data = sock.recv(1)
+                  if len(data) == 0:
+                    break # connection closed
+                  connbuf += data
                 connbuf += sock.recv(1)
                 version = connbuf[-1]
                 if version == 4:
-- 
2.43.0


From 7d28fc027a03c64cd1e39355440d6b1acb1b7b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 30/45] fix: websocket control frames, several packets in a
 frame, split frames and handshakes

---
 .../mqtt/brokers/listeners/TCPListeners.py    | 144 ++++++++++++------
 1 file changed, 94 insertions(+), 50 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 07670eb..3def987 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -35,51 +35,78 @@ class BufferedSockets:
     self.socket = socket
     self.buffer = bytearray()
     self.websockets = False
+    self.wsclosed = False
+    self.rawbuffer = b"" # bytes received with the websocket handshake, but not part of it
 
   def rebuffer(self, data):
     self.buffer = data + self.buffer
 
   def pending(self):
     "is there data to be read which select on the socket does not know about?"
-    if len(self.buffer) > 0:
+    if len(self.buffer) > 0 or len(self.rawbuffer) > 0:
       return True
     return hasattr(self.socket, "pending") and self.socket.pending() > 0 # TLS
 
+  def rawrecv(self, count):
+    "receive count bytes, whatever the size of the pieces they arrive in"
+    while len(self.rawbuffer) < count:
+      data = self.socket.recv(count - len(self.rawbuffer))
+      if len(data) == 0:
+        raise EOFError("connection closed")
+      self.rawbuffer += data
+    out = self.rawbuffer[:count]
+    self.rawbuffer = self.rawbuffer[count:]
+    return out
+
   def wsrecv(self):
-    header1 = ord(self.socket.recv(1))
-    header2 = ord(self.socket.recv(1))
+    "receive one websocket frame. Any MQTT data in it is added to the buffer"
+    header1, header2 = self.rawrecv(2)
 
     opcode = (header1 & 0x0f)
     maskbit = (header2 & 0x80) == 0x80
     length = (header2 & 0x7f) # works for 0 to 125 inclusive
     if length == 126: # for 126 to 65535 inclusive
-      lb1 = ord(self.socket.recv(1))
-      lb2 = ord(self.socket.recv(1))
-      length = lb1*256 + lb2
+      length = int.from_bytes(self.rawrecv(2), "big")
     elif length == 127:
-      length = 0
-      for i in range(0, 8):
-        length += ord(self.socket.recv(1)) * 2**((7 - i)*8)
-    assert maskbit == True
-    if maskbit:
-      mask = self.socket.recv(4)
-    mpayload = bytearray()
-    while len(mpayload) < length:
-      mpayload += self.socket.recv(length - len(mpayload))
+      length = int.from_bytes(self.rawrecv(8), "big")
+    assert maskbit == True, "websocket frames from a client must be masked"
+    # 0 continuation, 2 binary, 8 close, 9 ping, 10 pong
+    assert opcode in [0, 2, 8, 9, 10], "[MQTT-6.0.0-1] MQTT packets must be sent in binary websocket frames"
+    mask = self.rawrecv(4)
+    mpayload = self.rawrecv(length)
     buffer = bytearray()
-    if maskbit:
-      mi = 0
-      for i in mpayload:
-        buffer.append(i ^ mask[mi])
-        mi = (mi+1)%4
-    else:
-      buffer = mpayload
-    self.buffer += buffer
+    mi = 0
+    for i in mpayload:
+      buffer.append(i ^ mask[mi])
+      mi = (mi+1)%4
+    if opcode == 8:
+      self.sendframe(8, buffer[:2])
+      raise EOFError("websocket closed")
+    elif opcode == 9:
+      self.sendframe(10, buffer)
+    elif opcode in [0, 2]:
+      self.buffer += buffer
+
+  def wsready(self):
+    "is there MQTT data to be read, or the end of it, rather than just a websocket control frame?"
+    if len(self.buffer) == 0 and not self.wsclosed:
+      self.socket.settimeout(5)
+      try:
+        self.wsrecv()
+      except:
+        logger.info("Closing websocket connection: %s", sys.exc_info()[1])
+        self.wsclosed = True
+    return len(self.buffer) > 0 or self.wsclosed
 
   def recv(self, bufsize):
     if self.websockets:
       while len(self.buffer) < bufsize:
-        self.wsrecv()
+        if self.wsclosed:
+          return bytes()
+        try:
+          self.wsrecv()
+        except EOFError:
+          self.wsclosed = True
       out = self.buffer[:bufsize]
       self.buffer = self.buffer[bufsize:]
     else:
@@ -95,29 +122,37 @@ class BufferedSockets:
     return getattr(self.socket, name)
 
   def send(self, data):
-    header = bytearray()
     if self.websockets:
-      header.append(0x82) # opcode
-      l = len(data)
-      if l < 126:
-        header.append(l)
-      elif l < 65536:
-        """ If 126, the following 2 bytes interpreted as a 16-bit unsigned integer are
-            the payload length.
-        """
-        header += bytearray([126, l // 256, l % 256])
-      elif l < 2**64:
-        """ If 127, the following 8 bytes interpreted as a 64-bit unsigned integer (the
-            most significant bit MUST be 0) are the payload length.
-        """
-        mybytes = [127]
-        for i in range(0, 7):
-          divisor = 2**((7 - i)*8)
-          mybytes.append(l // divisor)
-          l %= divisor
-        mybytes.append(l) # units
-        header += bytearray(mybytes)
-    totaldata = header + data
+      return self.sendframe(2, data)
+    else:
+      return self.sendbytes(data)
+
+  def sendframe(self, opcode, data):
+    "send a websocket frame"
+    header = bytearray()
+    header.append(0x80 | opcode)
+    l = len(data)
+    if l < 126:
+      header.append(l)
+    elif l < 65536:
+      """ If 126, the following 2 bytes interpreted as a 16-bit unsigned integer are
+          the payload length.
+      """
+      header += bytearray([126, l // 256, l % 256])
+    elif l < 2**64:
+      """ If 127, the following 8 bytes interpreted as a 64-bit unsigned integer (the
+          most significant bit MUST be 0) are the payload length.
+      """
+      mybytes = [127]
+      for i in range(0, 7):
+        divisor = 2**((7 - i)*8)
+        mybytes.append(l // divisor)
+        l %= divisor
+      mybytes.append(l) # units
+      header += bytearray(mybytes)
+    return self.sendbytes(header + data)
+
+  def sendbytes(self, totaldata):
     # Ensure the entire packet is sent by calling send again if necessary
     sent = 0
     try:
@@ -141,14 +176,20 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
     lines = data.splitlines()
     for curline in lines[1:]:
       if curline.find(":") != -1:
-        key, value = curline.split(": ", 1)
-        headers[key.upper()] = value     # headers are case insensitive
+        key, value = curline.split(":", 1)
+        headers[key.strip().upper()] = value.strip()     # headers are case insensitive
     return headers
 
   def handshake(self, client):
     GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
-    data = client.recv(1024).decode('utf-8')
-    headers = self.getheaders(data)
+    data = bytes()
+    while data.find(b"\r\n\r\n") == -1:
+      assert len(data) < 65536, "websocket handshake is too long"
+      received = client.recv(1024)
+      assert len(received) > 0, "connection closed during the websocket handshake"
+      data += received
+    data, client.rawbuffer = data.split(b"\r\n\r\n", 1)
+    headers = self.getheaders(data.decode('utf-8'))
     digest = base64.b64encode(hashlib.sha1((headers['SEC-WEBSOCKET-KEY'] + GUID).encode("utf-8")).digest())
     resp = b"HTTP/1.1 101 Switching Protocols\r\n" +\
            b"Upgrade: websocket\r\n" +\
@@ -183,6 +224,9 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
               logger.info("Switching to websockets for socket %d", sock_no)
           if sock.websockets and first:
             pass
+          elif sock.websockets and not sock.wsready():
+            broker3.keepalive(sock)
+            broker5.keepalive(sock)
           else:
             if broker == None:
               connbuf = sock.recv(1)
-- 
2.43.0


From 503ee63dcd9f06c9b341d0250a780006753932b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 31/45] fix: websocket frames sent from different threads are
 not mixed

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 3def987..770384b 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -37,6 +37,7 @@ class BufferedSockets:
     self.websockets = False
     self.wsclosed = False
     self.rawbuffer = b"" # bytes received with the websocket handshake, but not part of it
+    self.sendlock = threading.Lock() # pongs are sent at the same time as packets from other threads
 
   def rebuffer(self, data):
     self.buffer = data + self.buffer
@@ -155,6 +156,7 @@ class BufferedSockets:
   def sendbytes(self, totaldata):
     # Ensure the entire packet is sent by calling send again if necessary
     sent = 0
+    self.sendlock.acquire()
     try:
       while sent < len(totaldata):
         sent += self.socket.send(totaldata[sent:])
@@ -165,6 +167,8 @@ class BufferedSockets:
       except:
         pass # the connection is closed already
       raise
+    finally:
+      self.sendlock.release()
     return sent
 
 
-- 
2.43.0


From cb8cd5439aa9e54c367cf40c658b28155bb7ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 32/45] fix: the HTTP interface shows the clients,
 subscriptions and retained messages of both brokers, and answers all methods

---
 .../mqtt/brokers/listeners/HTTPListeners.py   | 129 ++++++------------
 1 file changed, 45 insertions(+), 84 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 7c3da8c..2c8f950 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -40,33 +40,39 @@ def jsonize(obj):
           attrname = attrname[len(name)+3:] # remove class name for private attributes
         data[attrname] = value
       except:
-        traceback.print_exc()
+        pass # not representable in JSON, methods for instance
   return data
 
 def get_client(clientid, *args):
   rc = 404; value = None
-  client = broker3.broker.getClient(clientid)
+  client = broker3.broker.getClient(clientid) or broker5.broker.getClient(clientid)
   if client:
     value = json.dumps(jsonize(client))
     rc = 200
   return rc, value
 
 def get_clients(*args):
-  clientids = broker3.broker.getClients()
   clients = {}
-  for clientid in clientids:
-    clients[clientid] = jsonize(broker3.broker.getClient(clientid))
+  for broker in [broker5.broker, broker3.broker]:
+    for clientid in broker.getClients():
+      clients[clientid] = jsonize(broker.getClient(clientid))
   return 200, json.dumps(clients)
 
 def get_subscriptions(*args):
-  return 200, json.dumps([jsonize(s) for s in sharedData["subscriptions"]])
+  subscriptions = []
+  for s in sharedData["subscriptions"] + sharedData["dollar_subscriptions"]:
+    subscription = jsonize(s)
+    subscription["qos"] = s.getQoS() # is one of the options of an MQTT 5.0 subscription
+    subscriptions.append(subscription)
+  return 200, json.dumps(subscriptions)
 
 def get_retained_messages(*args):
   out = {}
-  for topic in sharedData["retained"].keys():
-    value = list(sharedData["retained"][topic])
-    value[0] = value[0].decode()
-    out[topic] = value
+  for retained in [sharedData["retained"], sharedData["dollar_retained"]]:
+    for topic in retained.keys():
+      value = list(retained[topic][:3]) # the MQTT 5.0 properties are left out
+      value[0] = value[0].decode(errors="replace")
+      out[topic] = value
   return 200, json.dumps(out)
 
 class APIs:
@@ -100,13 +106,14 @@ class APIs:
       expr = re.compile(op[0])
       res = expr.match(url)
       if res:
-        args = res.groups()
+        args = tuple(urllib.parse.unquote(arg) for arg in res.groups())
         if body:
           if args:
             args = tuple(list(args) + [body])
           else:
             args = (body,)
-        rc = op[1](*args)
+        with lock: # the data is shared with the brokers
+          rc = op[1](*args)
         found = True
         break
     if not found:
@@ -144,82 +151,36 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
   def do_GET(self):
     logger.debug("do_GET")
     logger.info("GET %s", urllib.request.unquote(self.path))
-    rc = api.get(urllib.request.unquote(self.path))
-    value = None
-    if type(rc) == type((0,)):
-      rc, value = rc
-    logger.debug("Response %s", str((rc, value)))
-    self.send_response(rc)
-    self.send_header("Content-type", "application/json")
-    self.end_headers()
-    if value:
-      self.wfile.write(bytes(value + "\n", 'utf8'))
+    rc = api.get(self.path)
+    logger.debug("Response %s", str(rc))
+    self.respond(rc)
 
   def do_DELETE(self):
     logger.debug("do_DELETE")
-    rc = http.delete(urllib.request.unquote(self.path))
-    value = None
-    if type(rc) == type((0,)):
-      rc, value = rc
-    self.send_response(rc)
-    self.send_header("Content-type", "application/json")
-    self.end_headers()
-    if value:
-      self.wfile.write(bytes(value + "\n", 'utf8'))
+    self.respond(api.delete(self.path))
 
   def do_PATCH(self):
     logger.debug("do_PATCH")
-    self.headers["Content-Disposition"] = 'inline; filename=""'
-    form = cgi.FieldStorage(fp=self.rfile,
-                            headers=self.headers,
-                            environ={"REQUEST_METHOD": 'PATCH',
-                                      "CONTENT_TYPE": self.headers['Content-Type'], })
-    if self.headers["Content-Type"] == "application/json":
-      if type(form.value) == type(b""):
-        form.value = form.value.decode()
-      body = json.loads(form.value)
-    rc = http.patch(urllib.request.unquote(self.path), body)
-    value = None
-    if type(rc) == type((0,)):
-      rc, value = rc
-    self.send_response(rc)
-    self.send_header("Content-type", "application/json")
-    self.end_headers()
-    if value:
-      self.wfile.write(bytes(value + "\n", 'utf8'))
-    if persistence:
-      deviceAndThingDB._p_changed = True
-      transaction.commit()
+    self.respond(api.patch(self.path, self.read_body()))
 
   def do_POST(self):
     logger.debug("do_POST")
-    self.do_postput("post")
+    self.respond(api.post(self.path, self.read_body()))
 
   def do_PUT(self):
     logger.debug("do_PUT")
-    self.do_postput("put")
-
-  def do_postput(self, op):
-    # next line is workaround for bug: https://bugs.python.org/issue27308
-    self.headers["Content-Disposition"] = 'inline; filename=""'
-    form = cgi.FieldStorage(fp=self.rfile,
-                            headers=self.headers,
-                            environ={"REQUEST_METHOD": op.upper(),
-                                      "CONTENT_TYPE": self.headers['Content-Type'], })
-    body = {"Content-Type": self.headers['Content-Type']}
-    if self.headers["Content-Type"] == "application/json":
-      if type(form.value) == type(b""):
-        form.value = form.value.decode()
-      body = json.loads(form.value)
-    elif type(form.value) == type([]):
-      for key in form.keys():
-        if key == "schemaFile":
-          # a bit ugly, but everyone has to do it
-          # retrieve filename from the Content-Disposition header of the "file" part
-          body["schemaFileName"] = form[key].disposition_options["filename"]
-          body["Content-Type"] = form[key].type
-        body[key] = form[key].value
-    rc = getattr(http, op)(self.path, body)
+    self.respond(api.put(self.path, self.read_body()))
+
+  def read_body(self):
+    try:
+      body = self.rfile.read(int(self.headers.get("Content-Length", 0)))
+      if self.headers.get("Content-Type") == "application/json":
+        body = json.loads(body)
+    except ValueError:
+      body = None
+    return body
+
+  def respond(self, rc):
     value = None
     if type(rc) == type((0,)):
       rc, value = rc
@@ -228,11 +189,6 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
     self.end_headers()
     if value:
       self.wfile.write(bytes(value + "\n", 'utf8'))
-    """
-    if persistence:
-      deviceAndThingDB._p_changed = True
-      transaction.commit()
-    """
 
 def setBrokers(aBroker3, aBroker5, aBrokerSN):
   global broker3, broker5, brokerSN
@@ -254,12 +210,17 @@ def create(port, host="", TLS=False, serve_forever=False,
     bind_address = host
   httpd = http.server.HTTPServer((bind_address, port), requestHandler)
   if TLS:
-    httpd.socket = ssl.wrap_socket(httpd.socket,
-      ca_certs=ca_certs, certfile=certfile, keyfile=keyfile,
-      cert_reqs=cert_reqs, server_side=True)
+    context = ssl.SSLContext(protocol=ssl.PROTOCOL_TLS_SERVER)
+    if certfile:
+      context.load_cert_chain(certfile, keyfile)
+    if ca_certs:
+      context.load_verify_locations(ca_certs)
+    context.verify_mode = cert_reqs
+    httpd.socket = context.wrap_socket(httpd.socket, server_side=True)
   if serve_forever:
     httpd.serve_forever()
   else:
     thread = threading.Thread(target = httpd.serve_forever)
     thread.daemon = True
     thread.start()
+  return httpd
-- 
2.43.0


From f60b4592447c233b76b4328e8f061f62c2947431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 33/45] fix: server_keep_alive and --port are used, a
 configuration without a listener gets the default one

---
 interoperability/mqtt/brokers/start.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 8b3ea62..086abaf 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -75,8 +75,10 @@ def process_config(config, options):
         options["maximumPacketSize"] = int(words[1])
       elif words[0] == "persistence" and words[1] == "true":
         options["persistence"] = True
+      elif words[0] == "server_keep_alive":
+        options["serverKeepAlive"] = int(words[1])
       elif words[0] in ["maximum_qos", "retain_available", "subscription_identifier_available",
-              "shared_subscription_available", "server_keep_alive", "visual", "mscfile"]:
+              "shared_subscription_available", "visual", "mscfile"]:
         bools = {"true":True,'false':False}
         result = words[1]
         if words[1] in bools.keys():
@@ -127,10 +129,12 @@ def process_config(config, options):
         elif protocol == "http":
           servers_to_create.append((HTTPListeners, {"host":bind_address, "port":port, "TLS":TLS, "cert_reqs":cert_reqs,
               "ca_certs":ca_certs, "certfile":certfile, "keyfile":keyfile}))
+    if len(servers_to_create) == 0: # use the default listener
+      servers_to_create.append((TCPListeners, {"port":1883}))
     servers_to_create[-1][1]["serve_forever"] = True
     return servers_to_create, options
 
-def run(config=None):
+def run(config=None, port=1883):
   global logger, broker3, broker5, brokerSN, server
   logger = logging.getLogger('MQTT broker')
   logger.setLevel(logging.INFO)
@@ -157,7 +161,6 @@ def run(config=None):
     "retain_available":True,
     "subscription_identifier_available":True,
     "shared_subscription_available":True,
-    "server_keep_alive":None,
   }
 
   if config != None:
@@ -194,7 +197,7 @@ def run(config=None):
     if config == None:
       #TCPBridges.setBroker5(broker5)
       #TCPBridges.create(1886)
-      servers.append(TCPListeners.create(1883, serve_forever=True))
+      servers.append(TCPListeners.create(port, serve_forever=True))
     else:
       for server in servers_to_create:
         servers.append(server[0].create(**server[1]))
@@ -270,7 +273,7 @@ def main(argv):
     else:
       assert False, "unhandled option"
 
-  run(config=cfg)
+  run(config=cfg, port=port)
 
 def usage():
   print(
-- 
2.43.0


From 799c54709ab080e6152010f2322c385e78defb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 34/45] fix: subscriptions of sessions which are not stored do
 not survive a restart

---
 interoperability/mqtt/brokers/start.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 086abaf..79e512a 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -168,7 +168,10 @@ def run(config=None, port=1883):
 
   if options["persistence"]:
     logger.info("Using persistence")    
-    connection, sharedData = setup_persistence("sharedData") # location for data shared between brokers - subscriptions for example
+    connection, sharedData = setup_persistence("sharedData") # location for data shared between brokers - retained messages for example
+    # the sessions of the clients are not stored, so their subscriptions have ended too
+    for name in ["subscriptions", "dollar_subscriptions"]:
+      sharedData.pop(name, None)
   else:
     sharedData = {}
   logger.debug("Starting sharedData %s", sharedData)
-- 
2.43.0


From 86c0c5ca986e9390dfd0b644004db277800d20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:07 +0000
Subject: [PATCH 35/45] fix: MQTT-SN packets of any length, connects, and
 publishes to MQTT subscribers

---
 interoperability/mqtt/brokers/SN/Brokers.py   | 39 ++++--------
 .../mqtt/brokers/SN/MQTTSNBrokers.py          | 36 ++++++-----
 .../mqtt/formats/MQTTSN/MQTTSN.py             | 59 ++++++++++++-------
 3 files changed, 71 insertions(+), 63 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/Brokers.py b/interoperability/mqtt/brokers/SN/Brokers.py
index 8049535..7135033 100644
--- a/interoperability/mqtt/brokers/SN/Brokers.py
+++ b/interoperability/mqtt/brokers/SN/Brokers.py
@@ -57,7 +57,7 @@ class Brokers:
 
   def connect(self, aClient):
     aClient.connected = True
-    aClient.timestamp = time.clock()
+    aClient.timestamp = time.process_time()
     self.__clients[aClient.id] = aClient
     if aClient.cleansession:
       self.cleanSession(aClient.id)
@@ -84,49 +84,32 @@ class Brokers:
         del self.__clients[aClientid]
       else:
         logger.info("[MQTT-3.1.2-4] broker must store the session data for client %s", aClientid)
-        self.__clients[aClientid].timestamp = time.clock()
+        self.__clients[aClientid].timestamp = time.process_time()
         self.__clients[aClientid].connected = False 
         logger.info("[MQTT-3.1.2-10] will message is deleted after use or disconnect, for client %s", aClientid)
         logger.info("[MQTT-3.14.4-3] on receipt of disconnect, will message is deleted")
         self.__clients[aClientid].will = None
 
   def disconnectAll(self):
-    for c in self.__clients.keys()[:]: # copy the array because disconnect will remove an element
+    for c in list(self.__clients.keys()): # copy the array because disconnect will remove an element
       self.disconnect(c)
 
   def publish(self, aClientid, topic, message, qos, retained=False):
     """publish to all subscribed connected clients
        also to any disconnected non-cleansession clients with qos in [1,2]
     """
+    receivedTime = time.monotonic()
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
-      self.se.setRetained(topic, message, qos)
+      self.se.setRetained(topic, message, qos, receivedTime)
     else:
       logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
 
-    for subscriber in self.se.subscribers(topic):  # all subscribed clients
-      # qos is lower of publication and subscription
-      if len(self.se.getSubscriptions(topic, subscriber)) > 1:
-        logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
-      if retained:
-        logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
-      if self.overlapping_single:   
-        out_qos = min(self.se.qosOf(subscriber, topic), qos)
-        if subscriber in self.__clients.keys(): 
-          self.__clients[subscriber].publishArrived(topic, message, out_qos)
-        elif self.__broker3.getClient(subscriber):
-          self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
-        elif self.__broker5.getClient(subscriber):
-          self.__broker5.getClient(subscriber).publishArrived(topic, message, out_qos, None, None)
-      else:
-        for subscription in self.se.getSubscriptions(topic, subscriber):
-          out_qos = min(subscription.getQoS(), qos)
-          if subscriber in self.__clients.keys():         
-            self.__clients[subscriber].publishArrived(topic, message, out_qos)
-          elif self.__broker3.getClient(subscriber):
-            self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
-          elif self.__broker5.getClient(subscriber):
-            self.__broker5.getClient(subscriber).publishArrived(topic, message, out_qos, None, None)
+    # MQTT-SN clients can not subscribe yet
+    if self.__broker3:
+      self.__broker3.deliver(topic, message, qos, retained)
+    if self.__broker5:
+      self.__broker5.deliver(aClientid, topic, message, qos, retained, None, receivedTime)
 
   def __doRetained__(self, aClientid, topic, qos):
     # topic can be single, or a list
@@ -140,7 +123,7 @@ class Brokers:
         if s not in topicsUsed and Topics.topicMatches(t, s):
           # topic has retained publication
           topicsUsed.append(s)
-          (ret_msg, ret_qos) = self.se.getRetained(s)
+          ret_msg, ret_qos = self.se.getRetained(s)[:2]
           thisqos = min(ret_qos, qos[i])
           self.__clients[aClientid].publishArrived(s, ret_msg, thisqos, True)
       i += 1
diff --git a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
index 26c2879..059fb7c 100644
--- a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
+++ b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
@@ -220,7 +220,7 @@ class MQTTSNBrokers:
     try:
       if raw_packet == None:
         # will message
-        self.disconnect(sock, None, terminate=True)
+        self.disconnect(client_address, None, terminate=True)
         terminate = True
       else:
         packet = MQTTSN.unpackPacket(raw_packet)
@@ -241,6 +241,8 @@ class MQTTSNBrokers:
       self.disconnect(sock, packet)
       raise MQTTSN.MQTTSNException("[MQTT-3.1.0-1] Connect was not first packet on socket")
     else:
+      if not isinstance(packet, MQTTSN.Connects) and not isinstance(packet, MQTTSN.Publishes):
+        raise MQTTSN.MQTTSNException("handlePacket: unexpected packet "+str(packet))
       getattr(self, MQTTSN.Messages.Names[packet.messageType].lower())(sock, packet, callback)
       if sock in self.clients.keys():
         self.clients[sock].lastPacket = time.time()
@@ -250,7 +252,7 @@ class MQTTSNBrokers:
 
   def connect(self, sock, packet, callback):
     if packet.ProtocolId != 1:
-      logger.error("[MQTT-3.1.2-2] Wrong protocol version %d", packet.ProtocolVersion)
+      logger.error("[MQTT-3.1.2-2] Wrong protocol version %d", packet.ProtocolId)
       resp = MQTTSN.Connacks()
       resp.ReturnCode = 1
       respond(sock, callback, resp)
@@ -263,12 +265,12 @@ class MQTTSNBrokers:
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTSN.MQTTSNException("[MQTT-3.1.0-2] Second connect packet")
     if len(packet.ClientId) == 0:
-      if self.zero_length_clientids == False or packet.CleanSession == False:
+      if self.zero_length_clientids == False or packet.Flags.CleanSession == False:
         if self.zero_length_clientids:
           logger.info("[MQTT-3.1.3-8] Reject 0-length clientid with cleansession false")
         logger.info("[MQTT-3.1.3-9] if clientid is rejected, must send connack 2 and close connection")
         resp = MQTTSN.Connacks()
-        resp.returnCode = 2
+        resp.ReturnCode = 2
         respond(sock, callback, resp)
         logger.info("[MQTT-3.2.2-5] must close connection after non-zero connack")
         self.disconnect(sock, None)
@@ -276,7 +278,7 @@ class MQTTSNBrokers:
         return
       else:
         logger.info("[MQTT-3.1.3-7] 0-length clientid must have cleansession true")
-        packet.ClientId = uuid.uuid4() # give the client a unique clientid
+        packet.ClientId = str(uuid.uuid4()) # give the client a unique clientid
         logger.info("[MQTT-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientId)
     logger.info("[MQTT-3.1.3-5] Clientids of 1 to 23 chars and ascii alphanumeric must be allowed")
     if packet.ClientId in [client.id for client in self.clients.values()]: # is this client already connected on a different socket?
@@ -316,7 +318,7 @@ class MQTTSNBrokers:
       del self.clients[sock]
 
   def disconnectAll(self, sock):
-    for sock in self.clients.keys():
+    for sock in list(self.clients.keys()):
       self.disconnect(sock, None)
 
   def subscribe(self, sock, packet):
@@ -357,19 +359,25 @@ class MQTTSNBrokers:
     resp.messageIdentifier = packet.messageIdentifier
     respond(sock, resp)
 
+  def getTopic(self, packet):
+    "the topic name of a publish packet"
+    if packet.Flags.TopicIdType != 2:
+      raise MQTTSN.MQTTSNException("publish: only short topic names are supported")
+    topic = MQTTSN.writeInt16(packet.TopicId).decode()
+    if topic.find("+") != -1 or topic.find("#") != -1:
+      raise MQTTSN.MQTTSNException("[MQTT-4.7.1-1] wildcards not allowed in topic name")
+    if topic.find("\0") != -1:
+      raise MQTTSN.MQTTSNException("[MQTT-4.7.3-2] null characters not allowed in topic name")
+    logger.debug("topic %s", topic)
+    return topic
+
   def publish(self, sock, packet, callback):
     if packet.Flags.QoS == -1:
-      if packet.Flags.TopicIdType == 2:
-        topic = MQTTSN.writeInt16(packet.TopicId).decode()
-        logger.debug("topic %s", topic)
       self.broker.publish("QoS -1", # no clientid for QoS -1
-             topic, packet.Data, 0, packet.Flags.RETAIN)
+             self.getTopic(packet), packet.Data, 0, packet.Flags.RETAIN)
     elif packet.Flags.QoS == 0:
-      if packet.Flags.TopicIdType == 2:
-        topic = MQTTSN.writeInt16(packet.TopicId).decode()
-        logger.debug("topic %s", topic)
       self.broker.publish(self.clients[sock].id,
-             topic, packet.Data, packet.Flags.QoS, packet.Flags.RETAIN)
+             self.getTopic(packet), packet.Data, packet.Flags.QoS, packet.Flags.RETAIN)
     elif packet.fh.QoS == 1:
       if packet.fh.DUP:
         logger.info("[MQTT-3.3.1-3] Incoming publish DUP 1 ==> outgoing publish with DUP 0")
diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index 7da783b..31935bc 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -80,6 +80,19 @@ class Messages(object):
   def __eq__(self, packet):
     return self.fh == packet.fh if packet else False
 
+  def packBody(self, body):
+    "add the length and message type to the rest of a message"
+    msglen = 2 + len(body)
+    if msglen > 255: # three byte length
+      msglen += 2
+    return MessageLens.encode(msglen) + bytes([self.messageType]) + body
+
+  def unpackLength(self, buffer):
+    "returns the message without whatever might follow it, and the length of the length"
+    messagelen, lenlen = MessageLens.decode(buffer)
+    assert messagelen <= len(buffer), "the message is incomplete"
+    return buffer[:messagelen], lenlen
+
   def __setattr__(self, name, value):
     if name not in self.names:
       raise MQTTSNException(name + " Attribute name must be one of "+str(self.names))
@@ -100,7 +113,11 @@ def getPacket(aSocket):
   # now get the remaining length - the length field is the length of the
   # entire packet including the length field itself
   if buf[0] == 1: # indicates following two bytes are the length
-    buf += aSocket.recv(2)
+    while len(buf) < 3:
+      data = aSocket.recv(3-len(buf))
+      if data == b"": # the connection has been closed
+        return None
+      buf += data
     remlength = buf[1]*256 + buf[2] - 3
   else:
     remlength = buf[0] - 1
@@ -108,7 +125,10 @@ def getPacket(aSocket):
   rest = bytes([])
   if remlength > 0:
     while len(rest) < remlength:
-      rest += aSocket.recv(remlength-len(rest))
+      data = aSocket.recv(remlength-len(rest))
+      if data == b"": # the connection has been closed
+        return None
+      rest += data
   assert len(rest) == remlength
   return buf + rest
 
@@ -165,7 +185,7 @@ class Flags:
   def __setattr__(self, name, value):
     names = ["DUP", "QoS", "RETAIN", "Will", "CleanSession", "TopicIdType"]
     if name not in names:
-      raise MQTTException(name + " Attribute name must be one of "+str(names))
+      raise MQTTSNException(name + " Attribute name must be one of "+str(names))
     object.__setattr__(self, name, value)
 
   def __str__(self):
@@ -210,16 +230,14 @@ class Connects(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.ClientId)
-    buffer = bytes([msglen, MessageTypes.CONNECT]) + self.Flags.pack() +\
-      bytes([self.ProtocolId]) + writeInt16(self.Duration) + writeData(self.ClientId)
-    return buffer
+    return self.packBody(self.Flags.pack() + bytes([self.ProtocolId]) + \
+      writeInt16(self.Duration) + writeData(self.ClientId))
 
   def unpack(self, buffer):
     assert len(buffer) >= 2
     assert MessageType(buffer) == MessageTypes.CONNECT
     try:
-      messagelen, lenlen = MessageLens.decode(buffer)
+      buffer, lenlen = self.unpackLength(buffer)
       self.Flags.unpack(buffer[lenlen + 1])
       self.ProtocolId = buffer[lenlen + 2]
       self.Duration = readInt16(buffer[lenlen + 3:])
@@ -233,7 +251,8 @@ class Connects(Messages):
           str(self.Duration)+", ClientId="+str(self.ClientId) + ")"
 
   def __eq__(self, packet):
-    rc = self.Flags == packet.Flags and \
+    rc = type(self) == type(packet) and \
+      self.Flags == packet.Flags and \
       self.ProtocolId == packet.ProtocolId and \
       self.Duration == packet.Duration and \
       self.ClientId == packet.ClientId
@@ -249,9 +268,7 @@ class Connacks(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 3
-    buffer = bytes([msglen, MessageTypes.CONNACK, self.ReturnCode])
-    return buffer
+    return self.packBody(bytes([self.ReturnCode]))
 
   def unpack(self, buffer):
     assert len(buffer) >= 3
@@ -269,7 +286,7 @@ class Connacks(Messages):
     return "Connack (" + str(self.ReturnCode) + ")"
 
   def __eq__(self, packet):
-    rc = self.ReturnCode == packet.ReturnCode
+    rc = type(self) == type(packet) and self.ReturnCode == packet.ReturnCode
     return rc
 
 class Publishes(Messages):
@@ -286,16 +303,14 @@ class Publishes(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.Data)
-    buffer = bytes([msglen, self.messageType]) + self.Flags.pack() +\
-      writeInt16(self.TopicId) + writeInt16(self.MsgId) + writeData(self.Data)
-    return buffer
+    return self.packBody(self.Flags.pack() + writeInt16(self.TopicId) + \
+      writeInt16(self.MsgId) + writeData(self.Data))
 
   def unpack(self, buffer):
     assert len(buffer) >= 2
     assert MessageType(buffer) == MessageTypes.PUBLISH
     try:
-      messagelen, lenlen = MessageLens.decode(buffer)
+      buffer, lenlen = self.unpackLength(buffer)
       self.Flags.unpack(buffer[lenlen + 1])
       self.TopicId = readInt16(buffer[lenlen + 2:])
       self.MsgId = readInt16(buffer[lenlen + 4:])
@@ -309,7 +324,8 @@ class Publishes(Messages):
           str(self.MsgId)+", Data="+str(self.Data) + ")"
 
   def __eq__(self, packet):
-    rc = self.Flags == packet.Flags and \
+    rc = type(self) == type(packet) and \
+      self.Flags == packet.Flags and \
       self.TopicId == packet.TopicId and \
       self.MsgId == packet.MsgId and \
       self.Data == packet.Data
@@ -322,8 +338,9 @@ classes = [None, None, None, None, Connects, Connacks,
            Registers, Regacks, Publishes, Pubacks]
 
 def unpackPacket(buffer, maximumPacketSize=MAX_PACKET_SIZE):
-  if MessageType(buffer) != None:
-    packet = classes[MessageType(buffer)]()
+  index = MessageType(buffer)
+  if index < len(classes) and classes[index] != None:
+    packet = classes[index]()
     packet.unpack(buffer) #, maximumPacketSize=maximumPacketSize)
   else:
     packet = None
-- 
2.43.0


From d30b5950fce09a2be4582ba02d439db7f39a639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 36/45] fix: the client libraries send whole packets from any
 thread, use free packet ids, resume sessions and complete messages before
 DISCONNECT

---
 .../mqtt/clients/V311/internal.py             | 50 ++++++++++------
 interoperability/mqtt/clients/V311/main.py    | 56 +++++++++++-------
 interoperability/mqtt/clients/V5/internal.py  | 53 +++++++++++------
 interoperability/mqtt/clients/V5/main.py      | 59 +++++++++++--------
 4 files changed, 140 insertions(+), 78 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 6aab0b4..2261722 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -17,13 +17,13 @@
 """
 
 
-import time, sys, socket, traceback, logging
+import time, sys, socket, traceback, logging, threading
 
 from mqtt.formats import MQTTV311 as MQTTV3
 
 class Receivers:
 
-  def __init__(self, socket):
+  def __init__(self, socket, lock=None):
     logging.debug("initializing receiver")
     self.socket = socket
     self.stopping = False
@@ -31,12 +31,22 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.pubrecs = set() # ids of QoS 2 messages for which a PUBREC has been received
 
     self.puback = MQTTV3.Pubacks()
     self.pubrec = MQTTV3.Pubrecs()
     self.pubrel = MQTTV3.Pubrels()
     self.pubcomp = MQTTV3.Pubcomps()
     self.running = False
+    # the client and the receiver send packets from different threads
+    self.lock = lock if lock else threading.RLock()
+
+  def send(self, packet):
+    data = packet.pack()
+    with self.lock:
+      sent = 0
+      while sent < len(data):
+        sent += self.socket.send(data[sent:])
 
   def receive(self, callback=None):
     packet = None
@@ -64,18 +74,16 @@ class Receivers:
       "check if we are expecting a puback"
       if packet.messageIdentifier in self.outMsgs.keys() and \
         self.outMsgs[packet.messageIdentifier].fh.QoS == 1:
-        del self.outMsgs[packet.messageIdentifier]
-        if hasattr(callback, "published"):
-          callback.published(packet.messageIdentifier)
+        self.finished(packet.messageIdentifier, callback)
       else:
         raise Exception("No QoS 1 with that message id sent")
 
     elif packet.fh.MessageType == MQTTV3.PUBREC:
       if packet.messageIdentifier in self.outMsgs.keys():
-        self.outMsgs[packet.messageIdentifier].pubrec_received == True
+        self.pubrecs.add(packet.messageIdentifier)
         self.pubrel.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrel))
-        self.socket.send(self.pubrel.pack())
+        self.send(self.pubrel)
       else:
         raise Exception("PUBREC received for unknown msg id "+ \
                     str(packet.messageIdentifier))
@@ -84,7 +92,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.messageIdentifier
       if packet.messageIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # the PUBCOMP must have been lost, or the server would not send this again
+        self.pubcomp.messageIdentifier = msgid
+        logging.debug("out: %s", str(self.pubcomp))
+        self.send(self.pubcomp)
       else:
         pub = self.inMsgs[packet.messageIdentifier]
         if callback == None or \
@@ -93,7 +104,7 @@ class Receivers:
           del self.inMsgs[packet.messageIdentifier]
           self.pubcomp.messageIdentifier = packet.messageIdentifier
           logging.debug("out: %s", str(self.pubcomp))
-          self.socket.send(self.pubcomp.pack())
+          self.send(self.pubcomp)
         if callback == None:
           return (pub.topicName, pub.data, 2,
                            pub.fh.RETAIN, pub.messageIdentifier)
@@ -101,9 +112,7 @@ class Receivers:
     elif packet.fh.MessageType == MQTTV3.PUBCOMP:
       "finished with this message id"
       if packet.messageIdentifier in self.outMsgs.keys():
-        del self.outMsgs[packet.messageIdentifier]
-        if hasattr(callback, "published"):
-          callback.published(packet.messageIdentifier)
+        self.finished(packet.messageIdentifier, callback)
       else:
         raise Exception("PUBCOMP received for unknown msg id "+ \
                     str(packet.messageIdentifier))
@@ -127,26 +136,33 @@ class Receivers:
                            packet.fh.RETAIN, packet.messageIdentifier):
             self.puback.messageIdentifier = packet.messageIdentifier
             logging.debug("out: %s", str(self.puback))
-            self.socket.send(self.puback.pack())
+            self.send(self.puback)
       elif packet.fh.QoS == 2:
         self.inMsgs[packet.messageIdentifier] = packet
         self.pubrec.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrec))
-        self.socket.send(self.pubrec.pack())
+        self.send(self.pubrec)
 
     else:
       raise Exception("Unexpected packet"+str(packet))
 
+  def finished(self, msgid, callback):
+    "a publication has been completely acknowledged"
+    self.pubrecs.discard(msgid)
+    del self.outMsgs[msgid]
+    if hasattr(callback, "published"):
+      callback.published(msgid)
+
   def resend(self):
-    for packetid in self.outMsgs.keys():
+    for packetid in list(self.outMsgs.keys()):
       packet = self.outMsgs[packetid]
-      if packet.fh.QoS == 2 and hasattr(packet, "pubrec_received"):
+      if packetid in self.pubrecs:
         self.pubrel.messageIdentifier = packet.messageIdentifier
         packet = self.pubrel
       else:
         packet.fh.DUP = True
       logging.debug("out: %s", str(packet))
-      rc = self.socket.send(packet.pack())
+      self.send(packet)
 
   def __call__(self, callback):
     self.running = True
diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index e691dd5..7c1eabf 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -17,7 +17,7 @@
 """
 
 
-import socket, time, _thread, logging
+import socket, time, _thread, threading, logging
 
 from . import internal
 
@@ -39,7 +39,7 @@ def sendtosocket(mysocket, data):
   sent = 0
   length = len(data)
   while sent < length:
-    sent += mysocket.send(data)
+    sent += mysocket.send(data[sent:])
 
 class Callback:
 
@@ -68,18 +68,19 @@ class Client:
     self.msgid = 1
     self.callback = None
     self.__receiver = None
+    self.lock = threading.RLock() # packets can be sent from several threads
     self.cleansession = True
 
 
   def __nextMsgid(self):
     def getWrappedMsgid():
       id = self.msgid + 1
-      if id == 65535:
+      if id > 65535:
         id = 1
       return id
 
     if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+      raise MQTTV3.MQTTException("No message ids left")
     else:
       self.msgid = getWrappedMsgid()
       while self.msgid in self.__receiver.outMsgs.keys():
@@ -98,6 +99,12 @@ class Client:
         self.sock.close()
       except:
         pass
+      if self.__receiver:
+        # the connection was lost - there must not be two receivers on the new one
+        self.__receiver.stopping = True
+        while self.__receiver.running:
+          time.sleep(0.1)
+        self.__receiver.stopping = False
       self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
       self.sock.settimeout(.5)
       self.sock.connect((host, port))
@@ -124,7 +131,8 @@ class Client:
       connect.passwordFlag = True
       connect.password = password
 
-    sendtosocket(self.sock, connect.pack())
+    with self.lock:
+      sendtosocket(self.sock, connect.pack())
 
     response = MQTTV3.unpackPacket(MQTTV3.getPacket(self.sock))
     if not response:
@@ -134,9 +142,11 @@ class Client:
     self.cleansession = cleansession
     assert response.returnCode == 0, "connect was %s" % str(response)
     if self.cleansession or self.__receiver == None:
-      self.__receiver = internal.Receivers(self.sock)
+      self.__receiver = internal.Receivers(self.sock, self.lock)
     else:
       self.__receiver.socket = self.sock
+      if response.flags & 0x01: # session present
+        self.__receiver.resend()
     if self.callback:
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
     return response
@@ -144,20 +154,24 @@ class Client:
 
   def subscribe(self, topics, qoss):
     subscribe = MQTTV3.Subscribes()
-    subscribe.messageIdentifier = self.__nextMsgid()
+    with self.lock:
+      subscribe.messageIdentifier = self.__nextMsgid()
     count = 0
     for t in topics:
       subscribe.data.append((t, qoss[count]))
       count += 1
-    sendtosocket(self.sock, subscribe.pack())
+    with self.lock:
+      sendtosocket(self.sock, subscribe.pack())
     return subscribe.messageIdentifier
 
 
   def unsubscribe(self, topics):
     unsubscribe = MQTTV3.Unsubscribes()
-    unsubscribe.messageIdentifier = self.__nextMsgid()
+    with self.lock:
+      unsubscribe.messageIdentifier = self.__nextMsgid()
     unsubscribe.data = topics
-    sendtosocket(self.sock, unsubscribe.pack())
+    with self.lock:
+      sendtosocket(self.sock, unsubscribe.pack())
     return unsubscribe.messageIdentifier
 
 
@@ -165,34 +179,34 @@ class Client:
     publish = MQTTV3.Publishes()
     publish.fh.QoS = qos
     publish.fh.RETAIN = retained
-    if qos == 0:
-      publish.messageIdentifier = 0
-    else:
-      publish.messageIdentifier = self.__nextMsgid()
-      if publish.fh.QoS == 2:
-        publish.pubrec_received = False
-      self.__receiver.outMsgs[publish.messageIdentifier] = publish
     publish.topicName = topic
     publish.data = payload
-    sendtosocket(self.sock, publish.pack())
+    with self.lock:
+      if qos == 0:
+        publish.messageIdentifier = 0
+      else:
+        publish.messageIdentifier = self.__nextMsgid()
+        self.__receiver.outMsgs[publish.messageIdentifier] = publish
+      sendtosocket(self.sock, publish.pack())
     return publish.messageIdentifier
 
 
   def disconnect(self):
     if self.__receiver:
-      self.__receiver.stopping = True
-      count = 0
+      count = 0 # give the receiver the time to complete the messages in flight
       while (len(self.__receiver.inMsgs) > 0 or len(self.__receiver.outMsgs) > 0) and self.__receiver.paused == False:
         logger.debug("disconnecting %s %s", self.__receiver.inMsgs, self.__receiver.outMsgs)
         time.sleep(.2)
         count += 1
         if count == 20:
           break
+      self.__receiver.stopping = True
       if self.__receiver and self.__receiver.paused == False:
         assert self.__receiver.inMsgs == {}, self.__receiver.inMsgs
         assert self.__receiver.outMsgs == {}, self.__receiver.outMsgs
     disconnect = MQTTV3.Disconnects()
-    sendtosocket(self.sock, disconnect.pack())
+    with self.lock:
+      sendtosocket(self.sock, disconnect.pack())
     time.sleep(0.1)
     if self.cleansession:
       self.__receiver = None
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 92c7989..bfd4abd 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -17,7 +17,7 @@
 """
 
 
-import time, sys, socket, traceback, logging
+import time, sys, socket, traceback, logging, threading
 
 from mqtt.formats import MQTTV5
 
@@ -26,7 +26,7 @@ logger.propagate = 1
 
 class Receivers:
 
-  def __init__(self, socket):
+  def __init__(self, socket, lock=None):
     logger.debug("initializing receiver")
     self.socket = socket
     self.stopping = False
@@ -34,12 +34,22 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.pubrecs = set() # ids of QoS 2 messages for which a PUBREC has been received
 
     self.puback = MQTTV5.Pubacks()
     self.pubrec = MQTTV5.Pubrecs()
     self.pubrel = MQTTV5.Pubrels()
     self.pubcomp = MQTTV5.Pubcomps()
     self.running = False
+    # the client and the receiver send packets from different threads
+    self.lock = lock if lock else threading.RLock()
+
+  def send(self, packet):
+    data = packet.pack()
+    with self.lock:
+      sent = 0
+      while sent < len(data):
+        sent += self.socket.send(data[sent:])
 
   def receive(self, callback=None):
     packet = None
@@ -71,18 +81,19 @@ class Receivers:
       "check if we are expecting a puback"
       if packet.packetIdentifier in self.outMsgs.keys() and \
         self.outMsgs[packet.packetIdentifier].fh.QoS == 1:
-        del self.outMsgs[packet.packetIdentifier]
-        if hasattr(callback, "published"):
-          callback.published(packet.packetIdentifier)
+        self.finished(packet.packetIdentifier, callback)
       else:
         raise Exception("No QoS 1 with that message id sent")
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBREC:
       if packet.packetIdentifier in self.outMsgs.keys():
-        #self.outMsgs[packet.packetIdentifier].pubrec_received = True
+        if packet.reasonCode.value >= 0x80: # this is the end of this message
+          self.finished(packet.packetIdentifier, callback)
+          return
+        self.pubrecs.add(packet.packetIdentifier)
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
-        self.socket.send(self.pubrel.pack())
+        self.send(self.pubrel)
       else:
         raise Exception("PUBREC received for unknown msg id "+ \
                     str(packet.packetIdentifier))
@@ -91,7 +102,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.packetIdentifier
       if packet.packetIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # the PUBCOMP must have been lost, or the server would not send this again
+        self.pubcomp.packetIdentifier = msgid
+        logger.debug("out: %s", str(self.pubcomp))
+        self.send(self.pubcomp)
       else:
         pub = self.inMsgs[packet.packetIdentifier]
         if callback == None or \
@@ -100,7 +114,7 @@ class Receivers:
           del self.inMsgs[packet.packetIdentifier]
           self.pubcomp.packetIdentifier = packet.packetIdentifier
           logger.debug("out: %s", str(self.pubcomp))
-          self.socket.send(self.pubcomp.pack())
+          self.send(self.pubcomp)
         if callback == None:
           return (pub.topicName, pub.data, 2,
                            pub.fh.RETAIN, pub.packetIdentifier)
@@ -108,9 +122,7 @@ class Receivers:
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBCOMP:
       "finished with this message id"
       if packet.packetIdentifier in self.outMsgs.keys():
-        del self.outMsgs[packet.packetIdentifier]
-        if hasattr(callback, "published"):
-          callback.published(packet.packetIdentifier)
+        self.finished(packet.packetIdentifier, callback)
       else:
         raise Exception("PUBCOMP received for unknown msg id "+ \
                     str(packet.packetIdentifier))
@@ -134,26 +146,33 @@ class Receivers:
                            packet.fh.RETAIN, packet.packetIdentifier, packet.properties):
             self.puback.packetIdentifier = packet.packetIdentifier
             logger.debug("out: %s", str(self.puback))
-            self.socket.send(self.puback.pack())
+            self.send(self.puback)
       elif packet.fh.QoS == 2:
         self.inMsgs[packet.packetIdentifier] = packet
         self.pubrec.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrec))
-        self.socket.send(self.pubrec.pack())
+        self.send(self.pubrec)
 
     else:
       raise Exception("Unexpected packet"+str(packet))
 
+  def finished(self, msgid, callback):
+    "a publication has been completely acknowledged"
+    self.pubrecs.discard(msgid)
+    del self.outMsgs[msgid]
+    if hasattr(callback, "published"):
+      callback.published(msgid)
+
   def resend(self):
-    for packetid in self.outMsgs.keys():
+    for packetid in list(self.outMsgs.keys()):
       packet = self.outMsgs[packetid]
-      if packet.fh.QoS == 2 and hasattr(packet, "pubrec_received"):
+      if packetid in self.pubrecs:
         self.pubrel.packetIdentifier = packet.packetIdentifier
         packet = self.pubrel
       else:
         packet.fh.DUP = True
       logger.debug("out: %s", str(packet))
-      rc = self.socket.send(packet.pack())
+      self.send(packet)
 
   def __call__(self, callback):
     self.running = True
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 36e33aa..903dd4c 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -17,7 +17,7 @@
 """
 
 
-import socket, time, _thread, logging
+import socket, time, _thread, threading, logging
 
 from . import internal
 
@@ -40,7 +40,7 @@ def sendtosocket(mysocket, data):
   length = len(data)
   try:
     while sent < length:
-      sent += mysocket.send(data)
+      sent += mysocket.send(data[sent:])
   except:
     pass # could be socket error
   return sent
@@ -50,7 +50,7 @@ class Callback:
   def connectionLost(self, cause):
     logger.debug("default connectionLost %s", str(cause))
 
-  def publishArrived(self, topicName, payload, qos, retained, msgid):
+  def publishArrived(self, topicName, payload, qos, retained, msgid, properties=None):
     logger.debug("default publishArrived %s %s %d %d %d", topicName, payload, qos, retained, msgid)
     return True
 
@@ -78,6 +78,7 @@ class Client:
     self.msgid = 1
     self.callback = None
     self.__receiver = None
+    self.lock = threading.RLock() # packets can be sent from several threads
     self.cleanstart = True
     self.sessionexpiry = 0
 
@@ -85,12 +86,12 @@ class Client:
   def __nextMsgid(self):
     def getWrappedMsgid():
       id = self.msgid + 1
-      if id == 65535:
+      if id > 65535:
         id = 1
       return id
 
     if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+      raise MQTTV5.MQTTException("No message ids left")
     else:
       self.msgid = getWrappedMsgid()
       while self.msgid in self.__receiver.outMsgs.keys():
@@ -110,6 +111,12 @@ class Client:
         self.sock.close()
       except:
         pass
+      if self.__receiver:
+        # the connection was lost - there must not be two receivers on the new one
+        self.__receiver.stopping = True
+        while self.__receiver.running:
+          time.sleep(0.1)
+        self.__receiver.stopping = False
       self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
       self.sock.settimeout(.5)
       self.sock.connect((host, port))
@@ -141,7 +148,8 @@ class Client:
     if properties:
       connect.properties = properties
 
-    sendtosocket(self.sock, connect.pack())
+    with self.lock:
+      sendtosocket(self.sock, connect.pack())
 
     response = MQTTV5.unpackPacket(MQTTV5.getPacket(self.sock))
     if not response:
@@ -150,10 +158,11 @@ class Client:
 
     self.cleanstart = cleanstart
     assert response.reasonCode.getName() == "Success", "connect was %s" % str(response)
-    if self.cleanstart or self.__receiver == None:
-      self.__receiver = internal.Receivers(self.sock)
+    if self.cleanstart or not response.sessionPresent or self.__receiver == None:
+      self.__receiver = internal.Receivers(self.sock, self.lock)
     else:
       self.__receiver.socket = self.sock
+      self.__receiver.resend()
     if self.callback:
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
     return response
@@ -161,22 +170,26 @@ class Client:
 
   def subscribe(self, topics, options, properties=None):
     subscribe = MQTTV5.Subscribes()
-    subscribe.packetIdentifier = self.__nextMsgid()
+    with self.lock:
+      subscribe.packetIdentifier = self.__nextMsgid()
     count = 0
     for t in topics:
       subscribe.data.append((t, options[count]))
       count += 1
     if properties:
       subscribe.properties = properties
-    sendtosocket(self.sock, subscribe.pack())
+    with self.lock:
+      sendtosocket(self.sock, subscribe.pack())
     return subscribe.packetIdentifier
 
 
   def unsubscribe(self, topics):
     unsubscribe = MQTTV5.Unsubscribes()
-    unsubscribe.packetIdentifier = self.__nextMsgid()
+    with self.lock:
+      unsubscribe.packetIdentifier = self.__nextMsgid()
     unsubscribe.topicFilters = topics
-    sendtosocket(self.sock, unsubscribe.pack())
+    with self.lock:
+      sendtosocket(self.sock, unsubscribe.pack())
     return unsubscribe.packetIdentifier
 
 
@@ -184,38 +197,38 @@ class Client:
     publish = MQTTV5.Publishes()
     publish.fh.QoS = qos
     publish.fh.RETAIN = retained
-    if qos == 0:
-      publish.packetIdentifier = 0
-    else:
-      publish.packetIdentifier = self.__nextMsgid()
-      if publish.fh.QoS == 2:
-        pass #publish.pubrec_received = False
-      self.__receiver.outMsgs[publish.packetIdentifier] = publish
     publish.topicName = topic
     if properties:
       publish.properties = properties
     publish.data = payload if type(payload) == type(b"") else bytes(payload, "utf8")
-    sendtosocket(self.sock, publish.pack())
+    with self.lock:
+      if qos == 0:
+        publish.packetIdentifier = 0
+      else:
+        publish.packetIdentifier = self.__nextMsgid()
+        self.__receiver.outMsgs[publish.packetIdentifier] = publish
+      sendtosocket(self.sock, publish.pack())
     return publish.packetIdentifier
 
 
   def disconnect(self, properties=None):
     if self.__receiver:
-      self.__receiver.stopping = True
-      count = 0
+      count = 0 # give the receiver the time to complete the messages in flight
       while (len(self.__receiver.inMsgs) > 0 or len(self.__receiver.outMsgs) > 0) and self.__receiver.paused == False:
         logger.debug("disconnecting %s %s", self.__receiver.inMsgs, self.__receiver.outMsgs)
         time.sleep(.2)
         count += 1
         if count == 20:
           break
+      self.__receiver.stopping = True
       if self.__receiver and self.__receiver.paused == False:
         assert self.__receiver.inMsgs == {}, self.__receiver.inMsgs
         assert self.__receiver.outMsgs == {}, self.__receiver.outMsgs
     disconnect = MQTTV5.Disconnects()
     if properties:
       disconnect.properties = properties
-    sendtosocket(self.sock, disconnect.pack())
+    with self.lock:
+      sendtosocket(self.sock, disconnect.pack())
     time.sleep(1.1)
     if self.sessionexpiry == 0:
       self.__receiver = None
-- 
2.43.0


From 8c2b8e8668164ef6ed14dc1d049144fc716e8864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 37/45] fix: the restart proxy keeps connections apart, sends
 whole packets and ends both sides of a connection

---
 interoperability/mqtt/restart/netproxy.py | 26 +++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/interoperability/mqtt/restart/netproxy.py b/interoperability/mqtt/restart/netproxy.py
index a823017..ac9e96b 100755
--- a/interoperability/mqtt/restart/netproxy.py
+++ b/interoperability/mqtt/restart/netproxy.py
@@ -65,10 +65,11 @@ class ControlBrokers:
     self.messages.append((client, userdata, msg))
     break_connections = True
     logger.info("Terminating client")
-    try:
-        brokers.close()
-        clients.close()
-    except:
+    for connection in (brokers, clients):
+      try:
+        # this wakes up the handler, which closes both connections
+        connection.shutdown(socket.SHUT_RDWR)
+      except:
         pass
 
   def on_publish(self, client, userdata, data):
@@ -91,20 +92,26 @@ class ControlBrokers:
       rc = self.messages.pop(0)
     return rc
 
+def set_connection(broker_connection, client_connection):
+  "the connection which a control message breaks"
+  global brokers, clients
+  brokers = broker_connection
+  clients = client_connection
+
 class MQTTHandler(socketserver.StreamRequestHandler):
 
   def handle(self):
-    global brokers, clients, options, break_connections, control_broker
     if not hasattr(self, "ids"):
       self.ids = {}
     if not hasattr(self, "versions"):
       self.versions = {}
     inbuf = True
     i = o = e = None
+    clients = self.request
+    brokers = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
     try:
-      clients = self.request
-      brokers = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
       brokers.connect((brokerhost, brokerport))
+      set_connection(brokers, clients)
       while inbuf != None:
         (i, o, e) = select.select([clients, brokers], [], [])
         for s in i:
@@ -122,7 +129,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               #logger.debug(inbuf)
             except:
               traceback.print_exc()
-            brokers.send(inbuf)       # pass it on
+            brokers.sendall(inbuf)       # pass it on
           elif s == brokers:
             inbuf = MQTTV3.getPacket(brokers) # get one packet
             if inbuf == None:
@@ -131,12 +138,13 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               logger.debug("S to C "+self.ids[id(clients)]+" "+repr(MQTTV3.unpackPacket(inbuf)))
             except:
               traceback.print_exc()
-            clients.send(inbuf)
+            clients.sendall(inbuf)
       if id(clients) in self.ids.keys():
         logger.info("client "+self.ids[id(clients)]+" connection closing")
     except:
       #logger.debug(repr((i, o, e)) + " " + repr(inbuf))
       traceback.print_exc()
+    brokers.close()
     if id(clients) in self.ids.keys():
       del self.ids[id(clients)]
     elif id(clients) in self.versions.keys():
-- 
2.43.0


From ebcd823fec1c6ea751a48a2dcf2aaad22377b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:56 +0000
Subject: [PATCH 38/45] fix: model exploration calls actions without
 parameters, goes on after the end of a path and ends; waiting for an
 observation

---
 interoperability/mbt/main.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index af2f505..6455f6a 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -197,13 +197,10 @@ class Actions:
 		return rc
 
 	def enumerateChoices(self, choices):
-		args = []
+		args = [[]] # an action without parameters can be called in one way
 		for parm_name in self.getParmNames():
 			parm_type = self.getParmType(parm_name)
-			if args == []:
-				args = [[(parm_type, i)] for i in range(len(choices[parm_type]))]
-			else:
-				args = combine(args, [(parm_type, i) for i in range(len(choices[parm_type]))])
+			args = combine(args, [(parm_type, i) for i in range(len(choices[parm_type]))])
 		return args
 
 class Models:
@@ -303,7 +300,7 @@ class Executions:
 					used += 1
 				else:
 					unused.append((choice, c))
-		return int((used / total) * 100)
+		return int((used / total) * 100) if total > 0 else 100
 
 	def getEnabledActions(self):
 		enableds = set()
@@ -381,6 +378,10 @@ class Executions:
 		next = self.trace.findNextPath(self.model.selectCallback)
 		if next == None:
 			logger.debug("No more options available")
+			if self.trace.curnode is self.trace.root:
+				self.finished = True # all paths have been taken
+			else:
+				self.restart()
 			return True
 		action = next[0]; args = list(next[1:])
 
@@ -549,7 +550,7 @@ class Tests:
 		else:
 			observation1 = observation
 			while observation not in [x for x, y in self.added_results] and count < max_wait_count:
-				self.logger.debug("Waiting for observation '%s' in %s", observation, [x for x, y in self.added_results.keys()])
+				self.logger.debug("Waiting for observation '%s' in %s", observation, [x for x, y in self.added_results])
 				time.sleep(wait_interval)
 				count += 1
 		if count == max_wait_count:
-- 
2.43.0


From a1dde6143537c14ef357f335519e13dc99b96812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:56 +0000
Subject: [PATCH 39/45] fix: the in-memory connections of the test generator
 can be used by the brokers

---
 interoperability/specifications/MQTTV311.py | 6 ++++++
 interoperability/specifications/MQTTV5.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/interoperability/specifications/MQTTV311.py b/interoperability/specifications/MQTTV311.py
index ca4f41e..c5e12ea 100644
--- a/interoperability/specifications/MQTTV311.py
+++ b/interoperability/specifications/MQTTV311.py
@@ -120,6 +120,12 @@ class BrokerSockets:
 	def close(self):
 		pass # don't close the client socket - to match real socket behaviour
 
+	def fileno(self):
+		return -1 # the broker logs it
+
+	def settimeout(self, timeout):
+		pass # recv never waits
+
 	#def __getattr__(self, name):
 	#	print("requesting broker attribute", name)
 	#	raise AttributeError
diff --git a/interoperability/specifications/MQTTV5.py b/interoperability/specifications/MQTTV5.py
index 0fe9165..ad447c5 100644
--- a/interoperability/specifications/MQTTV5.py
+++ b/interoperability/specifications/MQTTV5.py
@@ -120,6 +120,12 @@ class BrokerSockets:
 	def close(self):
 		pass # don't close the client socket - to match real socket behaviour
 
+	def fileno(self):
+		return -1 # the broker logs it
+
+	def settimeout(self, timeout):
+		pass # recv never waits
+
 	#def __getattr__(self, name):
 	#	print("requesting broker attribute", name)
 	#	raise AttributeError
-- 
2.43.0


From 70c70ad23618e903ac8c088ea1d27194e62d3ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 40/45] fix: remember every QoS 2 message whose PUBCOMP is to
 report an error

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index c74b1b0..4ca3296 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -117,6 +117,7 @@ class MQTTClients:
       self.inbound = {} # stored inbound QoS 2 publications
     else:
       self.inbound = []
+    self.pubcomp_errors = set() # ids of inbound QoS 2 messages to be completed with an error, for testing
     # Keep alive
     self.keepalive = keepalive
     self.lastPacket = None # time of last packet
@@ -731,7 +732,7 @@ class MQTTBrokers:
                    packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.properties,
                    packet.receivedTime)
               if packet.topicName == "test_qos_1_2_errors_pubcomp":
-                myclient.pubcomp_error = packet.packetIdentifier
+                myclient.pubcomp_errors.add(packet.packetIdentifier)
           resp = MQTTV5.Pubrecs()
           logger.info("[MQTT5-2.2.1-5-pubrec] pubrec message id same as publish")
           resp.packetIdentifier = packet.packetIdentifier
@@ -785,12 +786,11 @@ class MQTTBrokers:
       resp.reasonCode.set("Packet identifier not found")
       resp.properties.ReasonString = "Looking for packet id "+str(packet.packetIdentifier)
     elif (hasattr(pub, "topicName") and pub.topicName == "test_qos_1_2_errors_pubcomp") or \
-         (hasattr(myclient, "pubcomp_error") and myclient.pubcomp_error == packet.packetIdentifier):
+         packet.packetIdentifier in myclient.pubcomp_errors:
       resp.reasonCode.set("Packet identifier not found")
       if hasattr(packet.properties, "UserProperty"):
         resp.properties.UserProperty = packet.properties.UserProperty
-      if hasattr(myclient, "pubcomp_error"):
-        del myclient.pubcomp_error
+      myclient.pubcomp_errors.discard(packet.packetIdentifier)
     respond(sock, resp)
 
   def pingreq(self, sock, packet):
-- 
2.43.0


From b5d023733b2b569ef740879c59d68c9c6a36770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:24 +0000
Subject: [PATCH 41/45] fix: the coverage report was suppressed and counted by
 its own filter

---
 interoperability/mqtt/brokers/coverage.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/coverage.py b/interoperability/mqtt/brokers/coverage.py
index 08aeee4..4def32d 100644
--- a/interoperability/mqtt/brokers/coverage.py
+++ b/interoperability/mqtt/brokers/coverage.py
@@ -79,11 +79,12 @@ class Filters:
   def __init__(self):
     self.coverages = getCoverage()
     self.found = set([])
+    self.measuring = False # so that the report is neither filtered nor counted
 
   def filter(self, record):
     line = record.getMessage()
     rc = True
-    if line.find("[MQTT") != -1:
+    if line.find("[MQTT") != -1 and not self.measuring:
       statement = "[MQTT"+between(line, "[MQTT", "]")+"]"
       rc = statement not in self.found
       self.found.add(statement)
@@ -106,8 +107,13 @@ class Filters:
     return lines
 
   def measure(self):
-    for curline in self.getmeasures():
-      logger.info(curline)
+    lines = self.getmeasures()
+    self.measuring = True
+    try:
+      for curline in lines:
+        logger.info(curline)
+    finally:
+      self.measuring = False
 
 filter = Filters()
 
-- 
2.43.0


From 2a2d65893aa4fa4d73d3037ad69dcc6a4d67aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:34 +0000
Subject: [PATCH 42/45] fix: topic names which start with $share/ start with $

---
 .../mqtt/brokers/V5/SubscriptionEngines.py            | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index 20aa54b..0b741c8 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -26,7 +26,10 @@ from .Subscriptions import *
 logger = logging.getLogger('MQTT broker')
 
 def isDollarTopic(name):
-  return Topics.unshared(name).startswith('$')
+  return name.startswith('$')
+
+def isDollarFilter(aFilter):
+  return isDollarTopic(Topics.unshared(aFilter))
 
 class SubscriptionEngines:
 
@@ -70,7 +73,7 @@ class SubscriptionEngines:
      rc = None
      resubscribed = False
      if Topics.isValidTopicName(aTopic):
-       subscriptions = self.__subscriptions if not isDollarTopic(aTopic) else self.__dollar_subscriptions
+       subscriptions = self.__subscriptions if not isDollarFilter(aTopic) else self.__dollar_subscriptions
        for s in subscriptions:
          if s.getClientid() == aClientid and s.getTopic() == aTopic:
            s.resubscribe(options)
@@ -104,7 +107,7 @@ class SubscriptionEngines:
      "unsubscribe to one topic"
      matched = False
      if Topics.isValidTopicName(aTopic):
-       subscriptions = self.__subscriptions if not isDollarTopic(aTopic) else self.__dollar_subscriptions
+       subscriptions = self.__subscriptions if not isDollarFilter(aTopic) else self.__dollar_subscriptions
        for s in subscriptions:
          if s.getClientid() == aClientid and s.getTopic() == aTopic:
            logger.info("[MQTT-3.10.4-1] topic filters must be compared byte for byte")
@@ -185,7 +188,7 @@ class SubscriptionEngines:
    def getRetainedTopics(self, aTopic):
      "returns a list of topics for which retained publications exist"
      if Topics.isValidTopicName(aTopic):
-       retained = self.__retained if not isDollarTopic(aTopic) else self.__dollar_retained
+       retained = self.__retained if not isDollarFilter(aTopic) else self.__dollar_retained
        return retained.keys()
      else:
        return None
-- 
2.43.0


From 3cebb3c36c0349e8cb39dc7bfd49aee94048ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:59 +0000
Subject: [PATCH 43/45] fix: visual mode reported its own reports

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 4ca3296..2f911f1 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -71,16 +71,8 @@ def respond(sock, packet, maximumPacketSize=None):
     sock.handlePacket(packet)
   else:
     if mybroker.options["visual"]:
-      try:
-        data = {"direction" : "StoC", "socket" : sock.fileno(), 
-            "clientid":  mybroker.clients[sock].id if sock in mybroker.clients.keys() else "", 
-            "packet" : packet.json() }
-        # for any byte arrays, use base64 in json
-        databytes = bytes(json.dumps(data), 'utf-8')
-        mybroker.broker.publish('$internal', '$SYS/clients-packets', databytes, 
-                0, 0, None, time.monotonic())
-      except:
-        traceback.print_exc()
+      mybroker.visualize("StoC", sock, 
+            mybroker.clients[sock].id if sock in mybroker.clients.keys() else "", packet)
     try:
       bytes_sent = sock.send(packed) # Could get socket error on send
       if sock.websockets:
@@ -358,6 +350,7 @@ class MQTTBrokers:
 
     self.broker = Brokers(self.options["overlapping_single"], self.options["topicAliasMaximum"], sharedData=sharedData)
     self.clients = {}   # socket -> clients
+    self.visualizing = False # is a packet being reported, in visual mode?
     if lock:
       logger.info("Using shared lock %d", id(lock))
       self.lock = lock
@@ -386,6 +379,22 @@ class MQTTBrokers:
     self.clients = {}
     self.broker.reinitialize()
 
+  def visualize(self, direction, sock, clientid, packet):
+    "report a packet to the subscribers of $SYS/clients-packets"
+    if self.visualizing:
+      return # the packets which carry the reports are not reported themselves
+    self.visualizing = True
+    try:
+      data = {"direction" : direction, "socket" : sock.fileno(),
+          "clientid":  clientid, "packet" : packet.json() }
+      databytes = bytes(json.dumps(data), 'utf-8')
+      self.broker.publish('$internal', '$SYS/clients-packets', databytes,
+              0, 0, None, time.monotonic())
+    except:
+      traceback.print_exc()
+    finally:
+      self.visualizing = False
+
   def handleRequest(self, sock):
     "this is going to be called from multiple threads, so synchronize"
     self.lock.acquire()
@@ -409,14 +418,7 @@ class MQTTBrokers:
             clientid = self.clients[sock].id if sock in self.clients.keys() else ""
             if clientid == "" and hasattr(packet, "ClientIdentifier"):
               clientid = packet.ClientIdentifier
-            try:
-              data = {"direction" : "CtoS", "socket" : sock.fileno(), 
-                    "clientid":  clientid, "packet" : packet.json() }
-              databytes = bytes(json.dumps(data), 'utf-8')
-              self.broker.publish('$internal', '$SYS/clients-packets', databytes,
-                   0, 0, None, time.monotonic())
-            except:
-              traceback.print_exc()
+            self.visualize("CtoS", sock, clientid, packet)
           if packet:
             terminate = self.handlePacket(packet, sock)
           else:
-- 
2.43.0


From 53c49591bb81b37bfa132462f1ca58d4c5c083ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:59 +0000
Subject: [PATCH 44/45] fix: a CONNECT with a password was not reported in
 visual mode

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 67d2ed4..930386b 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -863,7 +863,7 @@ class Connects(Packets):
     if self.username:
       data["username"] = self.username
     if self.password:
-      data["password"] = self.password
+      data["password"] = str(self.password)
     data["Properties"] = self.properties.json()
     return data
 
-- 
2.43.0


From efb797d399719d9f15c02342fbfb685716041a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:25 +0000
Subject: [PATCH 45/45] fix: MQTT 3.1.1 message identifiers in use are not used
 again

---
 .../mqtt/brokers/V311/MQTTBrokers.py          | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 5041642..efbea2f 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -48,6 +48,7 @@ class MQTTClients:
     self.msgid = 1
     self.outbound = [] # message objects - for ordering
     self.outmsgs = {} # msgids to message objects
+    self.queued = [] # messages which have to wait, as all msgids are in use
     self.broker = broker
     if broker.publish_on_pubrel:
       self.inbound = {} # stored inbound QoS 2 publications
@@ -97,8 +98,15 @@ class MQTTClients:
       logger.info("[MQTT-2.1.2-9] Set retained flag on retained messages")
     if qos == 2:
       pub.qos2state = "PUBREC"
+    if qos in [1, 2] and len(self.outmsgs) == 65535:
+      self.queued.append(pub)
+    else:
+      self.sendFirst(pub)
+
+  def sendFirst(self, pub):
+    qos = pub.fh.QoS
     if qos in [1, 2]:
-      while self.msgid in self.outmsgs.keys() and len(self.outmsgs) < 65535:
+      while self.msgid in self.outmsgs.keys():
         self.nextMsgid()
       pub.messageIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
@@ -122,12 +130,17 @@ class MQTTClients:
     else:
       self.msgid += 1
 
+  def removeOutbound(self, pub):
+    self.outbound.remove(pub)
+    del self.outmsgs[pub.messageIdentifier]
+    if len(self.queued) > 0:
+      self.sendFirst(self.queued.pop(0))
+
   def puback(self, msgid):
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 1:
-        self.outbound.remove(pub)
-        del self.outmsgs[msgid]
+        self.removeOutbound(pub)
       else:
         logger.error("%s: Puback received for msgid %d, but QoS is %d", self.id, msgid, pub.fh.QoS)
     else:
@@ -154,8 +167,7 @@ class MQTTClients:
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
         if pub.qos2state == "PUBCOMP":
-          self.outbound.remove(pub)
-          del self.outmsgs[msgid]
+          self.removeOutbound(pub)
         else:
           logger.error("Pubcomp received for msgid %d, but message in wrong state", msgid)
       else:
-- 
2.43.0

